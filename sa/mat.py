"""Cells of matrices reached through blocks, rows and columns."""
from . import terms as T
from .terms import c, ZERO, ONE


def cell(loc):
    """(matrix location, row, column) of an element location, following block
    selections; None if it is not a plain cell"""
    if loc[0] != '[]':
        return None
    sel = loc[2]
    if sel[0] == 'pair':
        r, k = sel[1], sel[2]
    elif sel[0] == 'blk':
        return None
    else:
        r, k = sel, None        # a vector index
    b = loc[1]
    while b[0] == '[]' and b[2][0] == 'blk':
        _, r0, c0, nr, nc = b[2]
        if k is None:
            if nc == ONE:
                k = ZERO
            elif nr == ONE:
                r, k = ZERO, r
            elif nc == ('cols',):
                k = ZERO        # rows of a column keep its single column
            else:
                return None
        r, k = T.add(r, r0), T.add(k, c0)
        b = b[1]
    return b, r, ZERO if k is None else k


def value_cell(t):
    return cell(t[1]) if t[0] == 'ld' else None


def elem(v, r, k):
    """canonical scalar term of cell (r, k) of a matrix or vector value"""
    h = v[0]
    if h == 'ld':
        x = cell(('[]', v[1], ('pair', c(r), c(k))))
        if x is None:
            return ('cell', v, r, k)
        b, rr, kk = x
        return ('cell', ('ld', b), T.num(rr) if T.num(rr) is not None else rr,
                T.num(kk) if T.num(kk) is not None else kk)
    if h == 'rec':
        hit = []
        for (s, x) in v[2]:
            if s[0] != '[]':
                continue
            sel = s[1]
            if sel[0] == 'pair':
                if (T.num(sel[1]), T.num(sel[2])) == (r, k):
                    return scal(x)
                if T.num(sel[1]) is None or T.num(sel[2]) is None:
                    hit.append(None)
            elif sel[0] == 'blk':
                d = [T.num(y) for y in sel[1:]]
                if None in d:
                    hit.append(None)
                elif d[0] <= r < d[0] + d[2] and d[1] <= k < d[1] + d[3]:
                    hit.append((d[2] * d[3], elem(x, r - d[0], k - d[1])))
            elif T.num(sel) is not None:
                if k == 0 and T.num(sel) == r:
                    return scal(x)
            else:
                hit.append(None)
        if None in hit:
            return ('cell', v, r, k)
        if hit:
            return min(hit, key=lambda y: y[0])[1]
        return elem(v[1], r, k)
    if h == 'fld' and v[2][0] == '[]':
        sel = v[2][1]
        if sel[0] == 'blk':
            d0, d1 = T.num(sel[1]), T.num(sel[2])
            if d0 is not None and d1 is not None:
                return elem(v[1], r + d0, k + d1)
    if h == 'I':
        return ONE if r == k else ZERO
    if v == ZERO or h == 'zero':
        return ZERO
    if h == 'vec' and k == 0 and r < len(v) - 1:
        return scal(v[1 + r])
    if h == 'lin' and v[2] == 0:
        t = ZERO
        for x, a in v[1]:
            t = T.add(t, T.scale(elem(x, r, k), a))
        return t
    if h == 'call' and v[1] == 'constant':
        return v[2]
    return ('cell', v, r, k)


def scal(t):
    """canonical form of a scalar that is a cell of something"""
    if t[0] == 'ld':
        x = cell(t[1])
        if x is not None:
            b, r, k = x
            return ('cell', ('ld', b), T.num(r) if T.num(r) is not None else r,
                    T.num(k) if T.num(k) is not None else k)
    if t[0] == 'fld' and t[2][0] == '[]':
        sel = t[2][1]
        if sel[0] == 'pair' and T.num(sel[1]) is not None and \
                T.num(sel[2]) is not None:
            return elem(t[1], int(T.num(sel[1])), int(T.num(sel[2])))
        if T.num(sel) is not None:
            return elem(t[1], int(T.num(sel)), 0)
    return t


def rotation_of(v):
    """R if v is the matrix of a normalised quaternion built from R"""
    def outer(t):
        while t[0] in ('call', '*', 'ld') and len(t) == 2 or \
                t[0] == 'call' and t[1] in ('eval', 'matrix'):
            t = t[-1]
        return t
    seen = []
    t = outer(v)
    norm = False
    while True:
        t = outer(t)
        if t[0] == 'cell':
            t = t[1]
            continue
        if t[0] == 'call' and t[1] == 'toRotationMatrix':
            seen.append('R')
            t = t[2]
        elif t[0] == 'call' and t[1] in ('normalized', 'stableNormalized'):
            norm = True
            t = t[2]
        elif t[0] == 'call' and str(t[1]).split('::')[-1].startswith(
                'Quaternion') and len(t) == 3:
            return t[2] if norm and seen else None
        else:
            return None
