"""Values of shared data between synchronisation points."""
from .terms import ZERO


class Epochs:
    """every time a lock is taken, given up or waited on, the data it guards is
    replaced by fresh values; remembers the values each critical section starts
    with.  guards: {mutex location: [data location]}"""

    def __init__(self, I, guards):
        self.guards = guards
        self.secs = {}      # number -> {location: value, ('size'|'front', loc)}
        self.n = 0
        I.on_sync = self.sync

    def sync(self, I, st, m, what):
        if m not in self.guards:
            return
        self.n += 1
        d = {}
        for loc in self.guards[m]:
            if what != 'loop':
                I.havoc(st, loc, 'shared')
            d[loc] = I.load(st, loc)
            d['size', loc] = I.load(st, ('f', loc, '#size'))
            d['front', loc] = I.load(st, ('[]', loc, ZERO))
        if what != 'release':
            self.secs[self.n] = d

    def sections(self):
        return self.secs
