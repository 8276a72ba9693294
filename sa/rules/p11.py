"""Point filters split their input."""
from .. import lib_filters as F

SRCS = F.SRCS
EXPLAIN = '''
Every path of each filter's Filter() is enumerated from the type-checked
control-flow graph (calls into the repository followed, loops summarised by
one arbitrary iteration with its induction variable).  For an arbitrary point
index the rule combines what all loops of the path do with it and requires
exactly one of: index appended to the inliers and the same input point
appended to the output, or index appended to the outliers.  The loops must run
the index from 0 to the number of input points in steps of one, the three
lists must be emptied before the first append, the stamp must be copied, and a
path with a missing cloud must write nothing.
'''
ASSUME = ['input and output clouds are different objects',
          'vector growth does not fail']
MIN_OBLIGATIONS = 30


def check(ctx):
    for cls in F.FILTERS:
        def report(ok, rule, where, msg, key):
            ctx.require(ok, rule, where, msg, key)
        F.analyse(ctx, cls, report)
