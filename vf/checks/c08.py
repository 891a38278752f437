from . import opcheck
from .. import spec, check, ops, pool
def work(t, ty, op): return ops.selection(t, ty) if op == '*' else ops.features(t, ty, op)
def main(prop, tier):
    ck = check.Check(prop, tier)
    def tasks(t, tys):
        l = [(ty, '*') for ty in tys]
        l += [(ty, op) for ty in tys for op, (b, kind, _) in spec.ops_for(ty).items() if kind != 'none' and t.has(ty, op)]
        l.sort(key=lambda a: (a[1] != '*', -a[0].w))
        return l
    return opcheck.drive(ck, None, tasks, work,
        'for every pair of operations: the set of final detection results under which one uses native instructions is disjoint from the set under which another takes a lock, each thread being given its own arbitrary feature answers; is_lock_free and is_always_lock_free agree with the mechanism; every feature-dependent instruction is reached only if the feature is announced',
        ('int', 'bool', 'ptr', 'float'))
