from . import opcheck
from .. import spec, check, ops, pool
def main(prop, tier):
    ck = check.Check(prop, tier)
    def tasks(t, tys):
        l = [(ty, op) for ty in tys for op, (b, kind, _) in spec.ops_for(ty).items() if kind != 'none' and t.has(ty, op)]
        l.sort(key=lambda a: -a[0].w)
        return l + [(None, op) for op in ('fence', 'compiler_fence', 'spin_loop') if t.fname('vf__' + op)]
    return opcheck.drive(ck, None, tasks, ops.orders,
        'all orderings (25 pairs for two-ordering operations) are symbolic: paths that panic must be infeasible for valid orderings and must not have accessed the object or a lock; returning paths must be infeasible for invalid orderings',
        ('int', 'bool', 'ptr', 'float'))
