from . import opcheck
from .. import spec, check, ops, pool
def main(prop, tier):
    ck = check.Check(prop, tier)
    def tasks(t, tys):
        l = [(ty, op) for ty in tys for op, (b, kind, _) in spec.ops_for(ty).items() if kind != 'none' and t.has(ty, op)]
        l.sort(key=lambda a: -a[0].w)
        return l
    return opcheck.drive(ck, None, tasks, ops.progress,
        'from every object value and every lock contents an operation that can take the lock completes without another thread acting; from the initial lock contents every path completes; after every returning path each of swap, load and compare_exchange on the same object completes',
        ('int', 'bool', 'ptr', 'float'))
