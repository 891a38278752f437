from . import opcheck
from .. import spec, check, ops, pool
def work(t, ty, op, mode): return ops.views(t, ty, op) if mode == 'views' else ops.footprint(t, ty, op, mode)
def main(prop, tier):
    ck = check.Check(prop, tier)
    def tasks(t, tys):
        l = [(ty, op, m) for ty in tys for op, (b, kind, _) in spec.ops_for(ty).items() if kind != 'none' and t.has(ty, op) for m in ('seq', 'havoc') if not (op == 'fetch_update' and m == 'havoc' and ty.w == 128)]
        l += [(ty, op, 'views') for ty in tys for op in ops.MISC_SPEC if op in spec.ops_for(ty) and t.has(ty, op)]
        l.sort(key=lambda a: -a[0].w)
        return l
    return opcheck.drive(ck, None, tasks, work,
        'layout, construction, exclusive access, extraction and pointer views of every type; every access of every operation (sequential and under arbitrary interference) lies inside the object or atomically rewrites the surrounding bytes with what it found there; nothing but the object and the crate\'s own statics is written',
        ('int', 'bool', 'ptr', 'float'))
