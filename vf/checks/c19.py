from . import opcheck
from .. import check, show, pool, configs
CFGS = ['x86_64', 'x86_64-cmpxchg16b', 'x86_64-detect-false', 'x86_64-debug', 'i686', 'aarch64', 'aarch64-lse2', 'x86_64-nightly-f16-f128']
def main(prop, tier):
    ck = check.Check(prop, tier)
    def lead(cfg):
        tys = check.types(cfg)
        t = show.target(cfg, tys, serde=cfg.tc != 'nightly')
        w = [ty for ty in tys if check.needs_prepare(t, ty)]
        if w: t.prepare(w)
        return t, [(ty, op, m) for ty in tys for op in ('fmt_Debug', 'fmt_Pointer', 'ser', 'de') for m in (('seq', 'havoc') if op != 'de' else ('seq',)) if t.has(ty, op)]
    cs = opcheck.cfgs(CFGS); ck.cfgs = {c.name: c for c in cs}
    rs, errs = pool.by_config(cs, lead, show.judge, leaders=8, helpers=2, deadline=ck.deadline)
    ck.add(rs, errs)
    for e in errs: ck.cfgs.pop(e, None)
    ck.bounds = ['one serializer/deserializer call that answers with an arbitrary value, visits the visitor with an arbitrary value of any primitive kind, or fails with an arbitrary error (128-bit visits only for 128-bit types)',
                 'a formatter with arbitrary flags; the leaf formatting functions of libcore are uninterpreted (equal arguments, equal effect)']
    ck.assume = opcheck.ASSUME + ['the plain value\'s Serialize/Deserialize/Debug in serde and libcore are the reference']
    return ck.finish('for every stored value, formatter state and serializer/deserializer behaviour the calls made and the result equal those of the plain value; under interference for the value obtained by one atomic load; the object is not written')
