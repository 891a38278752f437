"""Checks over (type, operation) pairs: sequential semantics and interference."""
from .. import check, configs, core, spec, ops, pool, sym, build

CFG_QUICK = ['x86_64', 'x86_64-detect-false', 'x86_64-no-outline', 'x86_64-cmpxchg16b', 'x86_64-nightly-f16-f128', 'i686', 'aarch64', 'aarch64-lse', 'aarch64-lse2', 'x86_64-debug', 'i686-debug', 'aarch64-debug', 'x86_64-avx', 'x86_64-avx-only', 'x86_64-cx16-no-outline', 'aarch64-lse2-only', 'aarch64-lse128', 'aarch64-rcpc3', 'aarch64-lse128-rcpc3', 'aarch64-no-outline', 'aarch64-ll-sc']
import os
def cfgs(names):
    o = os.environ.get('VF_CFGS')
    return [configs.ALL[n] for n in (o.split(',') if o else names)]

def work(t, ty, op, mode):
    # the CAS loop of fetch_update around the LL/SC loops of the 128-bit compare_exchange: two visits in the quick tier
    t.ex.max_visits = 2 if op == 'fetch_update' and ty.w == 128 and os.environ.get('VERIF_TIER', 'quick') == 'quick' else 3
    if mode == 'seq': return ops.seq(t, ty, op)
    return ops.havoc(t, ty, op)

BOUNDS = ['loops and retry loops of an operation are followed up to 3 visits of a block (2 for the 128-bit fetch_update in the quick tier; longer retries are cut; the judgement is about every returning path within)',
          'all old values, arguments, orderings, CPU facts and addresses are symbolic; one operation at a time']
ASSUME = ['LLVM IR of the release profile (opt-level 3) is what is executed; instruction selection of the compiler is trusted', 'semantics of the instructions used in inline assembly as modelled in vf/asm_*.py']

def drive(ck, names, tasks, work, explanation, which, assume=(), bounds=None, extra=None, tys_of=None, prepare=True, leaders=5, helpers=3):
    cs = cfgs(names or CFG_QUICK)
    ck.cfgs = {c.name: c for c in cs}
    rs, errs = pool.by_config(cs, check.leader(tys_of or (lambda c: check.types(c, which=which)), tasks=tasks, prepare=prepare), work, leaders=leaders, helpers=helpers, deadline=ck.deadline)
    ck.add(rs, errs)
    for e in errs: ck.cfgs.pop(e, None)
    ck.bounds = list(bounds or BOUNDS)
    ck.assume = ASSUME + list(assume)
    return ck.finish(explanation, extra)

def run(prop, tier, which, opsel, modes, explanation, names=None, assume=()):
    ck = check.Check(prop, tier)
    def tasks(t, tys):
        l = [(ty, op, m) for ty in tys for op, (b, kind, _) in spec.ops_for(ty).items() if kind != 'none' and opsel(ty, op) and t.has(ty, op) for m in modes(ty, op)]
        # expensive ones first
        l.sort(key=lambda a: -a[0].w)
        return l
    return drive(ck, names, tasks, work, explanation, which, assume)
