from . import mmcheck
from .. import litmus
CFG = ['i686', 'x86_64-no-outline', 'x86_64-cmpxchg16b', 'aarch64', 'x86_64', 'x86_64-avx-only', 'x86_64-cx16-no-outline', 'aarch64-lse', 'aarch64-lse2', 'aarch64-lse2-only', 'aarch64-lse128', 'aarch64-rcpc3', 'aarch64-lse128-rcpc3', 'aarch64-no-outline', 'aarch64-ll-sc', 'x86_64-nightly-f16-f128']
SMALL = ('x86_64', 'i686', 'aarch64')
CORE = ('AtomicU8', 'AtomicI16', 'AtomicU32', 'AtomicU64', 'AtomicUsize', 'AtomicBool', 'AtomicPtrU64', 'AtomicF32', 'AtomicF64')
def select(cfg, ty, op, kind, tier):
    if cfg.name == 'x86_64-nightly-f16-f128': return ('full' if tier == 'thorough' else 'short') if ty.name in ('AtomicF16', 'AtomicF128') else None
    if ty.w != 128:
        if cfg.name not in SMALL and tier != 'thorough': return None
        return 'full' if ty.name in CORE or tier == 'thorough' else 'short'
    if tier == 'thorough': return 'full'
    if ty.name == 'AtomicI128' and op not in ('fetch_max', 'fetch_min', 'fetch_neg', 'neg', 'load', 'store'): return None
    if ty.name == 'AtomicI128': return 'short'
    if cfg.name in mmcheck.HEAVY: return 'full' if op in ('load', 'store', 'swap', 'compare_exchange') else 'short'
    return 'full'
def work(t, ty, op, d): return litmus.message(t, ty, op, d == 'full')
def main(prop, tier):
    return mmcheck.run(prop, tier, CFG, work, select,
        'message-passing programs around every operation, as publisher and as observer, through release sequences, chains and fences: no execution of the memory model in which the observer sees the operation but not what preceded it')
