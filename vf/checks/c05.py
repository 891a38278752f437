from . import mmcheck, c04
from .. import litmus
PRIM = ('load', 'store', 'swap', 'compare_exchange', 'fetch_add')
def select(cfg, ty, op, kind, tier):
    d = c04.select(cfg, ty, op, kind, tier)
    if tier == 'thorough' or d is None: return d
    if cfg.name == 'x86_64-nightly-f16-f128': return 'mini'
    if ty.w == 128:
        if op in ('fetch_update', 'compare_exchange_weak') or d == 'short' and op not in PRIM: return 'mini'
        if d == 'full' and op not in PRIM: return 'mini' if cfg.name in ('x86_64', 'x86_64-avx-only', 'aarch64') else 'short'
    elif d == 'full' and ty.name not in ('AtomicU8', 'AtomicU64', 'AtomicBool'): return 'short'
    return d
def work(t, ty, op, d): return litmus.total_order(t, ty, op, d)
def main(prop, tier):
    return mmcheck.run(prop, tier, c04.CFG, work, select,
        'store-buffering, message-passing, load-buffering, S, R, 2+2W, IRIW and WRC programs mixing each sequentially consistent operation with other objects, and fence programs: every execution the memory model allows is explained by one total order of the operations')
