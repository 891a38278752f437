from . import mmcheck
from .. import litmus
CFG = ['i686', 'x86_64-no-outline', 'x86_64-detect-false', 'x86_64']
def select(cfg, ty, op, kind, tier):
    if ty.w != 128: return None
    if tier == 'thorough': return 'full'
    if cfg.name == 'x86_64-detect-false': return None
    if cfg.name == 'x86_64': return 'short' if ty.name == 'AtomicU128' and op in ('load', 'store', 'swap', 'compare_exchange') else None
    if ty.name == 'AtomicU128': return 'full' if cfg.name == 'x86_64-no-outline' or op in ('load', 'store', 'swap', 'compare_exchange', 'fetch_add') else 'short'
    return 'short' if op in ('fetch_max', 'fetch_min', 'neg', 'swap', 'load') else None
def work(t, ty, op, d): return litmus.atomic(t, ty, op, d == 'full')
def main(prop, tier):
    return mmcheck.run(prop, tier, CFG, work, select,
        'programs of the real lock-based operations (their events, orderings and path conditions): no execution of the memory model is left unexplained by interleavings of whole operations, none contains a data race, and the lock is always released to a fresh unlocked state')
