from . import opcheck
from .. import spec, check, ops, pool, configs
def wide(cfg):
    l = [t for t in check.types(cfg, which=('int',)) if t.w == 128 or (check.pwidth(cfg) < 64 and t.w == 64)]
    return [t for t in l if t.name in ('AtomicU128', 'AtomicU64')]
BASE = ['x86_64', 'x86_64-detect-false', 'x86_64-cmpxchg16b', 'x86_64-debug', 'i686', 'aarch64', 'aarch64-lse', 'aarch64-lse2', 'aarch64-debug', 'aarch64-lse2-only']
def main(prop, tier):
    ck = check.Check(prop, tier)
    names = [n for n, c in configs.ALL.items() if getattr(c, 'os', False)] + (BASE if tier == 'quick' else opcheck.CFG_QUICK)
    return opcheck.drive(ck, names, lambda t, tys: [(ty,) for ty in tys], ops.detection,
        'for arbitrary answers of cpuid/xgetbv, the auxiliary vector, sysctl, hwprobe and the other operating-system interfaces: every varying bit of the stored detection result is equivalent to one feature as documented by the vendor, every detectable feature has a bit, the selected implementations depend on nothing but announced features, xgetbv only runs if OSXSAVE is set, and the same CPU gets the same answer',
        None, tys_of=wide, prepare=False, leaders=8, helpers=1,
        assume=['interfaces of the operating systems answer equal questions equally and write a result buffer only on success (vf/env.py)', 'OSXSAVE implies XSAVE; the Exynos 9810 has none of LSE2/RCPC3/LSE128'],
        bounds=['no loops are involved; one detection per path', 'the 128-bit (64-bit on 32-bit targets) operations are the entry points from which detection is reached'])
