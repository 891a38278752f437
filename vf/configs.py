"""Build configurations the checks encode."""
from .build import Cfg
X = 'x86_64-unknown-linux-gnu'; I = 'i686-unknown-linux-gnu'; A = 'aarch64-unknown-linux-gnu'
def mk():
    d = {}
    def add(*a, **k): c = Cfg(*a, **k); d[c.name] = c
    # the configurations the test suite builds
    add('x86_64', X, 'x86_64')
    add('x86_64-detect-false', X, 'x86_64', cfgs=['portable_atomic_test_detect_false'])
    add('x86_64-no-outline', X, 'x86_64', cfgs=['portable_atomic_no_outline_atomics'])
    add('x86_64-cmpxchg16b', X, 'x86_64', flags=['-C', 'target-feature=+cmpxchg16b'])
    add('x86_64-nightly-f16-f128', X, 'x86_64', toolchain='nightly', cfgs=['portable_atomic_unstable_f16', 'portable_atomic_unstable_f128'], extra={'f16': True, 'hfeat': ('f16', 'f128')})
    add('i686', I, 'x86')
    add('aarch64', A, 'aarch64')
    add('aarch64-lse', A, 'aarch64', flags=['-C', 'target-feature=+lse'])
    add('aarch64-lse2', A, 'aarch64', flags=['-C', 'target-feature=+lse,+lse2'])
    # further configurations
    add('x86_64-debug', X, 'x86_64', flags=['-C', 'debug-assertions=on', '-C', 'overflow-checks=on'])
    add('aarch64-debug', A, 'aarch64', flags=['-C', 'debug-assertions=on', '-C', 'overflow-checks=on'])
    add('i686-debug', I, 'x86', flags=['-C', 'debug-assertions=on', '-C', 'overflow-checks=on'])
    add('aarch64-lse2-only', A, 'aarch64', flags=['-C', 'target-feature=+lse2'])
    add('aarch64-lse128', A, 'aarch64', flags=['-C', 'target-feature=+lse,+lse2,+lse128'])
    add('aarch64-rcpc3', A, 'aarch64', flags=['-C', 'target-feature=+lse,+lse2,+rcpc3'])
    add('aarch64-lse128-rcpc3', A, 'aarch64', flags=['-C', 'target-feature=+lse,+lse2,+lse128,+rcpc3'])
    add('aarch64-no-outline', A, 'aarch64', cfgs=['portable_atomic_no_outline_atomics'])
    add('aarch64-ll-sc', A, 'aarch64', flags=['-C', 'target-feature=+lse'], cfgs=['portable_atomic_ll_sc_rmw'])
    add('x86_64-avx', X, 'x86_64', flags=['-C', 'target-feature=+cmpxchg16b,+avx'])
    add('x86_64-avx-only', X, 'x86_64', flags=['-C', 'target-feature=+avx'])
    add('x86_64-cx16-no-outline', X, 'x86_64', flags=['-C', 'target-feature=+cmpxchg16b'], cfgs=['portable_atomic_no_outline_atomics'])
    # other operating systems (libcore compiled from the nightly sources; only IR is produced)
    def os(name, target, arch, **k):
        k.setdefault('toolchain', 'nightly'); c = Cfg(name, target, arch, core=True, **k); c.os = True; d[name] = c
    for o in ('freebsd', 'netbsd', 'openbsd', 'fuchsia', 'illumos'): os('aarch64-' + o, 'aarch64-unknown-' + o, 'aarch64')
    os('aarch64-android', 'aarch64-linux-android', 'aarch64')
    os('aarch64-windows', 'aarch64-pc-windows-msvc', 'aarch64')
    os('aarch64-ios', 'aarch64-apple-ios', 'aarch64')
    os('aarch64-macos', 'aarch64-apple-darwin', 'aarch64')
    os('x86_64-macos', 'x86_64-apple-darwin', 'x86_64')
    os('x86_64-windows', 'x86_64-pc-windows-msvc', 'x86_64')
    os('x86_64-none', 'x86_64-unknown-none', 'x86_64')
    os('powerpc64le-linux', 'powerpc64le-unknown-linux-gnu', 'powerpc64')
    os('powerpc64-linux', 'powerpc64-unknown-linux-gnu', 'powerpc64', extra={'dlsym': True})
    os('powerpc64le-freebsd', 'powerpc64le-unknown-freebsd', 'powerpc64')
    os('powerpc64-openbsd', 'powerpc64-unknown-openbsd', 'powerpc64', extra={'dlsym': True})
    os('powerpc64-aix', 'powerpc64-ibm-aix', 'powerpc64')
    os('riscv64-linux', 'riscv64gc-unknown-linux-gnu', 'riscv64')
    os('riscv64-android', 'riscv64-linux-android', 'riscv64')
    os('riscv32-linux', 'riscv32gc-unknown-linux-gnu', 'riscv32')
    return d
ALL = mk()
TESTED = ['x86_64', 'x86_64-detect-false', 'x86_64-no-outline', 'x86_64-cmpxchg16b', 'x86_64-nightly-f16-f128', 'i686', 'aarch64', 'aarch64-lse', 'aarch64-lse2']
