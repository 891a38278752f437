"""The environment the crate's code runs in: CPU feature queries, the operating system, the caller's closure."""
import z3, re
from . import sym
from .sym import *

class Env: pass

def install(t):
    ex = t.ex; a = t.cfg.arch
    ex.cpu_axioms = lambda: axioms(t)
    ex.ext['vf_closure'] = closure
    ex.announced = lambda f: announced(t, f)
    ex.os = (t.multi.get('target_os') or ['none'])[0]
    if a in ('x86_64', 'x86'):
        ex.ext['cpuid'] = cpuid
        ex.ext['xgetbv'] = xgetbv
        ex.ext['xgetbv_asm'] = xgetbv_asm
    for n in ('getauxval', '__getauxval'): ex.ext[n] = getauxval
    for n in ('elf_aux_info', 'dlsym', 'sysctl', 'sysctlbyname', 'getisax', 'zx_system_get_features', 'IsProcessorFeaturePresent', 'getsystemcfg', 'syscall', '__system_property_get'): ex.ext[n] = globals()[n]

def closure(ex, st, av, rt, n, dst, args):
    """fetch_update's closure: an arbitrary answer for every call"""
    size = st.mem['OUT'].size
    v = ex.load(st, av[0], size, src='closure')
    nv = fresh('upd', 8 * size)
    k = sum(1 for e in st.ev if e.kind == 'CALL')
    st.decisions += 1
    s2 = st.clone()
    if st.extra.get('boolval'): st.pc.append(z3.ULE(nv, 1)); st.model = None
    ex.store(st, av[1], size, nv, src='closure')
    st.ev.append(Ev('CALL', r=v, w=nv, extra='some', npc=len(st.pc)))
    s2.ev.append(Ev('CALL', r=v, w=None, extra='none', npc=len(s2.pc)))
    st.frames[-1].regs[dst] = 1
    s2.frames[-1].regs[dst] = 0
    return [st, s2]

def cpuid(ex, st, fr, arch, leaf, sub):
    leaf = simp(leaf); sub = simp(sub)
    if not isinstance(leaf, int): raise CannotEncode('symbolic cpuid leaf')
    s = 0 if leaf in (0, 1) else sub
    if not isinstance(s, int): s = 'x'
    for r in ('rax', 'rbx', 'rcx', 'rdx'):
        arch.put(ex, st, fr, (r, 32, 0), z3.BitVec('cpuid_%x_%s_%s' % (leaf, s, r[1:]), 32))
    st.ev.append(Ev('CPUQ', extra=('cpuid', leaf), npc=len(st.pc)))
def xgetbv(ex, st, i):
    st.ev.append(Ev('CPUQ', extra=('xgetbv', i), npc=len(st.pc)))
    return z3.BitVec('xcr0_%s' % i, 64)
def xgetbv_asm(ex, st, fr, arch, idx):
    v = z3.BitVec('xcr0_%s' % idx, 64)
    st.ev.append(Ev('CPUQ', extra=('xgetbv', idx), npc=len(st.pc)))
    arch.put(ex, st, fr, ('rax', 32, 0), extract(v, 31, 0)); arch.put(ex, st, fr, ('rdx', 32, 0), extract(v, 63, 32))
def getauxval(ex, st, av, rt, n, dst, args):
    k = simp(av[0])
    if not isinstance(k, int): raise CannotEncode('symbolic getauxval type')
    st.frames[-1].regs[dst] = z3.BitVec('auxv_%d' % k, ex.pw)
    st.ev.append(Ev('CPUQ', extra=('getauxval', k), npc=len(st.pc)))
    return None


# ---- operating systems.  Every interface answers with arbitrary values that are the same for equal questions; a result
# buffer is only written when the call reports success.
def bv(n, w): return z3.BitVec(n, w)
def flag(n): return bv(n, 8)
def ok(n): return simp(flag('fn_ok_' + n) == 1)
def cstr(ex, st, p):
    out = b''
    while len(out) < 128:
        c = ex.addr(st, ex.load(st, Ptr(p.obj, ex.badd(p.off, len(out)) if hasattr(ex, 'badd') else off_add(p.off, len(out))), 1, src='priv'))
        if not isinstance(c, int): raise CannotEncode('symbolic string')
        if c == 0: return out.decode()
        out += bytes([c])
    raise CannotEncode('long string')
def off_add(o, n):
    if isinstance(o, tuple): return (o[0], o[1] + n)
    return o + n
def fork(ex, st, dst, cond, yes, no):
    """two successor states"""
    s2 = st.clone(); st.decisions += 1; s2.decisions += 1
    st.pc.append(cond); st.model = None; s2.pc.append(NOT(cond)); s2.model = None
    r = yes(st); r2 = no(s2)
    st.frames[-1].regs[dst] = r; s2.frames[-1].regs[dst] = r2
    return [x for x in (st, s2) if not ex.check_feasible or solve(x.pc) != 'unsat']
def query(st, *k): st.ev.append(Ev('CPUQ', extra=k, npc=len(st.pc)))
def size_of(rt, ex): return ex.bits(rt)
def elf_aux_info(ex, st, av, rt, n, dst, args):
    k = simp(av[0]); ln = simp(av[2])
    if not isinstance(k, int) or not isinstance(ln, int): raise CannotEncode('symbolic elf_aux_info argument')
    query(st, 'elf_aux_info', k)
    if ln != ex.pw // 8: st.frames[-1].regs[dst] = 22; return None
    def yes(s): ex.store(s, av[1], ln, bv('auxv_%d' % k, ex.pw), src='priv'); return 0
    return fork(ex, st, dst, ok('auxv_%d' % k), yes, lambda s: 2)
def dlsym(ex, st, av, rt, n, dst, args):
    nm = cstr(ex, st, ex.to_ptr(st, av[1])); h = simp(ex.addr(st, av[0]))
    want = {'linux': 0, 'android': 0}.get(st_os(ex), M(ex.pw) - 1)
    query(st, 'dlsym', nm)
    if nm not in ex.ext or h != want: st.frames[-1].regs[dst] = 0; return None
    return fork(ex, st, dst, ok('dlsym_' + nm), lambda s: FnPtr(nm), lambda s: 0)
def st_os(ex): return ex.os
NETBSD_IDS = {40: 'isar0', 48: 'isar1', 72: 'mmfr2'}
def sysctlbyname(ex, st, av, rt, n, dst, args):
    nm = cstr(ex, st, ex.to_ptr(st, av[0])); query(st, 'sysctlbyname', nm)
    ln = ex.load(st, av[2], ex.pw // 8, src='priv')
    if not isinstance(ln, int): raise CannotEncode('symbolic length')
    if nm == 'machdep.cpu0.cpu_id' and ex.os == 'netbsd':
        # struct aarch64_sysctl_cpu_id: midr revidr mpidr dfr0 dfr1 isar0 isar1 mmfr0 mmfr1 mmfr2 pfr0 pfr1 zfr0 (8 bytes each), mvfr0-2 pad (4), clidr ctr (8)
        if ln != 136: st.frames[-1].regs[dst] = M(32); return None
        def yes(s):
            p = ex.to_ptr(s, av[1])
            for o in range(0, 136, 8): ex.store(s, Ptr(p.obj, off_add(p.off, o)), 8, bv('cpu_id_' + NETBSD_IDS.get(o, 'other%d' % o), 64), src='priv')
            return 0
        return fork(ex, st, dst, ok('cpu_id'), yes, lambda s: M(32))
    if ln != 4: st.frames[-1].regs[dst] = M(32); return None
    def yes(s): ex.store(s, av[1], 4, bv('fn_sysctl_' + nm, 32), src='priv'); return 0
    return fork(ex, st, dst, ok('sysctl_' + nm), yes, lambda s: M(32))
def sysctl(ex, st, av, rt, n, dst, args):
    if simp(av[1]) != 2: raise CannotEncode('sysctl name length')
    p = ex.to_ptr(st, av[0])
    mib = [ex.load(st, Ptr(p.obj, off_add(p.off, 4 * i)), 4, src='priv') for i in range(2)]
    ln = ex.load(st, av[3], ex.pw // 8, src='priv')
    if mib[0] != 7 or not isinstance(mib[1], int) or ln != 8: raise CannotEncode('sysctl %s' % mib)
    query(st, 'sysctl', mib[1])
    nm = {2: 'isar0', 3: 'isar1', 7: 'mmfr2'}.get(mib[1], 'other%d' % mib[1])
    def yes(s): ex.store(s, av[2], 8, bv('cpu_id_' + nm, 64), src='priv'); return 0
    return fork(ex, st, dst, ok('cpu_id_' + nm), yes, lambda s: M(32))
def getisax(ex, st, av, rt, n, dst, args):
    k = simp(av[1]); query(st, 'getisax', k)
    p = ex.to_ptr(st, av[0])
    for i in range(min(k, 3)): ex.store(st, Ptr(p.obj, off_add(p.off, 4 * i)), 4, bv('fn_isax_%d' % i, 32), src='priv')
    st.frames[-1].regs[dst] = 3
def zx_system_get_features(ex, st, av, rt, n, dst, args):
    k = simp(av[0]); query(st, 'zx_system_get_features', k)
    def yes(s): ex.store(s, av[1], 4, bv('fn_zx_%d' % k, 32), src='priv'); return 0
    return fork(ex, st, dst, ok('zx_%d' % k), yes, lambda s: M(32) - 1)
def IsProcessorFeaturePresent(ex, st, av, rt, n, dst, args):
    k = simp(av[0]); query(st, 'IsProcessorFeaturePresent', k)
    st.frames[-1].regs[dst] = bv('fn_pf_%d' % k, 32)
def getsystemcfg(ex, st, av, rt, n, dst, args):
    k = simp(av[0]); query(st, 'getsystemcfg', k)
    st.frames[-1].regs[dst] = bv('fn_systemcfg_%d' % k, 64)
def hwprobe(ex, st, nr, p, cnt, cpus, cpup, flags, put):
    """riscv_hwprobe(pairs, count, 0, NULL, 0)"""
    if nr != 258 or cnt not in (1, 2, 3, 4) or cpus != 0 or cpup != 0 or flags != 0: raise CannotEncode('system call %s' % nr)
    query(st, 'riscv_hwprobe', cnt)
    s2 = st.clone(); st.decisions += 1; s2.decisions += 1
    st.pc.append(ok('hwprobe')); s2.pc.append(NOT(ok('hwprobe'))); st.model = s2.model = None
    p = ex.to_ptr(st, p)
    for i in range(cnt):
        k = ex.load(st, Ptr(p.obj, off_add(p.off, 16 * i)), 8, src='priv')
        if not isinstance(k, int): raise CannotEncode('symbolic hwprobe key')
        known = ok('hwprobe_key%d' % k)
        ex.store(st, Ptr(p.obj, off_add(p.off, 16 * i)), 8, ITE(known, k, M(64), 64), src='priv')
        ex.store(st, Ptr(p.obj, off_add(p.off, 16 * i + 8)), 8, ITE(known, bv('fn_hwprobe_%d' % k, 64), 0, 64), src='priv')
    put(st, 0); put(s2, M(ex.pw) - 37)
    return [st, s2]
def syscall(ex, st, av, rt, n, dst, args):
    def put(s, v): s.frames[-1].regs[dst] = v
    return hwprobe(ex, st, *[simp(ex.addr(st, a)) if i != 1 else a for i, a in enumerate(av)], put)
def __system_property_get(ex, st, av, rt, n, dst, args):
    nm = cstr(ex, st, ex.to_ptr(st, av[0])); query(st, '__system_property_get', nm)
    ln = bv('fn_prop_len', 32)
    st.pc.append(AND(z3.ULE(ln, 91)))
    p = ex.to_ptr(st, av[1])
    for i in range(92):
        c = bv('fn_prop_%d' % i, 8)
        ex.store(st, Ptr(p.obj, off_add(p.off, i)), 1, ITE(z3.UGT(ln, i), c, 0, 8), src='priv')
    st.frames[-1].regs[dst] = ln

def bit(v, n, w): return simp(z3.Extract(n, n, z3.BitVec(v, w)) == 1)
def field_ge(v, hi, lo, k): return simp(z3.UGE(z3.Extract(hi, lo, z3.BitVec(v, 64)), k))
def anybit(v, m, w): return simp((z3.BitVec(v, w) & m) != 0)
def exynos9810():
    s = b'exynos9810'
    return AND(z3.UGE(bv('fn_prop_len', 32), len(s)), *[bv('fn_prop_%d' % i, 8) == c for i, c in enumerate(s)])
FEATURES = {'x86_64': ('cmpxchg16b', 'avx'), 'aarch64': ('lse', 'lse2', 'rcpc3', 'lse128'), 'powerpc64': ('quadword-atomics',), 'riscv64': ('zacas',), 'riscv32': ('zacas',)}
def axioms(t):
    """facts about real CPUs"""
    a = []
    if t.cfg.arch == 'x86_64': a.append(z3.Implies(z3.Extract(27, 27, z3.BitVec('cpuid_1_0_cx', 32)) == 1, z3.Extract(26, 26, z3.BitVec('cpuid_1_0_cx', 32)) == 1))  # OSXSAVE needs XSAVE
    if t.cfg.arch == 'aarch64' and t.ex.os == 'android':   # the Exynos 9810 has no core with newer extensions than LSE
        a += [z3.ULE(bv('fn_prop_len', 32), 91)]
        a += [z3.Implies(exynos9810(), NOT(announced(t, f, raw=True))) for f in ('lse2', 'rcpc3', 'lse128')]
    return a
def documented(t):
    """features that run-time detection covers on this target (src/imp/detect/README.md), those known at compile time excluded"""
    a, o = t.cfg.arch, t.ex.os
    if 'portable_atomic_test_detect_false' in t.cfg.cfgs: return []
    return [f for f in FEATURES.get(a, ()) if f not in t.static_feats and announced(t, f) not in (None, True, False)]

def announced(t, feat, raw=False):
    """condition under which the architectural query announces a feature (True if it is assumed at compile time)"""
    a, o, pw = t.cfg.arch, t.ex.os, t.pw
    if feat in t.static_feats and not raw: return True
    if feat == 'cx8': return True
    if a in ('x86_64', 'x86'):
        if feat == 'cmpxchg16b': return bit('cpuid_1_0_cx', 13, 32)
        if feat == 'avx':
            if 'sse' not in t.static_feats: return None
            x = z3.BitVec('xcr0_0', 64)
            return AND(bit('cpuid_1_0_cx', 28, 32), bit('cpuid_1_0_cx', 27, 32), simp(z3.Extract(2, 1, x) == 3))
    if a == 'aarch64':
        b = {'lse': (0, 8), 'lse2': (0, 25), 'lse128': (1, 47), 'rcpc3': (1, 46)}.get(feat)
        if b is None: return None
        if o in ('linux', 'android'):
            r = bit('auxv_%d' % (16, 26)[b[0]], b[1], pw)
            if o == 'android' and feat == 'lse' and not raw: r = AND(r, NOT(exynos9810()))
            return r
        if o == 'freebsd':
            k = (25, 26)[b[0]]
            return AND(ok('auxv_%d' % k), bit('auxv_%d' % k, b[1], pw))
        if o in ('netbsd', 'openbsd'):
            reg, hi, lo, k = {'lse': ('isar0', 23, 20, 2), 'lse128': ('isar0', 23, 20, 3), 'rcpc3': ('isar1', 23, 20, 3), 'lse2': ('mmfr2', 35, 32, 1)}[feat]
            return AND(ok('cpu_id' if o == 'netbsd' else 'cpu_id_' + reg), field_ge('cpu_id_' + reg, hi, lo, k))
        if o in ('macos', 'ios', 'watchos', 'tvos', 'visionos'):
            f = lambda n: AND(ok('sysctl_hw.optional.' + n), simp(z3.BitVec('fn_sysctl_hw.optional.' + n, 32) != 0))
            if feat == 'lse': return OR(f('arm.FEAT_LSE'), f('armv8_1_atomics'))
            if feat == 'lse2': return f('arm.FEAT_LSE2')
        if o == 'windows' and feat in ('lse', 'lse2'): return simp(z3.BitVec('fn_pf_%d' % {'lse': 34, 'lse2': 62}[feat], 32) != 0)
        if o == 'fuchsia' and feat == 'lse': return AND(ok('zx_0'), bit('fn_zx_0', 8, 32))
        if o == 'illumos' and feat in ('lse', 'lse2'): return bit('fn_isax_0', 15, 32) if feat == 'lse' else bit('fn_isax_1', 2, 32)
        return None
    if feat == 'quadword-atomics':
        M2 = 0x80000000 | 0x00800000 | 0x00040000
        if o in ('linux', 'freebsd', 'openbsd'):
            k1, k2 = (16, 26) if o == 'linux' else (25, 26)
            r = [anybit('auxv_%d' % k2, M2, pw), NOT(anybit('auxv_%d' % k1, 0x8000, pw))]
            if o == 'linux':
                if t.ex.globs is not None and t.cfg.extra.get('dlsym'): r.append(ok('dlsym_getauxval'))
            else:
                r += [ok('auxv_%d' % k2)]
                r[1] = NOT(AND(ok('auxv_%d' % k1), anybit('auxv_%d' % k1, 0x8000, pw)))
                if t.cfg.extra.get('dlsym'): r.append(ok('dlsym_elf_aux_info'))
            return AND(*r)
        if o == 'aix':
            v = z3.BitVec('fn_systemcfg_2', 64)
            return AND(simp(v != M(64)), anybit('fn_systemcfg_2', 0x70000, 64))
    if feat == 'zacas' and o in ('linux', 'android'):
        return AND(ok('hwprobe'), ok('hwprobe_key3'), bit('fn_hwprobe_3', 0, 64), ok('hwprobe_key4'), bit('fn_hwprobe_4', 34, 64))
    return None
