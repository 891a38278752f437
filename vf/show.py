"""Serialization, deserialization and formatting of atomics against the same operation on the plain value."""
import os, json, z3, shutil
from . import build, core, spec, sym, ops, env
from .sym import *

STUB = r'''
use serde::{Serialize, Deserialize, Serializer, Deserializer, de::Visitor};
extern "C" { fn vf_ser(m: u32, p: *const u8, n: usize) -> u64; fn vf_de(m: u32) -> u32; fn vf_de_val(p: *mut u8); fn vf_hr() -> u8; }
#[derive(Clone, Copy)] pub struct E(u64);
impl core::fmt::Debug for E { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl core::fmt::Display for E { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl core::error::Error for E {}
impl serde::ser::Error for E { fn custom<T: core::fmt::Display>(_: T) -> Self { E(1) } }
impl serde::de::Error for E {
    fn custom<T: core::fmt::Display>(_: T) -> Self { E(2) }
    fn invalid_type(_: serde::de::Unexpected, _: &dyn serde::de::Expected) -> Self { E(3) }
    fn invalid_value(_: serde::de::Unexpected, _: &dyn serde::de::Expected) -> Self { E(4) }
}
pub struct S;
macro_rules! ser { ($($f:ident $t:ty, $k:expr;)*) => { $(fn $f(self, v: $t) -> Result<u64, E> { self.go($k, &v as *const $t as *const u8, core::mem::size_of::<$t>()) })* } }
impl S { #[inline(always)] fn go(self, k: u32, p: *const u8, n: usize) -> Result<u64, E> { let r = unsafe { vf_ser(k, p, n) }; if r & 1 == 1 { Ok(r >> 1) } else { Err(E(r >> 1)) } } }
type Imp = serde::ser::Impossible<u64, E>;
impl Serializer for S {
    type Ok = u64; type Error = E; type SerializeSeq = Imp; type SerializeTuple = Imp; type SerializeTupleStruct = Imp; type SerializeTupleVariant = Imp; type SerializeMap = Imp; type SerializeStruct = Imp; type SerializeStructVariant = Imp;
    ser! { serialize_bool bool, 1; serialize_i8 i8, 2; serialize_i16 i16, 3; serialize_i32 i32, 4; serialize_i64 i64, 5; serialize_i128 i128, 6; serialize_u8 u8, 7; serialize_u16 u16, 8; serialize_u32 u32, 9; serialize_u64 u64, 10; serialize_u128 u128, 11; serialize_f32 f32, 12; serialize_f64 f64, 13; serialize_char char, 14; }
    fn serialize_str(self, v: &str) -> Result<u64, E> { self.go(15, v.as_ptr(), 0) }
    fn serialize_bytes(self, v: &[u8]) -> Result<u64, E> { self.go(16, v.as_ptr(), 0) }
    fn serialize_none(self) -> Result<u64, E> { self.go(17, core::ptr::null(), 0) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<u64, E> { self.go(18, core::ptr::null(), 0) }
    fn serialize_unit(self) -> Result<u64, E> { self.go(19, core::ptr::null(), 0) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<u64, E> { self.go(20, core::ptr::null(), 0) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<u64, E> { self.go(21, core::ptr::null(), 0) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<u64, E> { self.go(22, core::ptr::null(), 0) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<u64, E> { self.go(23, core::ptr::null(), 0) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, E> { Err(E(30)) }
    fn serialize_tuple(self, _: usize) -> Result<Imp, E> { Err(E(31)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, E> { Err(E(32)) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, E> { Err(E(33)) }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, E> { Err(E(34)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, E> { Err(E(35)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, E> { Err(E(36)) }
    fn collect_str<T: ?Sized + core::fmt::Display>(self, _: &T) -> Result<u64, E> { Err(E(37)) }
    fn is_human_readable(&self) -> bool { unsafe { vf_hr() != 0 } }
}
pub struct D;
impl D {
    #[inline(always)] fn go<'de, V: Visitor<'de>>(self, m: u32, v: V) -> Result<V::Value, E> {
        let k = unsafe { vf_de(m) }; let mut b = [0u64; 2]; let p = b.as_mut_ptr();
        unsafe { vf_de_val(p as *mut u8) }
        macro_rules! g { ($f:ident $t:ty) => { v.$f(unsafe { core::ptr::read_unaligned(p as *const $t) }) } }
        match k {
            1 => v.visit_bool(b[0] & 1 == 1), 2 => g!(visit_i8 i8), 3 => g!(visit_i16 i16), 4 => g!(visit_i32 i32), 5 => g!(visit_i64 i64), 6 => g!(visit_i128 i128),
            7 => g!(visit_u8 u8), 8 => g!(visit_u16 u16), 9 => g!(visit_u32 u32), 10 => g!(visit_u64 u64), 11 => g!(visit_u128 u128), 12 => g!(visit_f32 f32), 13 => g!(visit_f64 f64),
            19 => v.visit_unit(), 17 => v.visit_none(), _ => Err(E(b[0])),
        }
    }
}
macro_rules! de { ($($f:ident, $k:expr;)*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.go($k, v) })* } }
impl<'de> Deserializer<'de> for D {
    type Error = E;
    de! { deserialize_any, 0; deserialize_bool, 1; deserialize_i8, 2; deserialize_i16, 3; deserialize_i32, 4; deserialize_i64, 5; deserialize_i128, 6; deserialize_u8, 7; deserialize_u16, 8; deserialize_u32, 9; deserialize_u64, 10; deserialize_u128, 11; deserialize_f32, 12; deserialize_f64, 13; deserialize_char, 14; deserialize_str, 15; deserialize_string, 24; deserialize_bytes, 16; deserialize_byte_buf, 25; deserialize_option, 17; deserialize_unit, 19; deserialize_seq, 26; deserialize_map, 27; deserialize_identifier, 28; deserialize_ignored_any, 29; }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { self.go(40, v) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { self.go(41, v) }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> { self.go(42, v) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, E> { self.go(43, v) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { self.go(44, v) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { self.go(45, v) }
    fn is_human_readable(&self) -> bool { unsafe { vf_hr() != 0 } }
}
#[inline(always)] unsafe fn put(r: Result<u64, E>, y: *mut u64) -> u8 { match r { Ok(v) => { *y = v; 1 } Err(e) => { *y = e.0; 0 } } }
#[inline(always)] unsafe fn putv<V>(r: Result<V, E>, y: *mut u64, out: *mut V) -> u8 { match r { Ok(v) => { core::ptr::write(out, v); 1 } Err(e) => { *y = e.0; 0 } } }
'''
def harness(tys, serde, feats):
    src = spec.harness(tys, features=feats)
    L = []
    for ty in tys:
        L.append('mod s_%s { use super::*; type T = %s; type V = %s;' % (ty.name.lower(), ty.rust, ty.val))
        def f(n, body): L.append('#[no_mangle] pub unsafe fn vf__%s__%s(a: *const T, x: *const V, y: *mut u64, out: *mut V, o: u8, o2: u8, b: u32) -> u8 { %s }' % (ty.name, n, body))
        traits = ['Debug'] + (['Pointer'] if ty.kind == 'ptr' else [])
        for tr in traits:
            f('fmt_' + tr, 'core::fmt::%s::fmt(&*a, &mut *(y as *mut core::fmt::Formatter<\'static>)).is_err() as u8' % tr)
            f('fmt_%s_plain' % tr, 'core::fmt::%s::fmt(&*x, &mut *(y as *mut core::fmt::Formatter<\'static>)).is_err() as u8' % tr)
        if serde and ty.kind != 'ptr' and not (ty.kind == 'float' and ty.w in (16, 128)):
            f('ser', 'put(Serialize::serialize(&*a, S), y)'); f('ser_plain', 'put(Serialize::serialize(&*x, S), y)')
            f('de', 'putv(<T as Deserialize>::deserialize(D).map(|a| a.into_inner()), y, out)'); f('de_plain', 'putv(<V as Deserialize>::deserialize(D), y, out)')
        L.append('}')
    return src + (STUB if serde else '') + '\n'.join(L) + '\n'

def serde_args(cfg):
    """builds serde for the target from cargo's cache -> extra rustc arguments"""
    d = os.path.join(build.scratch(), 'serde-' + cfg.target)
    with build.lock('serde-' + cfg.target):
        os.makedirs(d + '/src', exist_ok=True)
        open(d + '/src/lib.rs', 'w').write('#![no_std]\npub use serde;\n')
        open(d + '/Cargo.toml', 'w').write('[package]\nname = "s"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nserde = { version = "1", default-features = false }\n[workspace]\n')
        p = build.run(['cargo', '+' + cfg.tc, 'build', '--offline', '--target', cfg.target, '--message-format=json', '--release'], cwd=d, env={'CARGO_TARGET_DIR': d + '/t'})
    for ln in p.stdout.split('\n'):
        try: j = json.loads(ln)
        except ValueError: continue
        if j.get('reason') == 'compiler-artifact' and j['target']['name'] == 'serde':
            f = next(x for x in j['filenames'] if x.endswith('.rlib'))
            return [['--extern', 'serde=' + f, '-L', 'dependency=' + os.path.dirname(f)]]
    raise build.BuildError('serde: no artifact')

def target(cfg, tys, serde=True):
    import copy
    cfg = copy.copy(cfg); cfg.extra = dict(cfg.extra); cfg.features = list(cfg.features)
    if serde:
        e = serde_args(cfg)
        cfg.features.append('serde'); cfg.extra['lib_extern'] = e; cfg.extra['h_extern'] = e
    t = core.Target(cfg, tys, None, tag='s', harness_src=harness(tys, serde, cfg.extra.get('hfeat', ())))
    ex = t.ex
    ex.fp_unint = True
    ex.ext['vf_ser'] = ser; ex.ext['vf_de'] = de; ex.ext['vf_de_val'] = de_val; ex.ext['vf_hr'] = hr
    for m in t.mods:      # formatting functions of libcore that are not part of the analysed modules
        for n in m.decls:
            if n not in ex.fns and 'fmt' in n and ('core' in n): ex.ext[n] = fmtfn
    return t

def ser(ex, st, av, rt, n, dst, args):
    m, k = simp(av[0]), simp(av[2])
    v = ex.addr(st, ex.load(st, av[1], k, src='priv')) if isinstance(k, int) and k else 0
    st.ev.append(Ev('CALL', r=v, extra=('ser', m, k), npc=len(st.pc)))
    st.frames[-1].regs[dst] = z3.BitVec('ser_ret%d' % ncalls(st), 64)
def ncalls(st): return sum(1 for e in st.ev if e.kind == 'CALL')
def de(ex, st, av, rt, n, dst, args):
    st.ev.append(Ev('CALL', r=simp(av[0]), extra=('de',), npc=len(st.pc)))
    v = z3.BitVec('de_choice%d' % ncalls(st), 32); st.frames[-1].regs[dst] = v
    if not ex.de_wide: st.pc += [simp(v != 6), simp(v != 11)]     # (the error text of a 128-bit value is formatted by libcore)
def de_val(ex, st, av, rt, n, dst, args):
    for i in (0, 1): ex.store(st, ex.ptr_add(ex.to_ptr(st, av[0]), 8 * i), 8, z3.BitVec('de_val%d_%d' % (ncalls(st), i), 64), src='priv')
def hr(ex, st, av, rt, n, dst, args):
    st.frames[-1].regs[dst] = z3.BitVec('hr', 8)
    st.pc.append(z3.ULE(z3.BitVec('hr', 8), 1))
def fmtfn(ex, st, av, rt, n, dst, args):
    desc = []; vals = []
    for a, v in zip(args, av):
        if a[2][0] != 'ptr': vals.append(ex.addr(st, v) if isinstance(v, (Ptr, FnPtr)) else v); desc.append('v'); continue
        if isinstance(v, FnPtr): desc.append(v.name); continue
        p = ex.to_ptr(st, v) if not isinstance(v, Ptr) else v
        if not isinstance(p, Ptr): desc.append('?'); vals.append(v); continue
        o = st.mem.get(p.obj)
        if p.obj in ('F', 'A') : desc.append((p.obj, str(p.off))); continue
        if o is None: o = ex.obj(st, p.obj) if hasattr(ex, 'obj') else None
        if o is None: desc.append(p.obj); continue
        if o.const or o.kind == 'const': desc.append(('const', const_text(ex, p))); continue
        k = ex.key(p.off)
        n_ = (o.size or 0) - k[1]
        b = ex.addr(st, ex.raw_load(st, o, k, n_)) if 0 < n_ <= 64 else 0
        desc.append(('mem', n_)); vals.append(b)
    st.ev.append(Ev('CALL', r=tuple(vals), extra=('fmt', canon(n), tuple(desc)), npc=len(st.pc)))
    if dst is not None:
        w = ex.bits(rt)
        v = z3.BitVec('fmt_ret%d' % ncalls(st), 8); st.pc.append(z3.ULE(v, 1)); 
        st.frames[-1].regs[dst] = simp(v == 1) if w == 1 else zext(v, 8, w) if w > 8 else v
def canon(n): return n
def const_text(ex, p):
    g = ex.globs.get(p.obj)
    return repr(g['init'])[:300] if g else p.obj

def run(t, ty, op, mode, x=None):
    ex = t.ex
    st, c = t.setup(ty, op, mode, 0, 0)
    F = ex.new_obj(st, 'F', 64, 16)
    for i in range(64): F.cells[(None, i)] = (1, z3.BitVec('formatter_%d' % i, 8))
    f = st.frames[0].fn; ps = [p for p in f.params]
    fr = st.frames[0]
    # third parameter: formatter / result words
    k = ps[2][0] if isinstance(ps[2], tuple) and isinstance(ps[2][0], str) else None
    for r, v in list(fr.regs.items()):
        if isinstance(v, Ptr) and v.obj == 'Y': fr.regs[r] = Ptr('F', 0)
    ex.spurious = mode != 'seq'; ex.de_wide = ty.w == 128 and ty.kind == 'int'
    c.paths = ex.run(st)
    for p in c.paths:
        t.finish(p, c)
        if p.status == 'ret':
            o = p.mem['F']; p.words = ex.addr(p, ex.raw_load(p, o, (None, 0), 64))
    return c

def calls(p): return [e for e in p.ev if e.kind == 'CALL']
def num(v):
    return v
def same(e, f):
    if e.extra != f.extra: return False
    a = e.r if isinstance(e.r, tuple) else (e.r,); b = f.r if isinstance(f.r, tuple) else (f.r,)
    if len(a) != len(b): return False
    cs = []
    for u, v in zip(a, b):
        if isz(u) or isz(v):
            w = u.size() if isz(u) else v.size()
            if isz(u) and isz(v) and u.size() != v.size(): return False
            cs.append(EQ(u, v, w))
        elif u != v: return False
    return AND(*cs)

def judge(t, ty, op, mode):
    """the operation on the atomic does what the operation on the plain value does, for a value read by one atomic load"""
    r = ops.R(t.cfg.name, ty.name, op, mode)
    ex = t.ex
    def rename(e):
        return core.rename_cpu(e, '~') if False else e
    try:
        cp = run(t, ty, op + '_plain', 'seq')
        plain = []
        for p in cp.paths:
            if p.status == 'cannot': r.i('plain: %s' % p.why); continue
            plain.append(p)
        c = run(t, ty, op, mode)
    except CannotEncode as e: r.i('cannot encode: %s' % e); return r
    for p in c.paths:
        if not ops.common(t, c, p, r, mode == 'seq'):
            continue
        if any(e.obj == 'A' and e.kind in 'WU' and not noop(t, p, e, c) for e in p.ev):
            r.v('writes the object', ops.pmodel(p), c, p, kind='show'); continue
        if op == 'de': reads = [None]
        elif mode == 'seq': reads = [c.old]
        else:
            if any(e.obj != 'A' for e in ops.touched(t, p)): r.skipped += 1; continue      # lock-based: judged sequentially
            reads = []
            for e in p.ev:
                if e.obj == 'A' and e.kind in 'RU' and e.atomic and core.full(e, c) == 'full': reads.append(core.num(t, p, e.r))
            if not reads: 
                if calls(p) or True: r.v('no atomic load of the object', ops.pmodel(p), c, p, kind='show'); continue
        # for some read value, every compatible plain path agrees
        best = None
        alts = []
        for rd in reads:
            bad = []
            for q in plain:
                def sub(f): return z3.substitute(f, (cp.x, B(rd, ty.w))) if isz(f) and rd is not None and isz(cp.x) else f
                qpc = [sub(x) for x in q.pc]
                if q.status != 'ret': agree = False
                else:
                    ca, cq = calls(p), calls(q)
                    if len(ca) != len(cq): agree = False
                    else:
                        l = [same(a, SubEv(b, sub)) for a, b in zip(ca, cq)]
                        agree = False if any(x is False for x in l) else AND(*l)
                        if agree is not False:
                            res = [EQ(p.flag, sub(q.flag) if isz(q.flag) else q.flag, 8), EQ(p.words, sub(B(q.words, 512)), 512)]
                            if p.out is not None or q.out is not None:
                                if p.out is None or q.out is None: res.append(False)
                                else: res.append(EQ(p.out, sub(q.out) if isz(q.out) else q.out, ty.w))
                            agree = AND(agree, *res)
                bad.append(AND(*qpc, NOT(agree)))
            alts.append(OR(*bad) if bad else False)
        r.judged += 1
        s, m = solve(p.pc + [x for x in alts if x is not True], model=True)
        if s == 'sat': r.v('differs from the same operation on the value read', m, c, p, kind='show')
        elif s != 'unsat': r.i('solver undecided')
    r.note['plain'] = len(plain)
    return r
class SubEv:
    def __init__(s, e, sub):
        s.extra = e.extra; s.r = tuple(sub(x) for x in e.r) if isinstance(e.r, tuple) else sub(e.r)
def noop(t, p, e, c):
    """an update that leaves the contents as they were (loads built from compare-exchange)"""
    if e.kind != 'U': return False
    return solve(p.pc + [NOT(EQ(core.num(t, p, e.r), core.num(t, p, e.w), 8 * e.size))]) == 'unsat'
