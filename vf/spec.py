"""Specifications of the public operations and generation of the harness that exposes each of them as one symbol.

Every harness function has the signature
    unsafe fn vf__<Type>__<op>(a: *const Atomic, x: *const V, y: *const V, out: *mut V, o: u8, o2: u8, b: u32) -> u8
so the executor passes arguments through small private memory objects on every target alike."""
from .sym import *

ORDER = ['Relaxed', 'Release', 'Acquire', 'AcqRel', 'SeqCst']
LLVM_ORD = {'Relaxed': 'monotonic', 'Release': 'release', 'Acquire': 'acquire', 'AcqRel': 'acq_rel', 'SeqCst': 'seq_cst'}

class Ty:
    def __init__(s, name, rust, val, w, kind, signed=False, elem=1):
        s.name = name; s.rust = rust; s.val = val; s.w = w; s.kind = kind; s.signed = signed; s.elem = elem
    @property
    def bytes(s): return s.w // 8

def types(pw, f16=False, f128=False, which=('int', 'bool', 'ptr', 'float')):
    out = []
    if 'int' in which:
        for w in (8, 16, 32, 64, 128):
            out.append(Ty('AtomicI%d' % w, 'AtomicI%d' % w, 'i%d' % w, w, 'int', True))
            out.append(Ty('AtomicU%d' % w, 'AtomicU%d' % w, 'u%d' % w, w, 'int', False))
        out.append(Ty('AtomicIsize', 'AtomicIsize', 'isize', pw, 'int', True))
        out.append(Ty('AtomicUsize', 'AtomicUsize', 'usize', pw, 'int', False))
    if 'bool' in which:
        out.append(Ty('AtomicBool', 'AtomicBool', 'bool', 8, 'bool'))
    if 'ptr' in which:
        for nm, t, e in (('AtomicPtrU8', 'u8', 1), ('AtomicPtrU64', 'u64', 8), ('AtomicPtrUnit', '()', 0), ('AtomicPtrOdd', '[u8; 3]', 3), ('AtomicPtrBig', '[u32; 25]', 100)):
            out.append(Ty(nm, 'AtomicPtr<%s>' % t, '*mut %s' % t, pw, 'ptr', elem=e))
    if 'float' in which:
        if f16: out.append(Ty('AtomicF16', 'AtomicF16', 'f16', 16, 'float'))
        out.append(Ty('AtomicF32', 'AtomicF32', 'f32', 32, 'float'))
        out.append(Ty('AtomicF64', 'AtomicF64', 'f64', 64, 'float'))
        if f128: out.append(Ty('AtomicF128', 'AtomicF128', 'f128', 128, 'float'))
    return out

# ---- operations: name -> (body template, order kind, argument list)
# order kinds: load | store | rmw | cas | upd | none
RES = 'match {} {{ Ok(v) => {{ *out = v; 1 }} Err(v) => {{ *out = v; 0 }} }}'
def ret(e): return '*out = %s; 0' % e
def unit(e): return '%s; 0' % e
COMMON = {
    'load': (ret('a.load(ord(o))'), 'load', ''),
    'store': (unit('a.store(*x, ord(o))'), 'store', 'x'),
    'swap': (ret('a.swap(*x, ord(o))'), 'rmw', 'x'),
    'compare_exchange': (RES.format('a.compare_exchange(*x, *y, ord(o), ord(o2))'), 'cas', 'xy'),
    'compare_exchange_weak': (RES.format('a.compare_exchange_weak(*x, *y, ord(o), ord(o2))'), 'cas', 'xy'),
    'fetch_update': (RES.format('a.fetch_update(ord(o), ord(o2), |v| upd(v))'), 'upd', ''),
}
RMW_R = ['add', 'sub', 'and', 'nand', 'or', 'xor', 'max', 'min']
RMW_N = ['not', 'neg']
INT = {}
for n in RMW_R: INT['fetch_' + n] = (ret('a.fetch_%s(*x, ord(o))' % n), 'rmw', 'x')
for n in RMW_N: INT['fetch_' + n] = (ret('a.fetch_%s(ord(o))' % n), 'rmw', '')
for n in ('add', 'sub', 'and', 'or', 'xor'): INT[n] = (unit('a.%s(*x, ord(o))' % n), 'rmw', 'x')
for n in ('not', 'neg'): INT[n] = (unit('a.%s(ord(o))' % n), 'rmw', '')
BITS = {}
for n in ('bit_set', 'bit_clear', 'bit_toggle'): BITS[n] = ('a.%s(b, ord(o)) as u8' % n, 'rmw', 'b')
BOOL = {}
for n in ('and', 'nand', 'or', 'xor'): BOOL['fetch_' + n] = (ret('a.fetch_%s(*x, ord(o))' % n), 'rmw', 'x')
BOOL['fetch_not'] = (ret('a.fetch_not(ord(o))'), 'rmw', '')
for n in ('and', 'or', 'xor'): BOOL[n] = (unit('a.%s(*x, ord(o))' % n), 'rmw', 'x')
BOOL['not'] = (unit('a.not(ord(o))'), 'rmw', '')
PTR = {}
for n in ('ptr_add', 'ptr_sub', 'byte_add', 'byte_sub'): PTR['fetch_' + n] = (ret('a.fetch_%s(*x as usize, ord(o))' % n), 'rmw', 'x')
for n in ('or', 'and', 'xor'): PTR['fetch_' + n] = (ret('a.fetch_%s(*x as usize, ord(o))' % n), 'rmw', 'x')
FLOAT = {}
for n in ('add', 'sub', 'max', 'min'): FLOAT['fetch_' + n] = (ret('a.fetch_%s(*x, ord(o))' % n), 'rmw', 'x')
for n in ('neg', 'abs'): FLOAT['fetch_' + n] = (ret('a.fetch_%s(ord(o))' % n), 'rmw', '')
MISC = {
    'new': ('core::ptr::write(a as *const T as *mut T, T::new(*x)); 0', 'none', 'x'),
    'get_mut': ('let m = (*(a as *const T as *mut T)).get_mut(); *out = *m; *m = *x; 0', 'none', 'x'),
    'into_inner': ('*out = core::ptr::read(a).into_inner(); 0', 'none', ''),
    'as_ptr': ('*out = *a.as_ptr(); *a.as_ptr() = *x; 0', 'none', 'x'),
    'from_ptr': ('let r = T::from_ptr(a as *const T as *mut V); core::ptr::eq(r, a) as u8', 'none', ''),
    'is_lock_free': ('let _ = a; T::is_lock_free() as u8', 'none', ''),
    'is_always_lock_free': ('let _ = a; T::is_always_lock_free() as u8', 'none', ''),
    'layout': ('let _ = a; (core::mem::size_of::<T>() == core::mem::size_of::<V>() && core::mem::align_of::<T>() == core::mem::size_of::<V>()) as u8', 'none', ''),
    'default': ('core::ptr::write(a as *const T as *mut T, T::default()); 0', 'none', ''),
    'from': ('core::ptr::write(a as *const T as *mut T, T::from(*x)); 0', 'none', 'x'),
}
def ops_for(ty):
    d = dict(COMMON)
    if ty.kind == 'int': d.update(INT); d.update(BITS)
    elif ty.kind == 'bool': d.update(BOOL)
    elif ty.kind == 'ptr': d.update(PTR); d.update(BITS)
    elif ty.kind == 'float': d.update(FLOAT)
    d.update(MISC)
    if ty.kind == 'float':
        ity = {16: 'u16', 32: 'u32', 64: 'u64', 128: 'u128'}[ty.w]
        d['as_bits'] = ('let i = a.as_bits(); *(out as *mut %s) = i.load(Ordering::Relaxed); ((i as *const _ as *const u8) == (a as *const T as *const u8)) as u8' % ity, 'none', '')
        d['new'] = d['new']
    return d

def harness(tys, ops=None, std=True, features=()):
    L = ['#![allow(warnings)]', '#![no_std]']
    for f in features: L.append('#![feature(%s)]' % f)
    L.append('use portable_atomic::*; use core::sync::atomic::Ordering;')
    L.append('#[inline(always)] fn ord(o: u8) -> Ordering { match o { 0 => Ordering::Relaxed, 1 => Ordering::Release, 2 => Ordering::Acquire, 3 => Ordering::AcqRel, _ => Ordering::SeqCst } }')
    L.append('extern "C" { fn vf_closure(old: *const u8, new: *mut u8) -> u8; }')
    L.append('#[inline(always)] unsafe fn upd_<V: Copy>(v: V) -> Option<V> { let mut n = core::mem::MaybeUninit::<V>::uninit(); if vf_closure(&v as *const V as *const u8, n.as_mut_ptr() as *mut u8) != 0 { Some(n.assume_init()) } else { None } }')
    for ty in tys:
        L.append('mod m_%s { use super::*; type T = %s; type V = %s; #[inline(always)] fn upd(v: V) -> Option<V> { unsafe { upd_::<V>(v) } }' % (ty.name.lower(), ty.rust, ty.val))
        for n, (body, ok, args) in ops_for(ty).items():
            if ops is not None and n not in ops: continue
            L.append('#[no_mangle] pub unsafe fn vf__%s__%s(a: *const T, x: *const V, y: *const V, out: *mut V, o: u8, o2: u8, b: u32) -> u8 { let a = &*a; %s }' % (ty.name, n, body))
        L.append('}')
    if ops is None or 'fence' in ops:
        L.append('#[no_mangle] pub unsafe fn vf__fence(o: u8) { fence(ord(o)) }')
        L.append('#[no_mangle] pub unsafe fn vf__compiler_fence(o: u8) { compiler_fence(ord(o)) }')
        L.append('#[no_mangle] pub unsafe fn vf__spin_loop() { hint::spin_loop() }')
    return '\n'.join(L) + '\n'

# ---- semantics
def fmaxmin(r, x, w, mx):
    return None

def new_value(ty, op, r, x, b):
    """documented new value for a read-modify-write (not compare-exchange / fetch_update / float arithmetic)"""
    w = ty.w; n = op[6:] if op.startswith('fetch_') else op
    if op == 'load': return r
    if op in ('store', 'swap'): return x
    if ty.kind == 'bool':
        one = 1
        if n in ('and', 'or', 'xor'): return binop(n, r, x, w)
        if n == 'nand': return binop('xor', binop('and', r, x, w), one, w)
        if n == 'not': return binop('xor', r, one, w)
    if ty.kind == 'ptr':
        if n in ('ptr_add', 'ptr_sub'):
            return binop(n[4:], r, binop('mul', x, ty.elem, w), w)
        if n in ('byte_add', 'byte_sub'): return binop(n[5:], r, x, w)
    if ty.kind == 'float':
        if n == 'neg': return binop('xor', r, 1 << (w - 1), w)
        if n == 'abs': return binop('and', r, M(w) >> 1, w)
    if n in ('add', 'sub', 'and', 'or', 'xor'): return binop(n, r, x, w)
    if n == 'nand': return binop('xor', binop('and', r, x, w), M(w), w)
    if n == 'max': return ITE(cmpop('sgt' if ty.signed else 'ugt', r, x, w), r, x, w)
    if n == 'min': return ITE(cmpop('slt' if ty.signed else 'ult', r, x, w), r, x, w)
    if n == 'not': return binop('xor', r, M(w), w)
    if n == 'neg': return binop('sub', 0, r, w)
    if n in ('bit_set', 'bit_clear', 'bit_toggle'):
        m = binop('shl', 1, bitidx(b, w), w)
        if n == 'bit_set': return binop('or', r, m, w)
        if n == 'bit_toggle': return binop('xor', r, m, w)
        return binop('and', r, binop('xor', m, M(w), w), w)
    raise KeyError(op)
def bitidx(b, w):
    i = binop('urem', b, w, 32)     # widths are powers of two
    return zext(i, 32, w) if w > 32 else trunc(i, w)

def is_nan(v, w): return z3.fpIsNaN(fp_of(v, w))
def float_new(ty, op, r, x, nv):
    """condition: nv is an acceptable new value of fetch_{add,sub,max,min}"""
    w = ty.w; a, c = fp_of(r, w), fp_of(x, w); R, X, N = B(r, w), B(x, w), B(nv, w)
    n = op[6:]
    if n in ('add', 'sub'):
        e = z3.fpAdd(z3.RNE(), a, c) if n == 'add' else z3.fpSub(z3.RNE(), a, c)
        return z3.And(z3.fpIsNaN(fp_of(N, w)) == z3.fpIsNaN(e), z3.Or(z3.fpIsNaN(e), fp_of(N, w) == e))
    mx = n == 'max'
    na, nc = z3.fpIsNaN(a), z3.fpIsNaN(c)
    gt = z3.fpGT(a, c) if mx else z3.fpLT(a, c)
    nn = z3.fpIsNaN(fp_of(N, w))
    quiet = z3.BitVecVal(1 << {16: 9, 32: 22, 64: 51, 128: 111}[w], w)
    sa = z3.And(na, (R & quiet) == 0); sc = z3.And(nc, (X & quiet) == 0)
    return z3.And(z3.Implies(z3.And(na, nc), nn),
                  z3.Implies(z3.And(na, z3.Not(nc)), z3.Or(N == X, z3.And(sa, nn))),
                  z3.Implies(z3.And(nc, z3.Not(na)), z3.Or(N == R, z3.And(sc, nn))),
                  z3.Implies(z3.And(z3.Not(na), z3.Not(nc)), z3.If(z3.fpEQ(a, c), z3.Or(N == R, N == X), N == z3.If(gt, R, X))))

def float_same(ty, op, r, x, nv, recs):
    """structural (sufficient) form of float_new: nv is a recorded result of the very operation on the very operands"""
    W = ty.w; o = 'f' + op[6:]; alts = []
    for res, tag, _ in recs:
        if tag is None or tag[0] != o: continue
        a, c = tag[1], tag[2]
        alts.append(AND(EQ(nv, res, W), EQ(a, r, W), EQ(c, x, W)))
        if o != 'fsub': alts.append(AND(EQ(nv, res, W), EQ(a, x, W), EQ(c, r, W)))
    return OR(*alts) if alts else False

def outcome(ty, op, r, w, ret, flag, x, y, b, recs=None):
    """condition under which reading r, (not) writing w (None = no write) and answering ret/flag is what the documentation says"""
    W = ty.w
    nv = r if w is None else w
    if op in ('compare_exchange', 'compare_exchange_weak'):
        eq = EQ(r, x, W)
        ok = AND(eq, EQ(flag, 1, 8), EQ(ret, r, W), EQ(nv, y, W))
        fail = AND(EQ(flag, 0, 8), EQ(ret, r, W), EQ(nv, r, W))
        if op == 'compare_exchange': fail = AND(NOT(eq), fail)
        return OR(ok, fail)
    if ty.kind == 'float' and op in ('fetch_add', 'fetch_sub', 'fetch_max', 'fetch_min'):
        f = float_same(ty, op, r, x, nv, recs) if recs is not None else float_new(ty, op, r, x, nv)
        return AND(f, EQ(ret, r, W))
    c = EQ(nv, new_value(ty, op, r, x, b), W)
    if op.startswith('bit_'):
        bit = extract(binop('lshr', r, bitidx(b, W), W), 0, 0)
        return AND(c, EQ(flag, zext(bit, 1, 8), 8))
    if op.startswith('fetch_') or op in ('load', 'swap'):
        return AND(c, EQ(ret, r, W))
    return c
