"""x86/x86_64 inline assembly (Intel syntax) semantics."""
import re, z3
from .sym import *
from .asmbase import *

R64 = {}
def _mk():
    for a in 'abcd':
        n = 'r%sx' % a
        R64[n] = (n, 64, 0); R64['e%sx' % a] = (n, 32, 0); R64['%sx' % a] = (n, 16, 0); R64['%sl' % a] = (n, 8, 0); R64['%sh' % a] = (n, 8, 8)
    for a in ('si', 'di', 'bp', 'sp'):
        n = 'r' + a
        R64[n] = (n, 64, 0); R64['e' + a] = (n, 32, 0); R64[a] = (n, 16, 0); R64[a + 'l'] = (n, 8, 0)
    for i in range(8, 16):
        n = 'r%d' % i
        R64[n] = (n, 64, 0); R64[n + 'd'] = (n, 32, 0); R64[n + 'w'] = (n, 16, 0); R64[n + 'b'] = (n, 8, 0)
    for i in range(32):
        R64['xmm%d' % i] = ('xmm%d' % i, 128, 0)
_mk()
MODW = {'q': 64, 'k': 32, 'w': 16, 'b': 8, 'h': (8, 8), 'x': 128, 't': 256, '': None}
SIZES = {'byte': 1, 'word': 2, 'dword': 4, 'qword': 8, 'xmmword': 16, 'oword': 16}

class X86(AsmArch):
    name = 'x86'
    comment = '#'
    def __init__(self, bits=64): self.word = bits; self.bits = bits; self.name = 'x86_64' if bits == 64 else 'x86'
    def canon(self, r):
        return R64[r][0] if r in R64 else r
    def regwidth(self, r): return 128 if r.startswith('xmm') or r.endswith('$v') else self.word
    def is_vec(self, c): return c in ('x', 'v', 'Yz')

    def lines(self, t):
        t = t.replace('#', ' imm ') if False else t
        return AsmArch.lines(self, t)

    # ---- operand handling
    def reg(self, fr, s):
        """-> (phys, width, shift) or None"""
        m = re.match(r'^%(\d+):(\w?)%$', s)
        if m:
            o = fr.alloc[int(m.group(1))]; w = MODW[m.group(2)]
            sh = 0
            if isinstance(w, tuple): w, sh = w
            if w is None:
                w = 128 if self.is_vec(o.cons) else None
                if w is None:
                    t = o.ty; w = self.word if t[0] == 'ptr' else (t[1] if t[0] in ('i', 'f') else self.word)
                    if o.cons == 'q': w = 8
            return (o.reg, w, sh)
        s = s.lower()
        if s in R64: return R64[s]
        return None
    def get(self, ex, st, fr, r):
        n, w, sh = r
        W = self.regwidth(n)
        v = fr.regs.get(n)
        if v is None:
            v = fresh('reg_' + n, W); fr.regs[n] = v; fr.init.setdefault(n, v)
        if w == W and sh == 0: return v
        return extract(ex.addr(st, v), sh + w - 1, sh)
    def put(self, ex, st, fr, r, v):
        n, w, sh = r
        W = self.regwidth(n)
        fr.written.add(n)
        if n not in fr.init: fr.init[n] = self.get(ex, st, fr, (n, W, 0))
        if w == W: fr.regs[n] = v
        elif w == 32 and W == 64: fr.regs[n] = zext(v, 32, 64)
        else:
            old = ex.addr(st, self.get(ex, st, fr, (n, W, 0)))
            parts = []
            if sh + w < W: parts.append(B(extract(old, W - 1, sh + w), W - sh - w))
            parts.append(B(v, w))
            if sh: parts.append(B(extract(old, sh - 1, 0), sh))
            fr.regs[n] = simp(z3.Concat(*parts)) if len(parts) > 1 else v
    def mem(self, ex, st, fr, s):
        """'qword ptr [reg]' -> (Ptr, size) or None"""
        m = re.match(r'^(?:(\w+)\s+ptr\s+)?\[(.*)\]$', s.strip(), re.I)
        if not m: return None
        size = SIZES[m.group(1).lower()] if m.group(1) else None
        e = m.group(2).replace(' ', '')
        p = None; off = 0
        for sign, tok in re.findall(r'([+-]?)([^+-]+)', e):
            r = self.reg(fr, tok)
            if r is not None:
                if r[1] != self.word:
                    raise CannotEncode('address register %s has width %d' % (tok, r[1]))
                v = self.get(ex, st, fr, r)
                if p is None: p = v
                else: p = ex.ptr_add(p, ex.addr(st, v))
            else:
                off += int(tok, 0) * (-1 if sign == '-' else 1)
        p = ex.to_ptr(st, p)
        if off: p = ex.ptr_add(p, off)
        return p, size
    def imm(self, s):
        try: return int(s, 0)
        except ValueError: return None
    def value(self, ex, st, fr, s, w=None):
        r = self.reg(fr, s)
        if r: return self.get(ex, st, fr, r), r[1]
        i = self.imm(s)
        if i is not None: return i & M(w or self.word), w
        m = self.mem(ex, st, fr, s)
        if m: raise CannotEncode('memory operand as value')
        raise CannotEncode('x86 operand ' + s)
    def setf(self, fr, **kw):
        fr.flags.update(kw); fr.written.add('flags')
    def logicf(self, fr, v, w):
        self.setf(fr, cf=False, of=False, zf=EQ(v, 0, w), sf=simp(C(extract(v, w - 1, w - 1))), pf=None, af=None)
    def addf(self, fr, a, b, r, w, sub=False):
        if sub:
            cf = cmpop('ult', a, b, w)
            of = extract(binop('and', binop('xor', a, b, w), binop('xor', a, r, w), w), w - 1, w - 1)
        else:
            cf = cmpop('ult', r, a, w)
            of = extract(binop('and', binop('xor', a, r, w), binop('xor', b, r, w), w), w - 1, w - 1)
        self.setf(fr, cf=C(cf), zf=EQ(a, b, w) if sub else EQ(r, 0, w), sf=simp(C(extract(r, w - 1, w - 1))), of=simp(C(of)))
    def cond(self, fr, cc):
        f = fr.flags
        def g(k):
            v = f.get(k)
            if v is None: v = freshb('flag_' + k); f[k] = v
            return v
        t = {'e': lambda: g('zf'), 'z': lambda: g('zf'), 'b': lambda: g('cf'), 'c': lambda: g('cf'), 's': lambda: g('sf'), 'o': lambda: g('of'),
             'nae': lambda: g('cf'), 'be': lambda: OR(g('cf'), g('zf')), 'l': lambda: binop('xor', g('sf'), g('of'), 1),
             'le': lambda: OR(g('zf'), binop('xor', g('sf'), g('of'), 1))}
        neg = {'ne': 'e', 'nz': 'z', 'nb': 'b', 'nc': 'c', 'ae': 'b', 'ns': 's', 'no': 'o', 'a': 'be', 'nbe': 'be', 'ge': 'l', 'nl': 'l', 'g': 'le', 'nle': 'le'}
        if cc in t: return simp(t[cc]())
        if cc in neg: return NOT(simp(t[neg[cc]]()))
        raise CannotEncode('cc ' + cc)

    def exec(self, ex, st, fr, mn, rest):
        lock = False
        if mn == 'lock':
            lock = True
            m = re.match(r'^(\S+)\s*(.*)$', rest); mn, rest = m.group(1).lower(), m.group(2)
        ops = splitops(rest)
        g = lambda r: self.get(ex, st, fr, r)
        tag = 'asm:x86'
        if lock and mn not in ('cmpxchg16b', 'cmpxchg8b', 'cmpxchg', 'xadd', 'add', 'sub', 'and', 'or', 'xor', 'not', 'neg', 'inc', 'dec', 'bts', 'btr', 'btc', 'xchg'):
            self.unknown('lock ' + mn, rest)
        if mn == 'mfence':
            st.ev.append(Ev('F', ord='mfence', src=tag, npc=len(st.pc))); return
        if mn in ('nop', 'pause'): return
        if mn == 'xchg':
            a, b = ops
            ra, rb = self.reg(fr, a), self.reg(fr, b)
            if ra and rb:
                va, vb = g(ra), g(rb); self.put(ex, st, fr, ra, vb); self.put(ex, st, fr, rb, va); return
            if rb is None: a, b, ra, rb = b, a, rb, ra
            p, size = self.mem(ex, st, fr, a)
            if size is not None and size * 8 != rb[1]: raise CannotEncode('xchg size mismatch')
            n = rb[1] // 8; v = g(rb)
            r = ex.rmw(st, p, n, lambda old: v, ord='x86lock', src=tag)
            self.put(ex, st, fr, rb, ex.addr(st, r) if not isinstance(r, Ptr) else r)
            return
        if mn in ('cmpxchg16b', 'cmpxchg8b'):
            n = 16 if mn == 'cmpxchg16b' else 8; h = n * 4
            ex.need(st, 'cmpxchg16b' if n == 16 else 'cx8')
            p, size = self.mem(ex, st, fr, ops[0])
            nm = ('rax', 'rdx', 'rbx', 'rcx')
            a, d, b, c = [ex.addr(st, g((x, h, 0))) for x in nm]
            exp = cat(d, a, h); new = cat(c, b, h)
            al = ex.aligned(st, p, n)
            out = []
            for s, r, ok in ex.cas(st, p, n, exp, new, 'x86lock' if lock else 'plain', 'x86lock' if lock else 'plain', src=tag + ('' if lock else ':nolock')):
                f2 = s.asmframe
                r = ex.addr(s, r)
                if not ok:
                    self.put(ex, s, f2, ('rax', h, 0), extract(r, h - 1, 0)); self.put(ex, s, f2, ('rdx', h, 0), extract(r, 2 * h - 1, h))
                if not lock and s.ev and s.ev[-1].obj == ex.resolve(s, p, 'x').obj: s.ev[-1].atomic = False
                f2.flags['zf'] = ok; f2.written.add('flags')
                out.append(s)
            return out
        if mn == 'cmpxchg':
            p, size = self.mem(ex, st, fr, ops[0]); r2 = self.reg(fr, ops[1]); w = r2[1]; n = w // 8
            a = ex.addr(st, g(('rax', w, 0))); nv = ex.addr(st, g(r2))
            out = []
            for s, r, ok in ex.cas(st, p, n, a, nv, 'x86lock' if lock else 'plain', 'x86lock' if lock else 'plain', src=tag):
                f2 = s.asmframe; r = ex.addr(s, r)
                if not ok: self.put(ex, s, f2, ('rax', w, 0), r)
                if not lock and s.ev: s.ev[-1].atomic = False
                f2.flags.update(zf=ok, cf=freshb('cf'), sf=freshb('sf'), of=freshb('of')); f2.written.add('flags')
                out.append(s)
            return out
        if mn in ('add', 'sub', 'and', 'or', 'xor', 'not', 'neg', 'inc', 'dec', 'xadd', 'bts', 'btr', 'btc', 'cmp', 'test', 'adc', 'sbb'):
            d = ops[0]; rd = self.reg(fr, d)
            pm = None
            if rd is None:
                pm, size = self.mem(ex, st, fr, d)
                w = size * 8 if size else self.reg(fr, ops[1])[1]
            else: w = rd[1]
            src = None
            if len(ops) > 1:
                rs = self.reg(fr, ops[1])
                if rs is not None:
                    if mn not in () and rs[1] != w: raise CannotEncode('%s operand size mismatch' % mn)
                    src = ex.addr(st, g(rs))
                else:
                    iv = self.imm(ops[1])
                    if iv is None:
                        if mn in ('cmp', 'test', 'add', 'sub', 'and', 'or', 'xor') and rd is not None:
                            p2, s2 = self.mem(ex, st, fr, ops[1]); src = ex.addr(st, ex.load(st, p2, w // 8, ord='plain', atomic=True, src=tag))
                        else: raise CannotEncode('x86 source ' + ops[1])
                    else: src = iv & M(w)
            if mn == 'xor' and rd is not None and ops[1:] == [d]:
                self.put(ex, st, fr, rd, 0); self.logicf(fr, 0, w); return
            def f(old):
                old = ex.addr(st, old)
                if mn in ('add', 'xadd'): r = binop('add', old, src, w); self.addf(fr, old, src, r, w)
                elif mn in ('sub', 'cmp'): r = binop('sub', old, src, w); self.addf(fr, old, src, r, w, True)
                elif mn in ('and', 'or', 'xor'): r = binop(mn, old, src, w); self.logicf(fr, r, w)
                elif mn in ('adc', 'sbb'):
                    cin = self.cond(fr, 'c'); ci = int(cin) if isinstance(cin, bool) else simp(B(cin, w))
                    o = 'add' if mn == 'adc' else 'sub'
                    wide = binop(o, binop(o, zext(old, w, w + 2), zext(src, w, w + 2), w + 2), zext(ci, w, w + 2), w + 2)
                    swide = binop(o, binop(o, sext(old, w, w + 2), sext(src, w, w + 2), w + 2), zext(ci, w, w + 2), w + 2)
                    r = trunc(wide, w)
                    self.setf(fr, cf=simp(C(extract(wide, w, w))), zf=EQ(r, 0, w), sf=simp(C(extract(r, w - 1, w - 1))),
                              of=NOT(EQ(sext(r, w, w + 2), swide, w + 2)))
                elif mn == 'test': r = binop('and', old, src, w); self.logicf(fr, r, w)
                elif mn == 'not': r = binop('xor', old, M(w), w)
                elif mn == 'neg': r = binop('sub', 0, old, w); self.addf(fr, 0, old, r, w, True)
                elif mn in ('inc', 'dec'):
                    cf = fr.flags.get('cf'); r = binop('add' if mn == 'inc' else 'sub', old, 1, w); self.addf(fr, old, 1, r, w, mn == 'dec'); fr.flags['cf'] = cf
                elif mn in ('bts', 'btr', 'btc'):
                    bit = binop('shl', 1, binop('and', src, w - 1, w), w)
                    cf = NOT(EQ(binop('and', old, bit, w), 0, w))
                    self.setf(fr, cf=cf, of=None, sf=None)
                    r = {'bts': lambda: binop('or', old, bit, w), 'btr': lambda: binop('and', old, binop('xor', bit, M(w), w), w), 'btc': lambda: binop('xor', old, bit, w)}[mn]()
                return r
            if pm is not None:
                n = w // 8
                if mn in ('bts', 'btr', 'btc') and isz(src):
                    # with a memory operand and register bit index the addressed word is base + (index / w) words
                    if solve(st.pc + [z3.UGE(src, w)]) != 'unsat': raise CannotEncode('bit index may address outside of the operand')
                if mn in ('cmp', 'test'):
                    f(ex.load(st, pm, n, ord='plain', atomic=True, src=tag)); return
                if lock:
                    r = ex.rmw(st, pm, n, f, ord='x86lock', src=tag)
                else:
                    r = ex.load(st, pm, n, ord='plain', atomic=True, src=tag)
                    ex.store(st, pm, n, f(r), ord='plain', atomic=True, src=tag)
                if mn == 'xadd': self.put(ex, st, fr, self.reg(fr, ops[1]), ex.addr(st, r))
                return
            old = ex.addr(st, g(rd)); r = f(old)
            if mn in ('cmp', 'test'): return
            self.put(ex, st, fr, rd, r)
            if mn == 'xadd': self.put(ex, st, fr, self.reg(fr, ops[1]), old)
            return
        if mn == 'mov':
            rd, rs = self.reg(fr, ops[0]), self.reg(fr, ops[1])
            if rd and rs:
                if rd[1] != rs[1]: raise CannotEncode('mov size mismatch')
                self.put(ex, st, fr, rd, g(rs)); return
            if rd:
                iv = self.imm(ops[1])
                if iv is not None: self.put(ex, st, fr, rd, iv & M(rd[1])); return
                p, size = self.mem(ex, st, fr, ops[1])
                self.put(ex, st, fr, rd, ex.load(st, p, rd[1] // 8, ord='plain', atomic=True, src=tag)); return
            p, size = self.mem(ex, st, fr, ops[0])
            w = rs[1] if rs else size * 8
            if size and size * 8 != w: raise CannotEncode('mov size mismatch')
            v = g(rs) if rs else self.imm(ops[1]) & M(w)
            ex.store(st, p, w // 8, v, ord='plain', atomic=True, src=tag); return
        if mn in ('vmovdqa', 'movdqa', 'vmovaps', 'movaps', 'vmovdqu', 'movdqu', 'movups', 'vmovups', 'vmovapd', 'movapd'):
            if mn[0] == 'v': ex.need(st, 'avx')
            rd, rs = self.reg(fr, ops[0]), self.reg(fr, ops[1])
            single = mn in ('vmovdqa', 'vmovaps', 'vmovapd', 'movdqa', 'movaps', 'movapd')
            if single: ex.need(st, 'avx', why='16-byte moves are only guaranteed to be single accesses with AVX')
            if rd and rs: self.put(ex, st, fr, rd, g(rs)); return
            if rd:
                p, size = self.mem(ex, st, fr, ops[1]); ex.aligned(st, p, 16)
                self.put(ex, st, fr, rd, ex.load(st, p, 16, ord='plain', atomic=True, single=single, src=tag)); return
            p, size = self.mem(ex, st, fr, ops[0]); ex.aligned(st, p, 16)
            ex.store(st, p, 16, g(rs), ord='plain', atomic=True, single=single, src=tag); return
        if mn in ('movq', 'vmovq', 'movlps', 'vmovlps', 'fild', 'fistp', 'movsd'):
            rd, rs = self.reg(fr, ops[0]), self.reg(fr, ops[1]) if len(ops) > 1 else None
            if mn in ('movq', 'vmovq'):
                if rd:
                    p, size = self.mem(ex, st, fr, ops[1])
                    self.put(ex, st, fr, rd, zext(ex.addr(st, ex.load(st, p, 8, ord='plain', atomic=True, src=tag)), 64, 128)); return
                p, size = self.mem(ex, st, fr, ops[0])
                ex.store(st, p, 8, trunc(g(rs), 64), ord='plain', atomic=True, src=tag); return
        if mn.startswith('cmov'):
            c = self.cond(fr, mn[4:]); rd, rs = self.reg(fr, ops[0]), self.reg(fr, ops[1]); w = rd[1]
            v = g(rs) if rs else ex.load(st, self.mem(ex, st, fr, ops[1])[0], w // 8, ord='plain', atomic=True, src=tag)
            self.put(ex, st, fr, rd, ITE(c, ex.addr(st, v), ex.addr(st, g(rd)), w)); return
        if mn in ('shl', 'shr', 'sar'):
            rd = self.reg(fr, ops[0]); w = rd[1]; k = self.imm(ops[1]) if len(ops) > 1 else 1
            if k is None: k = binop('and', zext(ex.addr(st, g(self.reg(fr, ops[1]))), 8, w), w - 1 if w == 64 else 31, w)
            self.put(ex, st, fr, rd, binop({'shl': 'shl', 'shr': 'lshr', 'sar': 'ashr'}[mn], ex.addr(st, g(rd)), k, w))
            fr.flags.clear(); fr.written.add('flags'); return
        if mn == 'lea':
            p, size = self.mem(ex, st, fr, ops[1]); self.put(ex, st, fr, self.reg(fr, ops[0]), p); return
        if mn in ('movzx', 'movsx'):
            rd, rs = self.reg(fr, ops[0]), self.reg(fr, ops[1])
            self.put(ex, st, fr, rd, (zext if mn == 'movzx' else sext)(ex.addr(st, g(rs)), rs[1], rd[1])); return
        if mn.startswith('set'):
            c = self.cond(fr, mn[3:]); rd = self.reg(fr, ops[0])
            self.put(ex, st, fr, (rd[0], 8, rd[2]), simp(B(c, 8)) if not isinstance(c, bool) else int(c)); return
        if mn == 'cpuid':
            leaf = g(('rax', 32, 0)); sub = g(('rcx', 32, 0))
            ex.ext['cpuid'](ex, st, fr, self, leaf, sub); return
        if mn == 'xgetbv':
            ex.ext['xgetbv_asm'](ex, st, fr, self, g(('rcx', 32, 0))); return
        if mn[0] == 'j':
            if mn == 'jmp': self.jump(ex, st, fr, ops[0]); return
            out = []
            for s, b in ex.branch(st, self.cond(fr, mn[1:])):
                if b: self.jump(ex, s, s.asmframe, ops[0])
                out.append(s)
            return out
        self.unknown(mn, rest)

    def intrinsic(self, ex, st, fr, dst, rt, n, av, args):
        if n == 'llvm.x86.xgetbv':
            fr.regs[dst] = ex.ext['xgetbv'](ex, st, av[0]); fr.i += 1; return None
        if n.startswith('llvm.x86.sse2.mfence'):
            st.ev.append(Ev('F', ord='mfence', src='llvm', npc=len(st.pc))); fr.i += 1; return None
        return NotImplemented
