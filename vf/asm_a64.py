"""AArch64 inline assembly semantics."""
import re, z3
from .sym import *
from .asmbase import *
from . import env

TAG = 'asm:a64'
CC = {'eq': 'z', 'cs': 'c', 'hs': 'c', 'mi': 'n', 'vs': 'v'}
INV = {'ne': 'eq', 'cc': 'cs', 'lo': 'cs', 'pl': 'mi', 'vc': 'vs', 'ls': 'hi', 'lt': 'ge', 'le': 'gt'}

class A64(AsmArch):
    name = 'aarch64'; comment = '//'; word = 64
    def canon(self, r):
        r = r.lower()
        if re.match(r'^w\d+$', r): return 'x' + r[1:]
        if r == 'wzr': return 'xzr'
        if r == 'lr': return 'x30'
        if r == 'fp': return 'x29'
        return r
    def regwidth(self, r): return 128 if r.endswith('$v') or re.match(r'^q\d+$', r) else 64
    def is_vec(self, c): return c == 'w'
    def lines(self, t):
        t = re.sub(r'//[^\n]*', '', t)
        return AsmArch.lines(self, t)

    # ---- operands
    def reg(self, fr, s):
        """-> (phys, width) or None"""
        m = re.match(r'^%(\d+):(\w?)%$', s)
        if m:
            o = fr.alloc[int(m.group(1))]
            return (o.reg, 32 if m.group(2) == 'w' else 64)
        s = s.lower()
        if s in ('lr',): return ('x30', 64)
        m = re.match(r'^([xw])(\d+|zr)$', s)
        if m: return ('x' + m.group(2), 64 if m.group(1) == 'x' else 32)
        if s == 'sp': return ('sp', 64)
        return None
    def get(self, ex, st, fr, r, raw=False):
        n, w = r
        if n == 'xzr': return 0
        v = fr.regs.get(n)
        if v is None:
            v = fresh('reg_' + n, 64); fr.regs[n] = v; fr.init.setdefault(n, v)
        if w == 64: return v if raw else ex.addr(st, v)
        return extract(ex.addr(st, v), w - 1, 0)
    def put(self, ex, st, fr, r, v):
        n, w = r
        if n == 'xzr': return
        if n not in fr.init: fr.init[n] = self.get(ex, st, fr, (n, 64))
        fr.written.add(n)
        fr.regs[n] = v if w == 64 else zext(v, w, 64)
    def imm(self, s):
        try: return int(s.lstrip('#'), 0)
        except ValueError: return None
    def shifted(self, v, sh, w):
        if not sh: return v
        m = re.match(r'^(lsl|lsr|asr|ror|uxtw|sxtw|uxtb|uxth)\s*#?(\d+)?$', sh.strip().lower())
        if not m: raise CannotEncode('a64 shift ' + sh)
        k = int(m.group(2) or 0)
        if m.group(1) == 'ror': return simp(z3.RotateRight(B(v, w), k))
        if m.group(1) in ('lsl', 'lsr', 'asr'): return binop({'lsl': 'shl', 'lsr': 'lshr', 'asr': 'ashr'}[m.group(1)], v, k, w)
        b = {'w': 32, 'b': 8, 'h': 16}[m.group(1)[3]]
        x = (zext if m.group(1)[0] == 'u' else sext)(extract(v, b - 1, 0), b, w) if b < w else v
        return binop('shl', x, k, w)
    def val(self, ex, st, fr, s, w):
        r = self.reg(fr, s)
        if r is not None:
            if r[1] != w: raise CannotEncode('register width mismatch: ' + s)
            return self.get(ex, st, fr, r)
        i = self.imm(s)
        if i is None: raise CannotEncode('a64 operand ' + s)
        return i & M(w)
    def mem(self, ex, st, fr, ops):
        """['[x, #imm]'] -> pointer (pre/post-index refused)"""
        if len(ops) != 1: raise CannotEncode('a64 addressing %s' % ops)
        m = re.match(r'^\[(.*)\](!)?$', ops[0].strip())
        if not m or m.group(2): raise CannotEncode('a64 addressing %s' % ops)
        a = splitops(m.group(1))
        b = self.reg(fr, a[0])
        p = ex.to_ptr(st, self.get(ex, st, fr, b, raw=True))
        if len(a) > 1:
            i = self.imm(a[1])
            if i is None:
                v = self.val(ex, st, fr, a[1], 64)
                if len(a) > 2: v = self.shifted(v, a[2], 64)
                p = ex.ptr_add(p, v)
            elif i: p = ex.ptr_add(p, i)
        return p
    # ---- flags
    def fl(self, fr, k):
        v = fr.flags.get(k)
        if v is None: v = freshb('flag_' + k); fr.flags[k] = v
        return v
    def cond(self, fr, cc):
        g = lambda k: self.fl(fr, k)
        if cc in INV: return NOT(self.cond(fr, INV[cc]))
        if cc in CC: return g(CC[cc])
        xor = lambda a, b: NOT(self.beq(a, b))
        if cc == 'hi': return AND(g('c'), NOT(g('z')))
        if cc == 'ge': return self.beq(g('n'), g('v'))
        if cc == 'gt': return AND(NOT(g('z')), self.beq(g('n'), g('v')))
        if cc == 'al': return True
        raise CannotEncode('a64 cond ' + cc)
    def beq(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        if isinstance(a, bool): return b if a else NOT(b)
        if isinstance(b, bool): return a if b else NOT(a)
        return simp(a == b)
    def addwc(self, fr, a, b, c, w, setf):
        """a + b + carry with flags (subtraction passes ~b)"""
        if c is True:
            # a - y with y = ~b
            y = binop('xor', b, M(w), w); r = binop('sub', a, y, w)
            if setf:
                n = simp(C(extract(r, w - 1, w - 1)))
                lt = simp(B(a, w) < B(y, w))
                fr.flags = {'n': n, 'z': EQ(a, y, w), 'c': NOT(simp(z3.ULT(B(a, w), B(y, w)))), 'v': NOT(self.beq(n, lt))}
                fr.written.add('flags')
            return r
        ci = int(c) if isinstance(c, bool) else simp(B(c, w + 2))
        u = binop('add', binop('add', zext(a, w, w + 2), zext(b, w, w + 2), w + 2), ci, w + 2)
        r = trunc(u, w)
        if setf:
            s = binop('add', binop('add', sext(a, w, w + 2), sext(b, w, w + 2), w + 2), ci, w + 2)
            fr.flags = {'n': simp(C(extract(r, w - 1, w - 1))), 'z': EQ(r, 0, w), 'c': simp(C(extract(u, w, w))), 'v': NOT(EQ(sext(r, w, w + 2), s, w + 2))}
            fr.written.add('flags')
        return r
    def logf(self, fr, r, w):
        fr.flags = {'n': simp(C(extract(r, w - 1, w - 1))), 'z': EQ(r, 0, w), 'c': False, 'v': False}; fr.written.add('flags')

    def pairval(self, ex, lo, hi): return cat(hi, lo, 64) if not ex.big else cat(lo, hi, 64)
    def unpair(self, ex, v):
        l, h = extract(v, 63, 0), extract(v, 127, 64)
        return (l, h) if not ex.big else (h, l)
    def lse2(self, ex, st):
        c = ex.feature(st, 'lse2')
        return c

    def exec(self, ex, st, fr, mn, rest):
        ops = splitops(rest)
        G = lambda s: self.get(ex, st, fr, self.reg(fr, s))
        def F(o, **k): st.ev.append(Ev('F', ord=o, src=TAG, npc=len(st.pc)))
        if mn in ('.inst', '.4byte', '.word', '.long'):
            return self.raw(ex, st, fr, rest)
        if mn in ('dmb', 'dsb'):
            F('a64:%s %s' % ('dmb', rest.strip().lower())); return
        if mn in ('nop', 'yield', 'isb', 'hint', 'bti'): return
        if mn == 'mov':
            rd = self.reg(fr, ops[0]); rs = self.reg(fr, ops[1])
            if rs: self.put(ex, st, fr, rd, self.get(ex, st, fr, rs, raw=rd[1] == 64) if rs[1] == rd[1] else self.unknown(mn, rest))
            else: self.put(ex, st, fr, rd, self.imm(ops[1]) & M(rd[1]))
            return
        if mn == 'mvn':
            rd = self.reg(fr, ops[0]); self.put(ex, st, fr, rd, binop('xor', self.shifted(self.val(ex, st, fr, ops[1], rd[1]), ops[2] if len(ops) > 2 else None, rd[1]), M(rd[1]), rd[1])); return
        if mn in ('neg', 'negs', 'ngc', 'ngcs'):
            ops = [ops[0], 'xzr' if self.reg(fr, ops[0])[1] == 64 else 'wzr'] + ops[1:]
            mn = {'neg': 'sub', 'negs': 'subs', 'ngc': 'sbc', 'ngcs': 'sbcs'}[mn]
        if mn in ('cmp', 'cmn', 'tst'):
            w = self.reg(fr, ops[0])[1]
            ops = ['xzr' if w == 64 else 'wzr'] + ops; mn = {'cmp': 'subs', 'cmn': 'adds', 'tst': 'ands'}[mn]
        if mn in ('add', 'adds', 'sub', 'subs', 'adc', 'adcs', 'sbc', 'sbcs'):
            rd = self.reg(fr, ops[0]); w = rd[1]
            if mn in ('add', 'sub') and w == 64:
                base = self.get(ex, st, fr, self.reg(fr, ops[1]), raw=True)
                if isinstance(base, Ptr):
                    k = self.shifted(self.val(ex, st, fr, ops[2], w), ops[3] if len(ops) > 3 else None, w)
                    self.put(ex, st, fr, rd, ex.ptr_add(base, k if mn == 'add' else binop('sub', 0, k, 64))); return
            a = self.val(ex, st, fr, ops[1], w); b = self.shifted(self.val(ex, st, fr, ops[2], w), ops[3] if len(ops) > 3 else None, w)
            s = mn.endswith('s'); k = mn[:3]
            c = {'add': False, 'sub': True}.get(k)
            if c is None: c = self.fl(fr, 'c')
            if k in ('sub', 'sbc'): b = binop('xor', b, M(w), w)
            self.put(ex, st, fr, rd, self.addwc(fr, a, b, c, w, s)); return
        if mn in ('and', 'orr', 'eor', 'bic', 'orn', 'eon', 'ands', 'bics'):
            rd = self.reg(fr, ops[0]); w = rd[1]
            a = self.val(ex, st, fr, ops[1], w); b = self.shifted(self.val(ex, st, fr, ops[2], w), ops[3] if len(ops) > 3 else None, w)
            if mn in ('bic', 'orn', 'eon', 'bics'): b = binop('xor', b, M(w), w)
            r = binop({'and': 'and', 'orr': 'or', 'eor': 'xor', 'bic': 'and', 'orn': 'or', 'eon': 'xor', 'ands': 'and', 'bics': 'and'}[mn], a, b, w)
            if mn in ('ands', 'bics'): self.logf(fr, r, w)
            self.put(ex, st, fr, rd, r); return
        if mn in ('ccmp', 'ccmn'):
            w = self.reg(fr, ops[0])[1]
            a = self.val(ex, st, fr, ops[0], w); b = self.val(ex, st, fr, ops[1], w); nz = self.imm(ops[2]); c = self.cond(fr, ops[3].lower())
            f0 = dict(fr.flags)
            if mn == 'ccmp': self.addwc(fr, a, binop('xor', b, M(w), w), True, w, True)
            else: self.addwc(fr, a, b, False, w, True)
            for k, bit in (('n', 3), ('z', 2), ('c', 1), ('v', 0)):
                fr.flags[k] = simp(C(ITE(c, B(fr.flags[k], 1), nz >> bit & 1, 1)))
            return
        if mn in ('csel', 'csinc', 'csinv', 'csneg'):
            rd = self.reg(fr, ops[0]); w = rd[1]
            a = self.val(ex, st, fr, ops[1], w); b = self.val(ex, st, fr, ops[2], w); c = self.cond(fr, ops[3].lower())
            b = {'csel': lambda: b, 'csinc': lambda: binop('add', b, 1, w), 'csinv': lambda: binop('xor', b, M(w), w), 'csneg': lambda: binop('sub', 0, b, w)}[mn]()
            self.put(ex, st, fr, rd, ITE(c, a, b, w)); return
        if mn in ('cset', 'csetm'):
            rd = self.reg(fr, ops[0]); w = rd[1]; c = self.cond(fr, ops[1].lower())
            self.put(ex, st, fr, rd, ITE(c, 1 if mn == 'cset' else M(w), 0, w)); return
        if mn in ('lsl', 'lsr', 'asr'):
            rd = self.reg(fr, ops[0]); w = rd[1]; k = binop('and', self.val(ex, st, fr, ops[2], w), w - 1, w)
            self.put(ex, st, fr, rd, binop({'lsl': 'shl', 'lsr': 'lshr', 'asr': 'ashr'}[mn], self.val(ex, st, fr, ops[1], w), k, w)); return
        if mn in ('uxtb', 'uxth', 'sxtb', 'sxth', 'sxtw'):
            rd = self.reg(fr, ops[0]); b = {'b': 8, 'h': 16, 'w': 32}[mn[3]]
            v = extract(self.get(ex, st, fr, (self.reg(fr, ops[1])[0], 64)), b - 1, 0)
            self.put(ex, st, fr, rd, (zext if mn[0] == 'u' else sext)(v, b, rd[1])); return
        if mn in ('cbz', 'cbnz'):
            r = self.reg(fr, ops[0]); c = EQ(self.get(ex, st, fr, r), 0, r[1])
            return self.br(ex, st, c if mn == 'cbz' else NOT(c), ops[1])
        if mn in ('tbz', 'tbnz'):
            r = self.reg(fr, ops[0]); k = self.imm(ops[1]); c = EQ(extract(self.get(ex, st, fr, r), k, k), 0, 1)
            return self.br(ex, st, c if mn == 'tbz' else NOT(c), ops[2])
        if mn == 'b': self.jump(ex, st, fr, ops[0]); return
        if mn.startswith('b.'): return self.br(ex, st, self.cond(fr, mn[2:]), ops[0])
        if mn == 'clrex': st.resv = None; return
        if mn == 'mrs':
            h = ex.ext.get('mrs')
            if h is None: self.unknown(mn, rest)
            self.put(ex, st, fr, self.reg(fr, ops[0]), h(ex, st, ops[1].lower())); return
        # ---- memory
        m = re.match(r'^(ldr|ldar|ldapr|ldur|ldxr|ldaxr)(b|h|)$', mn)
        if m:
            rd = self.reg(fr, ops[0]); n = {'b': 1, 'h': 2, '': rd[1] // 8}[m.group(2)]
            if m.group(1) == 'ldapr': ex.need(st, 'rcpc')
            p = self.mem(ex, st, fr, ops[1:])
            ll = 'x' in m.group(1)
            o = {'ldar': 'a64:A', 'ldapr': 'a64:Q', 'ldaxr': 'a64:A'}.get(m.group(1), 'a64:')
            if ll or m.group(1) in ('ldar', 'ldapr'): ex.aligned(st, p, n)
            v = ex.load(st, p, n, ord=o, atomic=True, src=TAG, ll=ll)
            if ll: st.resv = (ex.resolve(st, p, 'll'), n, v, o)
            if 8 * n == rd[1]: self.put(ex, st, fr, rd, v)
            else: self.put(ex, st, fr, rd, zext(ex.addr(st, v), 8 * n, rd[1]))
            return
        m = re.match(r'^(str|stlr|stur)(b|h|)$', mn)
        if m:
            rs = self.reg(fr, ops[0]); n = {'b': 1, 'h': 2, '': rs[1] // 8}[m.group(2)]
            p = self.mem(ex, st, fr, ops[1:])
            v = self.get(ex, st, fr, rs, raw=True) if 8 * n == 64 else extract(self.get(ex, st, fr, (rs[0], 64)), 8 * n - 1, 0)
            ex.store(st, p, n, v, ord='a64:L' if m.group(1) == 'stlr' else 'a64:', atomic=True, src=TAG); return
        if mn in ('ldp', 'ldnp', 'ldiapp', 'ldxp', 'ldaxp'):
            r1, r2 = self.reg(fr, ops[0]), self.reg(fr, ops[1])
            if r1[1] != r2[1]: self.unknown(mn, rest)
            h = r1[1]; n = h // 4
            if r1[0] == r2[0] and r1[0] != 'xzr': raise CannotEncode('%s with identical destination registers is unpredictable' % mn)
            p = self.mem(ex, st, fr, ops[2:])
            ll = 'x' in mn and mn != 'ldxp' or mn == 'ldxp'
            ll = mn in ('ldxp', 'ldaxp')
            o = {'ldiapp': 'a64:Q', 'ldaxp': 'a64:A'}.get(mn, 'a64:')
            if mn == 'ldiapp': ex.need(st, 'rcpc3')
            single = self.lse2(ex, st) if n == 16 and not ll else (True if ll and n == 8 else False)
            if ll or single: ex.aligned(st, p, n)
            v = ex.addr(st, ex.load(st, p, n, ord=o, atomic=True, single=bool(single), src=TAG, ll=ll))
            if ll: st.resv = (ex.resolve(st, p, 'll'), n, v, o)
            lo, hi = extract(v, h - 1, 0), extract(v, 2 * h - 1, h)
            if ex.big: lo, hi = hi, lo
            self.put(ex, st, fr, r1, lo); self.put(ex, st, fr, r2, hi); return
        if mn in ('stp', 'stnp', 'stilp'):
            r1, r2 = self.reg(fr, ops[0]), self.reg(fr, ops[1]); h = r1[1]; n = h // 4
            p = self.mem(ex, st, fr, ops[2:])
            if mn == 'stilp': ex.need(st, 'rcpc3')
            single = self.lse2(ex, st) if n == 16 else False
            if single: ex.aligned(st, p, n)
            a, b = self.get(ex, st, fr, r1), self.get(ex, st, fr, r2)
            if ex.big: a, b = b, a
            ex.store(st, p, n, cat(b, a, h), ord='a64:L' if mn == 'stilp' else 'a64:', atomic=True, single=bool(single), src=TAG); return
        m = re.match(r'^st(l?)x(r|p)(b|h|)$', mn)
        if m:
            rs = self.reg(fr, ops[0])
            o = 'a64:L' if m.group(1) else 'a64:'
            if m.group(2) == 'p':
                r1, r2 = self.reg(fr, ops[1]), self.reg(fr, ops[2]); h = r1[1]; n = h // 4
                a, b = self.get(ex, st, fr, r1), self.get(ex, st, fr, r2)
                if ex.big: a, b = b, a
                v = cat(b, a, h); mo = ops[3:]; src = (r1[0], r2[0])
            else:
                r1 = self.reg(fr, ops[1]); n = {'b': 1, 'h': 2, '': r1[1] // 8}[m.group(3)]
                v = extract(self.get(ex, st, fr, (r1[0], 64)), 8 * n - 1, 0); mo = ops[2:]; src = (r1[0],)
            am = re.match(r'^\[([^,\]]*)', mo[0].strip()); base = self.reg(fr, am.group(1).strip())
            if rs[0] != 'xzr' and (rs[0] in src or rs[0] == base[0]): raise CannotEncode('store-exclusive status register overlaps another operand (unpredictable)')
            p = ex.resolve(st, self.mem(ex, st, fr, mo), 'sc')
            out = []
            for s, ok in ex.store_cond(st, p, n, v, o, TAG):
                self.put(ex, s, s.asmframe, (rs[0], 32), 0 if ok else 1)
                out.append(s)
            return out
        m = re.match(r'^cas(p?)(a?)(l?)(b|h|)$', mn)
        if m:
            ex.need(st, 'lse')
            o = 'a64:' + ('A' if m.group(2) else '') + ('L' if m.group(3) else ''); fo = 'a64:' + ('A' if m.group(2) else '')
            if m.group(1):
                r = [self.reg(fr, x) for x in ops[:4]]
                nums = [int(x[0][1:]) if re.match(r'^x\d+$', x[0]) else None for x in r]
                for a, b in ((0, 1), (2, 3)):
                    if nums[a] is None or nums[b] != nums[a] + 1 or nums[a] % 2: raise CannotEncode('casp needs consecutive even/odd registers')
                h = r[0][1]; n = h // 4
                v = [self.get(ex, st, fr, x) for x in r]
                exp = cat(v[1], v[0], h) if not ex.big else cat(v[0], v[1], h)
                new = cat(v[3], v[2], h) if not ex.big else cat(v[2], v[3], h)
                p = self.mem(ex, st, fr, ops[4:]); ex.aligned(st, p, n)
                out = []
                for s, old, ok in ex.cas(st, p, n, exp, new, o, fo, src=TAG):
                    old = ex.addr(s, old); lo, hi = extract(old, h - 1, 0), extract(old, 2 * h - 1, h)
                    if ex.big: lo, hi = hi, lo
                    self.put(ex, s, s.asmframe, r[0], lo); self.put(ex, s, s.asmframe, r[1], hi)
                    out.append(s)
                return out
            rs, rt = self.reg(fr, ops[0]), self.reg(fr, ops[1]); n = {'b': 1, 'h': 2, '': rs[1] // 8}[m.group(4)]
            p = self.mem(ex, st, fr, ops[2:]); ex.aligned(st, p, n)
            e = extract(self.get(ex, st, fr, (rs[0], 64)), 8 * n - 1, 0); nv = extract(self.get(ex, st, fr, (rt[0], 64)), 8 * n - 1, 0)
            out = []
            for s, old, ok in ex.cas(st, p, n, e, nv, o, fo, src=TAG):
                self.put(ex, s, s.asmframe, rs, zext(ex.addr(s, old), 8 * n, rs[1]) if 8 * n < rs[1] else ex.addr(s, old)); out.append(s)
            return out
        m = re.match(r'^(?:swp|ldclr|ldset)p(a?)(l?)$', mn)
        if m:
            ex.need(st, 'lse128')
            r1, r2 = self.reg(fr, ops[0]), self.reg(fr, ops[1])
            if r1[0] == r2[0]: raise CannotEncode('swpp with identical registers')
            a, b = self.get(ex, st, fr, r1), self.get(ex, st, fr, r2)
            v = cat(b, a, 64) if not ex.big else cat(a, b, 64)
            p = self.mem(ex, st, fr, ops[2:]); ex.aligned(st, p, 16)
            k = mn[:3] if mn[0] == 's' else mn[:5]
            def f(o):
                if k == 'swp': return v
                o = ex.addr(st, o)
                return binop('or', o, v, 128) if k == 'ldset' else binop('and', o, binop('xor', v, M(128), 128), 128)
            old = ex.addr(st, ex.rmw(st, p, 16, f, ord='a64:' + m.group(1).upper() + m.group(2).upper(), src=TAG))
            lo, hi = extract(old, 63, 0), extract(old, 127, 64)
            if ex.big: lo, hi = hi, lo
            self.put(ex, st, fr, r1, lo); self.put(ex, st, fr, r2, hi); return
        m = re.match(r'^(swp|ldadd|ldset|ldclr|ldeor|ldsmax|ldsmin|ldumax|ldumin)(a?)(l?)(b|h|)$', mn)
        if m:
            ex.need(st, 'lse')
            rs, rt = self.reg(fr, ops[0]), self.reg(fr, ops[1]); w = {'b': 8, 'h': 16, '': rs[1]}[m.group(4)]
            x = extract(self.get(ex, st, fr, (rs[0], 64)), w - 1, 0); k = m.group(1)
            p = self.mem(ex, st, fr, ops[2:]); ex.aligned(st, p, w // 8)
            def f(o):
                o = ex.addr(st, o)
                if k == 'swp': return x
                if k == 'ldclr': return binop('and', o, binop('xor', x, M(w), w), w)
                if k in ('ldadd', 'ldset', 'ldeor'): return binop({'ldadd': 'add', 'ldset': 'or', 'ldeor': 'xor'}[k], o, x, w)
                c = cmpop(('s' if k[2] == 's' else 'u') + ('gt' if k.endswith('max') else 'lt'), o, x, w)
                return ITE(c, o, x, w)
            r = ex.rmw(st, p, w // 8, f, ord='a64:' + m.group(2).upper() + m.group(3).upper(), src=TAG)
            self.put(ex, st, fr, rt, zext(ex.addr(st, r), w, rt[1]) if w < rt[1] else r); return
        self.unknown(mn, rest)

    def br(self, ex, st, c, lbl):
        out = []
        for s, b in ex.branch(st, c):
            if b: self.jump(ex, s, s.asmframe, lbl)
            out.append(s)
        return out
    def raw(self, ex, st, fr, rest):
        """.inst WORD: decode the few encodings the crate spells out"""
        v = int(rest, 0)
        rn, rt, rt2 = v >> 5 & 31, v & 31, v >> 16 & 31
        R = lambda k: 'xzr' if k == 31 else 'x%d' % k
        b = '[%s]' % (R(rn) if rn != 31 else 'sp')
        if v & 0xffe0fc00 == 0xd9401800: return self.exec(ex, st, fr, 'ldiapp', '%s, %s, %s' % (R(rt), R(rt2), b))
        if v & 0xffe0fc00 == 0xd9001800: return self.exec(ex, st, fr, 'stilp', '%s, %s, %s' % (R(rt), R(rt2), b))
        k = {0x19208000: 'swpp', 0x19201000: 'ldclrp', 0x19203000: 'ldsetp'}.get(v & 0xff20fc00)
        if k:
            return self.exec(ex, st, fr, k + ('a' if v >> 23 & 1 else '') + ('l' if v >> 22 & 1 else ''), '%s, %s, %s' % (R(rt), R(rt2), b))
        raise CannotEncode('raw instruction %#x' % v)
