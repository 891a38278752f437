"""Common machinery for executing inline assembly templates symbolically.

An asm block is run on a register file that starts with the declared inputs (everything else undefined).  Operands get
virtual registers of their own unless the constraint names a physical register; `ex.asm_alloc` may override the
allocation (used by the check of the asm contract, C15)."""
import re, z3
from .sym import *
from . import sym

class AsmFrame:
    __slots__ = ('prog', 'labels', 'ip', 'regs', 'flags', 'outs', 'dst', 'rt', 'visits', 'written', 'tmpl', 'mem_ok', 'alloc', 'init', 'cl', 'order')
    def clone(s):
        n = AsmFrame()
        for k in s.__slots__: setattr(n, k, getattr(s, k, None))
        n.regs = dict(s.regs); n.flags = dict(s.flags); n.visits = dict(s.visits); n.written = set(s.written)
        return n

def split_cons(cons):
    out = []; cur = ''; d = 0
    for ch in cons:
        if ch == '{': d += 1
        if ch == '}': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur: out.append(cur)
    return out

class Operand:
    __slots__ = ('k', 'out', 'early', 'cons', 'fixed', 'tied', 'reg', 'ty', 'val', 'indirect', 'imm')
    def __repr__(s): return '<%d %s%s %s>' % (s.k, 'out ' if s.out else 'in ', s.cons, s.reg)

class AsmArch:
    name = '?'
    word = 64
    fixed_alias = {}
    comment = '//'
    def canon(self, reg):
        """canonical name of a physical register"""
        return reg
    def regwidth(self, reg): return self.word
    def is_vec(self, cons): return False

    def operands(self, cons, rt, args, av):
        """parse constraint string -> (list of Operand, clobbers)"""
        ops = []; cl = []; k = 0; ai = 0
        outs = [c for c in split_cons(cons) if c.startswith('=')]
        rts = list(rt[1]) if rt[0] == 'st' else ([] if rt == ('void',) else [rt])
        oi = 0
        for c in split_cons(cons):
            if c.startswith('~'):
                cl.append(c[2:-1]); continue
            o = Operand(); o.k = k; o.tied = None; o.fixed = None; o.val = None; o.indirect = False; o.imm = False; o.reg = None; o.early = False
            o.out = c.startswith('=')
            b = c[1:] if o.out else c
            if b.startswith('&'): o.early = True; b = b[1:]
            if b.startswith('*'): o.indirect = True; b = b[1:]
            o.cons = b
            if b.startswith('{'): o.fixed = self.canon(b[1:-1])
            elif b.isdigit(): o.tied = int(b)
            if o.out and not o.indirect:
                o.ty = rts[oi]; oi += 1
            else:
                o.ty = args[ai][2]; o.val = av[ai]; ai += 1
            if b in ('i', 's', 'n', 'X'): o.imm = True
            ops.append(o); k += 1
        for o in ops:
            if o.tied is not None: o.reg = None
            elif o.imm: pass
            else: o.reg = o.fixed or ('v%d' % o.k if not self.is_vec(o.cons) else 'x%d$v' % o.k)
        for o in ops:
            if o.tied is not None: o.reg = ops[o.tied].reg
        return ops, cl

    def subst(self, tmpl, ops):
        out = []; i = 0
        def rep(m):
            if m.group(0) == '$$': return '$'
            if m.group(1): k, mod = int(m.group(1)), m.group(2)
            else: k, mod = int(m.group(3)), None
            o = ops[k]
            if o.imm:
                v = o.val
                return '#imm%d#' % k if not isinstance(v, int) else str(v)
            return '%%%d:%s%%' % (k, mod or '')
        t = re.sub(r'\$\$|\$\{(\d+)(?::(\w))?\}|\$(\d+)', rep, tmpl)
        return t

    def lines(self, t):
        prog = []; labels = {}
        for ln in re.split(r'[\n;]', t):
            ln = ln.split(self.comment)[0] if self.comment else ln
            ln = ln.split('#APP')[0]
            ln = re.sub(r'/\*.*?\*/', '', ln).strip()
            if not ln: continue
            while True:
                m = re.match(r'^([\w.]+):\s*', ln)
                if not m: break
                labels.setdefault(m.group(1), []).append(len(prog)); ln = ln[m.end():]
            if not ln: continue
            m = re.match(r'^(\S+)\s*(.*)$', ln)
            mn = m.group(1).lower(); rest = m.group(2).strip()
            prog.append((mn, rest))
        return prog, labels

    def target(self, fr, lbl):
        m = re.match(r'^(\d+)([bf])$', lbl)
        if m:
            l = fr.labels.get(m.group(1), [])
            if m.group(2) == 'b':
                c = [x for x in l if x < fr.ip + 0 or x <= fr.ip]
                return c[-1]
            c = [x for x in l if x > fr.ip]
            return c[0]
        return fr.labels[lbl][0]

    def start(self, ex, st, f, dst, rt, tmpl, cons, kw, args, av, at):
        ops, cl = self.operands(cons, rt, args, av)
        if ex.asm_alloc: ex.asm_alloc(self, ops)
        fr = AsmFrame()
        t = self.subst(tmpl, ops)
        self.cur_ops = ops
        fr.prog, fr.labels = self.lines(t)
        fr.ip = 0; fr.regs = {}; fr.flags = {}; fr.dst = dst; fr.rt = rt; fr.visits = {}; fr.written = set(); fr.tmpl = tmpl
        fr.outs = ops; fr.alloc = ops; fr.cl = cl
        fr.mem_ok = 'memory' in cl or 'sideeffect' in kw
        for o in ops:
            if not o.out and not o.imm and o.reg:
                fr.regs[o.reg] = self.widen(o.val, o.ty, self.regwidth(o.reg), ex)
        fr.init = dict(fr.regs)
        st.asmframe = fr
        if ex.hooks.get('asm_start'): ex.hooks['asm_start'](ex, st, fr, cons, kw)
        return None

    def widen(self, v, ty, w, ex):
        if isinstance(v, (Ptr, FnPtr)): return v
        if isinstance(v, list): v = ex.pack(v, ty)
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): v = B(v, 8); b = 8; v = simp(v)
        else: b = ex.bits(ty) if ty[0] != 'vec' else ty[1] * ex.bits(ty[2])
        if b == 1: b = 8
        if b >= w: return v
        return simp(z3.Concat(fresh('junk', w - b), B(v, b)))

    def finish(self, ex, st):
        fr = st.asmframe
        st.asmframe = None
        if ex.hooks.get('asm_end'): ex.hooks['asm_end'](ex, st, fr)
        outs = [o for o in fr.outs if o.out]
        vals = []
        for o in outs:
            v = fr.regs.get(o.reg)
            if v is None: v = fresh('undef_asm', self.regwidth(o.reg))
            if o.ty[0] == 'ptr': v = ex.to_ptr(st, v)
            elif o.ty[0] == 'vec':
                n = o.ty[1] * ex.bits(o.ty[2]); v = ex.unpack(trunc(v, n), o.ty)
            else:
                v = ex.addr(st, v)
                if o.ty == ('i', 1): v = simp(C(extract(v, 0, 0)))
                elif self.regwidth(o.reg) > ex.bits(o.ty): v = trunc(v, ex.bits(o.ty))
            vals.append(v)
        f = st.frames[-1]
        if fr.dst is not None:
            f.regs[fr.dst] = vals if fr.rt[0] == 'st' else vals[0]

    def step(self, ex, st):
        fr = st.asmframe
        if fr.ip >= len(fr.prog):
            self.finish(ex, st); return None
        st.steps += 1; sym.STATS.steps += 1
        if st.steps > ex.max_steps:
            st.status = 'cut:steps'; return [st]
        mn, rest = fr.prog[fr.ip]
        if mn.startswith('.') and not mn.startswith(('.inst', '.4byte', '.long', '.word', '.2byte')):
            self.directive(ex, st, fr, mn, rest)
            fr.ip += 1; return None
        fr.ip += 1
        r = self.exec(ex, st, fr, mn, rest)
        return r
    def directive(self, ex, st, fr, mn, rest): pass
    def jump(self, ex, st, fr, lbl):
        # fr.ip already advanced; resolve relative to the jumping instruction
        ip = fr.ip - 1
        m = re.match(r'^(\d+)([bf])$', lbl)
        if m:
            l = fr.labels.get(m.group(1), [])
            c = [x for x in l if x <= ip] if m.group(2) == 'b' else [x for x in l if x > ip]
            t = c[-1] if m.group(2) == 'b' else c[0]
        else: t = fr.labels[lbl][0]
        if t <= ip:
            c = fr.visits.get(t, 0) + 1
            fr.visits[t] = c
            if c >= ex.max_visits:
                st.status = 'cut:asmloop'; return
        fr.ip = t
    def unknown(self, mn, rest):
        raise CannotEncode('%s instruction "%s %s"' % (self.name, mn, rest))

def splitops(rest):
    out = []; cur = ''; d = 0
    for ch in rest:
        if ch in '[({': d += 1
        if ch in '])}': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
