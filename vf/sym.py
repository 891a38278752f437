"""Symbolic executor for LLVM IR (as emitted by rustc for the crate plus a generated harness).

Values: i1 -> python bool or z3 Bool; iN -> python int (unsigned) or z3 BitVec(N); floats -> bit patterns like iN;
pointers -> Ptr(obj, off) | FnPtr(name) | int (address, 0 = null) | BitVec address; aggregates/vectors -> list.
"""
import z3, re, time
from . import irparse
from .irparse import instrs

class CannotEncode(Exception):
    pass
class Spin(Exception):
    """a second attempt to take a lock (bound: locks are taken at the first attempt)"""
class Probe(Exception):
    """first access to the object in a run that only looks at what happens before"""

class Stats:
    def __init__(s):
        s.queries = 0; s.sat = 0; s.unsat = 0; s.unknown = 0; s.time = 0.0; s.paths = 0; s.steps = 0; s.cuts = 0
        s.fns = set(); s.asm = set(); s.runs = 0; s.models = 0
    def merge(s, o):
        for k in ('queries', 'sat', 'unsat', 'unknown', 'time', 'paths', 'steps', 'cuts', 'runs', 'models'):
            setattr(s, k, getattr(s, k) + getattr(o, k))
        s.fns |= o.fns; s.asm |= o.asm
STATS = Stats()
TIMEOUT = 60000

def solve(conds, timeout=None, model=False):
    """-> 'sat' | 'unsat' | 'unknown' (, model)"""
    s = z3.Solver(); s.set('timeout', timeout or TIMEOUT)
    for c in conds:
        if c is True: continue
        if c is False:
            return ('unsat', None) if model else 'unsat'
        s.add(c)
    t = time.time(); r = s.check(); STATS.time += time.time() - t; STATS.queries += 1
    r = str(r)
    setattr(STATS, r, getattr(STATS, r) + 1)
    if model: return r, (s.model() if r == 'sat' else None)
    return r

# ---------------------------------------------------------------- value helpers
def isz(v): return isinstance(v, z3.ExprRef)
def B(v, w):
    """as z3 bitvector of width w"""
    if isinstance(v, bool): return z3.BitVecVal(int(v), w)
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v
def C(v):
    """as condition"""
    if isinstance(v, (bool,)): return v
    if isinstance(v, int): return bool(v & 1)
    if z3.is_bool(v): return v
    return simp(v == 1)
def simp(v):
    if not isz(v): return v
    v = z3.simplify(v)
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return v
def M(w): return (1 << w) - 1
def sx(v, w): return v - (1 << w) if v >> (w - 1) else v
def AND(*l):
    l = [x for x in l if x is not True]
    if any(x is False for x in l): return False
    if not l: return True
    return l[0] if len(l) == 1 else z3.And(*l)
def OR(*l):
    l = [x for x in l if x is not False]
    if any(x is True for x in l): return True
    if not l: return False
    return l[0] if len(l) == 1 else z3.Or(*l)
def NOT(x):
    if isinstance(x, bool): return not x
    return simp(z3.Not(x))
def EQ(a, b, w):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return simp(B(a, w) == B(b, w))
def ITE(c, a, b, w):
    if c is True: return a
    if c is False: return b
    return simp(z3.If(c, B(a, w), B(b, w)))

def binop(op, a, b, w):
    if w == 1 and op in ('and', 'or', 'xor', 'add', 'sub'):
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            a, b = bool(a), bool(b)
            return {'and': a and b, 'or': a or b}.get(op, a != b)
        a, b = C(a), C(b)
        if op == 'and': return AND(a, b)
        if op == 'or': return OR(a, b)
        if b is True: return NOT(a)
        if a is True: return NOT(b)
        return simp(z3.Xor(a if isz(a) else z3.BoolVal(a), b if isz(b) else z3.BoolVal(b)))
    if isinstance(a, int) and isinstance(b, int):
        a = int(a); b = int(b); m = M(w)
        if op == 'add': return (a + b) & m
        if op == 'sub': return (a - b) & m
        if op == 'mul': return (a * b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & m if b < w else 0
        if op == 'lshr': return a >> b if b < w else 0
        if op == 'ashr': return (sx(a, w) >> min(b, w - 1)) & m
        if op == 'udiv': return a // b if b else m
        if op == 'urem': return a % b if b else a
        if op in ('sdiv', 'srem') and b:
            x, y = sx(a, w), sx(b, w); q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q if op == 'sdiv' else x - q * y) & m
    x, y = B(a, w), B(b, w)
    r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
         'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
         'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
    return simp(r)

def cmpop(p, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        a, b = int(a), int(b)
        if p[0] == 's': a, b = sx(a, w), sx(b, w)
        return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p if p in ('eq', 'ne') else p[1:]]
    x, y = B(a, w), B(b, w)
    return simp({'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
                 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
                 'slt': lambda: x < y, 'sle': lambda: x <= y}[p]())
def trunc(v, w):
    if isinstance(v, int): return int(v) & M(w)
    if v.size() == w: return v
    return simp(z3.Extract(w - 1, 0, v))
def zext(v, fw, w):
    if isinstance(v, (int, bool)): return int(v)
    if z3.is_bool(v): return simp(B(v, w))
    if v.size() == w: return v
    return simp(z3.ZeroExt(w - v.size(), v))
def sext(v, fw, w):
    if isinstance(v, (int, bool)): return sx(int(v), fw) & M(w)
    if z3.is_bool(v): return simp(z3.If(v, z3.BitVecVal(M(w), w), z3.BitVecVal(0, w)))
    return simp(z3.SignExt(w - v.size(), v))
def concat_le(bytes_):
    """list of byte values, least significant first -> value"""
    if all(isinstance(b, int) for b in bytes_):
        return sum(b << (8 * i) for i, b in enumerate(bytes_))
    if len(bytes_) == 1: return bytes_[0]
    return simp(z3.Concat(*[B(b, 8) for b in reversed(bytes_)]))
def byte_le(v, i):
    if isinstance(v, int): return (v >> (8 * i)) & 255
    return simp(z3.Extract(8 * i + 7, 8 * i, v))
def extract(v, hi, lo):
    if isinstance(v, int): return (v >> lo) & M(hi - lo + 1)
    return simp(z3.Extract(hi, lo, v))
def cat(hi, lo, wl, wh=None):
    if isinstance(hi, int) and isinstance(lo, int): return (hi << wl) | lo
    return simp(z3.Concat(B(hi, wh or wl), B(lo, wl)))

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off=0): s.obj = obj; s.off = off
    def __repr__(s): return '&%s+%s' % (s.obj, s.off)
class FnPtr:
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def __repr__(s): return 'fn:' + s.name
    def __eq__(s, o): return isinstance(o, FnPtr) and o.name == s.name
    def __hash__(s): return hash(s.name)

class Obj:
    """a memory object. policy: priv | seq (tracked, events recorded) | havoc (every read fresh) | dispatch (code pointer statics under interference)"""
    __slots__ = ('name', 'size', 'base', 'cells', 'policy', 'const', 'init', 'kind', 'log')
    def __init__(s, name, size, base, policy='priv', kind='priv', const=False, init='undef', log=False):
        s.name = name; s.size = size; s.base = base; s.cells = {}; s.policy = policy; s.const = const; s.init = init; s.kind = kind; s.log = log
    def clone(s):
        o = Obj(s.name, s.size, s.base, s.policy, s.kind, s.const, s.init, s.log); o.cells = dict(s.cells); return o

class Ev:
    """a memory event. kind: R W U F CF CALL; ord = LLVM ordering name or asm tag"""
    __slots__ = ('kind', 'obj', 'off', 'size', 'atomic', 'ord', 'r', 'w', 'src', 'll', 'extra', 'ford', 'npc')
    def __init__(s, kind, obj=None, off=0, size=0, atomic=False, ord=None, r=None, w=None, src=None, ll=None, extra=None, ford=None, npc=0):
        s.kind = kind; s.obj = obj; s.off = off; s.size = size; s.atomic = atomic; s.ord = ord; s.r = r; s.w = w; s.src = src
        s.ll = ll; s.extra = extra; s.ford = ford; s.npc = npc
    def __repr__(s):
        return '%s %s+%s:%s %s%s r=%s w=%s [%s]%s' % (s.kind, s.obj, s.off, s.size, s.ord, '' if s.atomic else ' plain', s.r, s.w, s.src, s.extra or '')

class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'i', 'regs', 'dst', 'visits', 'depth')
    def __init__(s, fn, regs, dst): s.fn = fn; s.blk = fn.entry; s.prev = None; s.i = 0; s.regs = regs; s.dst = dst; s.visits = {}
    def clone(s):
        f = Frame(s.fn, dict(s.regs), s.dst); f.blk = s.blk; f.prev = s.prev; f.i = s.i; f.visits = dict(s.visits); return f

class State:
    def __init__(s):
        s.frames = []; s.mem = {}; s.pc = []; s.ev = []; s.status = None; s.ret = None; s.decisions = 0; s.model = None
        s.resv = None; s.feat = []; s.steps = 0; s.ub = []; s.calls = 0; s.own = set(); s.asmframe = None; s.extra = {}
        s.why = None
    def clone(s):
        n = State(); n.frames = [f.clone() for f in s.frames]; n.mem = dict(s.mem); n.pc = list(s.pc); n.ev = list(s.ev)
        n.decisions = s.decisions; n.model = s.model; n.resv = s.resv; n.feat = list(s.feat); n.steps = s.steps; n.ub = list(s.ub)
        n.calls = s.calls; n.own = set(); s.own = set(); n.extra = dict(s.extra)
        n.asmframe = s.asmframe.clone() if s.asmframe else None
        return n
    def wobj(s, name):
        if name not in s.own:
            s.mem[name] = s.mem[name].clone(); s.own.add(name)
        return s.mem[name]

_fc = [0]
def reset_names(): _fc[0] = 0
def fresh(n, w):
    _fc[0] += 1
    return z3.BitVec('%s!%d' % (n, _fc[0]), w)
def freshb(n):
    _fc[0] += 1
    return z3.Bool('%s!%d' % (n, _fc[0]))

class Exec:
    def __init__(self, mods, arch, max_visits=3, max_steps=6000, max_atomic=None, spurious=True):
        self.mods = mods; self.arch = arch; self.max_visits = max_visits; self.max_steps = max_steps
        self.big = mods[0].dl.startswith('E'); self.pw = 64
        m = re.search(r'(?:^|-)p:(\d+)', mods[0].dl)
        if m: self.pw = int(m.group(1))
        self.fns = {}; self.globs = {}; self.spurious = spurious
        for m in reversed(mods):
            for n, f in m.fns.items(): self.fns[n] = f
        for m in mods:
            for n, g in m.globals.items():
                o = self.globs.get(n)
                if o is None or (o['ext'] and not g['ext']): self.globs[n] = g
        self.ext = {}           # name -> handler(ex, st, args, ret type, name) -> list of states or None
        self.on_store_dispatch = None
        self.max_atomic = max_atomic
        self.hooks = {}
        self.shared_policy = {}
        self.dispvals = {}      # global name -> [(value, condition under which some thread may have stored it)]
        self.dispatch = {}      # global name -> set of FnPtr seen
        self.spin = ()
        self.gpolicy = {}       # global name -> policy
        self.pathcap = 4000
        self.check_feasible = True
        self.interleave = None
        self.asm_alloc = None
        self.announced = lambda f: None

    # ------------------------------------------------------------ types
    def sizeof(self, t):
        k = t[0]
        if k in ('i', 'f'): return self.alloc_bytes(t)
        if k == 'ptr': return self.pw // 8 if len(t) == 1 or t[1] == 1 else 4
        if k == 'arr': return t[1] * self.sizeof(t[2])
        if k == 'vec': return (t[1] * self.bits(t[2]) + 7) // 8
        if k == 'named': return self.sizeof(self.named(t[1]))
        if k == 'st':
            o = 0; am = 1
            for e in t[1]:
                a = 1 if t[2] else self.alignof(e); am = max(am, a)
                o = (o + a - 1) // a * a + self.sizeof(e)
            return (o + am - 1) // am * am
        raise CannotEncode('sizeof %s' % (t,))
    def alloc_bytes(self, t):
        b = (t[1] + 7) // 8
        if b & (b - 1):
            p = 1
            while p < b: p *= 2
            return p
        return b
    def bits(self, t):
        return {'i': lambda: t[1], 'f': lambda: t[1], 'ptr': lambda: self.pw}[t[0]]()
    def named(self, n):
        for m in self.mods:
            if n in m.types: return m.types[n]
        raise CannotEncode('type ' + n)
    def alignof(self, t):
        k = t[0]
        if k in ('i', 'f'):
            return min(self.alloc_bytes(t), 16)
        if k == 'ptr': return self.pw // 8
        if k == 'arr': return self.alignof(t[2])
        if k == 'vec': return self.sizeof(t)
        if k == 'named': return self.alignof(self.named(t[1]))
        if k == 'st': return 1 if t[2] else max([1] + [self.alignof(e) for e in t[1]])
        raise CannotEncode('alignof %s' % (t,))
    def field_off(self, t, i):
        if t[0] == 'named': t = self.named(t[1])
        o = 0
        for j, e in enumerate(t[1]):
            a = 1 if t[2] else self.alignof(e)
            o = (o + a - 1) // a * a
            if j == i: return o, e
            o += self.sizeof(e)
        raise CannotEncode('field')

    # ------------------------------------------------------------ pointers
    def addr(self, st, p):
        """pointer -> integer address"""
        if isinstance(p, Ptr):
            b = st.mem[p.obj].base if p.obj in st.mem else self.glob_obj(st, p.obj).base
            return binop('add', b, p.off, self.pw)
        if isinstance(p, FnPtr):
            return z3.BitVec('fn_' + p.name, self.pw)
        return p
    def to_ptr(self, st, v):
        """integer address -> pointer"""
        if isinstance(v, (Ptr, FnPtr)): return v
        if isinstance(v, int):
            return v
        v = simp(v)
        if isinstance(v, int): return v
        if z3.is_const(v) and v.decl().name().startswith('fn_'): return FnPtr(v.decl().name()[3:])
        names = set()
        todo = [v]; seen = set()
        while todo:
            e = todo.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith('base$'):
                names.add(e.decl().name()[5:])
            todo.extend(e.children())
        if len(names) == 1:
            n = names.pop()
            if n in st.mem:
                off = simp(v - st.mem[n].base)
                if isinstance(off, int): return Ptr(n, self.soff(off))
                r, m = solve(st.pc, model=True)
                if r == 'sat':
                    d = m.eval(off, model_completion=True).as_long()
                    if solve(st.pc + [off != d]) == 'unsat': return Ptr(n, self.soff(d))
                return Ptr(n, off)
        return v
    def soff(self, o): return sx(o, self.pw) if o >> (self.pw - 1) else o
    def ptr_add(self, p, off):
        if isinstance(p, Ptr):
            if isinstance(p.off, int) and isinstance(off, int):
                return Ptr(p.obj, self.soff((p.off + off) & M(self.pw)))
            return Ptr(p.obj, simp(B(p.off & M(self.pw) if isinstance(p.off, int) else p.off, self.pw) + B(off & M(self.pw) if isinstance(off, int) else off, self.pw)))
        if isinstance(p, FnPtr): raise CannotEncode('arith on fn ptr')
        return binop('add', p, off & M(self.pw) if isinstance(off, int) else off, self.pw)

    def new_obj(self, st, name, size, align=16, policy='priv', kind='priv', const=False, init='undef', log=False):
        low = max(1, align).bit_length() - 1
        b = z3.BitVec('base$' + name, self.pw - low) if low else z3.BitVec('base$' + name, self.pw)
        base = z3.Concat(b, z3.BitVecVal(0, low)) if low else b
        o = Obj(name, size, base, policy, kind, const, init, log)
        st.mem[name] = o; st.own.add(name)
        return o

    def lookup_glob(self, fn, n):
        if fn is not None and n in fn.mod.globals and not fn.mod.globals[n]['ext']: return fn.mod.name + '|' + n if self.globs.get(n) is not fn.mod.globals[n] else n
        return n
    def glob_obj(self, st, n):
        if n in st.mem: return st.mem[n]
        if '|' in n:
            mn, nn = n.split('|', 1)
            g = [m for m in self.mods if m.name == mn][0].globals[nn]
        else:
            g = self.globs.get(n)
        if g is None: raise CannotEncode('global ' + n)
        if g.get('err') or g['type'] is None: raise CannotEncode('global %s: %s' % (n, g.get('err')))
        pol = self.gpolicy.get(n, 'priv')
        try: sz = self.sizeof(g['type'])
        except CannotEncode: sz = None
        o = self.new_obj(st, n, sz, max(g['align'], 1), policy=pol, kind='const' if g['const'] else 'static', const=g['const'], init='sym' if g['ext'] else 'undef', log=not g['const'])
        if g['init'] is not None:
            self.init_cells(st, o, 0, g['type'], g['init'], g['mod'])
        if n in self.hooks.get('ginit', {}):
            self.hooks['ginit'][n](self, st, o)
        return o
    def init_cells(self, st, o, off, t, v, mod):
        if t[0] == 'named': t = self.named(t[1])
        k = v[0]
        if k in ('undef', 'poison'): return
        if k == 'zero':
            o.init = 'zero' if off == 0 and o.size == self.sizeof(t) else o.init
            if o.init != 'zero':
                for j in range(self.sizeof(t)): o.cells[(None, off + j)] = (1, 0)
            return
        if k == 'cstr':
            for j, b in enumerate(v[1]): o.cells[(None, off + j)] = (1, b)
            return
        if k == 'agg':
            if t[0] == 'st':
                for j, e in enumerate(v[1]):
                    fo, et = self.field_off(t, j); self.init_cells(st, o, off + fo, et, e, mod)
            else:
                es = self.sizeof(t[2])
                for j, e in enumerate(v[1]): self.init_cells(st, o, off + j * es, t[2], e, mod)
            return
        class F: pass
        f = F(); f.mod = mod
        val = self.val(st, None, v, f)
        o.cells[(None, off)] = (self.sizeof(t), val)

    # ------------------------------------------------------------ memory
    def key(self, off):
        if isinstance(off, int): return (None, off)
        # split off symbolic + const
        o = simp(off)
        if isinstance(o, int): return (None, self.soff(o))
        c = 0
        if z3.is_app_of(o, z3.Z3_OP_BADD):
            ch = o.children(); cs = [x for x in ch if z3.is_bv_value(x)]; rest = [x for x in ch if not z3.is_bv_value(x)]
            if cs:
                c = sum(x.as_long() for x in cs) & M(self.pw); c = self.soff(c)
                o = simp(sum(rest[1:], rest[0]))
        elif z3.is_app_of(o, z3.Z3_OP_CONCAT) and z3.is_bv_value(o.children()[-1]):
            low = o.children()[-1]; c = low.as_long()
            o = simp(o - c)
        s = o.sexpr()
        self.symoffs = getattr(self, 'symoffs', {}); self.symoffs[s] = o
        return (s, c)
    def in_bounds(self, st, obj, key, n):
        if obj.size is None: return True
        if key[0] is None: return 0 <= key[1] and key[1] + n <= obj.size
        off = binop('add', self.symoffs[key[0]], key[1] & M(self.pw), self.pw)
        bad = z3.Or(z3.UGT(B(off, self.pw), obj.size - n))
        ck = (obj.size, key, n)
        cache = self.__dict__.setdefault('inb_cache', {})
        if ck in cache: return True
        if solve([bad], timeout=20000) == 'unsat':
            cache[ck] = True
            return True
        return solve(st.pc + [bad]) == 'unsat'
    def raw_load(self, st, obj, key, n):
        """value of n bytes (int / BV / Ptr)"""
        c = obj.cells.get(key)
        if c and c[0] == n: return c[1]
        self.alias_guard(st, obj, key, n)
        out = []
        for j in range(n):
            out.append(self.raw_byte(st, obj, (key[0], key[1] + j)))
        if self.big: out = out[::-1]
        return concat_le(out)
    def alias_guard(self, st, obj, key, n):
        syms = set(k[0] for k in obj.cells) - {key[0]}
        if obj.const:
            if key[0] is None: return
        for s in syms:
            if key[0] is None and s is None: continue
            lo = [k for k in obj.cells if k[0] == s]
            # must be disjoint from all of them
            conds = []
            for k in lo:
                a = binop('add', self.symoffs[key[0]] if key[0] else 0, key[1] & M(self.pw), self.pw)
                b = binop('add', self.symoffs[k[0]] if k[0] else 0, k[1] & M(self.pw), self.pw)
                d = B(a, self.pw) - B(b, self.pw); e = B(b, self.pw) - B(a, self.pw)
                conds.append(z3.Not(z3.And(z3.UGE(d, obj.cells[k][0]), z3.UGE(e, n))))
            if conds and solve(st.pc + [z3.Or(*conds)]) != 'unsat':
                raise CannotEncode('ambiguous alias in %s' % obj.name)
    def raw_byte(self, st, obj, key):
        c = obj.cells.get(key)
        if c and c[0] == 1: return c[1] if not isinstance(c[1], Ptr) else self.addr(st, c[1])
        for d in range(0, 32):
            c = obj.cells.get((key[0], key[1] - d))
            if c and c[0] > d:
                v = c[1]
                if isinstance(v, (Ptr, FnPtr)): v = self.addr(st, v)
                v = B(v, 8 * c[0]) if not isinstance(v, int) else v
                return byte_le(v, c[0] - 1 - d if self.big else d)
        if obj.init == 'zero': return 0
        v = fresh(('undef$' if obj.init == 'undef' else 'init$') + obj.name, 8)
        st.mem[obj.name].cells[key] = (1, v)     # remembered (shared between clones: it is an initial value)
        return v
    def raw_store(self, st, name, key, n, v):
        o = st.wobj(name)
        if o.const: raise CannotEncode('store to constant ' + name)
        self.alias_guard(st, o, key, n)
        # remove overlaps
        for d in range(-31, n):
            k = (key[0], key[1] + d); c = o.cells.get(k)
            if c is None: continue
            if d < 0 and d + c[0] <= 0: continue
            if d == 0 and c[0] == n: continue
            # split
            bs = [(kk, self.raw_byte(st, o, kk)) for kk in ((k[0], k[1] + j) for j in range(c[0])) if not (key[1] <= kk[1] < key[1] + n)]
            del o.cells[k]
            for kk, bv in bs: o.cells[kk] = (1, bv)
        o.cells[key] = (n, v)

    def resolve(self, st, p, what):
        p = self.to_ptr(st, p) if not isinstance(p, Ptr) else p
        if not isinstance(p, Ptr):
            raise CannotEncode('%s through unresolved pointer %s' % (what, p))
        if p.obj not in st.mem: self.glob_obj(st, p.obj)
        return p

    def load(self, st, p, n, ord=None, atomic=False, src='llvm', ll=False, single=True):
        """memory read of n bytes; returns value. single: performed as one access"""
        p = self.resolve(st, p, 'load'); o = st.mem[p.obj]
        key = self.key(p.off)
        if not self.in_bounds(st, o, key, n):
            st.ub.append('out-of-bounds read of %s at %s (%d bytes)' % (p.obj, p.off, n))
            raise CannotEncode('out-of-bounds read of %s+%s' % (p.obj, p.off))
        if o.policy == 'probe': raise Probe()
        if o.policy == 'havoc':
            v = self.havoc(st, n)
        else:
            v = self.raw_load(st, o, key, n)
        if o.log or o.policy != 'priv':
            st.ev.append(Ev('R', p.obj, key, n, atomic and single, ord, r=v, src=src, ll=ll, npc=len(st.pc)))
        return v
    def store(self, st, p, n, v, ord=None, atomic=False, src='llvm', single=True):
        p = self.resolve(st, p, 'store'); o = st.mem[p.obj]
        key = self.key(p.off)
        if not self.in_bounds(st, o, key, n):
            st.ub.append('out-of-bounds write of %s at %s (%d bytes)' % (p.obj, p.off, n))
            raise CannotEncode('out-of-bounds write of %s+%s' % (p.obj, p.off))
        if o.log or o.policy != 'priv':
            st.ev.append(Ev('W', p.obj, key, n, atomic and single, ord, w=v, src=src, npc=len(st.pc)))
        if o.policy == 'probe': raise Probe()
        if o.policy != 'havoc':
            self.raw_store(st, p.obj, key, n, v)
        if o.policy == 'havoc': st.decisions += 1
        if o.policy == 'dispatch' or isinstance(v, FnPtr):
            self.dispatch.setdefault(p.obj, set()).add(v if isinstance(v, FnPtr) else self.to_ptr(st, v))
    def havoc(self, st, n):
        v = fresh('rd', 8 * n); st.decisions += 1
        if 'havoc_inv' in st.extra:
            st.pc.append(st.extra['havoc_inv'](v, n)); st.model = None
        return v
    def rmw(self, st, p, n, f, ord=None, src='llvm', atomic=True):
        p = self.resolve(st, p, 'rmw'); o = st.mem[p.obj]
        key = self.key(p.off)
        if not self.in_bounds(st, o, key, n):
            st.ub.append('out-of-bounds rmw of %s at %s (%d bytes)' % (p.obj, p.off, n))
            raise CannotEncode('out-of-bounds rmw of %s+%s' % (p.obj, p.off))
        if o.policy == 'probe': raise Probe()
        if p.obj in self.spin: self.spinning(st, p.obj, key)
        if o.policy == 'havoc': r = self.havoc(st, n)
        else: r = self.raw_load(st, o, key, n)
        w = f(r)
        if o.log or o.policy != 'priv':
            st.ev.append(Ev('U', p.obj, key, n, atomic, ord, r=r, w=w, src=src, npc=len(st.pc)))
        elif ord == 'x86lock': st.ev.append(Ev('F', ord=ord, src=src, npc=len(st.pc)))     # a locked instruction on private memory is a fence
        if o.policy != 'havoc': self.raw_store(st, p.obj, key, n, w)
        return r
    def spinning(self, st, obj, key):
        for e in reversed(st.ev):
            if e.obj == obj and e.kind in 'WU' and str(e.off) == str(key):
                if e.kind == 'U': raise Spin()
                return
    def cas(self, st, p, n, exp, new, sord, ford, weak=False, src='llvm', fail_writes=False):
        """-> list of (state, r, success)"""
        p = self.resolve(st, p, 'cmpxchg'); o = st.mem[p.obj]
        key = self.key(p.off)
        if not self.in_bounds(st, o, key, n):
            st.ub.append('out-of-bounds cmpxchg of %s at %s (%d bytes)' % (p.obj, p.off, n))
            raise CannotEncode('out-of-bounds cmpxchg of %s+%s' % (p.obj, p.off))
        if o.policy == 'probe': raise Probe()
        if p.obj in self.spin: self.spinning(st, p.obj, key)
        if o.policy == 'final': return self.final_cas(st, p, key, n, exp, new, sord, ford)
        if o.policy == 'havoc': r = self.havoc(st, n)
        else: r = self.raw_load(st, o, key, n)
        if isinstance(r, (Ptr, FnPtr)) or isinstance(exp, (Ptr, FnPtr)):
            c = self.ptr_eq(st, r, exp)
        else:
            c = EQ(r, exp, 8 * n)
        out = []
        log = o.log or o.policy != 'priv'
        weak = weak and self.spurious and o.policy != 'priv'
        for s2, cond in self.branch(st, c, both=True):
            if cond:
                if weak:
                    s3 = s2.clone()
                    s3.decisions += 1
                    if log: s3.ev.append(Ev('R', p.obj, key, n, True, ford, r=r, src=src, extra='spurious', npc=len(s3.pc)))
                    out.append((s3, r, False))
                if log: s2.ev.append(Ev('U', p.obj, key, n, True, sord, r=r, w=new, src=src, extra='cas', ford=ford, npc=len(s2.pc)))
                if o.policy != 'havoc': self.raw_store(s2, p.obj, key, n, new)
                if isinstance(new, FnPtr): self.dispatch.setdefault(p.obj, set()).add(new)
                out.append((s2, r, True))
            else:
                if log: s2.ev.append(Ev('R', p.obj, key, n, True, ford, r=r, src=src, extra='casfail', npc=len(s2.pc)))
                out.append((s2, r, False))
        return out
    def ptr_eq(self, st, a, b):
        if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a == b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                m = M(self.pw)
                return EQ(a.off & m if isinstance(a.off, int) else a.off, b.off & m if isinstance(b.off, int) else b.off, self.pw)
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Ptr, FnPtr)) and isinstance(y, int) and y < 4096: return False
        return EQ(self.addr(st, a), self.addr(st, b), self.pw)

    # ------------------------------------------------------------ branching
    def branch(self, st, c, both=False):
        """-> list of (state, bool); st itself is reused for the last feasible side"""
        c = C(c) if not isinstance(c, bool) else c
        c = simp(c)
        if c is True or c is False: return [(st, c)]
        st.decisions += 1
        nc = simp(z3.Not(c))
        t = f = None
        if st.model is not None:
            mv = st.model.eval(c, model_completion=True)
            if z3.is_true(mv): t = (True, st.model)
            elif z3.is_false(mv): f = (True, st.model)
        if t is None:
            r, m = solve(st.pc + [c], model=True); t = (r != 'unsat', m)
        if f is None:
            r, m = solve(st.pc + [nc], model=True); f = (r != 'unsat', m)
        out = []
        if t[0] and f[0]:
            s2 = st.clone()
            st.pc.append(c); st.model = t[1]
            s2.pc.append(nc); s2.model = f[1]
            return [(st, True), (s2, False)]
        if t[0]:
            return [(st, True)]
        if f[0]:
            return [(st, False)]
        st.status = 'infeasible'
        return []

    # ------------------------------------------------------------ evaluation
    def val(self, st, fr, v, fn=None):
        k = v[0]
        if k == 'reg': return fr.regs[v[1]]
        t = v[2]
        if k == 'int':
            if t == ('i', 1): return bool(v[1])
            return v[1] & M(self.bits(t))
        if k == 'null': return 0
        if k in ('undef', 'poison'): return self.undef(t)
        if k == 'zero': return self.zero(t)
        if k == 'glob':
            n = v[1]
            f = fn or (fr.fn if fr else None)
            for m in self.mods:
                if n in m.aliases: n = m.aliases[n]
            if f is not None and n in f.mod.fns: return FnPtr(n)
            if n in self.fns: return FnPtr(n)
            gn = self.lookup_glob(f, n)
            if gn in self.globs or '|' in gn:
                self.glob_obj(st, gn)
                return Ptr(gn, 0)
            return FnPtr(n)
        if k == 'agg': return [self.val(st, fr, e, fn) for e in v[1]]
        if k == 'fphex' or k == 'fp': return self.fpconst(v)
        if k == 'cast':
            op, e, t2 = v[1]
            x = self.val(st, fr, e, fn)
            return self.cast(st, op, x, e[2], t2)
        if k == 'gep':
            bt, ops = v[1]
            b = self.val(st, fr, ops[0], fn)
            return self.gep(st, bt, b, [(self.val(st, fr, o, fn), o[2]) for o in ops[1:]])
        if k == 'bin':
            op, a, b = v[1]
            x = self.addr(st, self.val(st, fr, a, fn)); y = self.addr(st, self.val(st, fr, b, fn))
            return binop(op, x, y, self.bits(t))
        if k == 'md': return None
        if k == 'cstr': return list(v[1])
        raise CannotEncode('value ' + k)
    def fpconst(self, v):
        import struct
        t = v[2]; w = t[1]
        if v[0] == 'fphex':
            h = v[1]
            if h[2] == 'H' : return int(h[3:], 16)
            if h[2] == 'L': # fp128: low word first
                x = h[3:].rjust(32, '0'); return (int(x[16:], 16) << 64) | int(x[:16], 16)
            d = struct.unpack('>d', bytes.fromhex(h[2:].rjust(16, '0')))[0]
            bits = int(h[2:], 16)
        else:
            d = float(v[1]); bits = struct.unpack('>Q', struct.pack('>d', d))[0]
        if w == 64: return bits
        if w == 32: return struct.unpack('>I', struct.pack('>f', d))[0]
        if w == 16: return struct.unpack('>H', struct.pack('>e', d))[0]
        raise CannotEncode('fp const')
    def undef(self, t):
        if t[0] == 'ptr': return fresh('undef', self.pw)
        if t[0] in ('i', 'f'): return freshb('undef') if t == ('i', 1) else fresh('undef', t[1])
        if t[0] == 'st': return [self.undef(e) for e in t[1]]
        if t[0] in ('arr', 'vec'): return [self.undef(t[2])] * t[1]
        if t[0] == 'named': return self.undef(self.named(t[1]))
        raise CannotEncode('undef')
    def zero(self, t):
        if t == ('i', 1): return False
        if t[0] in ('ptr', 'i', 'f'): return 0
        if t[0] == 'st': return [self.zero(e) for e in t[1]]
        if t[0] in ('arr', 'vec'): return [self.zero(t[2])] * t[1]
        if t[0] == 'named': return self.zero(self.named(t[1]))
        raise CannotEncode('zero')
    def gep(self, st, t, base, idx):
        p = base
        first = True
        for (i, it) in idx:
            if first:
                sc = self.sizeof(t); first = False
            elif t[0] in ('st', 'named'):
                o, t = self.field_off(t, int(i)); p = self.ptr_add(p, o); continue
            else:
                t = t[2]; sc = self.sizeof(t)
            i = self.addr(st, i)
            if isinstance(i, int):
                w = it[1]; i = sx(i, w) if i >> (w - 1) else i
                off = i * sc
                p = self.ptr_add(p, off)
            else:
                x = sext(i, it[1], self.pw) if it[1] < self.pw else trunc(i, self.pw)
                off = binop('mul', x, sc & M(self.pw), self.pw)
                if isinstance(p, Ptr) and not isinstance(off, int):
                    # (addr' - addr) style provenance-preserving arithmetic
                    full = simp(B(self.addr(st, p), self.pw) + off)
                    q = self.to_ptr(st, full) if not isinstance(full, int) else full
                    if isinstance(q, Ptr) and q.obj == p.obj: p = q
                    else: p = self.ptr_add(p, off)
                else:
                    p = self.ptr_add(p, off)
        return p
    def cast(self, st, op, x, ft, tt):
        if ft[0] == 'vec' or tt[0] == 'vec':
            if op == 'bitcast': return self.unpack(self.pack(x, ft), tt)
            return [self.cast(st, op, e, ft[2], tt[2]) for e in x]
        if op in ('ptrtoint', 'ptrtoaddr'):
            a = self.addr(st, x)
            w = tt[1]
            return trunc(a, w) if w < self.pw else zext(a, self.pw, w)
        if op == 'inttoptr':
            if isinstance(x, int): return x
            x = trunc(x, self.pw) if x.size() > self.pw else zext(x, x.size(), self.pw)
            return self.to_ptr(st, x)
        if op in ('bitcast', 'addrspacecast'):
            return x
        if op == 'trunc':
            w = tt[1]
            if w == 1:
                return bool(int(x) & 1) if isinstance(x, int) else simp(z3.Extract(0, 0, self.addr(st, x)) == 1)
            return trunc(self.addr(st, x), w)
        if op == 'zext': return zext(x, ft[1], tt[1])
        if op == 'sext': return sext(x, ft[1], tt[1])
        if op in ('uitofp', 'sitofp', 'fptoui', 'fptosi') or (op in ('fpext', 'fptrunc') and getattr(self, 'fp_unint', False)):
            fw, tw = self.bits(ft), self.bits(tt)
            return z3.Function('%s_%d_%d' % (op, fw, tw), z3.BitVecSort(fw), z3.BitVecSort(tw))(B(self.addr(st, x), fw))
        if op in ('fpext', 'fptrunc'):
            f = fp_of(x, ft[1])
            r = fresh('fp', tt[1])
            self.fpdef(st, r, z3.fpFPToFP(z3.RNE(), f, fsort(tt[1])), tt[1], (op, x, None))
            return r
        if op in ('uitofp', 'sitofp', 'fptoui', 'fptosi'):
            raise CannotEncode(op)
        raise CannotEncode('cast ' + op)
    def fpdef(self, st, r, expr, w, tag=None):
        """r holds the bits of expr; NaN results may be any NaN"""
        self.fprel(st, r, tag, z3.And(z3.fpIsNaN(fp_of(r, w)) == z3.fpIsNaN(expr),
                                 z3.Or(z3.fpIsNaN(expr), z3.fpToFP(r, fsort(w)) == expr)))
    def fprel(self, st, r, tag, cond):
        """defining condition of a floating-point result; kept apart from the path condition and used by the judgement"""
        st.extra['fpres'] = st.extra.get('fpres', ()) + ((r, tag, cond),)
    def pack(self, x, t):
        if t[0] == 'vec':
            w = self.bits(t[2]); out = 0
            parts = [B(e, w) for e in x]
            if self.big: parts = parts[::-1]
            if len(parts) == 1: return simp(parts[0])
            return simp(z3.Concat(*reversed(parts)))
        return x
    def unpack(self, v, t):
        if t[0] == 'vec':
            w = self.bits(t[2]); n = t[1]
            l = [extract(v, w * i + w - 1, w * i) for i in range(n)]
            return l[::-1] if self.big else l
        return v

    def load_ty(self, st, p, t, **kw):
        if t[0] == 'named': t = self.named(t[1])
        if t[0] == 'st':
            return [self.load_ty(st, self.ptr_add(p, self.field_off(t, j)[0]), e, **kw) for j, e in enumerate(t[1])]
        if t[0] == 'arr':
            es = self.sizeof(t[2])
            return [self.load_ty(st, self.ptr_add(p, j * es), t[2], **kw) for j in range(t[1])]
        n = self.sizeof(t)
        v = self.load(st, p, n, **kw)
        if t[0] == 'vec': return self.unpack(self.addr(st, v), t)
        if t[0] == 'ptr': return self.to_ptr(st, v)
        v = self.addr(st, v)
        if t == ('i', 1):
            return bool(v & 1) if isinstance(v, int) else simp(z3.Extract(0, 0, v) == 1)
        if self.bits(t) < 8 * n: return trunc(v, self.bits(t))
        return v
    def store_ty(self, st, p, t, v, **kw):
        if t[0] == 'named': t = self.named(t[1])
        if t[0] == 'st':
            for j, e in enumerate(t[1]): self.store_ty(st, self.ptr_add(p, self.field_off(t, j)[0]), e, v[j], **kw)
            return
        if t[0] == 'arr':
            es = self.sizeof(t[2])
            for j in range(t[1]): self.store_ty(st, self.ptr_add(p, j * es), t[2], v[j], **kw)
            return
        n = self.sizeof(t)
        if t[0] == 'vec': v = self.pack(v, t)
        elif t == ('i', 1): v = zext(v, 1, 8)
        elif t[0] == 'i' and t[1] < 8 * n: v = zext(v, t[1], 8 * n)
        self.store(st, p, n, v, **kw)

    # ------------------------------------------------------------ running
    def start(self, st, fname, args):
        fn = self.fns[fname]
        self.push(st, fn, args, None)
    def push(self, st, fn, args, dst):
        if len(st.frames) > 60: raise CannotEncode('recursion')
        STATS.fns.add(fn.name)
        regs = {}
        for (n, t, at), a in zip(fn.params, args):
            if t[0] == 'ptr' and 'byval' in at: pass
            regs[n] = a
        fr = Frame(fn, regs, dst)
        st.frames.append(fr)

    def need(self, st, feat, why=None):
        st.feat.append((feat, len(st.pc), why))
    def feature(self, st, feat):
        """is the CPU known (under the path condition) to have the feature?"""
        c = self.announced(feat)
        if c is None or c is False: return False
        return c is True or solve(st.pc + [NOT(c)]) == 'unsat'
    def store_cond(self, st, p, n, v, o, src):
        """store-conditional matching the pending load-linked -> [(state, success)]"""
        ob = st.mem[p.obj]; key = self.key(p.off)
        if not self.in_bounds(st, ob, key, n):
            st.ub.append('out-of-bounds store of %s at %s (%d bytes)' % (p.obj, p.off, n)); raise CannotEncode('out-of-bounds store')
        if ob.policy == 'probe': raise Probe()
        rs = st.resv; st.resv = None
        if rs is None: return [(st, False)]
        q, m, r, lo = rs
        if q.obj != p.obj or self.key(q.off) != key or m != n:
            st.ub.append('store-conditional does not match the load-linked access'); return [(st, False)]
        out = []
        if self.spurious:
            s2 = st.clone(); s2.decisions += 1; out.append((s2, False))
        st.ev.append(Ev('U', p.obj, key, n, True, o, r=r, w=v, src=src, extra='sc', ford=lo, ll=True, npc=len(st.pc)))
        if ob.policy != 'havoc': self.raw_store(st, p.obj, key, n, v)
        out.append((st, True))
        return out
    def aligned(self, st, p, n):
        a = self.addr(st, p)
        bad = simp(C(cmpop("ne", binop("and", a, n - 1, self.pw), 0, self.pw)))
        if bad is False: return True
        if bad is True or solve(st.pc + [bad]) != "unsat":
            st.ub.append("misaligned %d-byte access" % n); return False
        return True

    def run(self, st0):
        """-> list of finished states"""
        work = [st0]; done = []
        STATS.runs += 1
        while work:
            st = work.pop()
            try:
                r = self.run_one(st)
            except Probe:
                st.status = 'probe'; r = [st]
            except Spin:
                st.status = 'cut:spin'; r = [st]
            except CannotEncode as e:
                st.status = 'cannot'; st.why = str(e)
                if st.frames: st.why += ' in ' + st.frames[-1].fn.name[-60:]
                r = [st]
            for s in r:
                if s.status == 'infeasible': continue
                if s.status: done.append(s); STATS.paths += 1; STATS.cuts += s.status.startswith('cut')
                else: work.append(s)
            if len(done) > self.pathcap: raise CannotEncode('path cap')
        return done

    def run_one(self, st):
        """run until fork or end. returns list of states"""
        while True:
            if st.status: return [st]
            if st.asmframe is not None:
                r = self.arch.step(self, st)
                if r is not None: return r
                continue
            fr = st.frames[-1]
            ins = instrs(fr.fn, fr.blk)
            i = ins[fr.i]
            st.steps += 1; STATS.steps += 1
            if st.steps > self.max_steps:
                st.status = 'cut:steps'; return [st]
            r = self.step(st, fr, i)
            if r is not None: return r

    def goto(self, st, fr, lbl):
        prev = fr.blk
        ins = instrs(fr.fn, lbl)
        upd = {}
        n = 0
        for p in ins:
            if p[0] != 'phi': break
            n += 1
            for v, l in p[3]:
                if l == prev or (l == '0' and prev == '0entry') :
                    upd[p[1]] = self.val(st, fr, v); break
            else:
                raise CannotEncode('phi %s from %s' % (p[1], prev))
        fr.regs.update(upd)
        fr.prev = prev; fr.blk = lbl; fr.i = n
        c = fr.visits.get(lbl)
        if c is None: fr.visits[lbl] = (1, st.decisions)
        elif c[1] != st.decisions:
            if c[0] + 1 > self.max_visits:
                st.status = 'cut:loop'; return
            fr.visits[lbl] = (c[0] + 1, st.decisions)

    def do_ret(self, st, v):
        fr = st.frames.pop()
        if not st.frames:
            st.status = 'ret'; st.ret = v; return
        c = st.frames[-1]
        if fr.dst is not None: c.regs[fr.dst] = v
        # caller index already advanced

    def step(self, st, fr, i):
        op = i[0]
        if op == 'bin':
            _, dst, o, fl, t, a, b = i
            x = self.val(st, fr, a); y = self.val(st, fr, b)
            fr.i += 1
            if t[0] == 'vec':
                w = self.bits(t[2]); fr.regs[dst] = [binop(o, p, q, w) for p, q in zip(x, y)]; return
            if o[0] == 'f':
                fr.regs[dst] = self.fpbin(st, o, x, y, t[1]); return
            fr.regs[dst] = binop(o, self.addr(st, x), self.addr(st, y), self.bits(t))
            return
        if op == 'icmp':
            _, dst, pred, t, a, b = i
            x = self.val(st, fr, a); y = self.val(st, fr, b)
            fr.i += 1
            if t[0] == 'vec':
                w = self.bits(t[2]); fr.regs[dst] = [cmpop(pred, p, q, w) for p, q in zip(x, y)]; return
            if t[0] == 'ptr' and pred in ('eq', 'ne'):
                e = self.ptr_eq(st, x, y)
                fr.regs[dst] = e if pred == 'eq' else NOT(e)
                return
            w = self.bits(t)
            if w == 1:
                e = binop('xor', x, y, 1)
                if pred == 'ne': fr.regs[dst] = e
                elif pred == 'eq': fr.regs[dst] = NOT(e)
                else: fr.regs[dst] = cmpop(pred, B(C(x), 1), B(C(y), 1), 1)
                return
            fr.regs[dst] = cmpop(pred, self.addr(st, x), self.addr(st, y), w)
            return
        if op == 'br':
            self.goto(st, fr, i[1]); return
        if op == 'condbr':
            c = self.val(st, fr, i[1])
            l = self.branch(st, c)
            for s, b in l: self.goto(s, s.frames[-1], i[2] if b else i[3])
            return [s for s, b in l] if len(l) != 1 else (None if not l[0][0].status else [l[0][0]])
        if op == 'switch':
            v = self.val(st, fr, i[1]); w = self.bits(i[1][2])
            v = self.addr(st, v)
            if z3.is_bool(v): v = simp(B(v, 1))
            if isinstance(v, (int, bool)):
                for c, l in i[3]:
                    if int(c[1]) & M(w) == int(v): self.goto(st, fr, l); return
                self.goto(st, fr, i[2]); return
            out = []; cur = st
            for c, l in i[3]:
                br = self.branch(cur, EQ(v, int(c[1]) & M(w), w))
                cur = None
                for s, b in br:
                    if b: self.goto(s, s.frames[-1], l); out.append(s)
                    else: cur = s
                if cur is None: break
            if cur is not None: self.goto(cur, cur.frames[-1], i[2]); out.append(cur)
            return out
        if op == 'ret':
            v = self.val(st, fr, i[1]) if i[1] else None
            self.do_ret(st, v)
            return
        if op == 'load':
            _, dst, t, a, at, vol, o, al = i
            p = self.val(st, fr, a)
            if at: self.check_width(st, self.sizeof(t), 'load')
            r = self.dispatch_load(st, fr, p, t, dst, o) if t[0] in ('ptr', 'i') else None
            if r is not None: return r
            fr.regs[dst] = self.load_ty(st, p, t, ord=o, atomic=at)
            fr.i += 1; return
        if op == 'store':
            _, v, a, at, vol, o, al = i
            p = self.val(st, fr, a); x = self.val(st, fr, v)
            if at: self.check_width(st, self.sizeof(v[2]), 'store')
            self.store_ty(st, p, v[2], x, ord=o, atomic=at)
            fr.i += 1; return
        if op == 'cast':
            _, dst, o, v, t = i
            fr.regs[dst] = self.cast(st, o, self.val(st, fr, v), v[2], t)
            fr.i += 1; return
        if op == 'select':
            _, dst, c, a, b = i
            cv = self.val(st, fr, c)
            if isinstance(cv, list):
                x = self.val(st, fr, a); y = self.val(st, fr, b); w = self.bits(a[2][2])
                fr.regs[dst] = [ITE(C(k), p, q, w) for k, p, q in zip(cv, x, y)]; fr.i += 1; return
            cv = simp(C(cv))
            if cv is True or cv is False:
                fr.regs[dst] = self.val(st, fr, a if cv else b); fr.i += 1; return
            x = self.val(st, fr, a); y = self.val(st, fr, b)
            if a[2][0] in ('i', 'f') and not isinstance(x, (Ptr, FnPtr, list)) and not isinstance(y, (Ptr, FnPtr, list)):
                w = self.bits(a[2])
                if w == 1: fr.regs[dst] = simp(z3.If(cv, C(x) if isz(C(x)) else z3.BoolVal(C(x)), C(y) if isz(C(y)) else z3.BoolVal(C(y))))
                else: fr.regs[dst] = ITE(cv, x, y, w)
                fr.i += 1; return
            if a[2][0] == 'ptr' and not isinstance(x, (Ptr, FnPtr)) and not isinstance(y, (Ptr, FnPtr)):
                fr.regs[dst] = ITE(cv, x, y, self.pw); fr.i += 1; return
            l = self.branch(st, cv)
            for s, b_ in l:
                f2 = s.frames[-1]; f2.regs[dst] = x if b_ else y; f2.i += 1
            return [s for s, _ in l]
        if op == 'freeze':
            fr.regs[i[1]] = self.val(st, fr, i[2]); fr.i += 1; return
        if op == 'alloca':
            _, dst, t, n, al = i
            st.calls += 1
            nm = 'alloca%d.%s' % (st.calls, dst)
            cnt = 1 if n is None else self.val(st, fr, n)
            self.new_obj(st, nm, self.sizeof(t) * cnt, max(al, 1), kind='stack')
            fr.regs[dst] = Ptr(nm, 0); fr.i += 1; return
        if op == 'gep':
            _, dst, t, base, idx = i
            b = self.val(st, fr, base)
            fr.regs[dst] = self.gep(st, t, b, [(self.val(st, fr, x), x[2]) for x in idx])
            fr.i += 1; return
        if op == 'extractvalue':
            _, dst, v, idx = i
            x = self.val(st, fr, v)
            for k in idx: x = x[k]
            fr.regs[dst] = x; fr.i += 1; return
        if op == 'insertvalue':
            _, dst, a, v, idx = i
            x = self.val(st, fr, a); y = self.val(st, fr, v)
            def ins(l, ix):
                l = list(l)
                l[ix[0]] = y if len(ix) == 1 else ins(l[ix[0]], ix[1:])
                return l
            fr.regs[dst] = ins(x, idx); fr.i += 1; return
        if op == 'rmw':
            return self.do_rmw(st, fr, i)
        if op == 'cmpxchg':
            _, dst, weak, a, c, n, so, fo = i
            t = c[2]; sz = self.sizeof(t)
            self.check_width(st, sz, 'cmpxchg')
            p = self.val(st, fr, a); ev = self.val(st, fr, c); nv = self.val(st, fr, n)
            l = self.cas(st, p, sz, ev, nv, so, fo, weak)
            for s, r, ok in l:
                f2 = s.frames[-1]
                f2.regs[dst] = [self.to_ptr(s, r) if t[0] == 'ptr' else self.addr(s, r), ok]; f2.i += 1
            return [s for s, _, _ in l]
        if op == 'fence':
            st.ev.append(Ev('CF' if i[2] and 'singlethread' in i[2] else 'F', ord=i[1], src='llvm', npc=len(st.pc)))
            fr.i += 1; return
        if op == 'unreachable':
            st.status = 'unreachable'
            return [st]
        if op == 'call':
            return self.do_call(st, fr, i)
        if op == 'invoke':
            # no unwinding with panic=abort; treat as call then branch
            st.extra['inv'] = None
            raise CannotEncode('invoke')
        if op == 'asm':
            return self.do_asm(st, fr, i)
        if op == 'extractelement':
            _, dst, v, ix = i
            x = self.val(st, fr, v); k = self.val(st, fr, ix)
            if not isinstance(k, int): raise CannotEncode('symbolic extractelement')
            fr.regs[dst] = x[k]; fr.i += 1; return
        if op == 'insertelement':
            _, dst, v, e, ix = i
            x = list(self.val(st, fr, v)); k = self.val(st, fr, ix)
            if not isinstance(k, int): raise CannotEncode('symbolic insertelement')
            x[k] = self.val(st, fr, e); fr.regs[dst] = x; fr.i += 1; return
        if op == 'shuffle':
            _, dst, a, b, m = i
            x = self.val(st, fr, a) + self.val(st, fr, b)
            mk = self.val(st, fr, m)
            fr.regs[dst] = [x[k] if isinstance(k, int) else k for k in mk]; fr.i += 1; return
        if op == 'fneg':
            _, dst, t, v = i
            w = t[1]; fr.regs[dst] = binop('xor', self.val(st, fr, v), 1 << (w - 1), w); fr.i += 1; return
        if op == 'fcmp':
            _, dst, pred, t, a, b = i
            fr.regs[dst] = fcmp(pred, self.val(st, fr, a), self.val(st, fr, b), t[1]); fr.i += 1; return
        raise CannotEncode('instruction %s' % (i,))

    def check_width(self, st, n, what):
        if self.max_atomic and n > self.max_atomic:
            raise CannotEncode('%s of %d bytes is wider than the target supports (library call)' % (what, n))

    def final_var(self, ob, key, n):
        """the value a write-once word finally has"""
        return z3.BitVec('cpu$final_%s_%s' % (ob.name[-40:], key[1]), 8 * n)
    def final_cas(self, st, p, key, n, exp, new, sord, ford):
        V = self.final_var(st.mem[p.obj], key, n); seen = st.extra.get('final', ())
        out = []
        exp = self.addr(st, exp); new = self.addr(st, new)
        if (p.obj, key) not in seen:
            a = st.clone()                       # nobody was first
            a.pc += [EQ(exp, 0, 8 * n), EQ(V, new, 8 * n)]
            a.ev.append(Ev('U', p.obj, key, n, True, sord, r=0, w=new, src='llvm', extra='cas', npc=len(a.pc)))
            a.extra['final'] = tuple(seen) + ((p.obj, key),); a.model = None; a.decisions += 1
            if solve(a.pc) != 'unsat': out.append((a, 0, True))
        b = st.clone(); b.extra['final'] = tuple(seen) + ((p.obj, key),); b.model = None; b.decisions += 1
        b.pc += [z3.Not(V == 0), NOT(EQ(V, exp, 8 * n))]
        b.ev.append(Ev('R', p.obj, key, n, True, ford, r=V, src='llvm', extra='casfail', npc=len(b.pc)))
        if solve(b.pc) != 'unsat': out.append((b, V, False))
        # overwriting an already chosen value
        d = st.clone(); d.model = None; d.decisions += 1
        d.pc += [z3.Not(V == 0), EQ(V, exp, 8 * n)]
        d.ev.append(Ev('U', p.obj, key, n, True, sord, r=V, w=new, src='llvm', extra='cas', npc=len(d.pc)))
        if solve(d.pc) != 'unsat': out.append((d, V, True))
        return out

    def dispatch_load(self, st, fr, p, t, dst, o):
        q = self.to_ptr(st, p) if not isinstance(p, Ptr) else p
        if not isinstance(q, Ptr): return None
        ob = self.glob_obj(st, q.obj)
        if ob.policy == 'final':
            k = self.key(q.off); n = self.sizeof(t); V = self.final_var(ob, k, n)
            out = []
            seen = st.extra.get('final', ())
            for which in ('V',) if (q.obj, k) in seen else ('0', 'V'):
                s = st.clone()
                if which == 'V': s.extra['final'] = tuple(seen) + ((q.obj, k),); s.pc.append(z3.Not(V == 0)); s.model = None
                v = V if which == 'V' else 0
                s.frames[-1].regs[dst] = v; s.frames[-1].i += 1; s.decisions += 1
                s.ev.append(Ev('R', q.obj, k, n, True, o, r=v, src='llvm', extra='dispatch', npc=len(s.pc)))
                if solve(s.pc) != 'unsat': out.append(s)
            return out
        if ob.policy != 'dispatch': return None
        n = self.sizeof(t)
        iv = self.raw_load(st, ob, self.key(q.off), n)
        opts = [(iv, True)]
        for v, cond in self.dispvals.get(q.obj, ()):
            if repr(v) != repr(iv): opts.append((v, cond))
        out = []
        for k, (v, cond) in enumerate(opts):
            s = st if k == len(opts) - 1 else st.clone()
            if cond is not True:
                s.pc.append(cond); s.model = None
                if self.check_feasible and solve(s.pc) == 'unsat': continue
            f = s.frames[-1]; f.regs[dst] = v if t[0] == 'ptr' else self.addr(s, v) if isinstance(v, (Ptr, FnPtr)) else v; f.i += 1
            s.ev.append(Ev('R', q.obj, self.key(q.off), n, True, o, r=v, src='llvm', extra='dispatch', npc=len(s.pc)))
            s.decisions += 1
            out.append(s)
        return out

    def fpbin(self, st, o, x, y, w):
        r = fresh('fp', w)
        a, b = fp_of(x, w), fp_of(y, w)
        e = {'fadd': lambda: z3.fpAdd(z3.RNE(), a, b), 'fsub': lambda: z3.fpSub(z3.RNE(), a, b),
             'fmul': lambda: z3.fpMul(z3.RNE(), a, b), 'fdiv': lambda: z3.fpDiv(z3.RNE(), a, b)}.get(o)
        if e is None: raise CannotEncode(o)
        e = e()
        self.fpdef(st, r, e, w, (o, x, y))
        return r

    def do_rmw(self, st, fr, i):
        _, dst, rop, a, v, o, vol, ss = i
        t = v[2]; n = self.sizeof(t); w = self.bits(t)
        self.check_width(st, n, 'atomicrmw')
        p = self.val(st, fr, a); x = self.val(st, fr, v)
        if t[0] == 'ptr' and rop != 'xchg': raise CannotEncode('rmw ptr')
        def f(r):
            if rop == 'xchg': return x
            r = self.addr(st, r); y = self.addr(st, x)
            if rop in ('add', 'sub', 'and', 'or', 'xor'): return binop(rop, r, y, w)
            if rop == 'nand': return binop('xor', binop('and', r, y, w), M(w), w)
            if rop in ('max', 'min', 'umax', 'umin'):
                c = cmpop({'max': 'sgt', 'min': 'slt', 'umax': 'ugt', 'umin': 'ult'}[rop], r, y, w)
                return ITE(c, r, y, w)
            if rop in ('fadd', 'fsub'): return self.fpbin(st, rop, r, y, w)
            raise CannotEncode('atomicrmw ' + rop)
        r = self.rmw(st, p, n, f, ord=o)
        fr.regs[dst] = self.to_ptr(st, r) if t[0] == 'ptr' else self.addr(st, r)
        fr.i += 1

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, i):
        _, dst, rt, callee, args = i
        f = self.val(st, fr, callee)
        if not isinstance(f, FnPtr):
            f = self.to_ptr(st, f)
        if not isinstance(f, FnPtr):
            if isinstance(f, z3.ExprRef):
                raise CannotEncode('indirect call through symbolic pointer %s' % f)
            raise CannotEncode('indirect call of %s' % f)
        n = f.name
        h = self.ext.get(n)
        if h is None and n in self.fns and not (n in fr.fn.mod.fns) : pass
        if h is None:
            for k, hh in self.ext.items():
                if k.startswith('~') and k[1:] in n: h = hh; break
        if h is not None:
            av = [self.val(st, fr, a) for a in args]
            fr.i += 1
            return h(self, st, av, rt, n, dst, args)
        if n.startswith('llvm.'):
            return self.intrinsic(st, fr, i, n)
        target = fr.fn.mod.fns.get(n) or self.fns.get(n)
        if is_panic(n):
            st.status = 'panic'; st.why = n
            return [st]
        if target is not None:
            av = [self.val(st, fr, a) for a in args]
            fr.i += 1
            self.push(st, target, av, dst)
            return
        if n in ('memcpy', 'memmove', 'memset', 'bcmp', 'memcmp'):
            av = [self.val(st, fr, a) for a in args]
            fr.i += 1
            if n in ('memcpy', 'memmove'): self.memcpy(st, av[0], av[1], av[2]); fr.regs[dst] = av[0]; return
        for m in self.mods:
            d = m.decls.get(n)
            if d and ('noreturn' in d[0] or (d[1] and 'noreturn' in m.attrs.get(d[1], ''))):
                st.status = 'panic'; st.why = n
                return [st]
        raise CannotEncode('call of external ' + n)

    def memcpy(self, st, d, s, n, **kw):
        if not isinstance(n, int): raise CannotEncode('symbolic memcpy length')
        if n == 0: return
        s = self.resolve(st, s, 'memcpy'); d = self.resolve(st, d, 'memcpy')
        so = st.mem[s.obj]
        sk = self.key(s.off)
        # copy cell-wise where possible
        j = 0
        while j < n:
            c = so.cells.get((sk[0], sk[1] + j)) if so.policy != 'havoc' else None
            k = c[0] if c and j + c[0] <= n else None
            if k is None:
                k = 8 if n - j >= 8 and so.policy == 'havoc' else 1
            v = self.load(st, self.ptr_add(s, j), k, src='memcpy')
            self.store(st, self.ptr_add(d, j), k, v, src='memcpy')
            so = st.mem[s.obj]
            j += k

    def intrinsic(self, st, fr, i, n):
        _, dst, rt, callee, args = i
        b = n[5:]
        if b.startswith(('lifetime', 'dbg', 'experimental.noalias', 'donothing', 'invariant', 'prefetch')) or b.startswith('x86.sse2.pause') or b in ('aarch64.hint', 'arm.hint', 'riscv.pause', 'aarch64.isb', 'arm.isb', 'arm.wfe', 'aarch64.wfe'):
            if dst: fr.regs[dst] = None
            fr.i += 1; return
        if b.startswith('assume'):
            c = self.val(st, fr, args[0])
            fr.i += 1
            c = simp(C(c))
            if c is True: return
            if c is False or solve(st.pc + [NOT(c)]) != 'unsat':
                st.status = 'ub'; st.why = 'assumption may be false'; return [st]
            return
        av = None
        def A(k): return self.val(st, fr, args[k])
        if b.startswith(('smax', 'smin', 'umax', 'umin')):
            w = self.bits(rt); x, y = A(0), A(1)
            p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[b[:4]]
            fr.regs[dst] = ITE(cmpop(p, x, y, w), x, y, w); fr.i += 1; return
        if b.startswith('expect'):
            fr.regs[dst] = A(0); fr.i += 1; return
        if b.startswith('bswap'):
            w = rt[1]; x = A(0)
            fr.regs[dst] = concat_le([byte_le(x, k) for k in range(w // 8)][::-1]); fr.i += 1; return
        if b.startswith(('fshl', 'fshr')):
            w = rt[1]; x, y, z = A(0), A(1), A(2)
            m = binop('urem', z, w, w)
            cc = cat(x, y, w)
            z2 = zext(m, w, 2 * w)
            if b.startswith('fshl'): r = binop('lshr', binop('shl', cc, z2, 2 * w), w, 2 * w)
            else: r = binop('lshr', cc, z2, 2 * w)
            fr.regs[dst] = trunc(r, w); fr.i += 1; return
        if b.startswith('ptrmask'):
            p = A(0); m = A(1)
            a = binop('and', self.addr(st, p), m, self.pw)
            fr.regs[dst] = self.to_ptr(st, a); fr.i += 1; return
        if b.startswith(('memcpy', 'memmove')):
            self.memcpy(st, A(0), A(1), A(2)); fr.i += 1; return
        if b.startswith('memset'):
            p, v, k = A(0), A(1), A(2)
            if not isinstance(k, int): raise CannotEncode('memset len')
            for j in range(k): self.store(st, self.ptr_add(p, j), 1, v, src='memset')
            fr.i += 1; return
        if b.startswith('fabs'):
            w = rt[1]; fr.regs[dst] = binop('and', A(0), M(w) >> 1, w); fr.i += 1; return
        if b.startswith('copysign'):
            w = rt[1]; fr.regs[dst] = binop('or', binop('and', A(0), M(w) >> 1, w), binop('and', A(1), 1 << (w - 1), w), w); fr.i += 1; return
        if b.startswith(('maxnum', 'minnum', 'maximumnum', 'minimumnum', 'maximum.', 'minimum.')):
            w = rt[1]; x, y = A(0), A(1)
            fr.regs[dst] = self.fminmax(st, b, x, y, w); fr.i += 1; return
        if b.startswith(('uadd.with.overflow', 'usub.with.overflow', 'umul.with.overflow', 'sadd.with.overflow', 'ssub.with.overflow', 'smul.with.overflow')):
            t = rt[1][0]; w = t[1]; x, y = A(0), A(1)
            s = b[0] == 's'; o = b[1:4]
            e = sext if s else zext
            X, Y = e(x, w, 2 * w), e(y, w, 2 * w)
            full = binop(o, X, Y, 2 * w); r = trunc(full, w)
            fr.regs[dst] = [r, NOT(EQ(e(r, w, 2 * w), full, 2 * w))]; fr.i += 1; return
        if b.startswith(('uadd.sat', 'usub.sat')):
            w = rt[1]; x, y = A(0), A(1)
            r = binop(b[1:4], x, y, w)
            if b[1:4] == 'add': fr.regs[dst] = ITE(cmpop('ult', r, x, w), M(w), r, w)
            else: fr.regs[dst] = ITE(cmpop('ult', x, y, w), 0, r, w)
            fr.i += 1; return
        if b.startswith('abs.'):
            w = rt[1]; x = A(0)
            fr.regs[dst] = ITE(cmpop('slt', x, 0, w), binop('sub', 0, x, w), x, w); fr.i += 1; return
        if b.startswith(('ctpop', 'ctlz', 'cttz')):
            w = rt[1]; x = A(0)
            if isinstance(x, int):
                if b.startswith('ctpop'): r = bin(x).count('1')
                elif b.startswith('cttz'): r = w if x == 0 else (x & -x).bit_length() - 1
                else: r = w - x.bit_length()
            else:
                r = w if not b.startswith('ctpop') else 0
                if b.startswith('cttz'):
                    for k in reversed(range(w)): r = ITE(simp(z3.Extract(k, k, x) == 1), k, r, w)
                elif b.startswith('ctlz'):
                    for k in range(w): r = ITE(simp(z3.Extract(k, k, x) == 1), w - 1 - k, r, w)
                else:
                    for k in range(w): r = binop('add', r, zext(extract(x, k, k), 1, w), w)
            fr.regs[dst] = r; fr.i += 1; return
        if b.startswith(('ucmp', 'scmp')):
            w = self.bits(args[0][2]); x, y = A(0), A(1); rw = rt[1]
            fr.regs[dst] = ITE(cmpop(b[0] + 'lt', x, y, w), M(rw), ITE(cmpop('eq', x, y, w), 0, 1, rw), rw); fr.i += 1; return
        if b.startswith('trap'):
            st.status = 'panic'; st.why = 'trap'; return [st]
        if b.startswith('is.fpclass'):
            x = A(0); m = A(1); w = args[0][2][1]
            if m == 3: fr.regs[dst] = simp(z3.fpIsNaN(fp_of(x, w))); fr.i += 1; return
        if b.startswith('bitreverse'):
            w = rt[1]; x = A(0)
            fr.regs[dst] = simp(z3.Concat(*[B(extract(x, k, k), 1) for k in range(w)])); fr.i += 1; return
        if b.startswith('threadlocal.address'):
            fr.regs[dst] = A(0); fr.i += 1; return
        h = getattr(self.arch, 'intrinsic', None)
        if h is not None:
            r = h(self, st, fr, dst, rt, n, [self.val(st, fr, a) for a in args], args)
            if r is not NotImplemented: return r
        raise CannotEncode('intrinsic ' + n)
    def fminmax(self, st, b, x, y, w):
        a, c = fp_of(x, w), fp_of(y, w)
        r = fresh('fp', w); mx = b.startswith('max')
        nan = z3.fpIsNaN
        X, Y = B(x, w), B(y, w)
        quiet = z3.BitVecVal(1 << {16: 9, 32: 22, 64: 51, 128: 111}[w], w)
        both0 = z3.And(z3.fpIsZero(a), z3.fpIsZero(c))
        gt = z3.fpGT(a, c) if mx else z3.fpLT(a, c)
        anynan = nan(fp_of(r, w))
        res = []
        if b.startswith(('maximum.', 'minimum.')):
            nanc = z3.Or(nan(a), nan(c)); 
            res.append(z3.Implies(nanc, anynan))
        else:
            # minnum/maxnum and *num: one NaN -> the other; both -> NaN (for legacy maxnum a signaling NaN may give NaN)
            res.append(z3.Implies(z3.And(nan(a), nan(c)), anynan))
            if b.startswith(('maximumnum', 'minimumnum')):
                res.append(z3.Implies(z3.And(nan(a), z3.Not(nan(c))), r == Y))
                res.append(z3.Implies(z3.And(nan(c), z3.Not(nan(a))), r == X))
            else:
                def snan(V, f): return z3.And(nan(f), (V & quiet) == 0)
                res.append(z3.Implies(z3.And(nan(a), z3.Not(nan(c))), z3.Or(r == Y, z3.And(snan(X, a), anynan))))
                res.append(z3.Implies(z3.And(nan(c), z3.Not(nan(a))), z3.Or(r == X, z3.And(snan(Y, c), anynan))))
            nanc = z3.Or(nan(a), nan(c))
        if b.startswith(('maximum', 'minimum')):
            z = (X & Y) if mx else (X | Y)
            res.append(z3.Implies(z3.And(z3.Not(nanc), both0), r == z))
        else:
            res.append(z3.Implies(z3.And(z3.Not(nanc), both0), z3.Or(r == X, r == Y)))
        res.append(z3.Implies(z3.And(z3.Not(nanc), z3.Not(both0)), r == z3.If(gt, X, Y)))
        self.fprel(st, r, ('fmax' if mx else 'fmin', x, y), z3.And(*res))
        return r

    # ------------------------------------------------------------ asm
    def do_asm(self, st, fr, i):
        _, dst, rt, tmpl, cons, kw, args, at = i
        av = [self.val(st, fr, a) for a in args]
        fr.i += 1
        STATS.asm.add(tmpl)
        if tmpl.strip() == '':
            # empty asm: compiler barrier / value laundering
            outs = [c for c in cons.split(',') if c.startswith('=')]
            if not outs:
                return
        return self.arch.start(self, st, fr, dst, rt, tmpl, cons, kw, args, av, at)

def is_panic(n):
    return bool(re.search(r'4core9panicking|panic_fmt|rust_begin_unwind|panic_cannot_unwind|6option13unwrap_failed|6option13expect_failed|6result13unwrap_failed|slice_.*index.*fail|core.panicking', n))

def fsort(w):
    return {16: z3.Float16(), 32: z3.Float32(), 64: z3.Float64(), 128: z3.Float128()}[w]
def fp_of(x, w):
    return z3.fpToFP(B(x, w), fsort(w))
def fcmp(pred, x, y, w):
    a, b = fp_of(x, w), fp_of(y, w)
    un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    if pred == 'ord': return simp(z3.Not(un))
    if pred == 'uno': return simp(un)
    if pred == 'true': return True
    if pred == 'false': return False
    k = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'ne': lambda p, q: z3.Not(z3.fpEQ(p, q))}[pred[1:]](a, b)
    if pred[0] == 'o': return simp(z3.And(z3.Not(un), k))
    return simp(z3.Or(un, k))
