"""Weak-memory executions of small programs made of the crate's own operations.

Each operation of a program is one symbolically executed path of the real code (its memory events, with the orderings the
compiler's IR or the assembly gives them, and its path condition over the values it read).  One solver query per program and
choice of paths asks for an execution that the memory model allows and that no interleaving of the whole operations explains."""
import z3, itertools, time, os
from . import sym, core, spec, ops
from .sym import *

SHARED_PREFIX = core.CPU_PREFIX + ('base$', 'init$')

LOGIC = os.environ.get('VF_LOGIC', 'QF_UFBV')
class Pos:
    """a position in an order"""
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __lt__(s, o): return z3.BoolRef(z3.Z3_mk_bvult(_cr, s.v.as_ast(), o.v.as_ast()), _ctx)
def POS(n): return Pos(z3.BitVec(n, 6))
class E:
    """a memory event of a program"""
    __slots__ = ('kind', 'loc', 'ord', 'r', 'w', 'na', 'deps', 'rid', 'th', 'ix', 'inst', 'src', 'amo', 'ford', 'll')
    def __init__(s, kind, loc=None, ord=None, r=None, w=None, na=False, deps=frozenset(), rid=None, src='llvm', amo=False):
        s.kind = kind; s.loc = loc; s.ord = ord; s.r = r; s.w = w; s.na = na; s.deps = deps; s.rid = rid; s.src = src; s.amo = amo
    def isr(s): return s.kind in 'RU'
    def isw(s): return s.kind in 'WU'
    def __repr__(s): return '%s%s %s %s' % (s.kind, ' na' if s.na else '', s.loc, s.ord)

class Path:
    """one path of one operation, before instantiation"""
    pass

def z(v, n): return z3.BitVecVal(v & M(n), n) if isinstance(v, int) else v

def consts(e, cache={}):
    if not isz(e): return frozenset()
    return frozenset(core.consts(e))

def lock_statics(t, p):
    return {n for n, o in p.mem.items() if o.kind == 'static' and n not in getattr(t, 'disp', {})}

def havoc_locks(t):
    for g, d in t.ex.globs.items():
        if not d['const'] and g not in getattr(t, 'disp', {}): t.ex.gpolicy[g] = 'havoc'

def extract_paths(t, ty, op, max_visits=2, ords=None, drop_spin=True):
    """the paths of an operation under arbitrary interference (also on the crate's locks) -> ([Path], Ctx, [problems])"""
    ex = t.ex; saved = (ex.max_visits, dict(ex.gpolicy))
    ex.max_visits = max_visits
    havoc_locks(t)
    ex.spin = {g for g, d in t.ex.globs.items() if not d['const'] and g not in getattr(t, 'disp', {})}
    try: c = ops.run(t, ty, op, 'havoc', 0, ords)
    finally: ex.max_visits, ex.gpolicy = saved; ex.spin = ()
    out = []; bad = []
    for p in c.paths:
        if p.status.startswith('cut'): continue
        if p.ub or p.status != 'ret':
            if p.status == 'unreachable' or p.status == 'panic' or p.ub:
                if solve(p.pc) == 'unsat': continue
            # an unwrap on a lock-protected value cannot be reached from outside: reported by the sequential checks
            bad.append('%s %s' % (p.status, p.why or p.ub)); continue
        q = to_path(t, c, p, drop_spin)
        if q is not None: out.append(q)
    return dedupe(out), c, bad

def to_path(t, c, p, drop_spin=True):
    locks = lock_statics(t, p)
    q = Path(); q.ty = c.ty; q.op = c.op; q.c = c
    evs = []
    for e in p.ev:
        if e.kind in 'RWU':
            if e.obj == 'A' or e.obj in locks: evs.append(e)
        elif e.kind in ('F', 'CALL'): evs.append(e)
    q.evs = []
    reads = []      # (names, index)
    for e in evs:
        if e.kind == 'CALL': continue
        rn = consts(num(t, p, e.r)) if e.kind in 'RU' else frozenset()
        dp = set()
        if e.kind in 'WU':
            names = set(consts(num(t, p, e.w)))
            for f in p.pc[:e.npc]: names |= consts(f)
            for nm, i in reads:
                if nm & names: dp.add(i)
        if e.kind in 'RU': reads.append((frozenset(x for x in rn if '!' in x), len(q.evs)))
        q.evs.append((e.kind, e.obj, e.off, e.size, e.ord, num(t, p, e.r), num(t, p, e.w), e.atomic, frozenset(dp), e.src, e.ll, e.ford))
    q.evs = pair_llsc(q.evs)
    if q.evs is None: return None
    q.calls = [(num(t, p, e.r), num(t, p, e.w)) for e in p.ev if e.kind == 'CALL']
    q.pc = [f for f in p.pc if not core.cpu_only(f)]
    q.cpu = [AND(*[f for f in p.pc if core.cpu_only(f)])]
    q.out = num(t, p, p.out) if p.out is not None else None; q.flag = p.flag
    q.recs = p.extra.get('fpres', ())
    abstract(t, q)
    q.asm = any(e[9] != 'llvm' and e[1] == 'A' for e in q.evs)
    q.big = t.ex.big
    return q
num = core.num

TRIVIAL = ('load', 'store', 'swap', 'compare_exchange', 'compare_exchange_weak', 'fetch_update')
def abstract(t, q):
    """when the value a path writes is, provably, the documented function of the full value it read last, the function
    itself does not matter for the order of events: it is replaced by an uninterpreted one"""
    q.absr = None; ty = q.ty; n = ty.bytes; c = q.c
    if q.op in TRIVIAL or ty.kind == 'float' and q.op not in ('fetch_neg', 'fetch_abs'): return
    ws = [k for k, e in enumerate(q.evs) if e[1] == 'A' and e[0] in 'WU']
    if not ws: return
    r = None; k0 = ws[0]
    for e in q.evs[:k0 + 1]:
        if e[1] == 'A' and e[0] in 'RU' and e[3] == n and e[2] == (None, c.off): r = e[5]
    if r is None: return
    d = {}
    for k in ws:
        e = q.evs[k]
        if e[0] == 'U' and k != k0: return
        o = e[2][1] - c.off
        if o in d or o < 0 or o + e[3] > n: return
        d[o] = (e[3], e[6])
    pos = 0; parts = []
    while pos < n:
        if pos not in d: return
        parts.append(z(d[pos][1], 8 * d[pos][0])); pos += d[pos][0]
    if not t.ex.big: parts.reverse()
    w = z3.Concat(*parts) if len(parts) > 1 else parts[0]
    cs = [f for f in q.pc] + [NOT(EQ(simp(w), spec.new_value(ty, q.op, r, c.x, c.b), ty.w))]
    if solve(cs, timeout=20000) == 'unsat': q.absr = r
def pair_llsc(evs):
    """load-exclusive and the store-exclusive that succeeds become one read-modify-write; paths that repeat the pair are dropped"""
    if not any(e[10] for e in evs): return evs
    pend = None; out = []; mp = {}; taken = 0
    for i, e in enumerate(evs):
        if e[0] == 'R' and e[10]:
            if pend is not None: return None      # retried: the same behaviours occur with the first attempt succeeding
            pend = (i, e); continue
        if e[0] == 'U' and e[10] and pend is not None:
            j, l = pend; pend = None
            u = ('U', e[1], e[2], e[3], 'a64:' + ''.join(c for c in l[4][4:] if c in 'AQ') + ('L' if 'L' in e[4][4:] else ''), e[5], e[6], True, e[8] - {j}, e[9], True, e[11])
            mp[i] = mp[j] = len(out); out.append((u, e[8] - {j})); continue
        mp[i] = len(out); out.append((e, e[8]))
    if pend is not None: j, l = pend; mp[j] = len(out); out.append((l[:7] + (True,) + l[8:], l[8]))
    return [e[:8] + (frozenset(mp[d] for d in dp if d in mp),) + e[9:] for e, dp in out]
def dedupe(ps):
    d = {}
    for q in ps:
        # canonical names of the values read
        m = []; seen = set()
        for e in q.evs:
            for v in (e[5], e[6]):
                for n in sorted(consts(v)):
                    if '!' in n and n not in seen: seen.add(n); m.append(n)
        key = (canon([e[:5] + (str(e[7]),) for e in q.evs], q, m))
        if key in d: d[key].cpu += q.cpu
        else: d[key] = q
    out = []
    for q in d.values():
        f = OR(*q.cpu)
        q.cpuf = simp(f) if isz(f) else f
        if q.cpuf is False: continue
        out.append(q)
    return out
def canon(evs, q, names):
    terms = [v for e in q.evs for v in (e[5], e[6])] + [q.out, q.flag] + [v for c in q.calls for v in c] + list(q.pc)
    txt = [str(evs)]
    for v in terms: txt.append(v.sexpr() if isz(v) else repr(v))
    s = '\n'.join(txt)
    for i, n in enumerate(names): s = s.replace(n + ' ', '#%d ' % i).replace(n + ')', '#%d)' % i).replace(n + '\n', '#%d\n' % i)
    return s

LOCKNAMES = {}      # static -> [offset expression]
def lockname(o, off):
    """a name for a lock word: equal names for offsets that are equal for every address of the object"""
    if not isz(off): return '%s|%s' % (o, off)
    l = LOCKNAMES.setdefault(o, [])
    for i, x in enumerate(l):
        if x.eq(off): return '%s|#%d' % (o, i)
    for i, x in enumerate(l):
        if x.size() == off.size():
            r = solve([x != off], timeout=20000)
            if r == 'unsat': return '%s|#%d' % (o, i)
            if r == 'unknown': raise CannotEncode('cannot decide whether two operations use the same lock')
    l.append(off)
    return '%s|#%d' % (o, len(l) - 1)
class Inst:
    """an instance of a path in a program: all its variables renamed"""
    def __init__(s, q, tag, obj='A'):
        s.q = q; s.tag = tag; s.obj = obj; s.ty = q.ty; s.op = q.op
        terms = [v for e in q.evs for v in (e[5], e[6])] + [q.out, q.flag, q.c.x, q.c.y, q.c.b, q.c.o, q.c.o2, q.cpuf] + [v for c in q.calls for v in c] + list(q.pc) + [v for r in q.recs for v in (r[0],) + (tuple(r[1][1:]) if r[1] else ())]
        names = {}
        for v in terms:
            if isz(v):
                for cst in const_nodes(v):
                    n = cst.decl().name()
                    if n.startswith(SHARED_PREFIX): continue
                    names[n] = cst
        sub = [(cst, z3.Const(n + '@' + tag, cst.sort())) for n, cst in names.items()]
        f = lambda v: z3.substitute(v, sub) if isz(v) and sub else v
        s.F = z3.Function('F@' + tag, z3.BitVecSort(q.ty.w), z3.BitVecSort(q.ty.w)) if q.absr is not None else None
        wide = s.F(z(f(q.absr), q.ty.w)) if s.F is not None else None
        def fw(o, of, sz, w):
            if s.F is None or o != 'A' or w is None: return f(w)
            j = of[1] - q.c.off
            if q.big: j = q.ty.bytes - sz - j
            return wide if sz == q.ty.bytes else z3.Extract(8 * (j + sz) - 1, 8 * j, wide)
        s.pc = [f(x) for x in q.pc] + ([q.cpuf] if q.cpuf is not True else [])
        s.out = f(q.out); s.flag = f(q.flag); s.x = f(q.c.x); s.y = f(q.c.y); s.b = f(q.c.b); s.o = f(q.c.o); s.o2 = f(q.c.o2)
        s.calls = [(f(a), f(b)) for a, b in q.calls]
        s.recs = [(f(r[0]), (r[1][0],) + tuple(f(v) for v in r[1][1:]) if r[1] else None, None) for r in q.recs]
        s.raw = []
        for (k, o, off, sz, od, r, w, at, dp, src, ll, fo) in q.evs:
            if o == 'A': o2 = obj
            elif o is None: o2 = None
            else: o2 = lockname(o, off[0]) + ('' if obj == 'A' else '#' + obj); off = (None, off[1])
            s.raw.append((k, o2, off, sz, od, f(r), fw(o, off, sz, w), at, dp, src, ll, fo))
    @property
    def kind(s): return 'op'

def const_nodes(e):
    todo = [e]; seen = set(); out = []
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        todo.extend(x.children())
    return out

class Plain:
    """a load or store of an ordinary (core) atomic word"""
    def __init__(s, op, obj, ord, val=None, tag='', w=32):
        s.op = op; s.obj = obj; s.tag = tag; s.w = w; s.pc = []; s.asm = False; s.ord = ord
        s.val = val if op == 'store' else z3.BitVec('v' + tag, w)
        s.raw = [('W' if op == 'store' else 'R', obj, (None, 0), w // 8, ord, None if op == 'store' else s.val, s.val if op == 'store' else None, True, frozenset(), 'llvm', False, None)]
class Fence:
    """fence events taken from the real fence function (or a plain LLVM fence)"""
    def __init__(s, evs, pc=()): s.op = 'fence'; s.obj = None; s.pc = list(pc); s.raw = evs; s.asm = False

def state_step(i, st):
    """-> (condition that op instance i is explained when the object holds st, the contents after it)"""
    if isinstance(i, Fence): return True, st
    if isinstance(i, Plain):
        if i.op == 'store': return True, i.val
        return EQ(i.val, st, i.w), st
    ty = i.ty; W = ty.w; op = i.op
    if op == 'load': return EQ(i.out, st, W), st
    if op == 'store': return True, i.x
    if op in ('compare_exchange', 'compare_exchange_weak'):
        eq = EQ(st, i.x, W); ok = EQ(i.flag, 1, 8)
        c = AND(EQ(i.out, st, W), OR(AND(ok, eq), AND(EQ(i.flag, 0, 8), NOT(eq) if op == 'compare_exchange' else True)))
        return c, ITE(ok, i.y, st, W) if not isinstance(ok, bool) else (i.y if ok else st)
    if op == 'fetch_update':
        a, nw = i.calls[-1]
        c = AND(EQ(i.out, st, W), EQ(a, st, W), EQ(i.flag, 1 if nw is not None else 0, 8))
        return c, nw if nw is not None else st
    if ty.kind == 'float' and op in ('fetch_add', 'fetch_sub', 'fetch_max', 'fetch_min'):
        ws = [e for e in i.raw if e[1] == i.obj and e[0] in 'WU']
        if ws and ws[-1][3] == ty.bytes: nv = ws[-1][6]
        elif ws:
            # stored in pieces
            d = {e[2][1]: e for e in ws}; ks = sorted(d); nv = None
            for k in (ks if not i.q.big else reversed(ks)):
                nv = z(d[k][6], 8 * d[k][3]) if nv is None else z3.Concat(z(d[k][6], 8 * d[k][3]), nv)
            nv = simp(nv)
        else: nv = st
        return spec.outcome(ty, op, st, nv, i.out, i.flag, i.x, i.y, i.b, i.recs), nv
    if i.F is not None:
        c = True
        if op.startswith('bit_'):
            bit = extract(binop('lshr', st, spec.bitidx(i.b, W), W), 0, 0); c = EQ(i.flag, zext(bit, 1, 8), 8)
        elif op.startswith('fetch_'): c = EQ(i.out, st, W)
        return c, i.F(z(st, W))
    nv = spec.new_value(ty, op, st, i.x, i.b)
    return spec.outcome(ty, op, st, nv, i.out, i.flag, i.x, i.y, i.b), nv
def interleavings(threads):
    n = [len(t) for t in threads]
    def go(pos):
        if all(p == m for p, m in zip(pos, n)): yield (); return
        for k in range(len(n)):
            if pos[k] < n[k]:
                q = list(pos); q[k] += 1
                for rest in go(tuple(q)): yield ((k, pos[k]),) + rest
    return list(go(tuple(0 for _ in n)))

class Prog:
    """threads: lists of Inst/Plain/Fence"""
    def __init__(s, threads, model, big=False, widths=None):
        s.threads = threads; s.model = model; s.big = big
        s.build()
    def build(s):
        # granularity of every object
        acc = {}
        for th in s.threads:
            for i in th:
                for (k, o, off, sz, od, r, w, at, dp, src, ll, fo) in i.raw:
                    if k in 'RWU': acc.setdefault(o, []).append((off[1], sz, k, at))
        s.grain = {}; s.drop = {}
        for o, l in acc.items():
            ws = [a for a in l if a[2] in 'WU']
            if not ws: ws = [a for a in l if a[3]] or l
            g = min(a[1] for a in ws)
            s.grain[o] = g
        s.ev = []; s.locs = {}
        for ti, th in enumerate(s.threads):
            prev = []
            for i in th:
                base = len(s.ev); idx = {}
                for n, (k, o, off, sz, od, r, w, at, dp, src, ll, fo) in enumerate(i.raw):
                    if k == 'F':
                        e = E('F', None, od, src=src); e.th = ti; e.inst = i; s.ev.append(e); idx[n] = [e]; continue
                    g = s.grain[o]; idx[n] = []
                    if sz < g:
                        # part of a location: its value stays unconstrained, its ordering counts
                        if k == 'R':
                            if src != 'llvm':
                                e = E('P', None, od, src=src); e.th = ti; e.inst = i; s.ev.append(e); idx[n] = [e]
                            continue
                        raise CannotEncode('mixed-size access')
                    if getattr(i, 'obj', None) == o and isinstance(i, Inst) and sz == g and g > i.ty.bytes: pass
                    if off[1] % g: raise CannotEncode('mixed-size access (offset)')
                    for j in range(0, sz, g):
                        lo = (sz - g - j if s.big else j) * 8
                        cut = lambda v: None if v is None else (v if sz == g else extract(v, lo + 8 * g - 1, lo))
                        e = E(k, (o, off[1] + j), od, cut(r), cut(w), not at, src=src)
                        e.th = ti; e.inst = i; e.ll = ll; e.ford = fo
                        e.deps = [x for d in dp for x in idx.get(d, ())]
                        s.ev.append(e); idx[n].append(e)
        for x, e in enumerate(s.ev):
            e.ix = x
            if e.loc: s.locs.setdefault(e.loc, []).append(e)
    def solve(s, extra=(), final=True, timeout=60000, require=None):
        """-> ('unsat', None) or ('sat', description)"""
        T = time.time(); ST = sym.STATS
        S = z3.SolverFor(LOGIC); S.set('timeout', timeout)
        m = {'rc11': RC11, 'tso': TSO, 'arm': ARM}[s.model](s)
        for th in s.threads:
            for i in th:
                for c in i.pc:
                    if c is False: return 'unsat', None
                    if c is not True: S.add(c)
        for c in extra:
            if c is False: return 'unsat', None
            if c is not True: S.add(c)
        if require is None:
            ok = s.explained(m, final)
            bad = NOT(ok)
            if m.races: bad = disj([bad] + m.races)
        else: bad = require(s, m)
        if bad is False: return 'unsat', None
        cs = conj(m.cs)
        if cs is False: return 'unsat', None
        if cs is not True: S.add(cs)
        if bad is not True: S.add(bad)
        r = S.check(); ST.time += time.time() - T; ST.queries += 1
        if r == z3.unsat: ST.unsat += 1; return 'unsat', None
        if r == z3.sat:
            ST.sat += 1
            return 'sat', describe(s, m, S.model())
        ST.unknown += 1
        return 'unknown', None
    def explained(s, m, final=True):
        """some interleaving of the operations gives the observed results (and final contents)"""
        alts = []
        objs = {}
        for th in s.threads:
            for i in th:
                if i.obj is not None: objs[i.obj] = i
        for il in interleavings(s.threads):
            st = {o: m.initial(o, width(i), off(i)) for o, i in objs.items()}
            cs = []
            for k, n in il:
                i = s.threads[k][n]
                if i.obj is None: continue
                c, st[i.obj] = state_step(i, st[i.obj]); cs.append(c)
            if final:
                for o, i in objs.items(): cs.append(EQ(st[o], m.final(o, width(i), off(i)), width(i)))
            alts.append(AND(*cs))
        return OR(*alts)
def width(i): return i.ty.w if isinstance(i, Inst) else i.w
def off(i): return 16 if isinstance(i, Inst) else 0

# ---- a thin layer over the solver's boolean terms that folds constants
_ctx = z3.main_ctx(); _cr = _ctx.ref()
def BOOL(n): return z3.Bool(n)
def neg(a):
    if a is True: return False
    if a is False: return True
    return z3.BoolRef(z3.Z3_mk_not(_cr, a.as_ast()), _ctx)
def _nary(mk, l):
    n = len(l); arr = (z3.Ast * n)()
    for i, x in enumerate(l): arr[i] = x.as_ast()
    return z3.BoolRef(mk(_cr, n, arr), _ctx)
def conj(l):
    r = []
    for x in l:
        if x is False: return False
        if x is not True: r.append(x)
    return True if not r else r[0] if len(r) == 1 else _nary(z3.Z3_mk_and, r)
def conj_(*l): return conj(l)
def disj(l):
    r = []
    for x in l:
        if x is True: return True
        if x is not False: r.append(x)
    return False if not r else r[0] if len(r) == 1 else _nary(z3.Z3_mk_or, r)
def imp(a, b):
    if a is False or b is True: return True
    if a is True: return b
    if b is False: return neg(a)
    return z3.BoolRef(z3.Z3_mk_implies(_cr, a.as_ast(), b.as_ast()), _ctx)
def beq(a, b): return z3.BoolRef(z3.Z3_mk_eq(_cr, a.as_ast(), b.as_ast()), _ctx)

class Model:
    def __init__(s, p):
        s.p = p; s.cs = []; s.races = []; s.init = {}; s.fin = {}
        ev = p.ev; s.n = len(ev)
        s.W = {}; s.R = {}
        for l, es in p.locs.items():
            g = p.grain[l[0]]
            iv = z3.BitVec('ini$%s+%d' % (l[0][:1] + str(abs(hash(l[0])) % 10 ** 6), l[1]), 8 * g)
            i = E('W', l, 'init', w=iv); i.th = -1; i.ix = -1; i.inst = None
            s.init[l] = i
            s.W[l] = [i] + [e for e in es if e.isw()]; s.R[l] = [e for e in es if e.isr()]
            inv = s.lockinv(l, iv)
            if inv is not None: s.cs.append(inv)
        s.mo_ = {}; s.rf_ = {}
        s.base()
    def lockinv(s, l, v):
        if '|' in l[0]: return (v & 1) == 0
        return None
    def initial(s, o, w, off):
        g = s.p.grain.get(o)
        if g is None: return z3.BitVec('ini$none$' + o, w)
        return s.cat(o, w, off, lambda l: s.init[l].w if l in s.init else z3.BitVec('inix$%s+%d' % l, 8 * g), g)
    def cat(s, o, w, off, f, g):
        if g * 8 > w:
            raise CannotEncode('location wider than the object')
        parts = [z(f((o, off + j)), 8 * g) for j in range(0, w // 8, g)]
        if not s.p.big: parts.reverse()
        return simp(z3.Concat(*parts)) if len(parts) > 1 else parts[0]
    def final(s, o, w, off):
        g = s.p.grain.get(o)
        if g is None: return z3.BitVec('ini$none$' + o, w)
        def f(l):
            if l not in s.init: return z3.BitVec('inix$%s+%d' % l, 8 * g)
            if l not in s.fin:
                v = z3.BitVec('fin$%d+%d' % (abs(hash(l)) % 10 ** 8, l[1]), 8 * g); s.fin[l] = v
                ws = s.W[l]
                for w in ws:
                    s.cs.append(imp(conj([True] + [s.mo(x, w) for x in ws if x is not w]), beq(v, z(w.w, 8 * g))))
            return s.fin[l]
        r = s.cat(o, w, off, f, g)
        return r
    def mo(s, a, b):
        if a.loc != b.loc or a is b: return False
        if a.ix == -1: return True
        if b.ix == -1: return False
        if a.ix > b.ix: return neg(s.mo(b, a))
        k = (a.ix, b.ix)
        if k not in s.mo_:
            s.mo_[k] = BOOL('mo_%d_%d' % k)
        return s.mo_[k]
    def rf(s, w, r):
        if w.loc != r.loc or w is r: return False
        k = (w.ix, r.ix)
        if k not in s.rf_: s.rf_[k] = BOOL('rf_%d_%d' % k)
        return s.rf_[k]
    def base(s):
        A = s.cs.append
        for l, ws in s.W.items():
            g = 8 * s.p.grain[l[0]]
            ow = ws[1:]
            for a, b, c in itertools.permutations(ow, 3): A(imp(conj_(s.mo(a, b), s.mo(b, c)), s.mo(a, c)))
            for r in s.R[l]:
                c = [w for w in ws if w is not r]
                A(disj([s.rf(w, r) for w in c]))
                for w, w2 in itertools.combinations(c, 2): A(neg(conj_(s.rf(w, r), s.rf(w2, r))))
                for w in c:
                    A(imp(s.rf(w, r), beq(z(w.w, g), z(r.r, g))))
                    if r.kind == 'U':
                        A(imp(s.rf(w, r), s.mo(w, r)))
                        for w2 in c:
                            if w2 is not w: A(imp(conj_(s.rf(w, r), s.mo(w2, r)), s.mo(w2, w)))
        s.fr_ = {}
        # initial write events have index -1: names of rf are unique per location through the reader
    def fr(s, r, w2):
        """r reads from a write before w2"""
        if r.loc != w2.loc or r is w2: return False
        k = (r.ix, w2.ix)
        if k not in s.fr_: s.fr_[k] = disj([False] + [conj_(s.rf(w, r), s.mo(w, w2)) for w in s.W[r.loc] if w is not w2 and w is not r])
        return s.fr_[k]
    def sb(s, a, b): return a.th == b.th and a.ix < b.ix

REL = {'release', 'acq_rel', 'seq_cst'}; ACQ = {'acquire', 'acq_rel', 'seq_cst'}
def lord(e):
    """LLVM ordering of an event in the language-level model"""
    o = e.ord
    if e.kind == 'F':
        return {'mfence': 'seq_cst', 'x86lock': 'seq_cst'}.get(o, o)
    if o in ('x86lock',): return 'seq_cst'
    return o or 'na'

class RC11(Model):
    def __init__(s, p):
        super().__init__(p)
        A = s.cs.append; ev = p.ev; n = s.n
        hb = {}
        def HB(a, b):
            if a.ix == -1: return z3.BoolVal(b.ix != -1)
            if b.ix == -1: return False
            if s.sb(a, b): return True
            if a is b or s.sb(b, a): return False
            k = a.ix * 1000 + b.ix; v = hb.get(k)
            if v is None: v = hb[k] = BOOL('hb_%d_%d' % (a.ix, b.ix))
            return v
        s.HB = HB
        HE = lambda a, b: True if a is b else HB(a, b)
        prev = {}
        threads = {}
        for e in ev: threads.setdefault(e.th, []).append(e)
        # program order carries happens-before along
        for th in threads.values():
            for x, y in zip(th, th[1:]):
                for a in ev:
                    if a.th != x.th: A(imp(HB(a, x), HB(a, y)))
        # hb must not contradict program order (irreflexive)
        for a in ev:
            for b in ev:
                if a.th != b.th and a.ix < b.ix: A(neg(conj_(HB(a, b), HB(b, a))))
        # release clocks
        rc = {}
        def RCv(a, w):
            k = a.ix * 1000 + w.ix; v = rc.get(k)
            if v is None: v = rc[k] = BOOL('rc_%d_%d' % (a.ix, w.ix))
            return v
        for l, ws in s.W.items():
            for w in ws[1:]:
                o = lord(w); fences = [f for f in threads[w.th] if f.kind == 'F' and f.ix < w.ix and lord(f) in REL]
                for a in ev:
                    if o in REL: A(imp(HE(a, w), RCv(a, w)))
                    elif fences: A(imp(HE(a, fences[-1]), RCv(a, w)))
                    if w.kind == 'U':
                        for w2 in ws[1:]:
                            if w2 is not w: A(imp(conj_(s.rf(w2, w), RCv(a, w2)), RCv(a, w)))
            for r in s.R[l]:
                if r.na: continue
                tgt = None
                if lord(r) in ACQ: tgt = r
                else:
                    fs = [f for f in threads[r.th] if f.kind == 'F' and f.ix > r.ix and lord(f) in ACQ]
                    if fs: tgt = fs[0]
                if tgt is None: continue
                for w in ws[1:]:
                    if w is r: continue
                    for a in ev:
                        if a.th == r.th:
                            # reading from something that saw our future: not possible
                            if a.ix >= tgt.ix: A(neg(conj_(s.rf(w, r), RCv(a, w))))
                            continue
                        A(imp(conj_(s.rf(w, r), RCv(a, w)), HB(a, tgt)))
        # coherence
        for l, ws in s.W.items():
            rs = s.R[l]
            for w1, w2 in itertools.permutations(ws, 2): A(imp(HB(w1, w2), s.mo(w1, w2)))
            for r in rs:
                for w in ws:
                    if w is r: continue
                    A(imp(HB(r, w), conj_(neg(s.rf(w, r)))))
                    for w0 in ws:
                        if w0 is r or w0 is w: continue
                        A(imp(conj_(HB(r, w), s.rf(w0, r)), s.mo(w0, w)))
                        A(imp(conj_(HB(w, r), s.rf(w0, r)), s.mo(w, w0)))
                for r2 in rs:
                    if r2 is r: continue
                    for w1 in ws:
                        for w2 in ws:
                            if w1 is w2 or w1 is r or w2 is r2: continue
                            A(imp(conj_(HB(r, r2), s.rf(w1, r), s.rf(w2, r2)), neg(s.mo(w2, w1))))
        # no value out of thin air: dependencies and reads-from do not form a cycle
        if any(e.deps for e in ev):
            tt = {e.ix: POS('t_%d' % e.ix) for e in ev if e.loc}
            for l, ws in s.W.items():
                for r in s.R[l]:
                    for w in ws[1:]:
                        if w is not r and w.th != r.th: A(imp(s.rf(w, r), tt[w.ix] < tt[r.ix]))
            for e in ev:
                for d in e.deps:
                    if d is not e: A(tt[d.ix] < tt[e.ix])
        s.sc(ev, threads, HB, HE)
        # races
        for l, es in p.locs.items():
            for a, b in itertools.combinations(es, 2):
                if a.th != b.th and (a.na or b.na) and (a.isw() or b.isw()):
                    s.races.append(conj_(neg(HB(a, b)), neg(HB(b, a))))
    def sc(s, ev, threads, HB, HE):
        A = s.cs.append
        heads = [e for e in ev if (lord(e) == 'seq_cst')]
        if len(heads) < 2: return
        T = {e.ix: POS('sc_%d' % e.ix) for e in heads}
        eco_ = {}
        def eco(a, b):
            """rf, mo, fr, mo;rf, fr;rf"""
            if a.loc is None or a.loc != b.loc or a is b: return False
            k = (a.ix, b.ix)
            if k not in eco_:
                alts = []
                if a.isw() and b.isw(): alts.append(s.mo(a, b))
                if a.isr() and b.isw(): alts.append(s.fr(a, b))
                if b.isr():
                    for w in s.W[a.loc]:
                        if w is b: continue
                        if w is a and a.isw(): alts.append(s.rf(w, b))
                        elif w is not a:
                            if a.isw(): alts.append(conj_(s.mo(a, w), s.rf(w, b)))
                            if a.isr(): alts.append(conj_(s.fr(a, w), s.rf(w, b)))
                eco_[k] = disj([False] + alts)
            return eco_[k]
        def diff(a, b): return a.loc is None or a.loc != b.loc
        nxt = {}; prv = {}
        for th in threads.values():
            for e in th:
                nxt[e.ix] = next((f for f in th if f.ix > e.ix and diff(e, f)), None)
                prv[e.ix] = next((f for f in reversed(th) if f.ix < e.ix and diff(e, f)), None)
        scb_ = {}
        def scb(a, b):
            k = (a.ix, b.ix)
            if k in scb_: return scb_[k]
            if a is b: r = False
            elif s.sb(a, b): r = True
            else:
                alts = []
                c, d = nxt[a.ix], prv[b.ix]
                if c is not None and d is not None: alts.append(HE(c, d) if c is d else HB(c, d))
                if a.loc is not None and a.loc == b.loc:
                    alts.append(HB(a, b))
                    if a.isw() and b.isw(): alts.append(s.mo(a, b))
                    if a.isr() and b.isw(): alts.append(s.fr(a, b))
                r = disj([False] + alts)
            scb_[k] = r
            return r
        for X in heads:
            fx = X.kind == 'F'
            L = {}; EF = {}
            for b in ev:
                al = []
                for a in ev:
                    st = True if a is X else (HB(X, a) if fx else None)
                    if st is None: continue
                    q = scb(a, b)
                    al.append(conj_(st, q))
                L[b.ix] = disj(al)
                if fx:
                    EF[b.ix] = disj([False] + [conj_(HB(X, a), eco(a, b)) for a in ev if a.loc is not None])
            for Y in heads:
                if Y is X: 
                    # cycles of length one
                    if fx:
                        for b in ev:
                            if b is not X: A(neg(conj_(L[b.ix], HB(b, X))))
                            if b is not X: A(neg(conj_(EF[b.ix], HB(b, X))))
                    A(neg(L[X.ix]) if not fx else neg(L[X.ix]))
                    continue
                lt = T[X.ix] < T[Y.ix]
                A(imp(L[Y.ix], lt))
                if Y.kind == 'F':
                    for b in ev:
                        if b is Y: continue
                        A(imp(conj_(L[b.ix], HB(b, Y)), lt))
                        if fx: A(imp(conj_(EF[b.ix], HB(b, Y)), lt))
                    if fx: A(imp(HB(X, Y), lt))

class TSO(Model):
    """x86-TSO, axiomatically"""
    def __init__(s, p):
        super().__init__(p)
        A = s.cs.append; ev = p.ev
        G = {e.ix: POS('g_%d' % e.ix) for e in ev}; C = {e.ix: POS('c_%d' % e.ix) for e in ev if e.loc}
        kind = {}
        for e in ev:
            k = e.kind
            if k == 'W' and e.src == 'llvm' and e.ord == 'seq_cst': k = 'U'
            if e.ord == 'x86lock' and k == 'R': k = 'U'
            if k == 'P': k = 'R' if e.ord != 'x86lock' else 'U'
            if k == 'F':
                if e.ord in ('mfence', 'seq_cst', 'x86lock'): k = 'M'
                else: k = '-'
            kind[e.ix] = k
        for a in ev:
            for b in ev:
                if not s.sb(a, b): continue
                ka, kb = kind[a.ix], kind[b.ix]
                if '-' in (ka, kb): continue
                if ka == 'W' and kb == 'R':
                    pass
                else: A(G[a.ix] < G[b.ix])
                if a.loc and a.loc == b.loc: A(C[a.ix] < C[b.ix])
        for l, ws in s.W.items():
            for w1, w2 in itertools.permutations(ws[1:], 2): A(imp(s.mo(w1, w2), conj_(G[w1.ix] < G[w2.ix], C[w1.ix] < C[w2.ix])))
            for r in s.R[l]:
                for w in ws[1:]:
                    if w is r: continue
                    A(imp(s.rf(w, r), C[w.ix] < C[r.ix]))
                    if w.th != r.th: A(imp(s.rf(w, r), G[w.ix] < G[r.ix]))
                    A(imp(s.fr(r, w), conj_(G[r.ix] < G[w.ix], C[r.ix] < C[w.ix])))

def arm_ord(e):
    """(acquire 'A'/'Q'/'' , release bool, fence kind)"""
    o = e.ord or ''
    if e.src == 'llvm':
        if e.kind == 'F': return {'acquire': 'ld', 'release': 'full', 'acq_rel': 'full', 'seq_cst': 'full', 'monotonic': None}.get(o, None)
        acq = 'A' if o == 'seq_cst' else 'Q' if o in ACQ else ''
        if e.kind == 'U' and acq: acq = 'A'
        return acq if e.isr() or e.kind == 'P' else '', o in REL and e.isw()
    o = o[4:] if o.startswith('a64:') else o
    if e.kind == 'F':
        if 'ld' in o: return 'ld'
        if 'st' in o.replace('ish', '').replace('dst', 'st') and o.endswith('st'): return 'st'
        return 'full'
    return ('Q' if 'Q' in o else 'A' if 'A' in o else ''), 'L' in o

class ARM(Model):
    """Armv8 (other-multicopy-atomic), without the dependency rules (more executions)"""
    def __init__(s, p):
        super().__init__(p)
        A = s.cs.append; ev = p.ev
        r_ = {}; w_ = {}; C = {}
        for e in ev:
            if e.isr() or e.kind == 'P': r_[e.ix] = POS('r_%d' % e.ix)
            if e.isw(): w_[e.ix] = POS('w_%d' % e.ix)
            if e.loc: C[e.ix] = POS('c_%d' % e.ix)
            if e.kind == 'U': A(r_[e.ix] < w_[e.ix])
        at = lambda e: [(k, d[e.ix]) for k, d in (('R', r_), ('W', w_)) if e.ix in d]
        for th in {e.th for e in ev}:
            es = [e for e in ev if e.th == th]
            for i, a in enumerate(es):
                if a.kind == 'F': continue
                qa, la = arm_ord(a)
                for j in range(i + 1, len(es)):
                    b = es[j]
                    if b.kind == 'F': continue
                    qb, lb = arm_ord(b)
                    if a.loc and a.loc == b.loc: A(C[a.ix] < C[b.ix])
                    fs = [arm_ord(f) for f in es[i + 1:j] if f.kind == 'F']
                    full = 'full' in fs or any(f.kind == 'U' and f.src != 'llvm' and f.ord and 'AL' in f.ord and not f.ll for f in es[i + 1:j])
                    for ka, ta in at(a):
                        for kb, tb in at(b):
                            o = full or (ka == 'R' and 'ld' in fs) or (ka == 'W' and kb == 'W' and 'st' in fs)
                            o = o or (ka == 'R' and qa) or (kb == 'W' and lb)
                            o = o or (ka == 'W' and la and kb == 'R' and qb == 'A')
                            if o: A(ta < tb)
        for l, ws in s.W.items():
            for w1, w2 in itertools.permutations(ws[1:], 2):
                A(imp(s.mo(w1, w2), C[w1.ix] < C[w2.ix]))
                if w1.th != w2.th: A(imp(s.mo(w1, w2), w_[w1.ix] < w_[w2.ix]))
            for r in s.R[l]:
                qr = arm_ord(r)[0]
                for w in ws[1:]:
                    if w is r: continue
                    A(imp(s.rf(w, r), C[w.ix] < C[r.ix]))
                    if w.th != r.th: A(imp(s.rf(w, r), w_[w.ix] < r_[r.ix]))
                    elif w.kind == 'U' and qr: A(imp(s.rf(w, r), w_[w.ix] < r_[r.ix]))
                    A(imp(s.fr(r, w), C[r.ix] < C[w.ix]))
                    if w.th != r.th: A(imp(s.fr(r, w), r_[r.ix] < w_[w.ix]))

def holds(mdl, f): return f if isinstance(f, bool) else z3.is_true(mdl.eval(f, model_completion=True))
def describe(p, m, mdl):
    ev = lambda v: None if v is None else v if isinstance(v, int) else mdl.eval(v, model_completion=True).as_long()
    d = {'model': p.model, 'threads': [], 'events': []}
    for ti, th in enumerate(p.threads):
        l = []
        for i in th:
            if isinstance(i, Fence): l.append('fence'); continue
            if isinstance(i, Plain): l.append('%s %s %s %d' % (i.obj, i.op, i.ord, ev(i.val))); continue
            l.append({'op': i.op, 'ty': i.ty.name, 'obj': i.obj, 'ord': ev(i.o), 'ord2': ev(i.o2), 'x': ev(i.x), 'y': ev(i.y), 'out': ev(i.out) if i.out is not None else None, 'flag': ev(i.flag) if not isinstance(i.flag, bool) else i.flag})
        d['threads'].append(l)
    for e in p.ev:
        rfw = None
        if e.isr():
            for w in m.W[e.loc]:
                if w is not e and holds(mdl, m.rf(w, e)): rfw = w.ix
        d['events'].append([e.ix, 'T%d' % e.th, e.kind + (' na' if e.na else ''), '%s+%s' % ((e.loc[0].split('|')[0][-8:], e.loc[1]) if e.loc else ('', '')), str(e.ord), ev(e.r), ev(e.w), 'rf=%s' % rfw if rfw is not None else ''])
    if m.races: d['race'] = any(holds(mdl, r) for r in m.races)
    return d
