"""Programs of a few operations on one or two objects, and the questions asked about their weak-memory executions."""
import itertools, os
from . import sym, core, spec, ops, mm, env
from .sym import *
from .mm import Inst, Plain, Fence, Prog

ORDN = {'monotonic': 0, 'release': 1, 'acquire': 2, 'acq_rel': 3, 'seq_cst': 4}
HW = {'x86_64': 'tso', 'x86': 'tso', 'aarch64': 'arm'}

class Lib:
    """the paths of the operations of one type"""
    def __init__(s, t, ty):
        s.t = t; s.ty = ty; s.all = {}; s.sel = {}; s.problems = []; s.fences = {}
    def paths(s, op, o, o2=0):
        k = (op, o, o2)
        if k in s.sel: return s.sel[k]
        kind = spec.ops_for(s.ty)[op][1]
        if op not in s.all:
            mv = 1 if op == 'fetch_update' else 2
            try: ps, c, bad = mm.extract_paths(s.t, s.ty, op, mv)
            except CannotEncode as e:
                if 'path cap' not in str(e): raise
                ps = None; bad = []
            s.all[op] = ps; s.problems += bad
        if s.all[op] is None:
            ps, c, bad = mm.extract_paths(s.t, s.ty, op, 1, (o, o2, [])); r = ps; s.problems += bad
        else:
            r = []
            for q in s.all[op]:
                cs = [EQ(q.c.o, o, 8)] + ([EQ(q.c.o2, o2, 8)] if kind in ('cas', 'upd') else [])
                if solve(q.pc + cs) != 'unsat': r.append(q)
        # the same path for several orderings is shared: the ordering is fixed per instance
        s.sel[k] = r
        return r
    def locked(s, op, o=0, o2=0): return any(any('|' in str(e[1]) or (e[1] not in ('A', None)) for e in q.evs) for q in s.paths(op, o, o2))
    def fence(s, o):
        """events of the crate's fence function"""
        if o not in s.fences:
            st = State(); f = s.t.ex.fns[s.t.fname('vf__fence')]
            reset_names(); s.t.ex.push(st, f, [o][:len(f.params)], None)
            r = []
            for p in s.t.ex.run(st):
                if p.status != 'ret': raise CannotEncode('fence: %s' % p.status)
                r.append([('F', None, None, 0, e.ord, None, None, True, frozenset(), e.src, False, None) for e in p.ev if e.kind == 'F'])
            s.fences[o] = r
        return s.fences[o]

def valid_pairs(kind, orders):
    """ordering arguments of an operation"""
    if kind == 'load': return [(o, 0) for o in orders if o in (0, 2, 4)]
    if kind == 'store': return [(o, 0) for o in orders if o in (0, 1, 4)]
    if kind in ('cas', 'upd'): return None
    return [(o, 0) for o in orders]

class Runner:
    def __init__(s, lib, r): s.lib = lib; s.r = r; s.t = lib.t; s.n = 0; s.viol = set(); s.cap = 3
    def items(s, it, tag):
        """alternatives for one program item -> list of (object, extra conditions)"""
        k = it[0]
        if k in ('A', 'B'):
            _, op, o, o2 = (it + (0, 0))[:4]
            need = it[4] if len(it) > 4 else None       # 'ok' / 'fail' for compare-exchange
            out = []
            for q in s.lib.paths(op, o, o2):
                i = Inst(q, tag, k)
                ex = [EQ(i.o, o, 8)] + ([EQ(i.o2, o2, 8)] if isz(i.o2) else [])
                if need is not None: ex.append(EQ(i.flag, 1 if need == 'ok' else 0, 8))
                if any(c is False for c in ex): continue
                out.append((i, ex))
            return out
        if k == 'fence': return [(Fence(f), []) for f in s.lib.fence(it[1])]
        return [(Plain(it[1], k, it[2], it[3] if len(it) > 3 else None, tag), [])]      # ('Y', 'store', 'seq_cst', 1)
    cpucache = {}
    def cpu_ok(s, insts):
        fs = {}
        for i in insts:
            f = i.q.cpuf if isinstance(i, Inst) else True
            if f is not True: fs[f.get_id()] = f
        if not fs: return True
        k = tuple(sorted(fs))
        if k not in s.cpucache: s.cpucache[k] = (solve(list(fs.values())) != 'unsat', list(fs.values()))
        return s.cpucache[k][0]
    def run(s, name, threads, final=True, model=None):
        """-> True if every execution is explained"""
        if len(s.viol) >= s.cap: return False
        alts = []; pos = []
        try:
            for ti, th in enumerate(threads):
                for j, it in enumerate(th):
                    alts.append(s.items(it, '%d.%d' % (ti, j))); pos.append(ti)
            for pick in itertools.product(*alts):
                if not s.cpu_ok([i for i, _ in pick]): continue
                ths = [[] for _ in threads]; ex = []
                for ti, (i, e) in zip(pos, pick): ths[ti].append(i); ex += e
                hw = any(isinstance(i, Inst) and i.q.asm for th in ths for i in th)
                m = model or (HW.get(s.t.cfg.arch, None) if hw else 'rc11')
                if m is None: raise CannotEncode('no memory model for the assembly of %s' % s.t.cfg.arch)
                p = Prog(ths, m, s.t.ex.big)
                res, d = p.solve(ex, final); s.n += 1; s.r.judged += 1; s.r.paths += 1; s.r.events += len(p.ev)
                if res == 'sat':
                    race = d.get('race')
                    what = 'operations race on memory' if race else 'an execution is not explained by any interleaving of the operations'
                    s.r.viol.append({'what': '%s [%s]' % (what, name.split(':')[0]), 'cfg': s.t.cfg.name, 'ty': s.lib.ty.name, 'op': s.r.op, 'mode': s.r.mode, 'kind': 'weak-memory', 'program': name, 'execution': d, 'memory_model': m})
                    s.viol.add(name); return False
                if res != 'unsat': s.r.i('%s: solver undecided' % name)
        except CannotEncode as e:
            s.r.i('%s: cannot encode: %s' % (name, e)); return False
        s.r.ret += 1
        return True

def result(t, ty, op, mode): return ops.R(t.cfg.name, ty.name, op, mode)
def finish(rn, lib):
    r = rn.r
    if lib.problems: r.i('paths under interference: ' + '; '.join(sorted(set(lib.problems)))[:200])
    if not rn.n and not r.incon: r.i('no program')
    r.note['programs'] = r.ret; r.note['queries'] = rn.n
    return r

LOADS = ('load',)
# ------------------------------------------------------------------------------------------------ C03
def atomic(t, ty, op, deep=True):
    """operations under a lock are indivisible towards each other"""
    r = result(t, ty, op, 'lock'); lib = Lib(t, ty); rn = Runner(lib, r)
    kind = spec.ops_for(ty)[op][1]
    try:
        if not any(e[1] not in ('A', None) for q in lib.paths(op, 0, 0) for e in q.evs):
            r.note['lock'] = 'not used'; r.ret = 1; return r
        lock_invariants(lib, op, r)
        L = ('A', 'load', 0); S = ('A', 'store', 0); W = ('A', 'swap', 0); P = ('A', op, 0, 0)
        progs = [('P||load', [[P], [L]]), ('P||P', [[P], [P]]), ('P||store', [[P], [S]]), ('load,load||P', [[L, L], [P]]), ('load||P,P', [[L], [P, P]]), ('load||P||store', [[L], [P], [S]])]
        if op == 'fetch_update' or not deep: progs = progs[:3]
        if op not in ('load', 'store', 'swap'): progs.append(('P||swap', [[P], [W]]))
        for n, th in progs: rn.run(n, th)
        # the strongest orderings: same programs where the code differs
        base = {id(q) for q in lib.paths(op, 0, 0)}
        for o, o2 in [(4, 4 if kind in ('cas', 'upd') else 0)] + ([(3, 2), (1, 0), (2, 2)] if kind in ('cas', 'upd') else [(1, 0)] if kind != 'load' else []) + ([(2, 0)] if kind != 'store' and kind not in ('cas', 'upd') else []) + ([(3, 0)] if kind == 'rmw' else []):
            ids = {id(q) for q in lib.paths(op, o, o2)}
            if ids <= base: continue
            base |= ids
            P = ('A', op, o, o2)
            for n, th in (('P(%d)||load' % o, [[P], [L]]), ('P(%d)||P' % o, [[P], [P]]), ('load,load||P(%d)' % o, [[L, L], [P]]))[:2 if op == 'fetch_update' else 3]: rn.run(n, th)
    except CannotEncode as e: r.i('cannot encode: %s' % e)
    return finish(rn, lib)

def lock_invariants(lib, op, r):
    """the lock is released exactly once, with a state that is not `locked', is fresh after a write, and nothing is accessed outside of it"""
    for q in (lib.all.get(op) or lib.paths(op, 0, 0)):
        held = {}; seen = set()
        for k, e in enumerate(q.evs):
            kind, o, off = e[0], e[1], e[2]
            if o in ('A', None):
                if kind in 'WU' and o == 'A' and any(x[1] not in ('A', None) for x in q.evs) and not held:
                    r.v('writes the object without holding its lock'); return
                continue
            key = (o, str(off))
            if kind == 'U':
                if key in held: r.v('takes the lock twice'); return
                held[key] = (e, k)
            elif kind == 'W' and key in held:
                f, j = held.pop(key)
                # value that was there before, value left behind
                cs = q.pc + [(f[5] & 1) == 0, EQ(f[5], 1, 8 * f[3]) if False else True]
                s, m = solve([c for c in cs if c is not True] + [EQ(e[6], f[6], 8 * e[3])], model=True); r.judged += 1
                if s == 'sat': r.v('leaves the lock taken'); return
                wrote = any(x[0] in 'WU' and x[1] == 'A' for x in q.evs[j:k])
                if wrote:
                    s, m = solve([c for c in cs if c is not True] + [EQ(e[6], f[5], 8 * e[3])], model=True); r.judged += 1
                    if s == 'sat': r.v('leaves the version of the lock unchanged after a write'); return
        if held: r.v('returns with the lock held'); return

# ------------------------------------------------------------------------------------------------ C04
REL_O = (1, 3, 4); ACQ_O = (2, 3, 4)
def message(t, ty, op, full=True):
    """release operations publish, acquire operations observe"""
    r = result(t, ty, op, 'message'); lib = Lib(t, ty); rn = Runner(lib, r)
    kind = spec.ops_for(ty)[op][1]
    Y1 = ('Y', 'store', 'monotonic', z3.BitVec('yv', 32)); RY = ('Y', 'load', 'monotonic')
    try:
        rel = []; acq = []
        if kind == 'load': acq = [(2, 0, None), (4, 0, None)]
        elif kind == 'store': rel = [(1, 0, None), (4, 0, None)]
        elif kind == 'rmw': rel = [(o, 0, None) for o in REL_O]; acq = [(o, 0, None) for o in ACQ_O]
        elif kind in ('cas', 'upd'):
            rel = [(o, 0, 'ok') for o in REL_O] + [(4, 4, 'ok')]
            if kind == 'cas': acq = [(o, 0, 'ok') for o in ACQ_O] + [(0, o2, 'fail') for o2 in (2, 4)] + [(1, 2, 'fail'), (2, 2, 'ok'), (2, 2, 'fail')]
            # fetch_update reads with the second ordering, and re-reads on failure
            else: acq = [(o, 0, 'ok') for o in ACQ_O] + [(0, o2, 'fail') for o2 in (2, 4)]
            if not full: rel = rel[:2]; acq = acq[:1] + acq[3:4]
        for o, o2, need in rel:
            rn.run('MP-release(%s): Y=1; P || load acquire; Y' % ORDER(o), [[Y1, ('A', op, o, o2, need)], [('A', 'load', 2), RY]])
        for o, o2, need in acq:
            rn.run('MP-acquire(%s,%s): Y=1; store release || P; Y' % (ORDER(o), ORDER(o2)), [[Y1, ('A', 'store', 1)], [('A', op, o, o2, need), RY]])
        if kind in ('rmw', 'cas', 'upd'):
            # a relaxed read-modify-write continues a release sequence
            rn.run('release sequence: Y=1; store release || P relaxed || load acquire; Y', [[Y1, ('A', 'store', 1)], [('A', op, 0, 0, 'ok' if kind != 'rmw' else None)], [('A', 'load', 2), RY]])
        if kind in ('rmw', 'cas') and full:
            rn.run('MP-chain: Y=1; swap release || P acqrel; Y', [[Y1, ('A', 'swap', 1)], [('A', op, 3, 2 if kind == 'cas' else 0, None), RY]])
        if full:
            # fences
            rl = ('A', op, 0, 0, 'ok' if kind in ('cas', 'upd') else None)
            for f in REL_O:
                if kind != 'load': rn.run('MP-fence-release(%s): Y=1; fence; P relaxed || load acquire; Y' % ORDER(f), [[Y1, ('fence', f), rl], [('A', 'load', 2), RY]])
            for f in ACQ_O:
                if kind != 'store': rn.run('MP-fence-acquire(%s): Y=1; store release || P relaxed; fence; Y' % ORDER(f), [[Y1, ('A', 'store', 1)], [rl, ('fence', f), RY]])
    except CannotEncode as e: r.i('cannot encode: %s' % e)
    return finish(rn, lib)
def ORDER(o): return spec.ORDER[o]

# ------------------------------------------------------------------------------------------------ C05
def total_order(t, ty, op, level='full'):
    """sequentially consistent operations and fences take part in one total order"""
    full = level == 'full'; short = full or level == 'short'
    r = result(t, ty, op, 'seqcst'); lib = Lib(t, ty); rn = Runner(lib, r)
    kind = spec.ops_for(ty)[op][1]; sc = 'seq_cst'
    yv, yw = z3.BitVec('yv', 32), z3.BitVec('yw', 32)
    try:
        P = ('A', op, 4, 4 if kind in ('cas', 'upd') else 0)
        L = ('A', 'load', 4); S = ('A', 'store', 4); YS = ('Y', 'store', sc, yv); YS2 = ('Y', 'store', sc, yw); YL = ('Y', 'load', sc)
        writes = kind != 'load'; reads = kind != 'store'
        if writes:
            rn.run('SB: P; Y || Y=; load', [[P, YL], [YS, L]])
            rn.run('MP: P; Y= || Y; load', [[P, YS], [YL, L]])
            if short: rn.run('S/R: P; Y= || Y=; load', [[P, YS], [YS2, L]])
        if reads:
            rn.run('SB: Y=; P || store; Y', [[YS, P], [S, YL]])
            rn.run('MP: Y; P || store; Y=', [[YL, P], [S, YS]])
        if reads and short:
            rn.run('R: Y=; P || store; Y=', [[YS, P], [S, YS2]])
            rn.run('LB: P; Y= || Y; store', [[P, YS], [YL, S]])
            rn.run('MP: P; Y || Y=; store', [[P, YL], [YS, S]])
        if writes and short:
            rn.run('2+2W: P; Y= || Y=; store', [[P, YS], [YS2, S]])
            rn.run('S: Y=; P || store; Y=', [[YS, P], [S, YS2]])
            rn.run('LB: Y; P || load; Y=', [[YL, P], [L, YS]])
        if short: rn.run('self: P; Y || Y=; P', [[P, YL], [YS, P]])
        if full:
            if writes: rn.run('IRIW: P || Y= || load; Y || Y; load', [[P], [YS], [L, YL], [YL, L]])
            if reads: rn.run('IRIW: store || Y= || P; Y || Y; load', [[S], [YS], [P, YL], [YL, L]])
            if writes: rn.run('WRC: P || load; Y= || Y; load', [[P], [L, YS], [YL, L]])
            # the other object of the same type
            B = lambda x: ('B',) + x[1:]
            if writes: rn.run('SB2: P(A); load(B) || store(B); load(A)', [[P, B(L)], [B(S), L]])
            if reads: rn.run('SB2: store(B); P(A) || store(A); load(B)', [[B(S), P], [S, B(L)]])
        # fences between relaxed operations
        F = ('fence', 4); R = ('A', op, 0, 0); YSr = ('Y', 'store', 'monotonic', yv); YLr = ('Y', 'load', 'monotonic')
        if writes: rn.run('SB-fence: P; fence; Y || Y=; fence; load', [[R, F, YLr], [YSr, F, ('A', 'load', 0)]])
        if reads: rn.run('SB-fence: Y=; fence; P || store; fence; Y', [[YSr, F, R], [('A', 'store', 0), F, YLr]])
    except CannotEncode as e: r.i('cannot encode: %s' % e)
    return finish(rn, lib)
