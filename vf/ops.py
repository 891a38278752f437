"""Judging the symbolic runs of one operation of one type in one configuration."""
import z3, time
from . import sym, spec, core, env
from .sym import *

import os
TIER = os.environ.get('VERIF_TIER', 'quick')
def ord_vars(kind):
    """symbolic ordering arguments restricted to the documented valid ones -> (o, o2, constraints)"""
    o, o2 = z3.BitVec('ord', 8), z3.BitVec('ord2', 8)
    ld = lambda v: z3.Or(v == 0, v == 2, v == 4)
    st = lambda v: z3.Or(v == 0, v == 1, v == 4)
    if kind == 'load': return o, 0, [ld(o)]
    if kind == 'store': return o, 0, [st(o)]
    if kind == 'rmw': return o, 0, [z3.ULE(o, 4)]
    if kind in ('cas', 'upd'): return o, o2, [z3.ULE(o, 4), ld(o2)]
    return 0, 0, []

def run(t, ty, op, mode, sub=0, ords=None, prep=None):
    kind = spec.ops_for(ty)[op][1]
    if ords is None: o, o2, cs = ord_vars(kind)
    else: o, o2, cs = ords
    st, c = t.setup(ty, op, mode, o, o2, sub)
    st.pc += cs; c.kind = kind
    t.ex.spurious = mode != 'seq'
    if prep: prep(t, st, c)
    c.paths = t.ex.run(st)
    for p in c.paths: t.finish(p, c)
    return c

def lf_cond(t, ty):
    """formula over CPU facts: is_lock_free() of the type answers true"""
    if not hasattr(t, '_lf'): t._lf = {}
    if ty.name not in t._lf:
        st, c = t.setup(ty, 'is_lock_free', 'seq', 0, 0)
        yes = []
        for p in t.ex.run(st):
            if p.status != 'ret': raise CannotEncode('is_lock_free: %s %s' % (p.status, p.why))
            f = EQ(p.ret, 1, 8) if not (isz(p.ret) and z3.is_bool(p.ret)) else p.ret
            if f is False: continue
            yes.append(AND(*([q for q in p.pc] + [f])))
        t._lf[ty.name] = simp(OR(*yes)) if yes else False
    return t._lf[ty.name]

def model_of(m, c, p=None):
    """concrete values of a counterexample"""
    d = {}
    for n in ('old', 'x', 'y', 'b'):
        v = getattr(c, n, None)
        if v is None: continue
        try: d[n] = m.eval(B(v, v.size() if isz(v) else 64), model_completion=True).as_long()
        except Exception: pass
    oo = p.extra.get("ords") if p is not None else None
    for n, v in (("ord", oo[0] if oo else c.o), ("ord2", oo[1] if oo else c.o2)):
        d[n] = m.eval(v, model_completion=True).as_long() if isz(v) else v
    cpu = {}
    for dd in m.decls():
        if dd.name().startswith(core.CPU_PREFIX):
            cpu[dd.name()] = str(m[dd])
    if cpu: d['cpu'] = cpu
    if p is not None:
        tr = []
        for e in p.ev[:60]:
            if e.kind in 'RWU' or e.kind == 'CALL':
                def val(v):
                    if v is None: return None
                    if isinstance(v, int): return v
                    if isz(v):
                        try: return m.eval(v, model_completion=True).as_long()
                        except Exception: return str(v)[:80]
                    return str(v)
                tr.append([e.kind, str(e.obj), str(e.off[1]) if e.kind != 'CALL' else '', e.size, e.ord and str(e.ord), val(e.r), val(e.w), str(e.extra)])
        d['trace'] = tr
        for n in ('out', 'flag'):
            v = getattr(p, n, None)
            if v is not None:
                try: d[n] = m.eval(v, model_completion=True).as_long() if isz(v) else v
                except Exception: pass
    return d

class R:
    """result of a task (picklable)"""
    def __init__(s, cfg, ty, op, mode):
        s.cfg = cfg; s.ty = ty; s.op = op; s.mode = mode; s.paths = 0; s.ret = 0; s.cut = 0; s.viol = []; s.incon = []; s.judged = 0; s.skipped = 0; s.events = 0; s.note = {}
    def v(s, what, m=None, c=None, p=None, kind='seq'):
        d = {'what': what, 'cfg': s.cfg, 'ty': s.ty, 'op': s.op, 'mode': s.mode, 'kind': kind}
        if m is not None and c is not None:
            try: d['model'] = model_of(m, c, p)
            except Exception as e: d['model_error'] = str(e)
        s.viol.append(d)
    def i(s, what): s.incon.append(what[:400])

def pmodel(p):
    r, m = solve(p.pc, model=True)
    return m

def common(t, c, p, r, seq):
    """statuses every path is checked for.  -> True if the path returned normally and should be judged"""
    r.paths += 1; r.events += len(p.ev)
    if p.ub:
        r.v('undefined behaviour: ' + '; '.join(map(str, p.ub))[:200], pmodel(p), c, p); return False
    if p.status == 'ret': r.ret += 1; return True
    if p.status == 'panic':
        r.v('panics although the orderings are valid: %s' % (p.why or '')[:80], pmodel(p), c, p); return False
    if p.status == 'unreachable':
        r.v('reaches code declared unreachable', pmodel(p), c, p); return False
    if p.status == 'ub':
        r.v('undefined behaviour: %s' % p.why, pmodel(p), c, p); return False
    if p.status.startswith('cut'):
        r.cut += 1
        if seq: r.note['seqcut'] = r.note.get('seqcut', 0) + 1
        return False
    r.i('%s: %s' % (p.status, p.why)); return False

def final(t, c, p):
    o = p.mem['A']
    return t.ex.addr(p, t.ex.raw_load(p, o, (None, c.off), c.ty.bytes))

def seq(t, ty, op, sub=0):
    """sequential semantics: result, final contents, nothing else changed"""
    r = R(t.cfg.name, ty.name, op, 'seq')
    try: c = run(t, ty, op, 'seq', sub)
    except CannotEncode as e:
        r.i('cannot encode: %s' % e); return r
    for p in c.paths:
        if not common(t, c, p, r, True): continue
        fp = ty.kind == 'float' and op in ('fetch_add', 'fetch_sub', 'fetch_max', 'fetch_min')
        out, flag = p.out, p.flag
        try:
            fin = final(t, c, p)
            if op == 'fetch_update': f, what = upd_seq(t, c, p, fin), 'wrong result or stored value'
            else:
                what = 'wrong result or stored value'
                f = spec.outcome(ty, op, c.old, fin, out, flag, c.x, c.y, c.b, p.extra.get('fpres', ()) if fp else None)
            res, m = core.valid(p, f)
            if res != 'unsat' and fp:
                f = spec.outcome(ty, op, c.old, fin, out, flag, c.x, c.y, c.b)
                res, m = core.valid(p, f, True)
        except CannotEncode as e:
            r.i('cannot encode: %s' % e); continue
        r.judged += 1
        if res == 'sat': r.v(what, m, c, p)
        elif res != 'unsat': r.i('solver undecided')
        bad = [e for e in p.ev if e.obj == 'A' and e.kind in 'WU' and core.full(e, c) in ('none', 'part', 'cover', 'sym')]
        # outside bytes must have kept their contents
        for key, cell in p.mem['A'].cells.items():
            if key == (None, c.off): continue
        if bad:
            o = p.mem['A']
            for k in list(range(0, c.off)) + list(range(c.off + ty.bytes, o.size)):
                cell = t.ex.raw_byte(p, o, (None, k))
                if isz(cell) and z3.is_const(cell) and cell.decl().name().startswith('init$A'): continue
                # compare with the initial contents of that byte
                q = next((e for e in p.ev if e.obj == 'A' and e.kind in 'RU' and e.off[0] is None and e.off[1] <= k < e.off[1] + e.size), None)
                if q is None:
                    r.v('changes a byte outside of the object', pmodel(p), c, p); break
                bi = k - q.off[1]
                if t.ex.big: bi = q.size - 1 - bi
                ini = extract(q.r, 8 * bi + 7, 8 * bi)
                res, m = solve(p.pc + [NOT(EQ(cell, ini, 8))], model=True)
                if res == 'sat': r.v('changes a byte outside of the object', m, c, p); break
    if not r.ret and not r.viol and not r.incon: r.i('no path returns')
    return r

def upd_seq(t, c, p, fin):
    ty = c.ty; W = ty.w
    calls = [e for e in p.ev if e.kind == 'CALL']
    if not calls: return False
    last = calls[-1]
    cs = [EQ(core.num(t, p, e.r), c.old, W) for e in calls] + [EQ(p.out, c.old, W)]
    for e in calls[:-1]:
        if e.w is None: return False
    if last.w is not None: cs += [EQ(p.flag, 1, 8), EQ(fin, core.num(t, p, last.w), W)]
    else: cs += [EQ(p.flag, 0, 8), EQ(fin, c.old, W)]
    return AND(*cs)

def upd_havoc(t, c, p):
    """-> (reason | None, model)"""
    ty = c.ty; W = ty.w
    evs = p.ev
    calls = [(k, e) for k, e in enumerate(evs) if e.kind == 'CALL']
    if not calls: return 'returns without calling the closure', pmodel(p)
    acc = [(k, e) for k, e in enumerate(evs) if e.obj == 'A' and e.kind in 'RWU']
    good = []; writes = []
    for k, e in acc:
        f = core.full(e, c)
        if f == 'sym': return 'access at symbolic offset', None
        if e.kind in 'WU':
            if f in ('none', 'part') or (f == 'cover' and e.kind == 'W') or not e.atomic: return 'bad write: %r' % e, pmodel(p)
            if f == 'cover':
                res, m = solve(p.pc + [NOT(EQ(core.rest(t, e, c, core.num(t, p, e.r)), core.rest(t, e, c, core.num(t, p, e.w)), 8 * e.size))], model=True)
                if res != 'unsat': return 'changes neighbouring bytes', m
            writes.append((k, e))
        if f in ('full', 'cover') and e.atomic and e.kind in 'RU': good.append((k, e))
    cs = []
    for i, (k, e) in enumerate(calls):
        if e.w is None and i != len(calls) - 1: return 'calls the closure again after it returned None', pmodel(p)
        a = core.num(t, p, e.r)
        alts = [EQ(core.part(t, g, c, core.num(t, p, g.r)), a, W) for j, g in good if j < k]
        cs.append(OR(*alts) if alts else False)
    lk, last = calls[-1]; la = core.num(t, p, last.r)
    def noop(g): return EQ(core.part(t, g, c, core.num(t, p, g.r)), core.part(t, g, c, core.num(t, p, g.w)), W) if g.kind == 'U' else False
    if last.w is None:
        cs += [EQ(p.flag, 0, 8), EQ(p.out, la, W)] + [noop(g) for _, g in writes]
    else:
        nw = core.num(t, p, last.w); alts = []
        for j, g in writes:
            if j < lk or g.kind != 'U': continue
            alts.append(AND(EQ(core.part(t, g, c, core.num(t, p, g.r)), la, W), EQ(core.part(t, g, c, core.num(t, p, g.w)), nw, W), *[noop(h) for i, h in writes if i != j]))
        cs += [EQ(p.flag, 1, 8), EQ(p.out, la, W), OR(*alts) if alts else False]
    # earlier calls: their answer was not installed because the object no longer held the value, or the attempt failed
    f = AND(*cs)
    res, m = core.valid(p, f)
    if res == 'unsat': return None, None
    return ('fetch_update does not install the answer for the value last seen' if res == 'sat' else 'solver undecided'), m

def havoc(t, ty, op, sub=0, locks=False):
    """every access of the object sees arbitrary contents: the operation must take effect at one access"""
    r = R(t.cfg.name, ty.name, op, 'interference')
    try:
        try: c = run(t, ty, op, 'havoc', sub)
        except CannotEncode as e:
            if 'path cap' not in str(e): raise
            # too many paths: one retry less, and one run for every pair of orderings
            mv, t.ex.max_visits = t.ex.max_visits, 2; r.note['max_visits'] = 2
            kind = spec.ops_for(ty)[op][1]; paths = []
            try:
                for o in range(5) if kind in ('rmw', 'cas', 'upd') else (0, 2, 4) if kind == 'load' else (0, 1, 4):
                    for o2 in (0, 2, 4) if kind in ('cas', 'upd') else (0,):
                        if TIER == 'quick' and kind in ('cas', 'upd') and o2 != (0, 0, 2, 2, 4)[o]: r.note['orderings'] = 'five pairs'; continue
                        c = run(t, ty, op, 'havoc', sub, (o, o2, []))
                        for p in c.paths: p.extra = dict(p.extra); p.extra['ords'] = (o, o2)
                        paths += c.paths
            finally: t.ex.max_visits = mv
            c.paths = paths
        lf = lf_cond(t, ty)
    except CannotEncode as e:
        r.i('cannot encode: %s' % e); return r
    for p in c.paths:
        if lf is not True:
            if lf is False: r.skipped += 1; continue
            if solve(p.pc + [lf]) == 'unsat': r.skipped += 1; continue
            p.pc = p.pc + [lf]
        if not common(t, c, p, r, False): continue
        try:
            if op == 'fetch_update': why, m = upd_havoc(t, c, p)
            else: why, m = core.linearize(t, c, p)
        except CannotEncode as e:
            r.i('cannot encode: %s' % e); continue
        r.judged += 1
        if why == 'solver undecided': r.i(why)
        elif why: r.v(why, m if m is not None and not isinstance(m, core.Verdict) else pmodel(p), c, p, kind='interference')
    if not r.ret and not r.viol and not r.incon and lf is not False: r.i('no path returns')
    r.note['lock_free'] = 'always' if lf is True else 'never' if lf is False else 'depends on CPU'
    return r

def ord_valid(kind, o, o2):
    ld = lambda v: OR(EQ(v, 0, 8), EQ(v, 2, 8), EQ(v, 4, 8))
    if kind == 'load': return ld(o)
    if kind == 'store': return OR(EQ(o, 0, 8), EQ(o, 1, 8), EQ(o, 4, 8))
    if kind in ('cas', 'upd'): return ld(o2)
    if kind == 'fence': return NOT(EQ(o, 0, 8))
    return True

def touched(t, p):
    """accesses of the object or of the crate's mutable state (other than the cached choice of an implementation)"""
    return [e for e in p.ev if e.kind in 'RWU' and (e.obj == 'A' or (e.obj in p.mem and p.mem[e.obj].kind == 'static' and e.obj not in getattr(t, 'disp', {})))]

def orders(t, ty, op):
    """every invalid ordering panics before any access; no valid ordering panics"""
    r = R(t.cfg.name, ty.name if ty else '-', op, 'orders')
    o, o2 = z3.BitVec('ord', 8), z3.BitVec('ord2', 8)
    try:
        if ty is None:
            st = State(); kind = 'fence' if op in ('fence', 'compiler_fence') else 'none'
            f = t.ex.fns[t.fname('vf__' + op)]
            reset_names(); st.pc = [z3.ULE(o, 4)]
            t.ex.push(st, f, [o][:len(f.params)], None)
            c = core.Ctx(); c.o = o; c.o2 = 0; c.ty = None
            paths = t.ex.run(st)
        else:
            kind = spec.ops_for(ty)[op][1]
            c = run(t, ty, op, 'seq', 0, (o, o2, [z3.ULE(o, 4), z3.ULE(o2, 4)]))
            paths = c.paths
    except CannotEncode as e:
        r.i('cannot encode: %s' % e); return r
    v = ord_valid(kind, o, o2)
    npanic = 0
    for p in paths:
        r.paths += 1; r.events += len(p.ev)
        if p.ub: r.v('undefined behaviour: ' + '; '.join(map(str, p.ub))[:200], pmodel(p), c, p); continue
        if p.status == 'panic':
            npanic += 1
            s, m = solve(p.pc + [v], model=True); r.judged += 1
            if s == 'sat': r.v('panics although the orderings are valid: %s' % (p.why or '')[:80], m, c, p)
            elif s != 'unsat': r.i('solver undecided')
            tt = touched(t, p)
            if tt and s != 'sat': r.v('touches memory before panicking on an invalid ordering: %s' % tt[0], pmodel(p), c, p)
        elif p.status == 'ret' or p.status.startswith('cut'):
            if p.status == 'ret': r.ret += 1
            else: r.cut += 1
            s, m = solve(p.pc + [NOT(v)], model=True); r.judged += 1
            if s == 'sat': r.v('accepts an invalid ordering', m, c, p)
            elif s != 'unsat': r.i('solver undecided')
        elif p.status in ('unreachable', 'ub'): r.v('reaches code declared unreachable', pmodel(p), c, p)
        else: r.i('%s: %s' % (p.status, p.why))
    r.note['panicking_paths'] = npanic
    return r

def symbolic_statics(t):
    """the crate's mutable statics (locks) start with arbitrary contents"""
    def init(ex, st, o):
        if o.kind == 'static' and o.name not in getattr(t, 'disp', {}):
            o.cells.clear(); o.init = 'sym'
    class D(dict):
        def __contains__(s, k): return True
        def __getitem__(s, k): return init
    t.ex.hooks['ginit'] = D()

def initial_statics(t, p):
    """condition: everything read from the crate's statics was their initial contents"""
    cs = []; seen = set()
    for e in p.ev:
        if e.kind not in 'RU' or e.obj == 'A' or e.obj not in p.mem or p.mem[e.obj].kind != 'static' or e.obj in getattr(t, 'disp', {}): continue
        k = (e.obj, e.off)
        if k in seen or not isz(e.r): continue
        seen.add(k)
        names = core.consts(e.r)
        if names and all(n.startswith('init$') for n in names): cs.append(EQ(e.r, 0, 8 * e.size))
    return AND(*cs)

def lock_words(t, p):
    """words of the crate's statics that are acquired by a read-modify-write -> {(obj, off): first value read}"""
    d = {}; us = {(e.obj, e.off) for e in p.ev if e.kind == 'U'}
    for e in p.ev:
        k = (e.obj, e.off)
        if e.kind in 'RU' and e.obj != 'A' and e.obj in p.mem and p.mem[e.obj].kind == 'static' and e.obj not in getattr(t, 'disp', {}) and k in us and k not in d: d[k] = (e.r, e.size)
    return d

def progress(t, ty, op):
    """completes from every state without a lock held, and leaves a state in which the next operation completes"""
    r = R(t.cfg.name, ty.name, op, 'progress')
    t.ex.hooks.pop('ginit', None); symbolic_statics(t)
    try: c = run(t, ty, op, 'seq')
    except CannotEncode as e:
        t.ex.hooks.pop('ginit', None); r.i('cannot encode: %s' % e); return r
    n2 = 0; odd = []
    try:
        for p in c.paths:
            r.paths += 1; r.events += len(p.ev)
            if p.status.startswith('cut'):
                s, m = solve(p.pc + [initial_statics(t, p)], model=True); r.judged += 1
                if s == 'sat': r.v('does not complete although no other thread interferes (%s)' % p.status, m, c, p)
                elif s != 'unsat': r.i('solver undecided')
                else: r.cut += 1
                continue
            if not common(t, c, p, r, True): continue
            st = [e for e in p.ev if e.kind in 'WU' and e.obj in p.mem and e.obj != 'A' and p.mem[e.obj].kind == 'static' and e.obj not in getattr(t, 'disp', {})]
            rd = touched(t, p); rd = [e for e in rd if e.obj != 'A']
            r.judged += 1
            if not rd: continue
            # invariant of an unlocked lock word: even (holds initially; every operation must keep it)
            lw = lock_words(t, p); inv = [EQ(extract(v, 0, 0), 0, 1) for v, n in lw.values()]
            if solve(p.pc + inv) == 'unsat': continue
            p.pc = p.pc + inv; p.model = None
            for (ob, off), (v, n) in lw.items():
                fin_ = t.ex.addr(p, t.ex.raw_load(p, p.mem[ob], off, n))
                s, m = solve(p.pc + [EQ(extract(fin_, 0, 0), 1, 1)], model=True)
                if s != 'unsat': r.note['odd'] = r.note.get('odd', 0) + 1; odd.append(p)
            for op2 in ('swap', 'load', 'compare_exchange'):
                q = p.clone(); q.status = None; q.model = p.model
                fn = t.ex.fns[t.fname('vf__%s__%s' % (ty.name, op2))]
                t.ex.push(q, fn, [Ptr('A', c.off), Ptr('X', 0), Ptr('Y', 0), Ptr('OUT', 0), 0, 0, 0][:len(fn.params)], None)
                for z in t.ex.run(q):
                    n2 += 1
                    if z.status == 'ret': continue
                    if z.status == 'cannot': r.i('next operation: %s' % z.why); continue
                    s, m = solve(z.pc, model=True)
                    if s == 'sat': r.v('after it the next %s on the object does not complete (%s)' % (op2, z.status), m, c, z, kind='sequence')
                    elif s != 'unsat': r.i('solver undecided')
    except CannotEncode as e: r.i('cannot encode: %s' % e)
    finally: t.ex.hooks.pop('ginit', None)
    r.note['continuations'] = n2
    if odd and not r.viol: r.i('a lock word may be left odd: the induction over histories does not apply')
    if not r.ret and not r.viol and not r.incon: r.i('no path returns')
    return r

MISC_SPEC = {   # op -> (result is old, new contents, flag)
    'new': (False, 'x', 0), 'from': (False, 'x', 0), 'default': (False, 0, 0), 'get_mut': (True, 'x', 0), 'as_ptr': (True, 'x', 0),
    'into_inner': (True, 'old', 0), 'from_ptr': (False, 'old', 1), 'layout': (False, 'old', 1), 'as_bits': (True, 'old', 1)}

def views(t, ty, op):
    """construction, exclusive access, extraction and raw views denote the same value"""
    r = R(t.cfg.name, ty.name, op, 'views')
    res_old, new, flag = MISC_SPEC[op]
    try: c = run(t, ty, op, 'seq')
    except CannotEncode as e: r.i('cannot encode: %s' % e); return r
    for p in c.paths:
        if not common(t, c, p, r, True): continue
        cs = [EQ(final(t, c, p), {'x': c.x, 'old': c.old, 0: 0}[new], ty.w), EQ(p.flag, flag, 8)]
        if res_old: cs.append(EQ(p.out, c.old, ty.w) if p.out is not None else False)
        s, m = core.valid(p, AND(*cs)); r.judged += 1
        if s == 'sat': r.v('wrong value, contents or layout', m, c, p)
        elif s != 'unsat': r.i('solver undecided')
        for e in p.ev:
            if e.obj == 'A' and e.kind in 'RWU' and core.full(e, c) not in ('full', 'inside'):
                if e.kind == 'R' and chunk_ok(e, c): continue
                if inside(e, c): continue
                r.v('accesses bytes outside of the object: %s' % e.kind, pmodel(p), c, p); break
    if not r.ret and not r.viol and not r.incon: r.i('no path returns')
    return r

def inside(e, c): return e.off[0] is None and c.off <= e.off[1] and e.off[1] + e.size <= c.off + c.ty.bytes
def chunk_ok(e, c):
    """an aligned access of at most a register's width that includes the object"""
    return e.off[0] is None and e.size <= 16 and e.off[1] % e.size == 0 and e.off[1] <= c.off and c.off + c.ty.bytes <= e.off[1] + e.size

def footprint(t, ty, op, mode):
    """every access stays inside the object (or rewrites its surroundings atomically with the values found there)"""
    r = R(t.cfg.name, ty.name, op, 'footprint-' + mode)
    try: c = run(t, ty, op, mode)
    except CannotEncode as e:
        if 'path cap' in str(e): r.note['pathcap'] = 1; return r     # the same accesses occur in the other orders of the run
        r.i('cannot encode: %s' % e); return r
    seen = set(); priv = {'X', 'Y', 'OUT'}
    for p in c.paths:
        r.paths += 1; r.events += len(p.ev); r.judged += 1
        if p.status == 'ret': r.ret += 1
        if p.status == 'cannot':
            if p.ub: r.v('; '.join(map(str, p.ub))[:200], pmodel(p), c, p)
            else: r.i('%s' % p.why)
            continue
        for e in p.ev:
            if e.kind not in 'RWU' or e.obj is None: continue
            if e.obj == 'A':
                if inside(e, c): continue
                if e.off[0] is not None: r.i('access at symbolic offset'); continue
                if e.kind == 'W': r.v('writes bytes outside of the object', pmodel(p), c, p); continue
                if not chunk_ok(e, c): r.v('accesses bytes outside of the object (%s)' % e.kind, pmodel(p), c, p); continue
                if e.kind == 'U':
                    s, m = solve(p.pc[:e.npc] + [core.z3_ne(core.rest(t, e, c, num(t, p, e.r)), core.rest(t, e, c, num(t, p, e.w)), 8 * e.size)], model=True)
                    if s == 'sat': r.v('changes neighbouring bytes', m, c, p)
                    elif s != 'unsat': r.i('solver undecided')
            elif e.kind in 'WU' and e.obj in p.mem and p.mem[e.obj].kind not in ('static', 'priv'):
                r.v('writes to %s' % e.obj, pmodel(p), c, p)
        # arguments and everything the caller owns are untouched
        for nm, v in (('X', c.x), ('Y', c.y)):
            cell = p.mem[nm].cells.get((None, 0))
            if cell is None or cell[0] != ty.bytes or not (cell[1] is v): r.v('changes its argument', pmodel(p), c, p)
    if not r.ret and not r.viol and not r.incon: r.i('no path returns')
    return r
num = core.num

# ------------------------------------------------------------------------------------------------ C08
def selection(t, ty):
    """all operations on an object agree on one mechanism, whatever detection answered and to whom"""
    r = R(t.cfg.name, ty.name, '*', 'selection')
    ex = t.ex
    dispatched = needs_dispatch(t, ty)
    saved = (dict(ex.gpolicy), ex.dispvals, getattr(t, 'disp', {}))
    try:
        if dispatched:
            t.prepare([ty], final=True)
            plain = [w for w in t.cache_writes if not (w[4].kind == 'U' and (w[4].r == 0 if isinstance(w[4].r, int) else False))]
        else: plain = []; t.cache_writes = []
        groups = {}     # class -> {sexpr: (formula, op, path, ctx)}
        al = None
        for op, (b, kind, _) in spec.ops_for(ty).items():
            if not t.has(ty, op): continue
            if kind == 'none' and op not in ('is_lock_free', 'is_always_lock_free'): continue
            c = run(t, ty, op, 'seq')
            for p in c.paths:
                if p.status == 'cannot': r.i('%s: %s' % (op, p.why)); continue
                if p.status not in ('ret',) and not p.status.startswith('cut'): continue
                r.paths += 1; r.ret += p.status == 'ret'
                if kind == 'none':
                    if p.status != 'ret': continue
                    f = EQ(p.flag, 1, 8)
                    for cls, cond in (('yes', f), ('no', NOT(f))):
                        if cond is False: continue
                        add(groups, cls if op == 'is_lock_free' else 'always-' + cls, p, op, c, cond)
                    continue
                lock = any(e.obj != 'A' for e in touched(t, p))
                acc = any(e.obj == 'A' and e.kind in 'RWU' for e in p.ev)
                if lock: add(groups, 'lock', p, op, c)
                elif acc: add(groups, 'native', p, op, c)
    except CannotEncode as e:
        r.i('cannot encode: %s' % e); return r
    finally:
        ex.gpolicy, ex.dispvals, t.disp = saved
    r.note = {k: len(v) for k, v in groups.items()}
    def both(a, b, what):
        A_, B_ = groups.get(a, {}), groups.get(b, {})
        if not A_ or not B_: return
        s, m = solve([OR(*[x[0] for x in A_.values()]), rename_cpu(OR(*[x[0] for x in B_.values()]))], model=True); r.judged += 1
        if s == 'sat':
            pick = lambda g, f: next((x for x in g.values() if x[0] is True or z3.is_true(m.eval(f(x[0]), model_completion=True))), None)
            u, v = pick(A_, lambda z: z), pick(B_, rename_cpu)
            d = {'what': what, 'cfg': t.cfg.name, 'ty': ty.name, 'op': '%s / %s' % (u and u[1], v and v[1]), 'mode': 'selection', 'kind': 'selection',
                 'model': {'cpu': {dd.name(): str(m[dd]) for dd in m.decls()}}}
            r.viol.append(d)
        elif s != 'unsat': r.i('solver undecided')
    both('native', 'lock', 'one operation uses native instructions while another uses the lock')
    both('yes', 'lock', 'is_lock_free answers true but an operation takes a lock')
    both('no', 'native', 'is_lock_free answers false but an operation uses native instructions')
    both('always-yes', 'lock', 'is_always_lock_free answers true but an operation takes a lock')
    both('always-yes', 'no', 'is_always_lock_free answers true but is_lock_free false')
    if groups.get('native') and groups.get('lock') and plain:
        ty_, op_, p_, c_, e_ = plain[0]
        r.v('the cached detection result can be overwritten by a different one (%s)' % op_, pmodel(p_), c_, p_, kind='selection')
    return r
def needs_dispatch(t, ty): return bool(getattr(t, 'caches', None)) and any(t.reaches_static(t.fname('vf__%s__%s' % (ty.name, op))) for op in spec.ops_for(ty) if t.has(ty, op))
rename_cpu = core.rename_cpu
def add(groups, cls, p, op, c, extra=True):
    f = AND(*[q for q in p.pc if core.cpu_only(q)], extra)
    k = f.sexpr() if isz(f) else str(f)
    if f is not False: groups.setdefault(cls, {}).setdefault(k, (f, op, p, c))

def features(t, ty, op):
    """no instruction is executed that the CPU has not announced"""
    r = R(t.cfg.name, ty.name, op, 'features')
    try: c = run(t, ty, op, 'seq')
    except CannotEncode as e: r.i('cannot encode: %s' % e); return r
    seen = set(); ax = env.axioms(t)
    for p in c.paths:
        r.paths += 1; r.ret += p.status == 'ret'
        if p.status == 'cannot': r.i(p.why); continue
        for feat, npc, why in p.feat:
            a = env.announced(t, feat)
            if a is True: continue
            if a is None:
                r.v('executes %s, which this configuration never checks for (%s)' % (feat, why), pmodel(p), c, p, kind='features'); continue
            cs = [q for q in p.pc[:npc] if core.cpu_only(q)]
            k = (feat, tuple(q.sexpr() for q in cs))
            if k in seen: continue
            seen.add(k); r.judged += 1
            s, m = solve(cs + ax + [NOT(a)], model=True)
            if s == 'sat': r.v('executes an instruction of %s (%s) on a CPU that does not announce it' % (feat, why), m, c, p, kind='features')
            elif s != 'unsat': r.i('solver undecided')
    r.note['required'] = sorted({f for p in c.paths for f, _, _ in p.feat})
    return r

def XOR(a, b): return OR(AND(a, NOT(b)), AND(NOT(a), b))
def detection(t, ty):
    """what detection stores, and what it selects, as functions of the CPU's and the operating system's answers"""
    r = R(t.cfg.name, ty.name, '*', 'detection')
    if not any(t.reaches_static(t.fname('vf__%s__%s' % (ty.name, op))) for op in spec.ops_for(ty) if t.has(ty, op)):
        r.note['statics'] = 'none reached'; return r
    try: t.prepare([ty])
    except CannotEncode as e: r.i('cannot encode: %s' % e); return r
    ax = env.axioms(t)
    feats = [(f, env.announced(t, f, raw=True) if f in t.static_feats else env.announced(t, f)) for f in env.FEATURES.get(t.cfg.arch, ())]
    feats = [(f, a) for f, a in feats if a not in (None, True, False)]
    def viol(what, m, op='*'):
        r.viol.append({'what': what, 'cfg': t.cfg.name, 'ty': ty.name, 'op': op, 'mode': 'detection', 'kind': 'detection', 'model': {'cpu': {d.name(): str(m[d]) for d in m.decls()} if m is not None else {}}})
    def check(f):
        r.judged += 1
        s, m = solve(ax + [f], model=True)
        if s not in ('sat', 'unsat'): r.i('solver undecided')
        return s, m
    words = 0; have = {}
    for g in t.caches:
        l = t.disp[g]; words += 1
        w = t.ex.globs[g]['size'] if 'size' in t.ex.globs[g] else None
        r.paths += len(l)
        for i, (v, c) in enumerate(l):
            for v2, c2 in l[:i]:
                same = EQ(v, v2, 64) if False else (AND(EQ(B(v, 64) if isinstance(v, int) else zext(v, v.size(), 64), B(v2, 64) if isinstance(v2, int) else zext(v2, v2.size(), 64), 64)))
                s, m = check(AND(c, c2, NOT(same)))
                if s == 'sat': viol('two different detection results for the same CPU', m)
        n = max([v.size() if isz(v) else max(v.bit_length(), 32) for v, c in l] or [0])
        s, m = check(NOT(OR(*[c for v, c in l])))
        if s == 'sat': r.note['uncovered'] = True
        for b in range(n):
            bit = simp(OR(*[AND(c, EQ((v >> b) & 1, 1, 1) if not isz(v) else simp(z3.Extract(b, b, v) == 1) if b < v.size() else False) for v, c in l]))
            allc = OR(*[c for v, c in l])
            if bit is False or check(bit)[0] == 'unsat': continue
            if check(AND(allc, NOT(bit)))[0] == 'unsat': have.setdefault('always', []).append(b); continue
            best = None
            for f, a in feats:
                s, m = check(AND(allc, XOR(bit, a)))
                if s == 'unsat': have.setdefault(f, []).append(b); best = True; break
                if s == 'sat' and best is None:
                    best = None
            if not best:
                # which feature is it closest to: one that it implies or is implied by
                near = next((f for f, a in feats if check(AND(bit, NOT(a)))[0] == 'unsat'), None) or next((f for f, a in feats if check(AND(allc, a, NOT(bit)))[0] == 'unsat'), None)
                a = dict(feats).get(near)
                s, m = check(AND(allc, XOR(bit, a)) if a is not None else bit)
                viol('bit %d of the detection result is not what the hardware and operating system announce%s' % (b, ' for ' + near if near else ' for any feature'), m)
    r.note['bits'] = have
    if words:
        for f in env.documented(t):
            if f not in have: viol('feature %s is announced by this platform but not reported by detection' % f, None)
    # selections depend on the announced features only, and each CPU gets exactly one choice
    for g, l in list(t.disp.items()) + [('is_lock_free', None)]:
        if g in t.caches: continue
        if l is None:
            try: lf = lf_cond(t, ty)
            except CannotEncode as e: r.i('is_lock_free: %s' % e); continue
            l = [(1, lf), (0, NOT(lf))]
        for i, (v, c) in enumerate(l):
            if c is True or c is False: continue
            s, m = check(AND(c, rename_cpu(NOT(c)), *([rename_cpu(x) for x in ax] + [NOT(XOR(a, rename_cpu(a))) for f, a in feats])))
            if s == 'sat': viol('the choice of %s depends on something other than the announced features' % ('an implementation' if g != 'is_lock_free' else g), m)
            for v2, c2 in l[:i]:
                s, m = check(AND(c, c2))
                if s == 'sat': viol('two different choices for the same CPU', m)
    for (k, cs) in t.queries:
        q = k[0]
        if q == 'xgetbv':
            s, m = check(AND(*cs, NOT(env.bit('cpuid_1_0_cx', 27, 32))))
            if s == 'sat': viol('xgetbv is executed although the operating system has not enabled it (OSXSAVE)', m)
    r.note['asked'] = sorted({str(k) for k, _ in t.queries})
    r.ret = r.paths
    return r
