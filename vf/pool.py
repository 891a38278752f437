"""Runs tasks in forked worker processes (a target is built and parsed once, before forking)."""
import os, sys, multiprocessing as mp, traceback, time
from . import sym
ctx = mp.get_context('fork')

def _worker(fn, q_in, q_out):
    while True:
        it = q_in.get()
        if it is None: break
        i, args = it
        sym.STATS.__init__()
        t = time.time()
        try: r = ('ok', fn(*args))
        except BaseException as e:
            r = ('err', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        q_out.put((i, r, sym.STATS, time.time() - t))

def pmap(fn, tasks, n=8, deadline=None, daemon=True):
    """-> list of ('ok', result) | ('err', text) | ('skip', None) in task order"""
    tasks = list(tasks)
    if not tasks: return []
    n = min(n, len(tasks))
    qi, qo = ctx.SimpleQueue(), ctx.Queue()
    ps = [ctx.Process(target=_worker, args=(fn, qi, qo), daemon=daemon) for _ in range(n)]
    stats = sym.STATS
    for p in ps: p.start()
    res = [('skip', None)] * len(tasks)
    it = iter(enumerate(tasks)); out = 0
    def feed():
        nonlocal out
        if deadline and time.time() > deadline: return False
        try: i, a = next(it)
        except StopIteration: return False
        qi.put((i, a)); out += 1
        return True
    for _ in range(2 * n): feed()
    while out:
        try: i, r, s, dt = qo.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps): break
            if deadline and time.time() > deadline + 60: break
            continue
        out -= 1
        if r[0] == 'ok' and hasattr(r[1], 'note'): r[1].seconds = round(dt, 2)
        res[i] = r; stats.merge(s)
        feed()
    for _ in ps: qi.put(None)
    for p in ps:
        p.join(timeout=2)
        if p.is_alive(): p.terminate()
    return res

def by_config(cfgs, leader, work, leaders=6, helpers=3, deadline=None):
    """leader(cfg) -> (context, [task args]); work(context, *args) -> result.  Returns [(cfg, args, status, result)] and {cfg: error}"""
    def lead(cfg):
        try: c, tasks = leader(cfg)
        except Exception as e:
            return 'fail', '%s: %s' % (type(e).__name__, str(e)[-3000:]), traceback.format_exc()[-2000:]
        rs = pmap(lambda *a: work(c, *a), tasks, helpers, deadline)
        return 'done', [(a, r[0], r[1]) for a, r in zip(tasks, rs)], None
    out = []; errs = {}
    rs = pmap(lead, [(c,) for c in cfgs], leaders, deadline, daemon=False)
    for c, (s, r) in zip(cfgs, rs):
        if s != 'ok': errs[c.name] = str(r) if s == 'err' else 'not started before the deadline'; continue
        if r[0] == 'fail': errs[c.name] = r[1] + '\n' + (r[2] or ''); continue
        for a, st, x in r[1]: out.append((c, a, st, x))
    return out, errs
