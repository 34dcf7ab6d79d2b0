"""Runs independent analyses of one check in parallel processes and merges their reports."""
import multiprocessing as mp
import os
import traceback
from .report import Broken, Report


def _work(job):
    fn, args, prop, tier = job
    r = Report(prop, tier)
    try:
        import time
        t = time.time()
        fn(r, *args)
        if os.environ.get('SA_TIMES'):
            print('   [%.1fs] %s %s' % (time.time() - t, fn.__name__, [a for a in args if isinstance(a, (str, int))]), flush=True)
        return ('ok', r)
    except Exception as e:
        return ('err', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))


_CTX = None


def shared():
    return _CTX


def run(rep, jobs, ctx=None, procs=8):
    """jobs: [(function, args)]; function(report, *args).  ctx is inherited through fork, see shared()"""
    global _CTX
    _CTX = ctx
    only = os.environ.get('SA_JOBS')       # (debugging: names of the analyses to run)
    full = [(f, a, rep.prop, rep.tier) for f, a in jobs if not only or only in '%s %s' % (f.__name__, [x for x in a if isinstance(x, (str, int))])]
    if os.environ.get('SA_SERIAL'):
        res = [_work(j) for j in full]
    else:
        with mp.get_context('fork').Pool(min(procs, max(1, len(full))), maxtasksperchild=1) as pool:
            res = pool.map(_work, full, chunksize=1)
    errs = []
    for st, r in res:
        if st == 'err':
            errs.append(r)
        else:
            merge(rep, r)
    if errs and os.environ.get('SA_TIMES'):
        print(errs[0])
    if errs and not rep.viol:           # (a violation found elsewhere stands on its own)
        raise Broken(errs[0])


def merge(rep, r):
    for k, c in r.obl.items():
        d = rep.obl.setdefault(k, [0, 0])
        d[0] += c[0]
        d[1] += c[1]
    for k, v in r.viol.items():
        rep.viol.setdefault(k, v)
    rep.functions |= r.functions
    for a in r.assumptions:
        rep.assume(a)
    for k, v in r.notes.items():
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            rep.notes[k] = rep.notes.get(k, 0) + v
        else:
            rep.notes.setdefault(k, v)


# ------------------------------------------------------------------ precision ladder
def _child(conn, job, limit):
    import signal

    def h(*a):
        raise TimeoutError('time limit')
    signal.signal(signal.SIGALRM, h)
    signal.alarm(int(limit))
    try:
        conn.send(_work(job))
    except BaseException as e:          # unpicklable or killed
        conn.send(('err', repr(e)))
    conn.close()


def ladder(rep, jobs, levels=(1, 8, 24, 96), ctx=None, procs=8, limit=420):
    """Each job is analysed at increasing precision (number of states kept apart) until an analysis without
    violations is found: every level is sound on its own, so one clean level decides the job.  Later levels are
    tried in parallel.  A job that no level clears reports the violations of the most precise finished level.
    jobs: [(function, args)], called as function(report, level, *args)"""
    global _CTX
    _CTX = ctx
    mpx = mp.get_context('fork')
    import time
    results = {}                     # job index -> {level: outcome}
    done = {}
    queue = [(0, k) for k in range(len(jobs))]
    running = []
    import multiprocessing.connection as mc
    while queue or running:
        while queue and len(running) < procs:
            queue.sort()
            li, k = queue.pop(0)
            if k in done:
                continue
            f, a = jobs[k]
            r, s = mpx.Pipe(False)
            p = mpx.Process(target=_child, args=(s, (f, (levels[li],) + tuple(a), rep.prop, rep.tier), limit))
            p.start()
            s.close()
            running.append((p, r, k, li))
        if not running:
            break
        ready = mc.wait([x[1] for x in running], timeout=5)
        for x in list(running):
            p, r, k, li = x
            if k in done and r not in ready:
                p.kill()
                p.join()
                running.remove(x)
                continue
            if r not in ready:
                continue
            try:
                out = r.recv()
            except EOFError:
                out = ('err', 'analysis process died (memory?)')
            p.join()
            running.remove(x)
            if k in done:
                continue
            results.setdefault(k, {})[li] = out
            if out[0] == 'ok' and not out[1].viol:
                done[k] = out[1]
                continue
            if li == 0:
                queue += [(j, k) for j in range(1, len(levels))]
    for k in range(len(jobs)):
        if k in done:
            merge(rep, done[k])
            continue
        ok = {li: o[1] for li, o in results.get(k, {}).items() if o[0] == 'ok'}
        if not ok:
            raise Broken('no analysis of job %s finished: %s' % (jobs[k][1], [o[1] for o in results.get(k, {}).values()][:2]))
        best = min(ok, key=lambda li: (len(ok[li].viol), -li))
        merge(rep, ok[best])
