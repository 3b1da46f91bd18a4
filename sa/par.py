"""Fork-based parallel map (results must be picklable); keeps the caller's large stack."""
import os, pickle, sys, traceback, tempfile


def pmap(fn, items, n=None):
    items = list(items)
    n = min(n or os.cpu_count() or 1, 8, len(items))
    if n <= 1: return [fn(x) for x in items]
    procs = []
    for w in range(n):
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                res = []
                for i in range(w, len(items), n): res.append((i, fn(items[i])))
                data = pickle.dumps(("ok", res), protocol=4)
            except BaseException as e:
                data = pickle.dumps(("err", type(e).__name__, str(e), traceback.format_exc()))
            with os.fdopen(wfd, "wb") as f: f.write(data)
            os._exit(code)
        os.close(wfd)
        procs.append((pid, r))
    out = [None] * len(items)
    err = None
    for pid, r in procs:
        with os.fdopen(r, "rb") as f: data = f.read()
        os.waitpid(pid, 0)
        if not data:
            err = err or ("err", "RuntimeError", "worker died", "")
            continue
        d = pickle.loads(data)
        if d[0] == "err": err = err or d
        else:
            for i, v in d[1]: out[i] = v
    if err:
        from .facts import AnalysisBroken
        raise AnalysisBroken("%s: %s\n%s" % (err[1], err[2], err[3]))
    return out
