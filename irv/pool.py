"""run tasks in forked children, one child per task, with time and memory limits"""
import os, pickle, resource, select, signal, sys, time, traceback

def run(tasks, fn, jobs=8, limit=120, mem=6 << 30, progress=None, total=None):
    """returns {index: ('ok', value) | ('error', text)}"""
    res = {}; live = {}; todo = list(enumerate(tasks)); todo.reverse()
    t_end = time.time() + total if total else None
    while todo or live:
        while todo and len(live) < jobs:
            i, t = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r); os.setpgid(0, 0)
                    signal.signal(signal.SIGINT, signal.SIG_DFL); signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
                    try: out = ('ok', fn(t))
                    except BaseException as e: out = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
                    b = pickle.dumps(out)
                    with os.fdopen(w, 'wb') as f: f.write(b)
                except BaseException:
                    code = 1
                finally: os._exit(code)
            os.close(w)
            live[r] = (pid, i, time.time(), [])
        if not live: break
        rd, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for r in list(live):
            pid, i, t0, buf = live[r]
            if r in rd:
                b = os.read(r, 1 << 20)
                if b: buf.append(b); continue
                os.close(r); os.waitpid(pid, 0); del live[r]
                try: res[i] = pickle.loads(b''.join(buf))
                except Exception: res[i] = ('error', 'worker died')
                if progress: progress(i, res[i])
            elif now - t0 > limit or (t_end and now > t_end):
                try: os.killpg(pid, signal.SIGKILL)
                except Exception:
                    try: os.kill(pid, signal.SIGKILL)
                    except Exception: pass
                os.waitpid(pid, 0); os.close(r); del live[r]
                res[i] = ('error', 'time limit (%.0f s)' % (now - t0))
                if progress: progress(i, res[i])
        if t_end and now > t_end:
            for i, t in todo: res[i] = ('error', 'total time limit')
            todo = []
    return res
