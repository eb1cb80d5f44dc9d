"""Run a function over items in forked worker processes.

A worker that dies (a crash of native code) or hangs costs only the item it was working
on: the item's result is Crash(reason) and a new worker takes over the rest.
"""
import os
import pickle
import select
import signal
import struct
import time


LIBRARY = ("/repo/thinc/", "thinc/")


class Crash:
    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return f"Crash({self.reason})"


def _write(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def pmap(fn, items, jobs=8, timeout=60):
    items = list(items)
    results = [None] * len(items)
    queues = [list(range(j, len(items), jobs)) for j in range(min(jobs, len(items)))]
    workers = {}

    def start(q):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                os.setpgid(0, 0)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                for i in q:
                    _write(w, (i, None))
                    try:
                        res = (True, fn(items[i]))
                    except BaseException as e:  # noqa
                        import traceback

                        res = (False, f"{type(e).__name__}: {e}\n" + traceback.format_exc())
                        if any(f.filename.startswith(LIBRARY) for f in traceback.extract_tb(e.__traceback__)):
                            # raised by the code under test where no check expects it
                            res = (True, Crash(f"raised {type(e).__name__}: {e}"[:300]))
                    _write(w, (i, res))
            finally:
                os._exit(0)
        os.close(w)
        workers[r] = dict(pid=pid, q=list(q), buf=b"", cur=None, t=time.time())

    for q in queues:
        start(q)
    failures = []
    while workers:
        ready, _, _ = select.select(list(workers), [], [], 1.0)
        now = time.time()
        for r in list(workers):
            wk = workers[r]
            dead = None
            if r in ready:
                chunk = os.read(r, 1 << 20)
                if chunk:
                    wk["buf"] += chunk
                    while len(wk["buf"]) >= 8:
                        (n,) = struct.unpack("<Q", wk["buf"][:8])
                        if len(wk["buf"]) < 8 + n:
                            break
                        i, res = pickle.loads(wk["buf"][8 : 8 + n])
                        wk["buf"] = wk["buf"][8 + n :]
                        wk["t"] = now
                        if res is None:
                            wk["cur"] = i
                        else:
                            ok, val = res
                            if ok:
                                results[i] = val
                            else:
                                failures.append((i, val))
                            wk["q"].remove(i)
                            wk["cur"] = None
                else:
                    dead = "died"
            elif now - wk["t"] > timeout:
                os.kill(wk["pid"], signal.SIGKILL)
                dead = "hung"
            if dead:
                os.close(r)
                _, status = os.waitpid(wk["pid"], 0)
                del workers[r]
                if wk["cur"] is not None:
                    why = dead
                    if dead == "died" and os.WIFSIGNALED(status):
                        why = f"killed by signal {os.WTERMSIG(status)}"
                    results[wk["cur"]] = Crash(why)
                    wk["q"].remove(wk["cur"])
                elif wk["q"] and dead == "hung":
                    raise RuntimeError("worker stalled")
                if wk["q"]:
                    start(wk["q"])
    if failures:
        raise RuntimeError(f"harness error on item {failures[0][0]}: {failures[0][1]}")
    return results
