"""A process from its first moment to its last (used by C31): the job on standard input says when the library is
imported, when in the life of the process what is decoded, how the process ends, and in what state it is."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

write, OUT = os.write, 1


def serve(job):
    import atexit
    import gc
    import signal
    import threading

    from sim import boot, history, observe

    held = []

    def ready():
        if not boot.LIB:
            boot.bootstrap(job["import_us"])

    def decode(when, qs):
        """Everything is decoded and all reports held are read, at this moment."""
        for n, q in enumerate(qs):
            try:
                ready()
                history.clock(q)
                try:
                    rep = observe.decode(boot.LIB, q["kind"], q["text"], q["year"], q["month"], q["truncate"])
                except Exception as e:
                    o = {"raised": observe.exc(e)}
                else:
                    o = {"report": observe.snapshot(rep)}
                    held.append([when["n"], n, rep])
                d = observe.digest(o)
            except BaseException as e:
                d = "%s: %s" % (type(e).__name__, e)
            write(OUT, (json.dumps([when["n"], n, d]) + "\n").encode())
        for a, b, rep in held[-4:]:
            try:
                d = observe.digest({"report": observe.snapshot(rep)})
            except BaseException as e:
                d = "%s: %s" % (type(e).__name__, e)
            write(OUT, (json.dumps([a, b, d]) + "\n").encode())

    def do(step):
        k, qs = step["when"], step["qs"]
        go = lambda *a: decode(step, qs)
        if k == "main":
            go()
        elif k == "thread":
            t = threading.Thread(target=go)
            t.start()
            t.join()
        elif k == "outlives":  # a thread still at work when the main thread has ended
            def late():
                threading.main_thread().join()
                before = late.before
                if before:
                    before.join()
                go()
            late.before, do.last = do.last, threading.Thread(target=late)
            do.last.start()
        elif k == "atexit":
            atexit.register(go)
        elif k == "uncaught":
            old = sys.excepthook

            def hook(*a):
                go()
                if old is not sys.__excepthook__:
                    old(*a)
            sys.excepthook = hook
        elif k == "signal":
            signal.signal(signal.SIGUSR1, go)
            signal.raise_signal(signal.SIGUSR1)
        elif k == "traced":
            local = lambda *a: local
            sys.settrace(local)
            try:
                go()
            finally:
                sys.settrace(None)
        elif k == "profiled":
            sys.setprofile(lambda *a: None)
            try:
                go()
            finally:
                sys.setprofile(None)
        elif k == "task":
            import asyncio

            async def task():
                go()

            async def both():
                await asyncio.gather(task(), asyncio.to_thread(lambda: None))

            asyncio.run(both())
        elif k == "context":
            import contextvars

            contextvars.Context().run(go)
        elif k == "finaliser":
            class Thing:
                def __del__(self):
                    go()

            x = Thing()
            x.me = x
            del x
            gc.collect()
        elif k == "collecting":
            old = gc.get_threshold()
            gc.set_threshold(1)
            try:
                go()
            finally:
                gc.set_threshold(*old)
        elif k == "thrifty":
            gc.disable()
            go()
        elif k == "purged":
            import functools
            import re

            ready()
            re.purge()
            sys._clear_type_cache()
            go()

    do.last = None
    if job["import"] == "first":
        ready()
    elif job["import"] == "thread":
        t = threading.Thread(target=ready)
        t.start()
        t.join()
    for step in job["steps"]:
        do(step)


job = json.loads(os.environ.pop("LIFE_JOB"))
serve(job)
if job["end"] == "raises":
    raise RuntimeError("the program ends here")
if job["end"] == "exit":
    sys.exit(3)
if job["end"] == "interrupt":
    raise KeyboardInterrupt
