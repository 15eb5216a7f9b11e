"""random histories of the function cache under a controlled clock, against a reference (bounded)"""
import time

from scaled.worker.agent.processor.cache_cleaner import CacheCleaner

RULE = "random sequences of up to 60 store/look-up/delete/advance/clean-up steps over 5 ids; every look-up compared with a reference"
TRACE = []


class Stop(BaseException):
    pass


def run(rng, size):
    TRACE.clear()
    now = [1000.0]
    old_time, old_sleep = time.time, time.sleep

    def stop(_):
        raise Stop()
    time.time = lambda: now[0]
    time.sleep = stop
    try:
        c = CacheCleaner(10 ** 9, 10 ** 15, 10)
        ref, ids = {}, [b"a", b"b", b"c", b"d", b"e"]
        for _ in range(rng.randrange(5, 60)):
            op = rng.choice(["add", "get", "get", "del", "tick", "clean"])
            k = rng.choice(ids)
            if op == "add":
                f = object()
                TRACE.append(("add", k))
                c.add_function(k, f)
                ref[k] = [f, now[0]]
            elif op == "get":
                TRACE.append(("get", k))
                r = c.get_function(k)
                if r is not (ref[k][0] if k in ref else None):
                    return f"look-up of {k!r} gave {r!r}, stored: {ref.get(k)!r}"
                if k in ref:
                    ref[k][1] = now[0]
            elif op == "del":
                TRACE.append(("del", k))
                c.del_function(k)
                ref.pop(k, None)
            elif op == "tick":
                d = rng.choice([1, 4, 10, 11])
                TRACE.append(("tick", d))
                now[0] += d
            else:
                TRACE.append(("clean",))
                try:
                    c.run()
                except Stop:
                    pass
                for x in [x for x, (f, t) in ref.items() if now[0] - t > 10]:
                    del ref[x]
        for k in ids:
            if c.get_function(k) is not (ref[k][0] if k in ref else None):
                return f"at the end, look-up of {k!r} is wrong"
        return None
    finally:
        time.time, time.sleep = old_time, old_sleep
