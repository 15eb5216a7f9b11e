"""IndexedQueue against a list (bounded)"""
import asyncio
from scaled.utility.queues.async_indexed_queue import IndexedQueue

RULE = "random sequences of up to 160 operations (put, put_nowait, get, get_nowait, remove, membership, size) over up to 6 items incl. items of equal hash"
TRACE = []


class Same:
    """items with equal hashes that differ"""

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return isinstance(o, Same) and o.n == self.n

    def __repr__(self):
        return f"Same({self.n})"


async def go(rng, size):
    q, m = IndexedQueue(), []
    pool = [-1, -2, b"a", b"b", 0, 5, Same(1), Same(2), "x", (1, 2)]
    items = rng.sample(pool, rng.randint(1, 6))
    TRACE.clear()
    for _ in range(size * 4):
        x = rng.choice(items)
        op = rng.choice(["put", "put", "put_nowait", "get", "get_nowait", "remove"])
        TRACE.append((op, repr(x)))
        try:
            if op == "put":
                await q.put(x)
                res = "ok"
            elif op == "put_nowait":
                q.put_nowait(x)
                res = "ok"
            elif op == "remove":
                q.remove(x)
                res = "ok"
            elif op == "get":
                if not m:
                    t = asyncio.ensure_future(q.get())
                    for _ in range(3):
                        await asyncio.sleep(0)
                    if t.done():
                        return f"get on an empty queue did not wait: {t}"
                    await q.put(x)
                    r = await asyncio.wait_for(t, 5)
                    if r != x:
                        return f"a waiting get received {r!r} instead of {x!r}"
                    continue
                res = await q.get()
            else:
                res = q.get_nowait()
        except (KeyError, asyncio.QueueEmpty) as e:
            res = e
        except Exception as e:
            return f"{op}({x!r}) raised {e!r}"
        refused = isinstance(res, Exception)
        if op.startswith("put"):
            if (x in m) != refused:
                return f"{op}({x!r}) with {m} inside: {res!r}"
            if not refused:
                m.append(x)
        elif op == "remove":
            if (x in m) == refused:
                return f"remove({x!r}) with {m} inside: {res!r}"
            if not refused:
                m.remove(x)
        else:
            if bool(m) == refused:
                return f"{op} with {m} inside: {res!r}"
            if not refused:
                e = m.pop(0)
                if type(res) is not type(e) or res != e:
                    return f"{op} gave {res!r}, first in was {e!r}"
        if len(q) != len(m) or q.qsize() != len(m) or q.empty() != (not m):
            return f"size {len(q)}/{q.qsize()} with {m} inside"
        for y in pool:
            if (y in q) != (y in m):
                return f"membership of {y!r} is {y in q} with {m} inside"
    while m:
        r = await asyncio.wait_for(q.get(), 5)
        e = m.pop(0)
        if r != e:
            return f"draining gave {r!r}, first in was {e!r}"
    if len(q):
        return "not empty after draining"


def run(rng, size):
    return asyncio.run(go(rng, size))
