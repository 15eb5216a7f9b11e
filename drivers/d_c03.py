"""PriorityQueue against a dictionary of load counts (bounded)"""
import asyncio
from scaled.utility.queues.async_priority_queue import PriorityQueue

RULE = "random sequences of up to 160 operations over up to 6 data items with priorities 0..4 (never below zero)"
TRACE = []


async def go(rng, size):
    q, m = PriorityQueue(), {}
    items = [b"w%d" % i for i in range(rng.randint(1, 6))]
    TRACE.clear()
    for _ in range(size * 4):
        x = rng.choice(items)
        op = rng.choice(["put", "put", "get", "remove", "dec", "dec", "max", "reput", "reput"])
        TRACE.append((op, x, dict(m)))
        try:
            if op == "put" and x not in m:
                p = rng.randint(0, 4)
                await q.put([p, x])
                m[x] = p
            elif op in ("get", "reput"):
                if not m:
                    if not q.empty():
                        return "empty() is False on an empty queue"
                    continue
                p, d = await asyncio.wait_for(q.get(), 5)
                if d not in m or m[d] != p or p != min(m.values()):
                    return f"get gave {(p, d)} with {m} inside"
                m.pop(d)
                if op == "reput":
                    p += rng.randint(0, 2)
                    await q.put([p, d])
                    m[d] = p
            elif op == "remove" and x in m:
                q.remove(x)
                m.pop(x)
            elif op == "dec" and m.get(x, 0) >= 1:
                q.decrease_priority(x)
                m[x] -= 1
            elif op == "max" and m:
                for _ in range(rng.randint(1, 3)):
                    r = q.max_priority()
                    if r != min(m.values()):
                        return f"max_priority gave {r} with {m} inside"
        except Exception as e:
            return f"{op}({x}) with {m} inside raised {e!r}"
        if len(q) != len(m) or q.qsize() != len(m):
            return f"size {len(q)} with {m} inside"
    while m:
        p, d = await asyncio.wait_for(q.get(), 5)
        if m.get(d) != p or p != min(m.values()):
            return f"draining gave {(p, d)} with {m} inside"
        m.pop(d)
    if len(q):
        return "not empty after draining"


def run(rng, size):
    return asyncio.run(go(rng, size))
