"""random signatures and calls through the real client; the arguments shipped against a direct call (bounded)"""
import pickle

import sim_client

RULE = "random signatures (positional-only, plain, defaults, *args, keyword-only, **kwargs) and random calls; the function applied to the shipped arguments must give what the direct call gives, a call that cannot be shipped must raise TypeError"
TRACE = []
VALUES = [None, 0, False, "", (), [], "x", b"", float, {"a": 1}]


def value(rng, n):
    v = rng.choice(VALUES) if rng.random() < 0.3 else n
    return "float" if v is float else repr(v)


def run(rng, size):
    TRACE.clear()
    c, conn = sim_client.make_client()
    names = ["a", "b", "c", "d", "e"][:rng.randrange(0, 5)]
    k = rng.randrange(0, len(names) + 1) if rng.random() < 0.3 else 0
    nreq = rng.randrange(0, len(names) + 1)
    parts = []
    for i, n in enumerate(names):
        parts.append(n if i < nreq else f"{n}={value(rng, 100 + i)}")
        if k and i + 1 == k:
            parts.append("/")
    va = rng.random() < 0.25
    kwo = [("k1", rng.random() < 0.5)] if rng.random() < 0.2 else []
    if va:
        parts.append("*rest")
    elif kwo:
        parts.append("*")
    parts += [f"{n}=7" if d else n for n, d in kwo]
    vk = rng.random() < 0.2
    if vk:
        parts.append("**more")
    out = ", ".join(names + (["rest"] if va else []) + [n for n, _ in kwo] + (["more"] if vk else []))
    src = f"def fn({', '.join(parts)}):\n    return [{out}]"
    ns = {}
    exec(src, ns)
    fn = ns["fn"]
    args = [eval(value(rng, rng.randrange(50))) for _ in range(rng.randrange(0, 6))]
    kwargs = {n: eval(value(rng, rng.randrange(50, 99))) for n in rng.sample(names + ["k1", "zz"], rng.randrange(0, min(4, len(names) + 2)))}
    TRACE.append((src.split("\n")[0], args, kwargs))
    try:
        want = fn(*args, **kwargs)
    except TypeError:
        want = TypeError
    plain = set(names[k:])
    ships = want is not TypeError and set(kwargs) <= plain
    kw0 = dict(kwargs)
    try:
        c.submit(fn, *args, **kwargs)
    except TypeError as e:
        return f"{src.split(chr(10))[0]} called with {args} {kwargs} was refused: {e}" if ships else None
    except Exception as e:
        return f"{src.split(chr(10))[0]} called with {args} {kwargs}: submit raised {e!r}"
    if not ships:
        return f"{src.split(chr(10))[0]} called with {args} {kwargs} cannot be shipped but was accepted"
    req = conn.log[-1]
    conn.callback(sim_client.FunctionResponse(sim_client.FunctionResponseType.OK, req.function_id, b"", b""))
    t = conn.log[-1]
    got = fn(*[pickle.loads(a.data) for a in t.function_args])
    if repr(got) != repr(want) or any(a.type != sim_client.ArgumentType.Data for a in t.function_args):
        return f"{src.split(chr(10))[0]} called with {args} {kwargs}: shipped {[pickle.loads(a.data) for a in t.function_args]}, which gives {got} instead of {want}"
    return None
