"""C22: addresses against an independent reading of the text"""
from scaled.utility.zmq_config import ZMQConfig, ZMQType

RULE = "ZMQConfig: parse(print(a)) == a, print(parse(t)) equivalent to t, malformed texts and objects are refused"
TRACE = []
HOSTS = ["127.0.0.1", "localhost", "a.b-c", "*", "/tmp/x", "tcp", "", "h h", "0", "é", "x/y"]
PIECES = ["tcp", "ipc", "inproc", "://", ":", "/", "//", "udp", "TCP", " ", "a", "1", "-", "0", "80", "65536", "x9", ".", "+", "_", "\n", "é", "99999999999999999999", "inproc://", "tcp://h:", "ipc:///"]


def integer(t):
    try:
        return int(t)
    except ValueError:
        return None


def expect(t):
    """None: must be refused; (type, host, port) otherwise; "any" where several readings are fine"""
    if "://" not in t:
        return None
    s, r = t.split("://", 1)
    if s in ("ipc", "inproc"):
        return (s, r, None)
    if s != "tcp" or ":" not in r:
        return None
    h, p = r.rsplit(":", 1)
    n = integer(p)
    if n is None:
        return None
    return ("any", h, n) if ":" in h else ("tcp", h, n)


def check_text(t):
    e = expect(t)
    try:
        c = ZMQConfig.from_string(t)
    except Exception as x:
        return f"{t!r} was refused: {x!r}" if e is not None and e[0] != "any" else None
    got = (c.type.value, c.host, c.port)
    if e is None:
        return f"{t!r} was accepted as {got}"
    if got != (("tcp",) + e[1:] if e[0] == "any" else e):
        return f"{t!r} was read as {got}, expected {e}"
    if e[0] == "any":
        return None
    if ZMQConfig.from_string(c.to_address()) != c:
        return f"{t!r} is printed as {c.to_address()!r}, which is read as something else"


def run(rng, size):
    TRACE.clear()
    for _ in range(200):
        host = rng.choice(HOSTS) if rng.random() < .7 else "".join(chr(rng.choice([rng.randrange(32, 127), 0x3bb])) for _ in range(rng.randrange(8)))
        kind = rng.choice(list(ZMQType))
        port = rng.choice([0, 1, 80, 65535, 65536, -1, 10 ** 12, rng.randrange(10 ** 6)])
        if kind == ZMQType.tcp:
            host = host.replace(":", "")
            a = (kind, host, port)
        else:
            a = (kind, host)
        TRACE.append(("object", a))
        try:
            c = ZMQConfig(*a)
            t = c.to_address()
            b = ZMQConfig.from_string(t)
        except Exception as x:
            return f"valid address {a} failed: {x!r}"
        if b != c or (b.type, b.host, b.port) != (kind, host, port if kind == ZMQType.tcp else None):
            return f"{c!r} is printed as {t!r} and read back as {b!r}"
        if t != f"{kind.value}://{host}" + (f":{port}" if kind == ZMQType.tcp else ""):
            return f"{c!r} is printed as {t!r}"
        t = "".join(rng.choice(PIECES) for _ in range(rng.randrange(1, 7)))
        TRACE.append(("text", t))
        r = check_text(t)
        if r:
            return r
    for a in [("tcp", "h", 1), (None, "h", 1), (ZMQType.tcp, 5, 1), (ZMQType.tcp, b"h", 1), (ZMQType.tcp, None, 1), (ZMQType.tcp, "h", None), (ZMQType.tcp, "h"), (ZMQType.tcp, "h", "80"),
              (ZMQType.tcp, "h", 1.5), (ZMQType.tcp, "h", ""), (ZMQType.ipc, b"h")] + [(k, "h", p) for k in (ZMQType.ipc, ZMQType.inproc) for p in (0, 1, 80, -1, "80", "")]:
        try:
            c = ZMQConfig(*a)
        except Exception:
            continue
        return f"ZMQConfig{a} was accepted as {c!r}"
    return None
