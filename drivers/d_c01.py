"""random messages of every kind through serialize / deserialize (bounded)"""
import dataclasses
import enum
import struct
import typing

from scaled.protocol.python import message as M

RULE = "random messages of every kind in message.py built from the field annotations, list lengths 0..6, ids drawn from few values and from random bytes (empty ones included)"
TRACE = []


def kinds():
    return [c for c in vars(M).values() if isinstance(c, type) and issubclass(c, M._Message) and c is not M._Message and dataclasses.is_dataclass(c)]


def blob(rng):
    return rng.choice([b"", b"a", b"b", b"None", b"D", b"T", b"\x00", b"\x00\x00\x00\x00", struct.pack("I", rng.randrange(9)), bytes(rng.randrange(256) for _ in range(rng.randrange(12)))])


def ranges(cls, name):
    if name in ("queued_tasks",):
        return 2 ** 16
    if name in ("agent_rss", "worker_rss"):
        return 2 ** 64
    return 2 ** 32


def value(rng, t, cls, name, n):
    o, a = typing.get_origin(t), typing.get_args(t)
    if o in (list, typing.List):
        return [value(rng, a[0], cls, name, n) for _ in range(rng.randrange(n + 1))]
    if o in (set, typing.Set):
        return {value(rng, a[0], cls, name, n) for _ in range(rng.randrange(n + 1))}
    if o in (dict, typing.Dict):
        return {value(rng, a[0], cls, name, n): value(rng, a[1], cls, name, n) for _ in range(rng.randrange(n + 1))}
    if o in (tuple, typing.Tuple):
        return tuple(value(rng, x, cls, name, n) for x in a)
    if o is typing.Union:
        return value(rng, rng.choice([x for x in a if x is not type(None)]), cls, name, n)
    if isinstance(t, type) and issubclass(t, enum.Enum):
        return rng.choice(list(t))
    if t is bool:
        return rng.random() < 0.5
    if t is bytes:
        return blob(rng)
    if t is str:
        return rng.choice(["", "x", "tcp://h:1"])
    if t is int:
        return rng.choice([0, 1, rng.randrange(ranges(cls, name)), ranges(cls, name) - 1])
    if t is float:
        return rng.choice([0.0, 0.5, 1.0, rng.random() * 60])
    if dataclasses.is_dataclass(t):
        return make(rng, t, n)
    raise TypeError(t)


def make(rng, cls, n):
    h = typing.get_type_hints(cls)
    return cls(**{f.name: value(rng, h[f.name], cls, f.name, n) for f in dataclasses.fields(cls)})


def same(cls, name, a, b):
    if name in ("agent_cpu", "worker_cpu"):
        return abs(a - b) <= 0.001 + 1e-9
    if name == "duration":
        return struct.pack("f", a) == struct.pack("f", b)
    return type(a) is type(b) and a == b


def run(rng, size):
    ks = kinds()
    tagged = list(M.PROTOCOL.values())
    for c in ks:
        if tagged.count(c) != 1:
            return f"{c.__name__} has {tagged.count(c)} tags"
        tag = M.PROTOCOL.inverse[c]
        if M.PROTOCOL[M.MessageType(tag.value)] is not c:
            return f"the tag of {c.__name__} names {M.PROTOCOL[M.MessageType(tag.value)].__name__}"
    for _ in range(20):
        c = rng.choice(ks)
        m = make(rng, c, min(6, size))
        TRACE[:] = [m]
        try:
            frames = list(m.serialize())
            if not frames or not all(isinstance(f, bytes) for f in frames):
                return f"{m!r} is encoded as {frames!r}"
            back = M.PROTOCOL[M.PROTOCOL.inverse[c]].deserialize(frames)
        except Exception as e:
            return f"encoding and decoding {m!r} fails with {e!r}"
        if type(back) is not c:
            return f"{m!r} arrives as a {type(back).__name__}"
        for f in dataclasses.fields(c):
            if not same(c, f.name, getattr(m, f.name), getattr(back, f.name)):
                return f"{c.__name__}.{f.name} sent as {getattr(m, f.name)!r} arrives as {getattr(back, f.name)!r}"
    return None
