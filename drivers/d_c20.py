"""C20: the processor object with a scripted connector, a cache that drops functions on its own, and a serializer that fails on demand (bounded)"""
import logging
import pickle

from scaled.protocol.python import message as M
from scaled.protocol.python.serializer.mixins import Serializer
from scaled.utility.zmq_config import ZMQConfig
from scaled.worker.agent.processor import processor as P

logging.disable(logging.CRITICAL)
RULE = "random tasks, functions failing at every stage, functions missing from or dropped by the cache, late function responses; every task gets exactly one result with the right content"
TRACE = []
ANSWER = {}


class Bad(Exception):
    def __reduce__(self):
        raise TypeError("cannot be pickled")

    def __str__(self):
        raise ValueError("no text")


class Script(Serializer):
    """payloads are pickled; a payload starting with ! fails"""

    @staticmethod
    def fail(p):
        if p[:1] == b"!":
            raise make_exc(p[1:].decode())

    def serialize_function(self, f):
        return b""

    def deserialize_function(self, p):
        self.fail(p)
        return Fn(p)

    def serialize_argument(self, a):
        return pickle.dumps(a)

    def deserialize_argument(self, p):
        self.fail(p)
        return pickle.loads(p)

    def serialize_result(self, r):
        if isinstance(r, tuple) and r and r[0] == "!":
            raise make_exc(r[1])
        return pickle.dumps(r)

    def deserialize_result(self, p):
        return pickle.loads(p)


def make_exc(kind):
    return {"v": ValueError("v"), "bad": Bad(), "exit": SystemExit(3), "key": KeyError("k"), "type": TypeError("t"), "lambda": ValueError(lambda: 0), "os": OSError("x")}[kind]


class Fn:
    def __init__(self, p):
        self.p = p
        self.calls = 0

    def __call__(self, *a):
        self.calls += 1
        CALLS.append((self.p, a))
        k = self.p.split(b":")
        if k[1] == b"raise":
            raise make_exc(k[2].decode())
        if k[1] == b"unserializable":
            return ("!", k[2].decode())
        if k[1] == b"none":
            return None
        return [self.p, list(a)]


CALLS = []
KINDS = ["v", "bad", "exit", "key", "type", "lambda", "os"]


class Conn:
    def __init__(self, *a, **k):
        self.cb = k["callback"] if "callback" in k else a[5]
        self.sent = []
        ANSWER["conn"] = self

    def send_immediately(self, m):
        m.serialize()
        self.sent.append(m)

    send = send_immediately

    def run(self):
        pass

    def start(self):
        pass


def run(rng, size):
    TRACE.clear()
    CALLS.clear()
    real = P.CacheCleaner

    class Cache(real):
        def start(self):
            pass

        def get_function(self, f):
            r = real.get_function(self, f)
            if rng.random() < 0.3:
                real.del_function(self, f)
            return r

    keep = P.SyncConnector, P.CacheCleaner
    P.SyncConnector, P.CacheCleaner = Conn, Cache
    try:
        p = P.Processor("builtin", ZMQConfig.from_string("ipc:///tmp/none"), 30, 1 << 30, 3600, Script())
        p.run()
        conn = ANSWER["conn"]
        if len(conn.sent) != 1 or not isinstance(conn.sent[0], M.TaskResult):
            return f"on start the processor sent {conn.sent}"
        conn.sent.clear()
        for i in range(1 + size // 4):
            mode = rng.choice(["ok", "ok", "none", "raise", "unserializable", "badfn", "badarg"])
            kind = rng.choice(KINDS)
            content = b"!" + kind.encode() if mode == "badfn" else f"{rng.randrange(3)}:{mode}:{kind}".encode()
            fid = b"f" + content
            args = [rng.choice([None, 0, 1, "x", (), [1]]) for _ in range(rng.randrange(4))]
            data = [pickle.dumps(a) for a in args]
            if mode == "badarg":
                data.insert(rng.randrange(len(data) + 1), b"!" + kind.encode())
            t = M.Task(f"t{i}".encode(), fid, [M.Argument(M.ArgumentType.Data, d) for d in data])
            n0 = len(CALLS)
            TRACE.append(("task", t.task_id, mode, kind, args))
            if rng.random() < 0.2:
                TRACE.append("late function response")
                conn.cb(response(b"fother", rng.choice([b"!v", b"9:ok:v"])))
                if conn.sent:
                    return f"a function response nobody waits for made the processor send {conn.sent}"
            conn.cb(t)
            if len(conn.sent) == 1 and isinstance(conn.sent[0], M.FunctionRequest):
                q = conn.sent.pop()
                if q.type != M.FunctionRequestType.Request or q.function_id != fid:
                    return f"task {t} asks for {q}"
                if len(CALLS) != n0:
                    return f"task {t} ran before its function came"
                if rng.random() < 0.2:
                    TRACE.append("response to another function")
                    conn.cb(response(b"fother", rng.choice([b"!v", b"9:ok:v"])))
                    if conn.sent:
                        return f"while waiting for {fid}, another function made the processor send {conn.sent}"
                if rng.random() < 0.2:
                    conn.cb(M.FunctionRequest(M.FunctionRequestType.Delete, rng.choice([fid, b"fother"]), b"", b""))
                conn.cb(response(fid, content))
            if len(conn.sent) != 1 or not isinstance(conn.sent[0], M.TaskResult) or conn.sent[0].task_id != t.task_id:
                return f"task {t.task_id} ({mode} {kind}) was answered by {conn.sent}"
            r = conn.sent.pop()
            if rng.random() < 0.2:
                TRACE.append("the same function once more")
                conn.cb(response(fid, content))
                if conn.sent:
                    return f"task {t.task_id} was answered already, its function arriving once more made the processor send {conn.sent}"
            mine = CALLS[n0:]
            want_call = mode not in ("badfn", "badarg")
            if len(mine) != int(want_call) or want_call and (mine[0][0] != content or list(mine[0][1]) != args):
                return f"task {t.task_id} ({mode} {kind}) with {args}: calls {mine}"
            if mode in ("ok", "none"):
                if r.status != M.TaskStatus.Success or not r.result or pickle.loads(r.result) != ([content, args] if mode == "ok" else None):
                    return f"task {t.task_id} succeeded with {r}"
            else:
                if r.status != M.TaskStatus.Failed:
                    return f"task {t.task_id} ({mode} {kind}) must fail but {r}"
                e = pickle.loads(r.result)
                if not isinstance(e, BaseException) or kind not in ("bad", "lambda") and (type(e) is not type(make_exc(kind)) or e.args != make_exc(kind).args):
                    return f"task {t.task_id} ({mode} {kind}) failed with {e!r}"
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return f"the processor raised {e!r}"
    finally:
        P.SyncConnector, P.CacheCleaner = keep
    return None


def response(fid, content):
    return M.FunctionResponse(M.FunctionResponseType.OK, fid, b"name", content)
