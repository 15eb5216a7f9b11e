"""random frame lists into the real receivers with a stand-in socket; dispatch of every message kind (bounded)"""
import asyncio
import dataclasses
import threading
from collections import defaultdict

from scaled.io.async_binder import AsyncBinder
from scaled.io.async_connector import AsyncConnector
from scaled.io.sync_connector import SyncConnector
from scaled.protocol.python import message as M
from d_c01 import kinds, make, blob

RULE = "random frame lists (0..6 frames, known, unknown and unassigned tags) and well-formed messages of every kind; sends of every kind; dispatch of every kind by the scheduler and the worker agent"
TRACE = []


class Sock:
    def __init__(self):
        self.inbox, self.sent = [], []

    async def recv_multipart(self):
        return self.inbox.pop(0)

    async def send_multipart(self, parts, copy=True):
        self.sent.append(list(parts))


class SyncSock(Sock):
    def __init__(self, stop):
        super().__init__()
        self.stop = stop

    def poll(self, *_):
        if not self.inbox:
            self.stop.set()
            return 0
        return 1

    def recv_multipart(self):
        return self.inbox.pop(0)

    def send_multipart(self, parts, copy=True):
        self.sent.append(list(parts))

    def close(self):
        pass


def bare(cls):
    o = type(cls.__name__, (cls,), {"__del__": lambda self: None}).__new__(cls)
    o.destroy = lambda: None
    o._identity = b"me"
    o._statistics = {"received": defaultdict(int), "sent": defaultdict(int)}
    return o


def frames_of(rng, n):
    tags = [t.value for t in M.MessageType] + [b"", b"XX", b"zz", b"TKX"]
    if rng.random() < 0.5:
        c = rng.choice(kinds())
        m = make(rng, c, 4)
        return [M.PROTOCOL.inverse[c].value, *m.serialize()], m
    k = rng.randrange(0, 6)
    fr = [rng.choice(tags) if rng.random() < 0.7 else blob(rng) for _ in range(k)]
    known = {t.value for t in M.PROTOCOL}
    if len(fr) >= 2 and fr[0] in known:
        return None, None  # a known tag with an arbitrary payload is not what this property is about
    return fr, None


def norm(m):
    return repr(M.PROTOCOL[M.PROTOCOL.inverse[type(m)]].deserialize(list(m.serialize())))


def run(rng, size):
    r = asyncio.run(receivers(rng, size))
    return r or asyncio.run(dispatch(rng))


async def receivers(rng, size):
    for _ in range(6):
        fr, m = frames_of(rng, size)
        if fr is None:
            continue
        for cls in (AsyncBinder, AsyncConnector, SyncConnector):
            got = []
            o = bare(cls)
            head = [blob(rng)] if cls is AsyncBinder else []
            full = head + fr if fr or rng.random() < 0.5 else []
            TRACE[:] = [cls.__name__, full]
            try:
                if cls is SyncConnector:
                    o._stop_event = threading.Event()
                    o._socket = SyncSock(o._stop_event)
                    o._statistics_mutex = threading.Lock()
                    from queue import Queue
                    o._send_queue = Queue()
                    o._exit_callback = None
                    o._callback = lambda *a: got.append(a)
                    o._socket.inbox.append(full)
                    if m is not None:
                        o.send(m)
                    o.run()
                else:
                    o._socket = Sock()

                    async def cb(*a):
                        got.append(a)

                    o._callback = cb
                    o._socket.inbox.append(full)
                    await o.routine()
                    if m is not None:
                        await o.send(*([b"to", m] if head else [m]))
            except Exception as e:
                return f"{cls.__name__} given {full!r} fails with {e!r}"
            if m is None:
                if got or o._statistics["received"]:
                    return f"{cls.__name__} hands on or counts {full!r}, which is no message"
                continue
            if len(got) != 1:
                return f"{cls.__name__} hands {type(m).__name__} on {len(got)} times"
            if repr(got[0][-1]) != norm(m):
                return f"{cls.__name__} hands on {got[0][-1]!r} for {m!r}"
            if head and got[0][0] != head[0]:
                return f"{cls.__name__} names {got[0][0]!r} as the sender of a message of {head[0]!r}"
            exp = ([b"to"] if head else []) + [M.PROTOCOL.inverse[type(m)].value, *m.serialize()]
            if o._socket.sent != [exp]:
                return f"{cls.__name__} sends {o._socket.sent!r} for {m!r}"
    return None


class Rec:
    def __init__(self, log, name):
        self.log, self.name = log, name

    def __getattr__(self, meth):
        def f(*a, **k):
            self.log.append((self.name, meth, a))
            return Ready([])
        return f


class Ready(list):
    """usable with and without await"""

    def __await__(self):
        return self
        yield


SCHED = {"Heartbeat": ("_worker_manager", "on_heartbeat", 1), "BalanceResponse": ("_worker_manager", "on_balance_response", 0), "GraphTask": ("_graph_manager", "on_graph_task", 1),
         "GraphTaskCancel": ("_graph_manager", "on_graph_task_cancel", 0), "Task": ("_task_manager", "on_task_new", 1), "TaskCancel": ("_task_manager", "on_task_cancel", 1),
         "TaskResult": ("_worker_manager", "on_task_done", 0), "FunctionRequest": ("_function_manager", "on_function", 1), "DisconnectRequest": ("_worker_manager", "on_disconnect", 1)}


async def dispatch(rng):
    from scaled.scheduler.main import Scheduler
    for c in kinds():
        if c.__name__ not in SCHED:
            continue
        m = make(rng, c, 3)
        s, log = Scheduler.__new__(Scheduler), []
        for n in ("_worker_manager", "_task_manager", "_graph_manager", "_function_manager", "_client_manager", "_binder"):
            setattr(s, n, Rec(log, n))
        who, meth, src = SCHED[c.__name__]
        try:
            await s.on_receive_message(b"source", m)
        except Exception as e:
            return f"the scheduler given {c.__name__} fails with {e!r}"
        if log != [(who, meth, ((b"source", m) if src else (m,)))]:
            return f"the scheduler given {m!r} calls {log!r}"
    return await agent(rng)


AGENT = {"HeartbeatEcho": ("_heartbeat", "on_heartbeat_echo"), "Task": ("_task_manager", "on_task_new"), "TaskCancel": ("_task_manager", "on_cancel_task"), "FunctionRequest": ("_processor_manager", "on_function_request"),
         "FunctionResponse": ("_processor_manager", "on_function_response"), "BalanceRequest": ("_task_manager", "on_balance_request")}


async def agent(rng):
    from scaled.worker.worker import Worker
    cb = [n for n in vars(Worker) if n.endswith("on_receive_external")]
    if len(cb) != 1:
        return None
    for c in kinds():
        if c.__name__ not in AGENT:
            continue
        m = make(rng, c, 3)
        w, log = Worker.__new__(Worker), []
        for n in ("_heartbeat", "_task_manager", "_processor_manager", "_connector_external"):
            setattr(w, n, Rec(log, n))
        who, meth = AGENT[c.__name__]
        try:
            await getattr(w, cb[0])(m)
        except Exception as e:
            return f"the worker agent given {c.__name__} fails with {e!r}"
        if not log or log[0] != (who, meth, (m,)) or len(log) != (2 if c.__name__ == "BalanceRequest" else 1):
            return f"the worker agent given {m!r} calls {log!r}"
    return None
