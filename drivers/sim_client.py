"""The real client with its connector replaced by a stand-in, against a reference (bounded random histories)"""
import pickle
from concurrent.futures import CancelledError

import scaled.client as cmod
from scaled.protocol.python.message import *
from scaled.utility.exceptions import ScaledDisconnect

RULE = "random histories of up to 60 submissions, echoes, function responses, results, user cancellations, graphs and a disconnect, every message and future compared with a reference"
TRACE = []


class Bad(Exception):
    def __init__(self, tags, text):
        self.tags, self.text = set(tags.split()), text


class Connector:
    last = None

    def __init__(self, stop_event=None, context=None, socket_type=None, bind_or_connect=None, address=None, callback=None, exit_callback=None, daemonic=None):
        self.stop_event, self.callback, self.exit_callback = stop_event, callback, exit_callback
        self.log, self.urgent, self.hook = [], [], None
        self.identity = b"me"
        Connector.last = self

    def start(self):
        pass

    def join(self, *a):
        pass

    def send(self, m):
        self.log.append(m)
        if self.hook:
            self.hook(m)

    def send_immediately(self, m):
        self.urgent.append(m)

    def close(self):
        pass


def make_client():
    cmod.SyncConnector = Connector
    c = cmod.Client("tcp://127.0.0.1:1")
    return c, Connector.last


def f0(x):
    return x


def f1(x, y=5):
    return x + y


def f2(*a):
    return a


ECHOES = [TaskEchoStatus.SubmitOK, TaskEchoStatus.Duplicated, TaskEchoStatus.FunctionNotExists, TaskEchoStatus.NoWorker]
FS = [f0, f1, f2]


class Boom(Exception):
    def __eq__(self, o):
        return type(o) is Boom and self.args == o.args


class Sim:
    def __init__(self, rng):
        self.rng = rng
        self.c, self.conn = make_client()
        self.tasks, self.wait, self.futs, self.graphs = {}, {}, [], {}
        self.seen = 0

    def news(self):
        new = self.conn.log[self.seen:]
        self.seen = len(self.conn.log)
        return new

    def say(self, *a):
        TRACE.append(a)

    def expect_msgs(self, got, want, tags, what):
        if len(got) != len(want) or any(not self.same(g, w) for g, w in zip(got, want)):
            raise Bad(tags, f"{what}: sent {got}, expected {want}")

    def same(self, g, w):
        if isinstance(w, tuple):
            return isinstance(g, FunctionRequest) and g.type == FunctionRequestType.Add and g.function_id == w[1]
        return g is w or g == w

    # ---------------------------------------------------------------- operations
    def submit(self):
        fn = self.rng.choice(FS)
        v = self.rng.randrange(9)
        self.say("submit", fn.__name__, v)
        before = set(self.conn.__dict__)
        fut = self.c.submit(fn, v)
        if fut.done() or fut.running():
            raise Bad("C15", "a fresh future is not pending")
        new = self.news()
        fid = self.fid(fn, new)
        t = {"fn": fn, "fut": fut, "st": "buffered", "fid": fid, "v": v}
        self.expect_msgs(new, [] if fid in self.wait else [("add", fid)], "C17", "submit")
        self.wait.setdefault(fid, []).append(t)
        self.futs.append(t)

    fids = None

    def fid(self, fn, new):
        self.fids = self.fids or {}
        for m in new:
            if isinstance(m, FunctionRequest):
                self.fids.setdefault(fn, m.function_id)
        if fn not in self.fids:
            raise Bad("C17", "the function of the first task that waits for it was not announced")
        return self.fids[fn]

    def response(self):
        known = list((self.fids or {}).values()) + [b"unknown"]
        fid = self.rng.choice(known)
        self.say("response", fid[:4])
        self.conn.callback(FunctionResponse(self.rng.choice([FunctionResponseType.OK, FunctionResponseType.Duplicated]), fid, b"", b""))
        new = self.news()
        line = self.wait.pop(fid, [])
        if len(new) != len(line):
            raise Bad("C17", f"acknowledgement of a function released {len(new)} tasks, {len(line)} were waiting")
        for m, t in zip(new, line):
            if not isinstance(m, Task) or m.function_id != fid or ("task" in t and m.task_id != t["task"].task_id):
                raise Bad("C17", "acknowledgement released something else, or in another order")
            if "task" not in t:
                if m.task_id in self.tasks:
                    raise Bad("C17", "a task is sent twice")
                if [pickle.loads(a.data) for a in m.function_args][:1] != [t["v"]]:
                    raise Bad("C17 C14", "tasks were released in another order than submitted, or with other arguments")
                t["task"] = m
                self.tasks[m.task_id] = t
            t["st"] = "sent"

    def pick(self, *st):
        c = [t for t in self.tasks.values() if t["st"] in st]
        return self.rng.choice(c) if c else None

    def echo(self):
        t = self.pick("sent")
        if t is None or self.rng.random() < 0.1:
            self.conn.callback(TaskEcho(b"nobody", self.rng.choice(ECHOES)))
            self.expect_msgs(self.news(), [], "C17", "echo of an unknown task")
            return
        s = self.rng.choice([TaskEchoStatus.SubmitOK] * 4 + ECHOES)
        self.say("echo", t["task"].task_id[:4], s.name)
        self.conn.callback(TaskEcho(t["task"].task_id, s))
        new = self.news()
        if s == TaskEchoStatus.SubmitOK:
            t["st"] = "acked"
            self.expect_msgs(new, [], "C17", "accepted")
        elif s == TaskEchoStatus.Duplicated:
            self.expect_msgs(new, [], "C17", "duplicated")
        elif s == TaskEchoStatus.NoWorker:
            self.expect_msgs(new, [], "C17", "no worker")
            t["st"] = "done"
            self.end(t, "error", None)
        elif s == TaskEchoStatus.FunctionNotExists:
            self.expect_msgs(new, [] if t["fid"] in self.wait else [("add", t["fid"])], "C17", "bounced")
            self.wait.setdefault(t["fid"], []).append(t)
            t["st"] = "buffered"

    def end(self, t, kind, value):
        if t.get("user") and t["fut"].cancelled():
            return
        t["want"] = (kind, value)

    def outcome(self):
        s = self.rng.choice([TaskStatus.Success] * 3 + [TaskStatus.Failed] * 2 + [x for x in TaskStatus if x not in (TaskStatus.Success, TaskStatus.Failed)])
        if s == TaskStatus.Success:
            v = self.rng.choice([None, self.rng.randrange(99), "x"])
            if self.rng.random() < 0.2:
                return s, b"garbage", ("error", None)
            return s, pickle.dumps(v), ("value", v)
        if s == TaskStatus.Failed:
            if self.rng.random() < 0.2:
                return s, b"garbage", ("error", None)
            e = Boom(self.rng.randrange(9))
            return s, pickle.dumps(e), ("exc", e)
        return s, b"", ("error", None)

    def result(self):
        s, p, w = self.outcome()
        t = self.pick("acked")
        if t is None or self.rng.random() < 0.1:
            self.conn.callback(TaskResult(self.rng.choice([b"nobody"] + [x["task"].task_id for x in self.tasks.values() if x["st"] == "done"]), s, 0.5, p))
            self.expect_msgs(self.news(), [], "C15", "result of an unknown task")
            return
        self.say("result", t["task"].task_id[:4], s.name, w)
        self.conn.callback(TaskResult(t["task"].task_id, s, 0.5, p))
        self.expect_msgs(self.news(), [], "C15", "result")
        t["st"] = "done"
        self.end(t, *w)

    def cancel(self):
        c = [t for t in self.futs + [t for g in self.graphs.values() for t in g] if not t["fut"].done()]
        if c:
            t = self.rng.choice(c)
            self.say("user cancels")
            if t["fut"].cancel():
                t["user"] = True

    # ---------------------------------------------------------------- graphs
    def graph(self):
        n = self.rng.randrange(1, 5)
        consts = {f"k{i}": self.rng.randrange(9) for i in range(self.rng.randrange(0, 3))}
        if self.rng.random() < 0.2:
            consts["odd"] = self.rng.choice([(), (1, 2), None])
        names = [f"n{i}" for i in range(n)]
        nodes = {}
        for i, x in enumerate(names):
            src = names[:i] + list(consts)
            nodes[x] = (self.rng.choice([f2] * 3 + FS), *[self.rng.choice(src) for _ in range(self.rng.randrange(0, 4)) if src])
        items = list({**consts, **nodes}.items())
        self.rng.shuffle(items)
        g = dict(items)
        keys = [self.rng.choice(names) for _ in range(self.rng.randrange(1, 4))]
        bad = self.rng.random() < 0.2
        if bad:
            how = self.rng.choice(["key", "arg", "cycle", "const"])
            if how == "key":
                keys.insert(self.rng.randrange(len(keys) + 1), "nowhere")
            elif how == "arg":
                g["extra"] = (f2, "nowhere")
            elif how == "const":
                g["k"] = 5
                keys.append("k")
            else:
                g["p"], g["q"] = (f2, "q"), (f2, "p")
        copy = dict(g)
        self.say("graph", {k: (v if not isinstance(v, tuple) or not v or not callable(v[0]) else (v[0].__name__, *v[1:])) for k, v in g.items()}, keys)
        try:
            r = self.c.get(g, keys, block=False)
        except Exception as e:
            if self.news():
                raise Bad("C16", "something was sent for a graph that was refused")
            if not bad:
                raise Bad("C16", f"a valid graph was refused: {e!r}")
            return
        if bad:
            raise Bad("C16", "an invalid graph was accepted")
        if g != copy or list(g) != list(copy):
            raise Bad("C16", "the user's graph was changed")
        new = self.news()
        if len(new) != 1 or not isinstance(new[0], GraphTask):
            raise Bad("C16", f"sent {new}")
        m = new[0]
        want = list(dict.fromkeys(keys))
        if set(r) != set(keys) or len(m.targets) != len(want):
            raise Bad("C16", "not one future for each key")
        fn_nodes = {k: v for k, v in g.items() if k in nodes}
        byid = {t.task_id: t for t in m.graph}
        if len(byid) != len(m.graph) or len(m.graph) != len(fn_nodes):
            raise Bad("C16", "not one task for each function node")

        def agrees(name, tid, seen):
            if tid not in byid:
                return False
            if (name, tid) in seen:
                return True
            seen.add((name, tid))
            t, node = byid[tid], g[name]
            if pickle.loads(m.functions[t.function_id][1]) is not node[0] and pickle.loads(m.functions[t.function_id][1]).__name__ != node[0].__name__:
                return False
            if len(t.function_args) != len(node) - 1:
                return False
            for a, x in zip(t.function_args, node[1:]):
                if x in fn_nodes:
                    if a.type != ArgumentType.Task or not agrees(x, a.data, seen):
                        return False
                elif a.type != ArgumentType.Data or pickle.loads(a.data) != g[x]:
                    return False
            return True
        for name, tid in zip(want, m.targets):
            if not agrees(name, tid, set()):
                raise Bad("C16", f"target {name} does not name its own node, or its node is not shipped faithfully")
        self.graphs[m.task_id] = [{"fut": r[k], "key": k} for k in want]
        if len({id(x["fut"]) for x in self.graphs[m.task_id]}) != len(want):
            raise Bad("C16", "two keys share a future")

    def graph_result(self):
        live = [g for g in self.graphs if not any("want" in t or "ended" in t for t in self.graphs[g])]
        s = self.rng.choice(list(TaskStatus))
        if not live or self.rng.random() < 0.1:
            self.conn.callback(GraphTaskResult(b"nobody", s, [b""]))
            return
        gid = self.rng.choice(live)
        ts = self.graphs[gid]
        if s == TaskStatus.Success:
            vals = [(b"garbage", ("error", None)) if self.rng.random() < 0.15 else (pickle.dumps(i * 10), ("value", i * 10)) for i, _ in enumerate(ts)]
        elif s == TaskStatus.Failed:
            e = Boom(7)
            vals = [(pickle.dumps(e), ("exc", e))] if self.rng.random() < 0.8 else [(b"garbage", ("error", None))]
        else:
            vals = [(b"", ("error", None))]
        self.say("graph result", s.name, [w for _, w in vals])
        self.conn.callback(GraphTaskResult(gid, s, [p for p, _ in vals]))
        for i, t in enumerate(ts):
            t["ended"] = True
            self.end(t, *vals[i if s == TaskStatus.Success else 0][1])

    # ---------------------------------------------------------------- checks
    def check(self):
        for t in self.futs + [t for g in self.graphs.values() for t in g]:
            f = t["fut"]
            if "want" not in t:
                if f.done() and not (t.get("user") and f.cancelled()):
                    raise Bad("C15", "a future ended before its task")
                if f.running() and t.get("st") in ("buffered", "sent"):
                    raise Bad("C15", "a future runs before its task is accepted")
                continue
            if t.get("user") and f.cancelled():
                continue
            if not f.done():
                raise Bad("C15", f"a task ended but its future did not: {t['want']}")
            kind, v = t["want"]
            e = f.exception()
            if kind == "value" and (e is not None or f.result() != v):
                raise Bad("C15", f"a future gave {e if e else f.result()!r} instead of {v!r}")
            if kind == "exc" and e != v:
                raise Bad("C15", f"a future failed with {e!r} instead of {v!r}")
            if kind == "error" and e is None:
                raise Bad("C15", "a future succeeded although its task did not")
            if kind == "gone" and not isinstance(e, ScaledDisconnect):
                raise Bad("C15", f"after disconnecting a future has {e!r}")

    def exit(self):
        self.say("disconnect")
        self.c.disconnect()
        if not self.conn.stop_event.is_set():
            raise Bad("C15", "disconnecting does not stop the connector")
        open_t = [t for t in self.futs if t.get("st") != "done"]
        open_g = {g: ts for g, ts in self.graphs.items() if not any("ended" in t for t in ts)}
        self.conn.exit_callback()
        for t in open_t:
            self.end(t, "gone", None)
        for ts in open_g.values():
            for t in ts:
                self.end(t, "gone", None)
        got = [m.task_id for m in self.conn.urgent if isinstance(m, TaskCancel)]
        want = [t["task"].task_id for t in open_t if "task" in t]
        if len(got) != len(open_t) or len(set(got)) != len(got) or not set(want) <= set(got):
            raise Bad("C15", "disconnecting does not cancel each outstanding task once")
        if sorted(m.task_id for m in self.conn.urgent if isinstance(m, GraphTaskCancel)) != sorted(open_g):
            raise Bad("C15", "disconnecting does not cancel each outstanding graph once")

    def go(self, n):
        ops = [self.submit] * 4 + [self.response] * 3 + [self.echo] * 4 + [self.result] * 3 + [self.cancel, self.graph, self.graph, self.graph_result]
        for _ in range(n):
            op = self.rng.choice(ops)
            try:
                op()
            except Bad:
                raise
            except Exception as e:
                raise Bad("C15 C16 C17", f"{op.__name__} raised {e!r}")
            self.check()
        if self.rng.random() < 0.5:
            try:
                self.exit()
            except Bad:
                raise
            except Exception as e:
                raise Bad("C15", f"disconnecting raised {e!r}")
            self.check()


def make(prop):
    def run(rng, size):
        TRACE.clear()
        try:
            Sim(rng).go(rng.randrange(3, 60))
        except Bad as b:
            return b.text if prop in b.tags else None
        return None
    return run
