"""The scheduler's real managers, wired together as Scheduler does, against a reference model (bounded random histories)"""
import asyncio
import math
import time
from collections import Counter

from scaled.protocol.python.message import *
from scaled.scheduler.client_manager import VanillaClientManager
from scaled.scheduler.function_manager import VanillaFunctionManager
from scaled.scheduler.graph_manager import GraphManager
from scaled.scheduler.task_manager import VanillaTaskManager
from scaled.scheduler.worker_manager import VanillaWorkerManager

TRACE = []
FINAL = [TaskStatus.Success, TaskStatus.Failed, TaskStatus.Canceled, TaskStatus.NotFound]


class Bad(Exception):
    def __init__(self, tags, text):
        self.tags, self.text = set(tags.split()), text


class Binder:
    def __init__(self):
        self.sent = []

    async def send(self, to, message):
        self.sent.append((to, message))


class Monitor:
    async def send(self, message):
        pass


class Clock:
    def __init__(self):
        self.t = 1000.0


class G:
    """reference graph"""

    def __init__(self, gid, client, msg):
        self.gid, self.client = gid, client
        self.nodes = {t.task_id: (t.function_id, [(a.type, a.data) for a in t.function_args]) for t in msg.graph}
        self.targets = list(msg.targets)
        self.deps = {t: {d for k, d in a if k == ArgumentType.Task} for t, (f, a) in self.nodes.items()}
        self.state = {t: "idle" for t in self.nodes}
        self.res = {}


class Sim:
    def __init__(self, rng, graphs, limit=None, seconds=None):
        self.rng, self.graphs = rng, graphs
        self.limit = limit if limit is not None else (-1 if graphs else rng.choice([-1, 0, 1, 2, 5]))
        self.cap = rng.randint(1, 4)
        self.timeout = rng.choice([5, 10])
        self.bal_s = rng.choice([0, 1, 1, 1])
        self.trigger = rng.choice([1, 2, 3])
        self.retention = rng.choice([10, 20])
        self.b, self.mon = Binder(), Monitor()
        self.clock = Clock()
        self.cm, self.fm, self.gm = VanillaClientManager(), VanillaFunctionManager(function_retention_seconds=self.retention), GraphManager()
        self.tm = VanillaTaskManager(max_number_of_tasks_waiting=self.limit)
        self.wm = VanillaWorkerManager(per_worker_queue_size=self.cap, timeout_seconds=self.timeout, load_balance_seconds=self.bal_s,
                                       load_balance_trigger_times=self.trigger)
        self.fm.register(self.b, self.wm)
        self.gm.register(self.b, self.mon, self.cm, self.fm, self.tm)
        self.tm.register(self.b, self.mon, self.cm, self.fm, self.wm, self.gm)
        self.wm.register(self.b, self.tm)
        # model
        self.fn = {}            # id -> [name, content, since]
        self.task = {}          # id -> dict(client, fid, args, at=None|worker, g)
        self.queue = []         # groups (sets) of waiting ids
        self.workers = {}       # id -> last heartbeat
        self.count = Counter()
        self.adv, self.run = None, 0
        self.g = {}             # live graphs
        self.pending = []       # graphs not yet started
        self.node_of = {}       # node -> graph id, while it belongs to a live graph
        self.dead_tasks = []
        self.dead_graphs = []
        self.n = 0
        self.cancelled_nodes = set()

    # -------------------------------------------------------------- helpers
    def fresh(self, k):
        self.n += 1
        return b"%s%d" % (k, self.n)

    def held(self, w):
        return {t for t, d in self.task.items() if d["at"] == w}

    def waiting(self):
        return [t for g in self.queue for t in g]

    def room(self):
        return any(len(self.held(w)) < self.cap for w in self.workers)

    def enqueue(self, ids):
        if ids:
            self.queue.append(set(ids))

    def dequeue(self, t):
        for g in self.queue:
            g.discard(t)
        self.queue = [g for g in self.queue if g]

    def uses(self, f):
        return any(d["fid"] == f for d in self.task.values()) or any(g.nodes[t][0] == f and s == "idle" for g in self.g.values() for t, s in g.state.items())

    async def do(self, tags, coro):
        self.b.sent.clear()
        try:
            r = await asyncio.wait_for(coro, 5)
        except asyncio.TimeoutError:
            raise Bad(tags, "the call never returned")
        except Exception as e:
            raise Bad(tags, f"raised {e!r}")
        out, self.b.sent = self.b.sent, []
        return r, out

    def expect(self, tags, got, exp, what):
        if len(got) != len(exp):
            raise Bad(tags, f"{what}: sent {got}, expected {exp}")
        rest = list(got)
        for e in exp:
            if e in rest:
                rest.remove(e)
            else:
                raise Bad(tags, f"{what}: sent {got}, expected {exp}")

    async def check_counts(self, tags):
        s = (await self.do("C25", self.tm.statistics()))[0]["task_manager"]
        if s["unassigned"] != len(self.waiting()) or s["running"] != sum(1 for d in self.task.values() if d["at"]):
            raise Bad(tags, f"reported {s}, but waiting {self.waiting()} and running {[t for t, d in self.task.items() if d['at']]}")
        for k, st in (("success", TaskStatus.Success), ("failed", TaskStatus.Failed), ("canceled", TaskStatus.Canceled), ("not_found", TaskStatus.NotFound)):
            if s[k] != self.count[st]:
                raise Bad("C25", f"reported {k}={s[k]}, but {self.count[st]} tasks ended so")
        w = (await self.do("C25", self.wm.statistics()))[0]["worker_manager"]
        rep = {x["worker"].encode(): x for x in w}
        if set(rep) != set(self.workers):
            raise Bad("C21 C25", f"reported workers {sorted(rep)}, connected {sorted(self.workers)}")
        for k, x in rep.items():
            n = len(self.held(k))
            if x["sent"] != n or x["free"] != self.cap - n:
                raise Bad("C25 C05 C07 " + tags, f"worker {k}: reported sent={x['sent']} free={x['free']}, holds {n} of {self.cap}")
        f = (await self.do("C25", self.fm.statistics()))[0]["function_manager"]
        exp = Counter()
        for t, d in self.task.items():
            exp[self.fn[d["fid"]][0].decode()] += 1
        for g in self.g.values():
            for t, st in g.state.items():
                if st == "idle":
                    exp[self.fn[g.nodes[t][0]][0].decode()] += 1
        if dict(f) != dict(exp):
            raise Bad("C25 C11 C13" if self.graphs else "C25 C11", f"reported function uses {f}, expected {dict(exp)}")
        c = (await self.do("C25", self.cm.statistics()))[0]["client_manager"]
        exp = Counter(d["client"].decode() for d in self.task.values())
        for g in self.g.values():
            exp[g.client.decode()] += 1
        if dict(c) != dict(exp):
            raise Bad("C25 C13" if self.graphs else "C25 C07", f"reported client tasks {c}, expected {dict(exp)}")

    # -------------------------------------------------------------- task manager
    async def op_submit(self):
        rng = self.rng
        c = rng.choice([b"c1", b"c2", b"c3"])
        f = rng.choice(list(self.fn) + [b"nope"]) if rng.random() < 0.95 else b"nope"
        t = self.fresh(b"t") if rng.random() < 0.95 or not self.dead_tasks else rng.choice([x for x in self.dead_tasks if not x.startswith(b'n')] or [self.fresh(b't')])
        args = [Argument(ArgumentType.Data, b"a%d" % rng.randint(0, 5)) for _ in range(rng.randint(0, 3))]
        msg = Task(t, f, list(args))
        TRACE.append(("submit", c, msg))
        _, out = await self.do("C09", self.tm.on_task_new(c, msg))
        if f not in self.fn:
            st = TaskEchoStatus.FunctionNotExists
        elif not self.room() and 0 <= self.limit <= len(self.waiting()):
            st = TaskEchoStatus.NoWorker
        else:
            st = TaskEchoStatus.SubmitOK
        self.expect("C09", out, [(c, TaskEcho(t, st))], f"submission with limit {self.limit}, {len(self.waiting())} waiting, room {self.room()}")
        if st == TaskEchoStatus.SubmitOK:
            self.task[t] = dict(client=c, fid=f, args=args, at=None)
            self.dead_tasks = [x for x in self.dead_tasks if x != t]
            self.enqueue([t])
            self.fn[f][2] = self.clock.t
        await self.check_counts("C09 C07 C25")

    async def op_route(self):
        if not self.waiting():
            # nothing waiting: the routine has to wait and leave everything alone
            if self.rng.random() < 0.05:
                self.b.sent.clear()
                try:
                    await asyncio.wait_for(self.tm.routine(), 0.002)
                except asyncio.TimeoutError:
                    pass
                except Exception as e:
                    raise Bad("C07", f"raised {e!r}")
                if self.b.sent:
                    raise Bad("C07", f"sent {self.b.sent} with nothing waiting")
            return
        first = self.queue[0]
        TRACE.append(("route", [set(g) for g in self.queue]))
        _, out = await self.do("C07 C05", self.tm.routine())
        if not self.room():
            if out:
                raise Bad("C05", f"no connected worker has room but {out} was sent")
            if len(first) == 1:
                self.queue.append(self.queue.pop(0))
            else:
                # one of the tied ones went to the back
                self.queue[0:] = [set(self.waiting())]
            await self.check_counts("C07 C25")
            return
        if len(out) != 1 or not isinstance(out[0][1], Task):
            raise Bad("C07 C05", f"waiting {self.queue} with room, but sent {out}")
        w, m = out[0]
        t = m.task_id
        if t not in self.task or self.task[t]["at"] or t not in self.waiting():
            tags = "C07 C05"
            if t in self.cancelled_nodes or t in self.dead_tasks:
                tags += " C10 C13 C12"
            raise Bad(tags, f"sent task {t} which is not waiting")
        if t not in first:
            raise Bad("C07", f"sent {t} before {first}")
        d = self.task[t]
        want = [(a.type, a.data) for a in d["args"]]
        if [(a.type, a.data) for a in m.function_args] != want or m.function_id != d["fid"]:
            raise Bad("C12" if d.get("g") else "C07", f"task {t} sent as {m}, expected arguments {want}")
        if w not in self.workers or len(self.held(w)) >= self.cap:
            raise Bad("C05 C07", f"task sent to {w} which is not connected or full")
        if len(self.held(w)) != min(len(self.held(x)) for x in self.workers):
            raise Bad("C05", f"task sent to {w} holding {len(self.held(w))}, loads {({x: len(self.held(x)) for x in self.workers})}")
        self.dequeue(t)
        d["at"] = w
        await self.check_counts("C07 C25 C05")

    def forget(self, t, st):
        d = self.task.pop(t)
        self.dequeue(t)
        self.count[st] += 1
        self.dead_tasks.append(t)
        return d

    async def op_result(self):
        rng = self.rng
        running = [t for t, d in self.task.items() if d["at"]]
        x = rng.random()
        if running and x < 0.85:
            t = rng.choice(running)
        elif x < 0.93 and self.dead_tasks:
            t = rng.choice(self.dead_tasks)
        elif x < 0.97 and self.waiting():
            t = rng.choice(self.waiting())
        else:
            t = b"unknown"
        st = rng.choice(FINAL[:1] * 6 + FINAL)
        r = TaskResult(t, st, rng.random(), b"r%d" % rng.randint(0, 999))
        TRACE.append(("result", r))
        _, out = await self.do("C08 C12 C13" if t in self.node_of or t in self.cancelled_nodes else "C08", self.wm.on_task_done(r))
        if t not in running:
            self.expect("C08", out, [], f"result for {t} which nobody holds")
            await self.check_counts("C08 C25 C07")
            return
        d = self.forget(t, st)
        if t not in self.node_of:
            self.expect("C08", out, [(d["client"], r)], f"result of {t}")
        else:
            self.node_done(t, r, out)
        await self.check_counts("C08 C25 C07 C13" if d.get("g") else "C08 C25 C07")

    async def op_cancel(self):
        rng = self.rng
        x = rng.random()
        pool = self.waiting() if x < 0.45 else [t for t, d in self.task.items() if d["at"]] if x < 0.85 else self.dead_tasks if x < 0.95 else [b"unknown"]
        if not pool:
            return
        t = rng.choice(pool)
        TRACE.append(("cancel", t, self.task.get(t)))
        _, out = await self.do("C10 C13" if t in self.node_of else "C10", self.tm.on_task_cancel(b"c1", TaskCancel(t)))
        if t in self.waiting():
            d = self.forget(t, TaskStatus.Canceled)
            if t in self.node_of:
                self.node_done(t, TaskResult(t, TaskStatus.Canceled, 0, b""), out)
            elif not (len(out) == 1 and out[0][0] == d["client"] and isinstance(out[0][1], TaskResult) and out[0][1].task_id == t and out[0][1].status == TaskStatus.Canceled):
                raise Bad("C10", f"cancelling waiting {t} of {d['client']} sent {out}")
        elif t in self.task:
            self.expect("C10", out, [(self.task[t]["at"], TaskCancel(t))], f"cancelling {t}")
        else:
            self.expect("C10", out, [], f"cancelling unknown {t}")
        await self.check_counts("C10 C07 C25")

    # -------------------------------------------------------------- worker manager
    def requeue(self, ids):
        for t in ids:
            self.task[t]["at"] = None
        self.enqueue(ids)

    async def op_heartbeat(self):
        w = self.rng.choice([b"w1", b"w2", b"w3", b"w4"])
        TRACE.append(("heartbeat", w))
        _, out = await self.do("C21", self.wm.on_heartbeat(w, Heartbeat(0.1, 1, 0.2, 2, 0, 3, True, False, False)))
        self.expect("C21", out, [(w, HeartbeatEcho())], "heartbeat")
        self.workers[w] = self.clock.t
        await self.check_counts("C21 C07 C25")

    async def op_disconnect(self):
        w, src = self.rng.choice([b"w1", b"w2", b"w3", b"w4"]), self.rng.choice([b"c1", b"w1", b"w2"])
        TRACE.append(("disconnect", w))
        _, out = await self.do("C21 C07", self.wm.on_disconnect(src, DisconnectRequest(w)))
        self.expect("C21", out, [(src, DisconnectResponse(w))] if w in self.workers else [], f"disconnect of {w}")
        if w in self.workers:
            ids = self.held(w)
            self.workers.pop(w)
            self.requeue(ids)
        await self.check_counts("C21 C07 C25")

    async def op_balance(self):
        ids = self.rng.sample(list(self.task), min(len(self.task), self.rng.randint(0, 3)))
        if self.rng.random() < 0.3:
            ids.append(self.rng.choice(self.dead_tasks + [b"unknown"]))
        if ids and self.rng.random() < 0.2:
            ids.append(self.rng.choice(ids))
        TRACE.append(("balance response", list(ids), {t: self.task.get(t, {}).get("at") for t in ids}))
        _, out = await self.do("C07", self.wm.on_balance_response(BalanceResponse(list(ids))))
        self.expect("C07", out, [], "balance response")
        for t in dict.fromkeys(ids):
            if t in self.task and self.task[t]["at"]:
                self.requeue([t])
        await self.check_counts("C07 C25")

    async def op_tick(self):
        self.clock.t += self.rng.choice([0, 1, 1, 3, 6])
        load = {w: len(self.held(w)) for w in self.workers}
        TRACE.append(("tick", self.clock.t, dict(self.workers), load))
        _, out = await self.do("C21 C06 C07", self.wm.routine())
        advice = {}
        if load and any(load.values()) and not all(load.values()):
            mean = sum(load.values()) / len(load)
            advice = {w: n - math.floor(mean) for w, n in load.items() if n > mean}
        exp = []
        if self.bal_s > 0:
            if self.adv == advice:
                self.run += 1
            else:
                self.adv, self.run = advice, 1
            if advice and self.run == self.trigger:
                exp = [(w, BalanceRequest(n)) for w, n in advice.items()]
        self.expect("C06", out, exp, f"balance with loads {load}, run {self.run} of {self.trigger}, enabled {self.bal_s}")
        for w in [w for w, t in self.workers.items() if self.clock.t - t > self.timeout]:
            ids = self.held(w)
            self.workers.pop(w)
            self.requeue(ids)
        await self.check_counts("C21 C07 C25")

    # -------------------------------------------------------------- function manager
    async def op_function(self):
        rng = self.rng
        kind = rng.choice(list(FunctionRequestType) + [FunctionRequestType.Add] * 3)
        f = rng.choice([b"f1", b"f2", b"f3", b"f4"])
        name, content = f + b"name" , b"code%d" % rng.randint(0, 9)
        c = rng.choice([b"c1", b"w1"])
        msg = FunctionRequest(kind, f, name, content)
        TRACE.append(("function", c, msg, f in self.fn, self.uses(f) if f in self.fn else None))
        _, out = await self.do("C11", self.fm.on_function(c, msg))
        R = FunctionResponseType
        n2 = c2 = b""
        if kind == FunctionRequestType.Add:
            st = R.Duplicated if f in self.fn else R.OK
            if f in self.fn:
                self.fn[f][2] = self.clock.t
            else:
                self.fn[f] = [name, content, self.clock.t]
        elif f not in self.fn:
            st = R.NotExists
        elif kind == FunctionRequestType.Check:
            st = R.OK
        elif kind == FunctionRequestType.Request:
            st = R.OK
            n2, c2 = self.fn[f][0], self.fn[f][1]
        else:
            st = R.StillHaveTask if self.uses(f) else R.OK
            if st == R.OK:
                self.fn.pop(f)
        self.expect("C11", out, [(c, FunctionResponse(st, f, n2, c2))], f"{kind} of {f}")

    async def op_expire(self):
        self.clock.t += self.rng.choice([0, 1, 5])
        TRACE.append(("expire", self.clock.t, {f: v[2] for f, v in self.fn.items()}))
        _, out = await self.do("C11", self.fm.routine())
        gone = [f for f, v in self.fn.items() if self.clock.t - v[2] > self.retention and not self.uses(f)]
        for _, m in out:
            if not (isinstance(m, FunctionRequest) and m.type == FunctionRequestType.Delete):
                raise Bad("C11", f"expiry sent {m}")
        self.expect("C11", [(w, m.function_id) for w, m in out], [(w, f) for w in self.workers for f in gone], "expiry")
        for f in gone:
            self.fn.pop(f)
        # every function still held answers, every dropped one does not exist
        for f in [b"f1", b"f2", b"f3", b"f4"]:
            _, out = await self.do("C11", self.fm.on_function(b"x", FunctionRequest(FunctionRequestType.Check, f, b"", b"")))
            self.expect("C11", out, [(b"x", FunctionResponse(FunctionResponseType.OK if f in self.fn else FunctionResponseType.NotExists, f, b"", b""))], f"check of {f}")
        await self.check_counts("C11")

    # -------------------------------------------------------------- graphs
    async def op_graph(self):
        rng = self.rng
        gid, c = self.fresh(b"g"), rng.choice([b"c1", b"c2"])
        n = rng.randint(0, 6)
        ids = [self.fresh(b"n") for _ in range(n)]
        fns = {f: (f + b"name", b"code-g") for f in rng.sample([b"f1", b"f2", b"f3"], rng.randint(1, 3))}
        tasks = []
        for i, t in enumerate(ids):
            args = []
            for _ in range(rng.randint(0, 3)):
                if i and rng.random() < 0.7:
                    args.append(Argument(ArgumentType.Task, rng.choice(ids[:i])))
                else:
                    args.append(Argument(ArgumentType.Data, b"k%d" % rng.randint(0, 9)))
            tasks.append(Task(t, rng.choice(list(fns)), args))
        targets = rng.sample(ids, rng.randint(1, n)) if n else []
        if targets and rng.random() < 0.2:
            targets.append(rng.choice(targets))
        rng.shuffle(tasks)
        msg = GraphTask(gid, fns, targets, tasks)
        ref = G(gid, c, msg)
        TRACE.append(("graph", c, repr(msg)))
        _, out = await self.do("C12", self.gm.on_graph_task(c, msg))
        self.expect("C12", out, [], "graph submission")
        self.pending.append((ref, fns))
        if rng.random() < 0.8:
            await self.op_graph_start()

    async def op_graph_start(self):
        if not self.pending:
            return
        g, fns = self.pending.pop(0)
        TRACE.append(("graph start", g.gid))
        _, out = await self.do("C12 C13", self.gm.routine())
        exp = []
        for f, (name, content) in fns.items():
            st = FunctionResponseType.OK
            if f in self.fn:
                st = FunctionResponseType.Duplicated
            else:
                self.fn[f] = [name, content, 0]
            self.fn[f][2] = self.clock.t
            exp.append((g.client, FunctionResponse(st, f, b"", b"")))
        for f in {f for f, _ in g.nodes.values()}:
            self.fn[f][2] = self.clock.t
        self.g[g.gid] = g
        for t in g.nodes:
            self.node_of[t] = g.gid
        exp += self.graph_next(g)
        self.expect("C12 C13", out, exp, f"starting graph {g.gid}")
        await self.check_counts("C12 C13")

    def graph_next(self, g):
        """messages expected when the ready nodes are dispatched, or the graph finishes"""
        if all(s == "done" for s in g.state.values()):
            res = [g.res[t] for t in g.targets]
            self.graph_gone(g)
            return [(g.client, GraphTaskResult(g.gid, TaskStatus.Success, res))]
        out, ids = [], []
        for t in g.nodes:
            if g.state[t] == "idle" and all(g.state[d] == "done" for d in g.deps[t]):
                g.state[t] = "sent"
                f, args = g.nodes[t]
                self.task[t] = dict(client=g.client, fid=f, g=g.gid, at=None, args=[Argument(ArgumentType.Data, d if k == ArgumentType.Data else g.res[d]) for k, d in args])
                ids.append(t)
                out.append((g.client, TaskEcho(t, TaskEchoStatus.SubmitOK)))
                self.fn[f][2] = self.clock.t
        self.enqueue(ids)
        return out

    def graph_gone(self, g):
        self.g.pop(g.gid)
        self.dead_graphs.append(g.gid)
        for t in g.nodes:
            self.node_of.pop(t, None)

    def withdraw(self, g, out):
        """a graph fails or is cancelled: waiting nodes leave, running ones are cancelled at their worker; -> messages about it taken out of `out`"""
        self.graph_gone(g)
        rest = list(out)
        for t in g.nodes:
            if t in self.task:
                d = self.task[t]
                if d["at"]:
                    m = (d["at"], TaskCancel(t))
                    if m not in rest:
                        raise Bad("C13", f"graph {g.gid} ended but its running node {t} was not cancelled at {d['at']}: sent {out}")
                    rest.remove(m)
                    self.cancelled_nodes.add(t)
                else:
                    self.forget(t, TaskStatus.Canceled)
                    self.cancelled_nodes.add(t)
                    rest = [(to, m) for to, m in rest if not (isinstance(m, TaskResult) and m.task_id == t and m.status == TaskStatus.Canceled and to == g.client)]
        return rest

    def node_done(self, t, r, out):
        g = self.g[self.node_of[t]]
        if r.status == TaskStatus.Success:
            g.state[t], g.res[t] = "done", r.result
            self.expect("C12 C13", out, self.graph_next(g), f"node {t} of {g.gid} done")
            return
        rest = self.withdraw(g, out)
        self.expect("C13", rest, [(g.client, GraphTaskResult(g.gid, r.status, [r.result]))], f"node {t} of {g.gid} ended {r.status}")

    async def op_graph_cancel(self):
        gid = self.rng.choice(list(self.g)) if self.g and self.rng.random() < 0.8 else self.rng.choice(self.dead_graphs + [b"unknown"])
        TRACE.append(("graph cancel", gid))
        _, out = await self.do("C13", self.gm.on_graph_task_cancel(GraphTaskCancel(gid)))
        if gid in self.g:
            rest = self.withdraw(self.g[gid], out)
            self.expect("C13", rest, [], f"cancelling graph {gid}")
        else:
            self.expect("C13", out, [], f"cancelling unknown graph {gid}")
        await self.check_counts("C13")

    async def drain(self):
        """every accepted task gets to a worker and its result to its client"""
        self.trigger, self.bal_s = 0, 0
        for _ in range(4):
            await self.op_heartbeat()
        if not self.workers:
            return
        for _ in range(400):
            if self.pending:
                await self.op_graph_start()
            elif self.waiting() and self.room():
                await self.op_route()
            elif any(d["at"] for d in self.task.values()):
                await self.op_result()
            else:
                break

    OPS = [("submit", 6), ("route", 7), ("result", 5), ("cancel", 2), ("heartbeat", 3), ("disconnect", 1), ("balance", 1), ("tick", 2), ("function", 3), ("expire", 1)]
    GOPS = [("graph", 3), ("graph_start", 2), ("graph_cancel", 1), ("submit", 1), ("route", 9), ("result", 9), ("cancel", 1), ("heartbeat", 3), ("disconnect", 1), ("balance", 1), ("tick", 1), ("function", 1), ("expire", 1)]


async def history(rng, size, graphs, weights):
    TRACE.clear()
    s = Sim(rng, graphs)
    real = time.time
    time.time = lambda: s.clock.t
    try:
        ops = dict(Sim.GOPS if graphs else Sim.OPS)
        ops.update(weights)
        names, ws = list(ops), list(ops.values())
        for _ in range(size * 5):
            await getattr(s, "op_" + rng.choices(names, ws)[0])()
        await s.drain()
    finally:
        time.time = real


def make(prop, graphs=False, **weights):
    def run(rng, size):
        try:
            asyncio.run(history(rng, size, graphs if graphs is not None else rng.random() < 0.4, weights))
        except Bad as e:
            if prop in e.tags:
                return f"after {TRACE[-1]}: {e.text}"
        return None
    return run


RULE = "random histories of up to 200 handler calls and routine runs over the real managers, up to 4 workers, 3 clients, 4 functions"
