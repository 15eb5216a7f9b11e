"""The worker agent's real task and processor managers wired together, the processor process replaced by a stand-in, against a reference (bounded random histories)"""
import asyncio
import os

import scaled.worker.agent.processor_manager as pmod
from scaled.protocol.python.message import *
from scaled.worker.agent.task_manager import VanillaTaskManager

RULE = "random histories of up to 80 messages (tasks, cancels, balance requests, function messages, processor messages right and stale) against a reference queue and slot"
TRACE = []


class Bad(Exception):
    def __init__(self, tags, text):
        self.tags, self.text = set(tags.split()), text


class Sim:
    def __init__(self, rng):
        self.rng, self.log = rng, []
        self.queue, self.current, self.ready, self.past = [], None, False, []
        self.n = 0

    def build(self):
        sim = self

        class Connector:
            def __init__(self, *a, callback=None, **k):
                self.callback = callback if callback is not None else a[4]
                sim.internal = self

            async def send(self, m):
                sim.log.append(("processor", m))

            async def routine(self):
                pass

            def destroy(self):
                pass

        class Proc:
            count = 0

            def __init__(self, *a, **k):
                Proc.count += 1
                self.pid = 10 ** 9 + Proc.count
                sim.log.append(("spawn", self.pid))

            def start(self):
                sim.log.append(("start", self.pid))

        class Ext:
            async def send(self, m):
                sim.log.append(("scheduler", m))

        class HB:
            def set_processor_pid(self, pid):
                sim.log.append(("watch", pid))
        pmod.AsyncConnector, pmod.Processor = Connector, Proc
        pmod.setup_logger = lambda *a, **k: None
        self.pm = pmod.VanillaProcessorManager("builtin", 1, 1, 1, None)
        self.tm = VanillaTaskManager()
        ext = Ext()
        self.tm.register(connector=ext, processor_manager=self.pm)
        self.pm.register(heartbeat=HB(), task_manager=self.tm, connector_external=ext)
        self.pm.initialize()

    async def settle(self):
        for _ in range(12):
            await asyncio.sleep(0)
            if self.loop.done():
                e = self.loop.exception()
                raise Bad("C18 C19", f"the task loop ended: {e!r}")

    async def step(self, tags, co, expect, what):
        """run one message, then let the routine work; `expect` plus what the slot takes from the queue is what must have been sent"""
        self.log.clear()
        TRACE.append(what)
        try:
            r = await co if asyncio.iscoroutine(co) else co
            await self.settle()
        except Bad:
            raise
        except Exception as e:
            raise Bad(tags, f"{what} raised {e!r}")
        exp = list(expect)
        while self.ready and self.current is None and self.queue:
            self.current = self.queue.pop(0)
            exp.append(("processor", self.current))
        self.check(tags, exp, what)
        return r

    def check(self, tags, exp, what):
        got = list(self.log)
        if len(got) != len(exp) or any(g[0] != e[0] or (e[1] is not None and g[1] != e[1]) for g, e in zip(got, exp)):
            raise Bad(tags, f"{what}: did {got}, expected {exp}; queue {[t.task_id for t in self.queue]}, current {self.current and self.current.task_id}, ready {self.ready}")
        if self.tm.get_queued_size() != len(self.queue):
            raise Bad("C18", f"{what}: {self.tm.get_queued_size()} tasks reported queued, {len(self.queue)} are")
        cur = self.current.task_id if self.current else b""
        if self.pm.current_task() != cur or self.pm.initialized() != self.ready or self.pm.task_lock() != bool(self.current):
            raise Bad("C19", f"{what}: reports current {self.pm.current_task()!r} ready {self.pm.initialized()} busy {self.pm.task_lock()}; expected {cur!r} {self.ready} {bool(self.current)}")

    def result(self, t, st, payload=b""):
        return TaskResult(t, st, 0, payload)

    async def go(self, size):
        async def forever():
            while True:
                await self.tm.routine()
        kills = []
        old = os.kill
        os.kill = lambda pid, sig: self.log.append(("kill", pid))
        try:
            self.build()
            pid = [x for k, x in self.log if k == "spawn"][-1:]
            if [k for k, _ in self.log] != ["spawn", "start", "watch"]:
                raise Bad("C19", f"initialize did {self.log}")
            self.pid = pid[0]
            self.loop = asyncio.ensure_future(forever())
            await self.settle()
            for _ in range(size * 2):
                await self.one()
        finally:
            os.kill = old
            if hasattr(self, "loop"):
                self.loop.cancel()

    async def one(self):
        rng = self.rng
        op = rng.choice(["task"] * 4 + ["cancel"] * 3 + ["balance", "hello", "hello", "result", "result", "result", "fresp", "freq", "del"])
        cb = self.internal.callback
        anyid = lambda: rng.choice([t.task_id for t in self.queue] + ([self.current.task_id] * 2 if self.current else []) + self.past[-3:] + [b"zz"])
        if op == "task":
            self.n += 1
            t = Task(b"t%d" % self.n, rng.choice([b"f", b"g"]), [])
            if rng.random() < 0.1:
                self.n += 1
                u = Task(b"t%d" % self.n, b"f", [])
                self.queue.append(u)
                await self.tm.on_task_new(u)
            self.queue.append(t)
            await self.step("C18 C19", self.tm.on_task_new(t), [], f"task {t.task_id}")
        elif op == "cancel":
            t = anyid()
            q = [x for x in self.queue if x.task_id == t]
            if q:
                self.queue.remove(q[0])
                self.past.append(t)
                exp = [("scheduler", self.result(t, TaskStatus.Canceled))]
            elif self.current and self.current.task_id == t:
                self.past.append(t)
                self.current, self.ready = None, False
                exp = [("kill", self.pid), ("spawn", None), ("start", None), ("watch", None), ("scheduler", self.result(t, TaskStatus.Canceled))]
            else:
                exp = [("scheduler", self.result(t, TaskStatus.NotFound))]
            await self.step("C18 C19 C10", self.tm.on_cancel_task(TaskCancel(t)), exp, f"cancel {t}")
            for k, x in self.log:
                if k == "spawn":
                    self.pid = x
        elif op == "balance":
            n = rng.choice([0, 1, 2, 5])
            q = list(self.queue)
            self.log.clear()
            TRACE.append(("balance", n))
            try:
                r = self.tm.on_balance_request(BalanceRequest(n))
            except Exception as e:
                raise Bad("C18", f"balance request {n} raised {e!r}")
            if len(r) != min(n, len(q)) or len(set(r)) != len(r) or not set(r) <= {t.task_id for t in q}:
                raise Bad("C18", f"asked for {n} of {[t.task_id for t in q]}, gave back {r}")
            self.queue = [t for t in q if t.task_id not in r]
            self.past += r
            await self.step("C18", None, [], "after balance")
        elif op == "hello":
            exp = []
            if not self.ready:
                self.ready = True
                if self.current:
                    exp = [("processor", self.current)]
            await self.step("C19", cb(TaskResult(b"", TaskStatus.Success, 0, b"")), exp, "processor says it is ready")
        elif op == "result":
            t = anyid()
            r = TaskResult(t, rng.choice([TaskStatus.Success, TaskStatus.Failed]), 1.5, b"r%d" % self.n)
            exp = []
            if self.ready and self.current and self.current.task_id == t:
                self.current = None
                self.past.append(t)
                exp = [("scheduler", r)]
            await self.step("C19", cb(r), exp, f"processor sends result of {t}")
        elif op == "fresp":
            f, st = rng.choice([b"f", b"g"]), rng.choice([FunctionResponseType.OK, FunctionResponseType.OK, FunctionResponseType.NotExists])
            r = FunctionResponse(st, f, b"name", b"code")
            ok = self.ready and self.current and self.current.function_id == f and st == FunctionResponseType.OK
            await self.step("C19", self.pm.on_function_response(r), [("processor", r)] if ok else [], f"function {f} arrives {st}")
        elif op == "freq":
            f = rng.choice([b"f", b"g"])
            r = FunctionRequest(FunctionRequestType.Request, f, b"", b"")
            ok = self.ready and self.current and self.current.function_id == f
            await self.step("C19", cb(r), [("scheduler", r)] if ok else [], f"processor asks for {f}")
        else:
            r = FunctionRequest(FunctionRequestType.Delete, b"f", b"", b"")
            await self.step("C19", self.pm.on_function_request(r), [("processor", r)], "delete function")


def make(prop):
    def run(rng, size):
        TRACE.clear()
        try:
            asyncio.run(Sim(rng).go(size))
        except Bad as b:
            return b.text if prop in b.tags else None
    return run
