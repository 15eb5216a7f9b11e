"""C18 the worker agent's task manager; C19 its processor manager."""
from vc.core import *
from vc.interp import World, Interp, Frame, CARD, Opaque
from vc.spec import *
from specs.maps import S_, T_, F_, EMPTY, SETU
from specs.queues import IQ, iq_eqs
from specs.sched import Out, rec, enum, u, fld, taken, plus
from specs.comp import Comp
from vc.ev import *

A = "scaled.worker.agent."
TM, PM = "VanillaTaskManager", "VanillaProcessorManager"


def ext_send(it, obj, args, kw):
    def go():
        it.emit({"ext": "scheduler", "int": "processor"}[obj.root], None, args[0] if args else kw["message"])
        it.ctx.ex.assumed.add("connector sends never wait (the high-water marks are 0, checked under C23) and reach the peer")
    return CoroV(go)


# ------------------------------------------------------------------------------------------------ C18
def tm_world(prog):
    w = World(prog)
    w.refs.add("Task")
    w.abstracts["IndexedQueue"] = IQ
    conn = prog.cls("scaled.io.async_connector", "AsyncConnector")
    w.root_classes = {"tm": prog.cls(A + "task_manager", TM), "pm": prog.cls(A + "processor_manager", PM), "ext": conn}
    w.roots[(TM, "_processor_manager")] = (w.root_classes["pm"], "pm")
    w.roots[(TM, "_connector_external")] = (conn, "ext")
    w.contracts["AsyncConnector.send"] = ext_send

    def cancel(it, obj, args, kw):
        """contract of VanillaProcessorManager.on_cancel_task (C19): True and the task is gone from the processor, or False and nothing happens"""
        def go():
            it.emit("pm", "cancel", args[0])
            b = it.ctx.hooks.setdefault("cancelled", it.ctx.fresh("cancelled", B))
            return SBool(b)
        return CoroV(go)
    w.contracts[PM + ".on_cancel_task"] = cancel
    w.loop_pool.append(tm_pool)
    return w


class TmState:
    def __init__(self, it):
        o = Obj(it.w.root_classes["tm"], "tm")
        d = list(it.read(it.getattr(o, "_queued_task_id_to_task")))
        self.tasks, self.ref = d[0], d[1]
        self.q = IQ.ms(it, it.getattr(o, "_queued_task_ids"))


def tm_pool(it, loop, entry, cur, locs, D, i):
    """candidates: what the collected ids have to do with what left the queue"""
    out = []
    qk = [k for k, ty in it.ctx.ktype.items() if isinstance(ty, TAbs) and ty.cls == "IndexedQueue" and k in entry and k in cur]
    for k in qk:
        a, b = MS(IQ.fields, list(entry[k])), MS(IQ.fields, list(cur[k]))
        out.append(("queue shrinks", forall(U, lambda x: z3.Implies(S_(b.elems, x), S_(a.elems, x)), lambda x: [S_(b.elems, x)])))
        out.append(("queue order kept", b.stamp == a.stamp))
        if i is not None:
            out.append(("queue loses one per round", CARD(b.elems) + i == CARD(a.elems)))
        for key, ty in it.ctx.ktype.items():
            if isinstance(ty, TDict) and key in entry and key in cur and not all(p.eq(q) for p, q in zip(entry[key], cur[key])):
                out.append((f"{key} follows the queue", cur[key][0] == b.elems))
                out.append((f"{key} keeps its values", conj([forall(U, lambda x: z3.Implies(S_(cur[key][0], x), S_(p, x) == S_(q, x)), lambda x: [S_(q, x)]) for p, q in zip(entry[key][1:], cur[key][1:])])))
            if isinstance(ty, TList) and key in cur and ty.has_mem and len(ty.e.sorts()) == 1 and ty.e.sorts()[0] == U:
                m = cur[key][-1]
                m0 = entry[key][-1] if key in entry else None
                n0 = entry[key][0] if key in entry else z3.IntVal(0)
                ind = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
                out.append((f"{key} holds exactly what left the queue", forall(U, lambda x: S_(m, x) == (S_(m0, x) if m0 is not None else 0) + ind(S_(a.elems, x)) - ind(S_(b.elems, x)), lambda x: [S_(m, x)])))
                out.append((f"{key} is as long as what left the queue", cur[key][0] - n0 == CARD(a.elems) - CARD(b.elems)))
                for nm, t in loop.info.locals.items():
                    v0, v1 = loop.entry_locals.get(nm), locs.get(nm)
                    if isinstance(t, TInt) and isinstance(v0, (SInt, int)) and isinstance(v1, (SInt, int)):
                        out.append((f"{key} and {nm} move in step", cur[key][0] - n0 == it.num(v0) - it.num(v1)))
                        out.append((f"{key} and {nm} move in step up", cur[key][0] - n0 == it.num(v1) - it.num(v0)))
    return out


def tm_inv(it, s):
    tid = it.ref_field_arr("Task", "task_id")
    return [("every queued id has its message, and only those", s.tasks == s.q.elems),
            ("the stored message is the task's own", forall(U, lambda t: z3.Implies(S_(s.tasks, t), z3.And(S_(s.ref, t) != NONE, S_(tid, S_(s.ref, t)) == t)), lambda t: [S_(s.ref, t)]))]


TM_PARTS = {"tasks": lambda it, s, e: [("messages of the queued tasks", z3.And(s.tasks == e.tasks, forall(U, lambda t: z3.Implies(S_(e.tasks, t), S_(s.ref, t) == S_(e.ref, t)))))],
            "q": lambda it, s, e: [("queue: " + n, f) for n, f in iq_eqs(it, s.q, e.q)]}
TMC = Comp(tm_world, {TM: (A + "task_manager", "tm")}, TmState, TM_PARTS, tm_inv, ("scheduler", "pm"))


def keep_msgs(it, s1, s0, but=None):
    return ("the other messages stay", forall(U, lambda x: z3.Implies(z3.And(S_(s0.tasks, x), S_(s1.tasks, x), x != but if but is not None else True), S_(s1.ref, x) == S_(s0.ref, x))))


def order(it, s1, s0):
    return ("queue: the others keep their order", forall([U, U], lambda x, y: z3.Implies(z3.And(S_(s1.q.elems, x), S_(s1.q.elems, y), S_(s0.q.elems, x), S_(s0.q.elems, y)), (S_(s1.q.stamp, x) < S_(s1.q.stamp, y)) == (S_(s0.q.stamp, x) < S_(s0.q.stamp, y)))))


def tm_new(it, s0, task):
    t = fld(it, task, "task_id")

    def post(it, s1):
        return [("queue: exactly this task is added", s1.q.elems == plus(s0.q.elems, t)), ("its message is kept", S_(s1.ref, t) == u(it, task)), keep_msgs(it, s1, s0, t), order(it, s1, s0),
                ("queue: it waits behind the others", forall(U, lambda x: z3.Implies(S_(s0.q.elems, x), S_(s1.q.stamp, x) < S_(s1.q.stamp, t))))]
    return [Out("queued", True, post=post, changes=["tasks", "q"], result=ANYRESULT)]


def result(it, t, status):
    return rec("TaskResult", task_id=SU(t, BYTES), status=enum("TaskStatus", it, status), duration=0, result=b"")


def tm_cancel(it, s0, msg):
    t = fld(it, msg, "task_id")
    c = it.ctx.hooks.setdefault("cancelled", it.ctx.fresh("cancelled", B))
    ask = ("pm", "cancel", SU(t, BYTES))
    return [Out("queued here", S_(s0.tasks, t), post=lambda it, s1: [("queue: exactly this task leaves", s1.q.elems == taken(s0.q.elems, t)), keep_msgs(it, s1, s0), order(it, s1, s0)],
                changes=["tasks", "q"], events=[("scheduler", None, result(it, t, "Canceled"))], result=ANYRESULT),
            Out("running here", c, events=[ask, ("scheduler", None, result(it, t, "Canceled"))], result=ANYRESULT),
            Out("unknown here", True, events=[ask, ("scheduler", None, result(it, t, "NotFound"))], result=ANYRESULT)]


def tm_balance(it, s0, msg):
    n = it.num(it.getattr(msg, "number_of_tasks"))
    k = CARD(s0.q.elems)
    m = z3.If(n < k, n, k)

    def check(it, res, s1):
        if not isinstance(res, (Box, Snap)):
            if isinstance(res, (list, tuple)) and not res:
                return [("given back: as many as asked for, or all that are queued", m == 0), ("queue unchanged", s1.q.elems == s0.q.elems)]
            return [("gives back a list", False)]
        ty, ls = it.leaves_of(res)
        if isinstance(ty, TUnk):
            return [("given back: as many as asked for, or all that are queued", m == 0), ("queue unchanged", s1.q.elems == s0.q.elems)]
        if not (isinstance(ty, TList) and ty.has_mem):
            return [("gives back a list of ids", False)]
        mem = ls[-1]
        return [("given back: as many as asked for, or all that are queued", ls[0] == m),
                ("given back: exactly the tasks that left the queue, each once", forall(U, lambda x: S_(mem, x) == z3.If(z3.And(S_(s0.q.elems, x), z3.Not(S_(s1.q.elems, x))), z3.IntVal(1), z3.IntVal(0))))]
    post = lambda it, s1: [("queue: nothing is added", forall(U, lambda x: z3.Implies(S_(s1.q.elems, x), S_(s0.q.elems, x)))), keep_msgs(it, s1, s0), order(it, s1, s0)]
    return [Out("given back", True, post=post, changes=["tasks", "q"], check=check)]


def tm_routine(prog):
    nm = f"TaskManager.routine"

    def body(ctx):
        w, it, me = TMC.start(ctx, prog, TM)
        h = ctx.hooks
        h["base"], h["ready"] = TMC.arbitrary(it), False
        ctx.ex.cases_all |= {nm + "/waits for the processor", nm + "/waits for a task", nm + "/handed over"}

        def held(what):
            ctx.ex.cov.add(f"{nm}/{what}")
            for n, f in TMC.same(it, TmState(it), h["base"]):
                ctx.prove(f"{nm} [{what}]: {n} unchanged", f)
            match_events(it, f"{nm} [{what}]", TMC.events(it), [])

        def wait(it, obj, args, kw):
            def go():
                held("waits for the processor")
                h["base"], h["ready"] = TMC.later(it, ("tm",)), True
            return CoroV(go)

        def waits(it, why):
            held("waits for a task")
            raise PathEnd()

        def on_task(it, obj, args, kw):
            def go():
                ctx.prove(f"{nm} [handed over]: precondition of the processor manager's on_task: the processor is idle and ready", bool(h["ready"]))
                h["ready"] = False
                ctx.ex.assumed.add("an idle and ready processor stays so until it is given a task (C19: every other entry leaves it so), and only the task manager's routine gives it one")
                it.emit("pm", "run", args[0])
                return True
            return CoroV(go)
        w.contracts[PM + ".wait_until_can_accept_task"] = wait
        w.contracts[PM + ".on_task"] = on_task
        w.on_suspend = waits
        try:
            it.run_method(me, "routine", [])
        except PyRaise as e:
            ctx.fail(f"{nm}: raised {e.cls} {e.where}", str(e.eargs))
            return
        ctx.ex.cov.add(nm + "/handed over")
        s0, s1 = h["base"], TmState(it)
        n = f"{nm} [handed over]"
        head = ctx.fresh("head", U)
        ctx.assume(z3.Implies(z3.Exists([z3.Const("x!h", U)], S_(s0.q.elems, z3.Const("x!h", U))),
                              z3.And(S_(s0.q.elems, head), forall(U, lambda x: z3.Implies(S_(s0.q.elems, x), S_(s0.q.stamp, head) <= S_(s0.q.stamp, x)), lambda x: [S_(s0.q.elems, x)]))))
        obs = [("the first task leaves the queue", s1.q.elems == taken(s0.q.elems, head)), keep_msgs(it, s1, s0), order(it, s1, s0)] + [("invariant: " + a, f) for a, f in tm_inv(it, s1)]
        ctx.prove_all([(f"{n}: {a}", f) for a, f in obs])
        match_events(it, n, TMC.events(it), [("pm", "run", SU(S_(s0.ref, head), it.class_type(it.find_class("Task"))))])
    return Unit(nm, body, [f"{A}task_manager:{TM}.routine", f"{A}task_manager:{TM}.__processing_task"])


def tm_units(prog):
    out = [TMC.entry(prog, "TaskManager.on_task_new", TM, "on_task_new", [("task", "Task")], tm_new, pre=lambda it, s, t: [z3.Not(S_(s.tasks, fld(it, t, "task_id"))), u(it, t) != NONE]),
           TMC.entry(prog, "TaskManager.on_cancel_task", TM, "on_cancel_task", [("task_cancel", "TaskCancel")], tm_cancel),
           TMC.entry(prog, "TaskManager.on_balance_request", TM, "on_balance_request", [("balance_request", "BalanceRequest")], tm_balance, pre=lambda it, s, m: [it.num(it.getattr(m, "number_of_tasks")) >= 0]),
           TMC.entry(prog, "TaskManager.on_task_result", TM, "on_task_result", [("result", "TaskResult")], lambda it, s, r: [Out("forwarded", True, events=[("scheduler", None, r)], result=ANYRESULT)]),
           TMC.entry(prog, "TaskManager.get_queued_size", TM, "get_queued_size", [], lambda it, s: [Out("number of queued tasks", True, result=SInt(CARD(s.q.elems)))]),
           tm_routine(prog)]
    return out


def units(prog):
    return tm_units(prog)


# ------------------------------------------------------------------------------------------------ C19
FLAG = [("on", TRaw(B))]
EVENT = AbsSpec("Event", FLAG, [
    Op("is_set", [], lambda it, m: [Case(result=lambda it: SBool(m.on))]),
    Op("set", [], lambda it, m: [Case(upd={"on": z3.BoolVal(True)}, result=None)]),
    Op("clear", [], lambda it, m: [Case(upd={"on": z3.BoolVal(False)}, result=None)]),
    Op("wait", [], lambda it, m: [Case(m.on, result=True), Case(suspend=True)], is_async=True),
], init=lambda it: [z3.BoolVal(False)])
TAKE = lambda it, m: [Case(z3.Not(m.on), upd={"on": z3.BoolVal(True)}, result=True), Case(suspend=True)]
FREE = lambda it, m: [Case(m.on, upd={"on": z3.BoolVal(False)}, result=None), Case(raises="RuntimeError")]
LOCK = AbsSpec("Lock", FLAG, [
    Op("locked", [], lambda it, m: [Case(result=lambda it: SBool(m.on))]),
    Op("acquire", [], TAKE, is_async=True),
    Op("release", [], FREE),
    Op("__aenter__", [], TAKE, is_async=True),
    Op("__aexit__", [("a", None), ("b", None), ("c", None)], lambda it, m, a, b, c: FREE(it, m), is_async=True),
], init=lambda it: [z3.BoolVal(False)])


def native(name, fn):
    return lambda it, o: BuiltinF(name, lambda a, k: fn(it, o, a, k))


def pm_world(prog):
    w = World(prog)
    w.refs |= {"Task", "Processor"}
    w.abstracts["Event"], w.abstracts["Lock"] = EVENT, LOCK
    w.libs["asyncio.Event"] = lambda it, a, k: EVENT.construct(it, [], {})
    w.libs["asyncio.Lock"] = lambda it, a, k: LOCK.construct(it, [], {})
    for n in ("zmq.asyncio.Context", "tempfile.gettempdir", "os.path.join", "uuid.uuid4", "os.getpid", "os.remove"):
        w.libs[n] = lambda it, a, k: Opaque("library")
    w.libs["os.kill"] = lambda it, a, k: it.emit("os", "kill", a[0])
    conn = prog.cls("scaled.io.async_connector", "AsyncConnector")
    w.root_classes = {"tm": prog.cls(A + "task_manager", TM), "hb": prog.cls(A + "heartbeat_manager", "VanillaHeartbeatManager"), "ext": conn, "int": conn}

    def connector(it, o, args, kw):
        it.ctx.hooks["callback"] = kw["callback"] if "callback" in kw else args[4]
        return Obj(conn, "int")
    w.contracts["AsyncConnector()"] = connector
    w.contracts["ZMQConfig()"] = lambda it, o, a, k: it.fresh_value("address", it.class_type(w.prog.cls("scaled.utility.zmq_config", "ZMQConfig")))
    w.contracts["AsyncConnector.send"] = ext_send
    w.contracts["setup_logger"] = lambda it, o, a, k: None
    w.structs.add("_ProcessorHolder")

    def spawn(it, o, args, kw):
        p = it.fresh_value("new_processor", TRef("Processor"))
        it.ctx.assume(it.to_u(p) != NONE)
        it.ctx.hooks["spawned"] = it.to_u(p)
        it.emit("os", "spawn", p)
        return p
    w.contracts["Processor()"] = spawn
    w.contracts["Processor.start"] = lambda it, o, a, k: it.emit("os", "start", o)
    PID = z3.Function("pid_of", U, U)
    w.attrs[("Processor", "start")] = native("start", lambda it, o, a, k: it.emit("os", "start", o))
    w.attrs[("Processor", "pid")] = lambda it, o: SU(PID(it.to_u(o)), TU("pid"))
    w.contracts["VanillaHeartbeatManager.set_processor_pid"] = lambda it, o, a, k: it.emit("os", "watch", a[0] if a else k["process_id"])

    def done(it, obj, args, kw):
        return CoroV(lambda: it.emit("tm", "result", args[0]))
    w.contracts[TM + ".on_task_result"] = done
    return w


class PmState:
    def __init__(self, it):
        h = it.getattr(it.ctx.hooks["pm"], "_processor_holder")
        g = lambda f: it.getattr(h, f)
        self.task, self.proc = it.to_u(g("task")), it.to_u(g("processor"))
        self.ready = EVENT.ms(it, g("initialized")).on
        self.busy = LOCK.ms(it, g("task_wait_lock")).on


def pm_build(it, w):
    """the object as its constructor and register() leave it; the receive callback is the one given to the internal connector"""
    ci = it.reg(w.prog.cls(A + "processor_manager", PM))
    names = ["event_loop", "garbage_collect_interval_seconds", "trim_memory_threshold_bytes", "function_retention_seconds", "serializer"]
    me = it.construct(ci, [], {n: it.fresh_value(n, TInt() if n.endswith(("seconds", "bytes")) else ANY) for n in names})
    o = lambda r: Obj(w.root_classes[r], r)
    it.run_method(me, "register", [], {"heartbeat": o("hb"), "task_manager": o("tm"), "connector_external": o("ext")})
    it.ctx.hooks["pm"] = me
    return me


def pm_havoc(it, w, _):
    me = pm_build(it, w)
    h = it.getattr(me, "_processor_holder")
    it.setattr(h, "task", it.fresh_value("task", TOpt(TRef("Task"))))
    it.setattr(h, "processor", it.fresh_value("processor", TOpt(TRef("Processor"))))
    it.write(it.getattr(h, "initialized"), [it.ctx.fresh("ready", B)])
    it.write(it.getattr(h, "task_wait_lock"), [it.ctx.fresh("busy", B)])
    return me


PM_PARTS = {"task": lambda it, s, e: [("current task", s.task == e.task)], "proc": lambda it, s, e: [("processor process", s.proc == e.proc)],
            "ready": lambda it, s, e: [("readiness", s.ready == e.ready)], "busy": lambda it, s, e: [("the task slot", s.busy == e.busy)]}


def pm_inv(it, s):
    return [("the slot is taken exactly while a task is current", s.busy == (s.task != NONE)), ("there is a processor process", s.proc != NONE)]


PMC = Comp(pm_world, {PM: (A + "processor_manager", "pm")}, PmState, PM_PARTS, pm_inv, ("scheduler", "processor", "os", "tm"))
_start = PMC.start


def pm_start(ctx, prog, cls):
    w = pm_world(prog)
    w.root_classes["pm"] = prog.cls(A + "processor_manager", PM)
    it = Interp(ctx, w)
    for ci in w.root_classes.values():
        it.reg(ci)
    it.frames.append(Frame(FuncV(None, A + "processor_manager")))
    return w, it, None


PMC.start = pm_start
TASKT = lambda it: it.class_type(it.find_class("Task"))


def tfield(it, s, f):
    return S_(it.ref_field_arr("Task", f), s.task)


def quiet(name, guard, result=ANYRESULT):
    return Out(name, guard, result=result)


def pm_on_task(it, s0, task):
    return [Out("delivered", True, post=lambda it, s1: [("the task becomes current", s1.task == u(it, task)), ("the slot is taken", s1.busy)], changes=["task", "busy"],
                events=[("processor", None, task)], result=True)]


def pm_wait(it, s0):
    return [Out("busy or not ready: waits", z3.Or(s0.busy, z3.Not(s0.ready)), waits=True), Out("idle and ready", True, result=ANYRESULT)]


def pm_result(it, s0, res):
    t = fld(it, res, "task_id")
    empty = it.to_u(b"")
    hello = z3.And(z3.Not(s0.ready), t == empty)
    freed = lambda it, s1: [("no task is current any more", s1.task == NONE), ("the slot is free", z3.Not(s1.busy))]
    up = lambda it, s1: [("the processor counts as ready", s1.ready)]
    return [Out("processor starts with a task waiting for it", z3.And(hello, s0.task != NONE), post=up, changes=["ready"], events=[("processor", None, SU(s0.task, TASKT(it)))], result=ANYRESULT),
            Out("processor starts idle", hello, post=up, changes=["ready"], result=ANYRESULT),
            Out("not ready yet", z3.Not(s0.ready), result=ANYRESULT),
            Out("nothing running", s0.task == NONE, result=ANYRESULT),
            Out("stale", tfield(it, s0, "task_id") != t, result=ANYRESULT),
            Out("the current task's result", True, post=freed, changes=["task", "busy"], events=[("tm", "result", res)], result=ANYRESULT)]


def replaced(it, s0, kill):
    P = lambda it: SU(it.ctx.hooks["spawned"], TRef("Processor"))
    pid = lambda z: SU(z3.Function("pid_of", U, U)(z), TU("pid"))

    def ev(it, s1):
        n = it.ctx.hooks["spawned"]
        return ([("os", "kill", pid(s0.proc))] if kill else []) + [("os", "spawn", P(it)), ("os", "start", P(it)), ("os", "watch", pid(n))]
    return ev


def pm_cancel(it, s0, tid):
    t = u(it, tid)

    def freed(it, s1):
        return [("no task is current any more", s1.task == NONE), ("the slot is free", z3.Not(s1.busy)), ("the new process is not ready yet", z3.Not(s1.ready)),
                ("a new process takes over", s1.proc == it.ctx.hooks["spawned"] if "spawned" in it.ctx.hooks else z3.BoolVal(False))]
    return [Out("not ready", z3.Not(s0.ready), result=False), Out("nothing running", s0.task == NONE, result=False), Out("another task is running", tfield(it, s0, "task_id") != t, result=False),
            Out("the running task", True, post=freed, changes=["task", "busy", "ready", "proc"], events=replaced(it, s0, True), result=True)]


def pm_fresp(it, s0, resp):
    f = fld(it, resp, "function_id")
    missing = fld(it, resp, "status") == it.to_u(enum("FunctionResponseType", it, "NotExists"))
    return [Out("not ready", z3.Not(s0.ready), result=ANYRESULT), Out("nothing running", s0.task == NONE, result=ANYRESULT), Out("for another function", tfield(it, s0, "function_id") != f, result=ANYRESULT),
            Out("the function does not exist", missing, result=ANYRESULT), Out("the current task's function", True, events=[("processor", None, resp)], result=ANYRESULT)]


def pm_freq_int(it, s0, req):
    f = fld(it, req, "function_id")
    return [Out("not ready", z3.Not(s0.ready), result=ANYRESULT), Out("nothing running", s0.task == NONE, result=ANYRESULT), Out("for another function", tfield(it, s0, "function_id") != f, result=ANYRESULT),
            Out("the current task's function", True, events=[("scheduler", None, req)], result=ANYRESULT)]


def pm_freq(it, s0, req):
    dele = fld(it, req, "type") == it.to_u(enum("FunctionRequestType", it, "Delete"))
    return [Out("deletion", dele, events=[("processor", None, rec("FunctionRequest", type=enum("FunctionRequestType", it, "Delete"), function_id=SU(fld(it, req, "function_id"), BYTES), function_name=b"", content=b""))], result=ANYRESULT),
            Out("anything else is refused", True, raises="Exception")]


def pm_init(prog):
    nm = "ProcessorManager()"

    def body(ctx):
        w, it, _ = pm_start(ctx, prog, PM)
        try:
            me = pm_build(it, w)
            s0 = PmState(it)
            ctx.prove(f"{nm}: nothing is current at first", s0.task == NONE)
            ctx.prove(f"{nm}: not ready at first", z3.Not(s0.ready))
            it.run_method(me, "initialize", [])
        except PyRaise as e:
            ctx.fail(f"{nm}: raised {e.cls} {e.where}", str(e.eargs))
            return
        s1 = PmState(it)
        for n, f in pm_inv(it, s1):
            ctx.prove(f"{nm}: invariant: {n}", f)
        for n, f in PMC.same(it, s1, s0, ("proc",)):
            ctx.prove(f"{nm}: initialize leaves {n} unchanged", f)
        match_events(it, nm, PMC.events(it), replaced(it, s0, False)(it, s1))
    return Unit(nm, body, [f"{A}processor_manager:{PM}.__init__", f"{A}processor_manager:{PM}.register", f"{A}processor_manager:{PM}.initialize"])


def pm_units(prog):
    def E(name, method, params, cases, pre=None, functions=()):
        call = None
        if method is None:
            def call(it, obj, args):
                return it.await_(it.call(it.ctx.hooks["callback"], args, {}))
        return PMC.entry(prog, "ProcessorManager." + name, PM, method or "<callback of the internal connector>", params, cases, pre=pre, functions=functions, before=pm_havoc, call=call)
    return [pm_init(prog),
            E("on_task", "on_task", [("task", "Task")], pm_on_task, pre=lambda it, s, t: [z3.Not(s.busy), s.ready, u(it, t) != NONE]),
            E("wait_until_can_accept_task", "wait_until_can_accept_task", [], pm_wait),
            E("on_cancel_task", "on_cancel_task", [("task_id", BYTES)], pm_cancel),
            E("on_function_response", "on_function_response", [("response", "FunctionResponse")], pm_fresp),
            E("on_function_request", "on_function_request", [("request", "FunctionRequest")], pm_freq),
            E("result from the processor", None, [("result", "TaskResult")], pm_result),
            E("function request from the processor", None, [("request", "FunctionRequest")], pm_freq_int, pre=lambda it, s, r: [fld(it, r, "type") == it.to_u(enum("FunctionRequestType", it, "Request"))]),
            E("initialized", "initialized", [], lambda it, s: [Out("readiness", True, result=SBool(s.ready))]),
            E("current_task", "current_task", [], lambda it, s: [Out("none", s.task == NONE, result=b""), Out("its id", True, result=SU(tfield(it, s, "task_id"), BYTES))]),
            E("task_lock", "task_lock", [], lambda it, s: [Out("whether a task is current", True, result=SBool(s.task != NONE))]),
            ]


def units(prog):
    return tm_units(prog) + pm_units(prog)
