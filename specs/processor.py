"""C20: the processor answers every task once."""
from vc.core import *
from vc.interp import World, Interp, Frame, Opaque, ExcV, StarArg
from vc.spec import *
from specs.maps import S_, T_, F_, SETU
from specs.sched import Out, rec, enum, u, fld
from specs.comp import Comp
from specs.agent import native
from vc.ev import *

MOD, CLS = "scaled.worker.agent.processor.processor", "Processor"
FN = lambda n, *s: z3.Function(n, *s)
DESERA, SERR, DESERF, PICKLED, APPLY = FN("argument_from", U, U), FN("result_bytes", U, U), FN("function_from", U, U), FN("pickled", U, U), FN("value_of_call", U, U)


def boom(it, where, z):
    """something outside goes wrong: any exception, or SystemExit"""
    it.ctx.ex.assumed.add("user code fails with any Exception or SystemExit (KeyboardInterrupt asks the processor to stop)")
    e = ExcV("?" if it.ctx.decide(FN("fails_softly_" + where, U, B)(z)) else "SystemExit", ())
    e.ghost = EXC(where, z)
    raise PyRaise(e.cls, (), value=e, where=where)


def EXC(where, z):
    return FN("exception_" + where, U, U)(z)


def may_fail(it, where, z, ok):
    if not it.ctx.decide(FN("fails_" + where, U, B)(z)):
        return ok
    boom(it, where, z)


def pr_world(prog):
    w = World(prog)
    w.refs.add("Task")
    conn, cache, ser = prog.cls("scaled.io.sync_connector", "SyncConnector"), prog.cls("scaled.worker.agent.processor.cache_cleaner", "CacheCleaner"), prog.cls("scaled.protocol.python.serializer.mixins", "Serializer")
    w.root_classes = {"conn": conn, "cache": cache, "ser": ser}
    for n in ("zmq.Context", "tblib.pickling_support.install", "multiprocessing.Process.__init__", "threading.Event", "multiprocessing.get_context"):
        w.libs[n] = lambda it, a, k: Opaque("library")

    def connector(it, o, args, kw):
        names = ["stop_event", "context", "socket_type", "bind_or_connect", "address", "callback", "exit_callback", "daemonic"]
        it.ctx.hooks["callback"] = {**dict(zip(names, args)), **kw}["callback"]
        return Obj(conn, "conn")
    w.contracts["SyncConnector()"] = connector
    w.contracts["CacheCleaner()"] = lambda it, o, a, k: Obj(cache, "cache")
    w.attrs[("CacheCleaner", "start")] = native("start", lambda it, o, a, k: it.emit("cache", "start", None))
    send = lambda it, o, a, k: it.emit("agent", None, a[0] if a else k["message"])
    w.contracts["SyncConnector.send_immediately"] = send

    def queued(it, o, a, k):
        # the queue is emptied between polls by the same thread: in order with other queued messages only
        send(it, o, a, k)
    w.contracts["SyncConnector.send"] = queued

    def runs(it, o, a, k):
        it.emit("conn", "run", None)
        k = it.ctx.choose(2)
        if k == 1:
            raise PyRaise("KeyboardInterrupt", ())
    w.contracts["SyncConnector.run"] = runs

    def get(it, o, a, k):
        f = it.to_u(a[0] if a else k["function_id"])
        h = it.ctx.hooks
        n = h["gets"] = h.get("gets", 0) + 1
        # the clean-up thread may drop functions between any two accesses
        b = FN(f"cached_at_access_{n}", U, B)(f)
        if it.ctx.decide(b):
            return SU(S_(it.ctx.hooks["fn"], f), TU("function"))
        return None
    w.contracts["CacheCleaner.get_function"] = get
    w.contracts["CacheCleaner.add_function"] = lambda it, o, a, k: it.emit("cache", SU(u(it, a[0]), BYTES), a[1])
    w.contracts["CacheCleaner.del_function"] = lambda it, o, a, k: it.emit("cache", "delete", a[0])

    def deser_arg(it, o, a, k):
        z = it.to_u(a[0] if a else k["payload"])
        return may_fail(it, "deserialize_argument", z, SU(DESERA(z), ANY))
    w.contracts["Serializer.deserialize_argument"] = deser_arg
    w.contracts["Serializer.deserialize_function"] = lambda it, o, a, k: may_fail(it, "deserialize_function", it.to_u(a[0]), SU(DESERF(it.to_u(a[0])), TU("function")))
    w.contracts["Serializer.serialize_result"] = lambda it, o, a, k: may_fail(it, "serialize_result", it.to_u(a[0]), SU(SERR(it.to_u(a[0])), BYTES))

    def pickle(it, a, k):
        e = a[0]
        g = getattr(e, "ghost", None)
        if g is None:
            return SU(it.ctx.fresh("pickled", U), BYTES)
        if it.ctx.decide(FN("pickles", U, B)(g)):
            return SU(PICKLED(g), BYTES)
        raise PyRaise("?", (), value=ExcV("?", ()), where="pickle.dumps")
    w.libs["pickle.dumps"] = pickle
    w.libs["traceback.format_exception_only"] = lambda it, a, k: it.fresh_value("lines", TList(TU("str")))

    def called(it, f, a, k):
        it.emit("call", f, tuple(a))
        t = it.ctx.hooks.get("task")
        # ghost: the call of this task's function on its arguments
        return may_fail(it, "call", t, SU(APPLY(t), TOpt(ANY)))
    w.opaque_call, w.opaque_star = called, True
    w.loop_pool.append(pool)
    for n in ("time.monotonic", "time.time", "time.perf_counter"):
        w.libs[n] = lambda it, a, k: SReal(it.ctx.fresh("clock", z3.RealSort()))
    return w


def pool(it, loop, entry, cur, locs, D, i):
    """candidates: the arguments gone through were fine, and stand in the list in their places"""
    t = it.ctx.hooks.get("task")
    if t is None or i is None:
        return []
    n, data = data_of(it, t)
    out = [("arguments so far were fine", forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < i), z3.Not(FN("fails_deserialize_argument", U, B)(S_(data, j)))), lambda j: [S_(data, j)]))]
    for key, ty in it.ctx.ktype.items():
        if key in entry and key in cur and isinstance(ty, TList) and len(ty.e.sorts()) == 1 and ty.e.sorts()[0] == U and not all(a.eq(b) for a, b in zip(entry[key], cur[key])):
            out += [(f"{key} grows by one a round", cur[key][0] == entry[key][0] + i), (f"{key} holds the arguments", forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < i), S_(cur[key][1], j) == DESERA(S_(data, j))), lambda j: [S_(cur[key][1], j)]))]
    return out


class PrState:
    def __init__(self, it):
        self.cur = it.to_u(it.getattr(it.ctx.hooks["me"], "_current_task"))


def build(it, w):
    ci = it.reg(w.prog.cls(MOD, CLS))
    names = ["event_loop", "address", "garbage_collect_interval_seconds", "trim_memory_threshold_bytes", "function_retention_seconds", "serializer"]
    me = it.construct(ci, [], {n: Obj(w.root_classes["ser"], "ser") if n == "serializer" else it.fresh_value(n, TInt() if n.endswith(("seconds", "bytes")) else it.class_type(w.prog.cls("scaled.utility.zmq_config", "ZMQConfig")) if n == "address" else ANY) for n in names})
    it.ctx.hooks["me"] = me
    return me


def ready(it, w, _):
    me = build(it, w)
    try:
        it.run_method(me, "run", [])
    except PyRaise as e:
        it.ctx.fail(f"run: raised {e.cls} {e.where}")
        raise PathEnd()
    if it.ctx.hooks.get("gets"):
        raise Unsupported("the cache is read before the first message")
    it.log.clear()
    it.setattr(me, "_current_task", it.fresh_value("current", TOpt(TRef("Task"))))
    it.ctx.hooks["fn"] = it.ctx.fresh("functions", z3.ArraySort(U, U))
    return me


PARTS = {"cur": lambda it, s, e: [("the waiting task", s.cur == e.cur)]}
PR = Comp(pr_world, {CLS: (MOD, "me")}, PrState, PARTS, lambda it, s: [], ("agent", "cache", "conn"))


def pr_start(ctx, prog, cls):
    w = pr_world(prog)
    it = Interp(ctx, w)
    for ci in w.root_classes.values():
        it.reg(ci)
    it.reg(prog.cls("scaled.protocol.python.message", "Task"))
    it.frames.append(Frame(FuncV(None, MOD)))
    return w, it, None


PR.start = pr_start
tf = lambda it, t, f: S_(it.ref_field_arr("Task", f), t)


def data_of(it, t):
    it.ref_cell("Task", "function_args")
    ls = [S_(a, t) for a in it.ctx.pre.get(("fa", "Task", "function_args"), it.ctx.heap[("fa", "Task", "function_args")])]
    return ls[0], ls[2]


def answer(it, t, fn):
    """exactly one result with the task's id: the value of the function on the arguments, or the exception"""
    n, data = data_of(it, t)
    fails = lambda w, z: FN("fails_" + w, U, B)(z)
    j = z3.Const("j!arg", I)
    args_fail = z3.Exists([j], z3.And(0 <= j, j < n, fails("deserialize_argument", S_(data, j))))
    return args_fail, fails("call", t), fails("serialize_result", APPLY(t))


def result_events(it, t, fn):
    a, c, s = answer(it, t, fn)
    bad = z3.Or(a, c, s)
    tid = SU(tf(it, t, "task_id"), BYTES)
    ok = rec("TaskResult", task_id=tid, status=enum("TaskStatus", it, "Success"), duration=ANYV, result=SU(SERR(APPLY(t)), BYTES))
    ko = rec("TaskResult", task_id=tid, status=enum("TaskStatus", it, "Failed"), duration=ANYV, result=ANYV)
    return bad, ok, ko


def calls_right(it, nm, t, fn):
    """the function is called at most once, with the task's arguments in order"""
    n, data = data_of(it, t)
    obs = []
    cs = [e for e in it.log if getattr(e, "chan", None) == "call"]
    obs.append(("the function is called at most once", z3.BoolVal(len(cs) <= 1)))
    for e in cs:
        obs.append(("the right function is called", val_eq(it, e.to, SU(fn, TU("function")))))
        a = e.msg
        if len(a) == 1 and isinstance(a[0], StarArg):
            v = a[0].v
            m = it.num(it.length(v))
            i = it.ctx.fresh("position", I)
            obs.append(("the function gets as many arguments as the task has", m == n))
            ls = v.leaves if isinstance(v, Snap) else it.read(v) if isinstance(v, Box) else None
            if ls is None:
                vs = list(v)
                obs += [(f"argument {k + 1} is the task's", z3.Implies(n > k, it.to_u(x) == DESERA(S_(data, k)))) for k, x in enumerate(vs)]
            else:
                obs.append(("the function gets the task's arguments in order", z3.Implies(z3.And(0 <= i, i < n), S_(ls[1], i) == DESERA(S_(data, i)))))
        elif any(isinstance(x, StarArg) for x in a):
            obs.append(("the function gets the task's arguments in order", z3.BoolVal(False)))
        else:
            obs.append(("the function gets as many arguments as the task has", n == len(a)))
            obs += [(f"argument {k + 1} is the task's", it.to_u(x) == DESERA(S_(data, k))) for k, x in enumerate(a)]
    return obs


def carries(got, where, z):
    e = EXC(where, z)
    return z3.Implies(FN("pickles", U, B)(e), got == PICKLED(e))


def carried(it, t):
    """a failure carries the exception raised, unless it cannot be pickled"""
    n, data = data_of(it, t)
    a, c, _ = answer(it, t, None)
    j = z3.Const("j!exc", I)

    def go(it, got):
        g = it.to_u(got)
        d = S_(data, j)
        first = z3.Exists([j], z3.And(0 <= j, j < n, FN("fails_deserialize_argument", U, B)(d), carries(g, "deserialize_argument", d)))
        return z3.If(a, first, z3.If(c, carries(g, "call", t), carries(g, "serialize_result", APPLY(t))))
    return go


def answered(it, name, guard, t, fn, first=(), changes=()):
    bad, ok, ko = result_events(it, t, fn)
    ko.fields["result"] = carried(it, t)
    post = lambda it, s1: calls_right(it, name, t, fn) + ([("no task waits any more", s1.cur == NONE)] if "cur" in changes else [])
    return [Out(f"{name}, all goes well", z3.And(guard, z3.Not(bad)), post=post, changes=changes, events=list(first) + [("agent", None, ok)], result=ANYRESULT),
            Out(f"{name}, something goes wrong", z3.And(guard, bad), post=post, changes=changes, events=list(first) + [("agent", None, ko)], result=ANYRESULT)]


def on_task(it, s0, task):
    t = u(it, task)
    it.ctx.hooks["task"] = t
    fid = tf(it, t, "function_id")
    here = FN("cached_at_access_1", U, B)(fid)
    ask = rec("FunctionRequest", type=enum("FunctionRequestType", it, "Request"), function_id=SU(fid, BYTES), function_name=ANYV, content=ANYV)
    return answered(it, "function cached", here, t, S_(it.ctx.hooks["fn"], fid)) + [
        Out("function not cached", True, post=lambda it, s1: [("the task waits for its function", s1.cur == t), ("nothing is called", z3.BoolVal(not [e for e in it.log if getattr(e, "chan", None) == "call"]))],
            changes=["cur"], events=[("agent", None, ask)], result=ANYRESULT)]


def pre_task(it, s, task):
    it.ctx.ex.assumed.add("one task at a time: the agent hands over the next task only after the result of the one before (C19)")
    return [u(it, task) != NONE, s.cur == NONE]


def on_function(it, s0, resp):
    t = s0.cur
    it.ctx.hooks["task"] = t
    f, content = fld(it, resp, "function_id"), fld(it, resp, "content")
    waits = z3.And(t != NONE, tf(it, t, "function_id") == f)
    bad = FN("fails_deserialize_function", U, B)(content)
    add = ("cache", SU(f, BYTES), SU(DESERF(content), TU("function")))
    ko = rec("TaskResult", task_id=SU(tf(it, t, "task_id"), BYTES), status=enum("TaskStatus", it, "Failed"), duration=ANYV, result=lambda it, got: carries(it.to_u(got), "deserialize_function", content))
    none = lambda it, s1: [("nothing is called", z3.BoolVal(not [e for e in it.log if getattr(e, "chan", None) == "call"]))]
    # what happens to a function nobody waits for does not matter as long as nothing is answered
    return [Out("nobody waits for it", z3.Not(waits), post=none, events={"cache": None}, result=ANYRESULT),
            Out("the function cannot be loaded", bad, post=lambda it, s1: none(it, s1) + [("no task waits any more", s1.cur == NONE)], changes=["cur"], events=[("agent", None, ko)], result=ANYRESULT)] + \
        answered(it, "the function arrived", True, t, DESERF(content), first=[add], changes=["cur"])


def on_delete(it, s0, req):
    d = fld(it, req, "type") == it.to_u(enum("FunctionRequestType", it, "Delete"))
    return [Out("deleted", d, events=[("cache", "delete", SU(fld(it, req, "function_id"), BYTES))], result=ANYRESULT), Out("other requests", True, result=ANYRESULT)]


def on_run(it, s0):
    first = rec("TaskResult", task_id=b"", status=ANYV, duration=ANYV, result=ANYV)
    return [Out("started", True, events={"agent": [("agent", None, first)], "conn": [("conn", "run", None)], "cache": [("cache", "start", None)]}, result=ANYRESULT)]


def units(prog):
    def E(name, params, cases, pre=None):
        return PR.entry(prog, "Processor." + name, CLS, "<callback of the connector>", params, cases, pre=pre, before=ready, call=lambda it, o, a: it.call(it.ctx.hooks["callback"], a, {}))
    return [E("task", [("task", "Task")], on_task, pre_task), E("function response", [("response", "FunctionResponse")], on_function), E("function request", [("request", "FunctionRequest")], on_delete),
            E("other message", [("message", "TaskCancel")], lambda it, s0, m: [Out("ignored", True, result=ANYRESULT)]),
            PR.entry(prog, "Processor.run", CLS, "run", [], on_run, before=lambda it, w, _: build(it, w))]
