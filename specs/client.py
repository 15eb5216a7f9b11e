"""The client: C15 futures, C17 the buffer of tasks waiting for their function."""
from vc.core import *
from vc.interp import World, Interp, Frame, CARD, Opaque, ExcV, Repeat, Event, StarArg
from vc.spec import *
from specs.maps import S_, T_, F_, EMPTY, SETU
from specs.sched import Out, rec, enum, u, fld
from specs.comp import Comp
from specs.agent import FLAG, native
from vc.ev import *

MOD, CLS = "scaled.client", "Client"
CONNS = ("scaled.io.sync_connector", "SyncConnector")
FN = lambda n, *s: z3.Function(n, *s)
SERF, SERA, DESER, UNPICKLE, MD5, NAME = (FN(n, U, U) for n in ("serialized_function", "serialized_argument", "deserialized_result", "unpickled", "md5", "function_name"))
OK_DESER, OK_PICKLE = FN("deserializes", U, B), FN("unpickles", U, B)
EXCCLS = FN("class_of_exception", U, U)
KIND, GIDX = FN("future_of_a_graph", U, B), FN("future_position", U, I)
OWN = FN("future_owner", U, U)  # every future belongs to one task or to one position of one graph, for good
PENDING, RUNNING, CANCELLED, NOTIFIED, FINISHED = range(5)

LOCK = AbsSpec("Lock", FLAG, [
    Op("__enter__", [], lambda it, m: [Case(z3.Not(m.on), upd={"on": z3.BoolVal(True)}, result=None), Case(raises="deadlock")]),
    Op("__exit__", [("a", None), ("b", None), ("c", None)], lambda it, m, a, b, c: [Case(m.on, upd={"on": z3.BoolVal(False)}, result=None), Case(raises="RuntimeError")]),
    Op("acquire", [], lambda it, m: [Case(z3.Not(m.on), upd={"on": z3.BoolVal(True)}, result=True), Case(raises="deadlock")]),
    Op("release", [], lambda it, m: [Case(m.on, upd={"on": z3.BoolVal(False)}, result=None), Case(raises="RuntimeError")]),
    Op("locked", [], lambda it, m: [Case(result=lambda it: SBool(m.on))]),
], init=lambda it: [z3.BoolVal(False)])


# ------------------------------------------------------------------------------------------------ futures
FUT = {"_state": TInt(), "_isexc": TBool(), "_value": ANY, "_user": TBool()}


def fut_arrays(it):
    return {n: it.ctx.heap[it.ref_cell("Future", n, t)][0] for n, t in FUT.items()}


def fut_get(it, f, n):
    return it.num(it.get_ref_field2(f, "Future", n)) if n == "_state" else it.zb(it.get_ref_field2(f, "Future", n))


def fget(it, f, n):
    v = it.get_ref_field2(f, "Future", n)
    return v.z if isinstance(v, Sym) else v


def fset(it, f, n, v):
    it.setattr(f, n, v)


def user(it, f):
    """the user may cancel a pending future at any moment"""
    st = fget(it, f, "_state")
    if not it.ctx.decide(st == PENDING):
        return
    c = it.ctx.fresh("user_cancels", B)
    fset(it, f, "_state", SInt(z3.If(c, z3.IntVal(CANCELLED), z3.IntVal(PENDING))))
    fset(it, f, "_user", SBool(z3.Or(fget(it, f, "_user"), c)))


def f_state(*states):
    def go(it, f, a, k):
        user(it, f)
        st = fget(it, f, "_state")
        return SBool(disj([st == s for s in states]))
    return native("state", go)


def f_notify(it, f, a, k):
    user(it, f)
    st = fget(it, f, "_state")
    if it.ctx.decide(st == CANCELLED):
        fset(it, f, "_state", NOTIFIED)
        return False
    if it.ctx.decide(st == PENDING):
        fset(it, f, "_state", RUNNING)
        return True
    raise PyRaise("RuntimeError", ("Future in unexpected state",), where="set_running_or_notify_cancel")


def f_set(isexc):
    def go(it, f, a, k):
        user(it, f)
        st = fget(it, f, "_state")
        if it.ctx.decide(st >= CANCELLED):
            raise PyRaise("InvalidStateError", (), where="set_exception" if isexc else "set_result")
        v = a[0] if a else list(k.values())[0]
        z = it.to_u(v)
        if isinstance(v, ExcV):
            it.ctx.assume(EXCCLS(z) == it.ctx.litu("class", v.cls))
        fset(it, f, "_state", FINISHED)
        fset(it, f, "_isexc", isexc)
        fset(it, f, "_value", SU(z, ANY))
    return native("set", go)


def f_cancel(it, f, a, k):
    user(it, f)
    st = fget(it, f, "_state")
    if it.ctx.decide(z3.Or(st == RUNNING, st == FINISHED)):
        return False
    if it.ctx.decide(st == PENDING):
        fset(it, f, "_state", CANCELLED)
    return True


def new_future(it, a, k):
    f = it.alloc_ref("Future")
    it.ctx.hooks.setdefault("futures", []).append(f.z)
    for n, v in (("_state", PENDING), ("_isexc", False), ("_user", False)):
        fset(it, f, n, v)
    return f


# ------------------------------------------------------------------------------------------------ the world
def pickle_loads(it, a, k):
    p = it.to_u(a[0])
    if it.ctx.decide(OK_PICKLE(p)):
        return SU(UNPICKLE(p), TU("exception"))
    raise PyRaise("?", (), value=ExcV("?", ()), where="pickle.loads")


def deser_result(it, o, a, k):
    p = it.to_u(a[0])
    if it.ctx.decide(OK_DESER(p)):
        return SU(DESER(p), ANY)
    raise PyRaise("?", (), value=ExcV("?", ()), where="deserialize_result")


def send(it, o, args, kw):
    m = args[0] if args else kw["message"]
    it.emit("scheduler", None, m)
    it.ctx.ex.assumed.add("messages given to the connector reach the scheduler in the order given (queue.Queue, one sending thread)")


def send_now(it, o, args, kw):
    m = args[0] if args else kw["message"]
    it.emit("now:" + (m.cls if isinstance(m, Rec) else "?"), None, m)


def cl_world(prog):
    w = World(prog)
    w.refs |= {"Task", "Future"}
    w.schemas["Future"] = dict(FUT)
    w.abstracts["Lock"] = LOCK
    w.libs["threading.Lock"] = lambda it, a, k: LOCK.construct(it, [], {})
    w.libs["concurrent.futures.Future"] = new_future
    w.libs["threading.Event"] = lambda it, a, k: SU(it.ctx.fresh("stop_event", U), TU("StopEvent"))
    w.attrs[("StopEvent", "set")] = native("set", lambda it, o, a, k: it.emit("stop", None, None))
    w.libs["zmq.Context.instance"] = lambda it, a, k: Opaque("context")
    w.libs["pickle.loads"] = pickle_loads
    w.libs["uuid.uuid1"] = lambda it, a, k: SU(it.ctx.fresh("uuid", U), TU("UUID"))
    w.attrs[("UUID", "bytes")] = new_id
    w.libs["hashlib.md5"] = lambda it, a, k: SU(it.to_u(a[0]), TU("md5"))
    w.attrs[("md5", "digest")] = native("digest", lambda it, o, a, k: SU(MD5(it.to_u(o)), BYTES))
    for n, h in (("done", f_state(CANCELLED, NOTIFIED, FINISHED)), ("running", f_state(RUNNING)), ("cancelled", f_state(CANCELLED, NOTIFIED)),
                 ("set_running_or_notify_cancel", native("notify", f_notify)), ("set_result", f_set(False)), ("set_exception", f_set(True)), ("cancel", native("cancel", f_cancel))):
        w.attrs[("Future", n)] = h
    conn, ser = prog.cls(*CONNS), prog.cls("scaled.protocol.python.serializer.mixins", "Serializer")
    w.root_classes = {"conn": conn, "ser": ser}

    def connector(it, o, args, kw):
        names = ["stop_event", "context", "socket_type", "bind_or_connect", "address", "callback", "exit_callback", "daemonic"]
        kw = {**dict(zip(names, args)), **kw}
        it.ctx.hooks["callback"], it.ctx.hooks["exit"] = kw["callback"], kw["exit_callback"]
        return Obj(conn, "conn")
    w.contracts["SyncConnector()"] = connector
    w.attrs[("SyncConnector", "start")] = native("start", lambda it, o, a, k: it.emit("start", None, None))
    w.attrs[("SyncConnector", "join")] = native("join", lambda it, o, a, k: it.emit("join", None, None))
    w.contracts["SyncConnector.send"] = send
    w.contracts["SyncConnector.send_immediately"] = send_now
    w.libs["ZMQConfig.from_string"] = w.contracts["ZMQConfig.from_string"] = lambda it, *a: it.fresh_value("address", it.class_type(w.prog.cls("scaled.utility.zmq_config", "ZMQConfig")))
    w.contracts["Serializer.serialize_function"] = lambda it, o, a, k: SU(SERF(it.to_u(a[0])), BYTES)
    w.contracts["Serializer.serialize_argument"] = lambda it, o, a, k: SU(SERA(it.to_u(a[0])), BYTES)
    w.contracts["Serializer.deserialize_result"] = deser_result
    w.tidy_slices = True
    w.loop_pool += [pool, lambda *a: list(arg_pool(*a))]
    w.attrs[("function", "__name__")] = fn_name
    return w


def fn_name(it, o):
    if it.ctx.decide(FN("has_a_name", U, B)(it.to_u(o))):
        return SU(NAME(it.to_u(o)), TU("str"))
    raise PyRaise("AttributeError", ("__name__",))


def new_id(it, o):
    z = it.to_u(o)
    h = it.ctx.hooks
    if "client" in h:
        s = ClState(it)
        it.ctx.assume(z3.And(z3.Not(S_(s.tdom, z)), z3.Not(S_(s.fudom, z)), z3.Not(S_(s.gdom, z)), z != NONE))
        it.ctx.ex.assumed.add("uuid1 identifiers are new")
    h.setdefault("ids", []).append(z)
    return SU(z, BYTES)


class ClState:
    def __init__(self, it):
        o = it.ctx.hooks["client"]
        d = lambda f: list(it.read(it.getattr(o, f)))
        self.tdom, self.task = d("_task_id_to_task")[:2]
        self.fdom, self.fname, self.fbytes = d("_task_id_to_function")[:3]
        self.fudom, self.fut = d("_task_id_to_future")[:2]
        self.wait = d("_function_id_to_not_ready_tasks")
        self.wdom, self.wlen, self.wel = self.wait[:3]
        self.graphs = d("_graph_task_id_to_futures")
        self.gdom, self.glen, self.gel = self.graphs[:3]
        self.cdom, self.cid, self.cname, self.cbytes = d("_function_to_function_id_cache")[:4]
        self.on = LOCK.ms(it, it.getattr(o, "_lock")).on
        a = fut_arrays(it)
        self.st, self.isexc, self.val, self.usr = a["_state"], a["_isexc"], a["_value"], a["_user"]


FIELDS = ["_task_id_to_task", "_task_id_to_function", "_task_id_to_future", "_function_id_to_not_ready_tasks", "_graph_task_id_to_futures", "_function_to_function_id_cache"]


def build(it, w):
    ci = it.reg(w.prog.cls(MOD, CLS))
    me = it.construct(ci, [], {"address": it.fresh_value("address", TU("str")), "serializer": Obj(w.root_classes["ser"], "ser")})
    it.ctx.hooks["client"] = me
    return me


def havoc(it, w, _):
    me = build(it, w)
    it.log.clear()
    for f in FIELDS:
        b = it.getattr(me, f)
        t = it.type_at(b)
        ls = [it.ctx.fresh("any_" + f, x.sort()) for x in it.read(b)]
        it.write(b, ls)
        it.wf(t, ls)
    for n, t in FUT.items():
        it.ref_cell("Future", n, t)
    f0 = fut_arrays(it)
    it.ctx.assume(forall(U, lambda f: z3.Not(S_(f0["_user"], f)), lambda f: [S_(f0["_user"], f)]))
    return me


def tf(it, n):
    return it.ref_field_arr("Task", n)


def open_(s, f):
    return z3.And(S_(s.st, f) >= PENDING, S_(s.st, f) <= NOTIFIED, f != NONE)


def inv(it, s):
    tid, fid = tf(it, "task_id"), tf(it, "function_id")
    at = lambda f, i: S_(S_(s.wel, f), i)
    gat = lambda g, i: S_(S_(s.gel, g), i)
    al = it.ctx.heap.get(("alloc", "Future"))
    if al is None:
        it.init_cell(("alloc", "Future"), TSet(TRef("Future")), "alloc.Future")
        al = it.ctx.heap[("alloc", "Future")]
    al = al[0]
    at_ = it.ctx.heap.get(("alloc", "Task"))
    if at_ is None:
        it.init_cell(("alloc", "Task"), TSet(TRef("Task")), "alloc.Task")
        at_ = it.ctx.heap[("alloc", "Task")]
    return [
        ("the lock is free", z3.Not(s.on)),
        ("tasks and functions cover the same ids", s.tdom == s.fdom),
        ("every task not acknowledged has its future", forall(U, lambda t: z3.Implies(S_(s.tdom, t), S_(s.fudom, t)), lambda t: [S_(s.tdom, t)])),
        ("tasks are kept under their own ids", forall(U, lambda t: z3.Implies(S_(s.tdom, t), z3.And(S_(tid, S_(s.task, t)) == t, S_(s.task, t) != NONE, S_(at_[0], S_(s.task, t)))), lambda t: [S_(s.task, t)])),
        ("the functions kept are those of the tasks", forall(U, lambda t: z3.Implies(S_(s.tdom, t), MD5(S_(s.fbytes, t)) == S_(fid, S_(s.task, t))), lambda t: [S_(s.task, t), S_(s.fbytes, t)])),
        ("the functions remembered are faithful", forall(U, lambda f: z3.Implies(S_(s.cdom, f), z3.And(S_(s.cbytes, f) == SERF(f), S_(s.cid, f) == MD5(SERF(f))  )), lambda f: [S_(s.cdom, f)])),
        ("nobody waits in an empty line", forall(U, lambda f: z3.Implies(S_(s.wdom, f), S_(s.wlen, f) >= 1), lambda f: [S_(s.wdom, f)])),
        ("waiting tasks wait for their own function", forall([U, I], lambda f, i: z3.Implies(z3.And(S_(s.wdom, f), 0 <= i, i < S_(s.wlen, f)), z3.And(at(f, i) != NONE, S_(fid, at(f, i)) == f)), lambda f, i: [at(f, i)])),
        ("waiting tasks are registered", forall([U, I], lambda f, i: z3.Implies(z3.And(S_(s.wdom, f), 0 <= i, i < S_(s.wlen, f)), z3.And(S_(s.tdom, S_(tid, at(f, i))), S_(s.task, S_(tid, at(f, i))) == at(f, i))), lambda f, i: [at(f, i)])),
        ("futures of tasks are open", forall(U, lambda t: z3.Implies(S_(s.fudom, t), z3.And(open_(s, S_(s.fut, t)), S_(al, S_(s.fut, t)))), lambda t: [S_(s.fut, t)])),
        ("futures of tasks not acknowledged do not run", forall(U, lambda t: z3.Implies(S_(s.tdom, t), S_(s.st, S_(s.fut, t)) != RUNNING), lambda t: [S_(s.fut, t)])),
        ("each task has a future of its own", forall(U, lambda t: z3.Implies(S_(s.fudom, t), z3.And(z3.Not(KIND(S_(s.fut, t))), OWN(S_(s.fut, t)) == t)), lambda t: [S_(s.fut, t)])),
        ("futures of graphs are open", forall([U, I], lambda g, i: z3.Implies(z3.And(S_(s.gdom, g), 0 <= i, i < S_(s.glen, g)), z3.And(open_(s, gat(g, i)), S_(al, gat(g, i)))), lambda g, i: [gat(g, i)])),
        ("each graph position has a future of its own", forall([U, I], lambda g, i: z3.Implies(z3.And(S_(s.gdom, g), 0 <= i, i < S_(s.glen, g)), z3.And(KIND(gat(g, i)), OWN(gat(g, i)) == g, GIDX(gat(g, i)) == i)), lambda g, i: [gat(g, i)])),
    ]


def same_on(dom, a, b):
    return forall(U, lambda x: z3.Implies(S_(dom, x), S_(a, x) == S_(b, x)), lambda x: [S_(a, x)])


def lists_eq(dom, n1, e1, n0, e0):
    return z3.And(same_on(dom, n1, n0), forall([U, I], lambda g, i: z3.Implies(z3.And(S_(dom, g), 0 <= i, i < S_(n0, g)), S_(S_(e1, g), i) == S_(S_(e0, g), i)), lambda g, i: [S_(S_(e1, g), i)]))


PARTS = {
    "tasks": lambda it, s, e: [("tasks not acknowledged", z3.And(s.tdom == e.tdom, same_on(e.tdom, s.task, e.task)))],
    "funcs": lambda it, s, e: [("functions of these tasks", z3.And(s.fdom == e.fdom, same_on(e.fdom, s.fname, e.fname), same_on(e.fdom, s.fbytes, e.fbytes)))],
    "futs": lambda it, s, e: [("futures of tasks", z3.And(s.fudom == e.fudom, same_on(e.fudom, s.fut, e.fut)))],
    "wait": lambda it, s, e: [("tasks waiting for their function", z3.And(s.wdom == e.wdom, lists_eq(e.wdom, s.wlen, s.wel, e.wlen, e.wel)))],
    "graphs": lambda it, s, e: [("futures of graphs", z3.And(s.gdom == e.gdom, lists_eq(e.gdom, s.glen, s.gel, e.glen, e.gel)))],
    "state": lambda it, s, e: [("state of the futures", z3.And(s.st == e.st, s.isexc == e.isexc, s.val == e.val))],
}


def settled(it, s1, s0, f, isexc, want):
    """the future took this outcome, unless its user had canceled it"""
    fin = z3.And(S_(s1.st, f) == FINISHED, S_(s1.isexc, f) == isexc, want(S_(s1.val, f)))
    gone = z3.And(z3.Or(S_(s1.st, f) == CANCELLED, S_(s1.st, f) == NOTIFIED), z3.Or(S_(s0.st, f) == CANCELLED, S_(s0.st, f) == NOTIFIED, z3.And(S_(s0.st, f) == PENDING, S_(s1.usr, f))))
    return z3.Or(fin, gone)


def only_future(s1, s0, f):
    return ("no other future is touched", z3.And(s1.st == z3.Store(s0.st, f, S_(s1.st, f)), s1.isexc == z3.Store(s0.isexc, f, S_(s1.isexc, f)), s1.val == z3.Store(s0.val, f, S_(s1.val, f))))


def untouched(s1, s0, may):
    return ("no other future is touched", forall(U, lambda f: z3.Or(may(f), z3.And(S_(s1.st, f) == S_(s0.st, f), S_(s1.isexc, f) == S_(s0.isexc, f), S_(s1.val, f) == S_(s0.val, f))), lambda f: [S_(s1.st, f), S_(s1.isexc, f), S_(s1.val, f)]))


def of_class(it, name):
    return lambda v: EXCCLS(v) == it.ctx.litu("class", name)


def outcome(it, s1, s0, f, status, payload):
    """by status: the deserialized value, the remote exception, or an error"""
    ok = status == it.to_u(enum("TaskStatus", it, "Success"))
    bad = status == it.to_u(enum("TaskStatus", it, "Failed"))
    T, Fa = z3.BoolVal(True), z3.BoolVal(False)
    anyv = lambda v: T
    return z3.If(ok, z3.If(OK_DESER(payload), settled(it, s1, s0, f, Fa, lambda v: v == DESER(payload)), settled(it, s1, s0, f, T, anyv)),
                 z3.If(bad, z3.If(OK_PICKLE(payload), settled(it, s1, s0, f, T, lambda v: v == UNPICKLE(payload)), settled(it, s1, s0, f, T, anyv)), settled(it, s1, s0, f, T, anyv)))


class Fs:
    """the future arrays at one moment"""

    def __init__(self, heap):
        g = lambda n: heap[("fa", "Future", n)][0]
        self.st, self.isexc, self.val, self.usr = g("_state"), g("_isexc"), g("_value"), g("_user")


def pool(it, loop, entry, cur, locs, D, i):
    """candidates: the futures visited are settled and no other is touched"""
    out = []
    if ("fa", "Future", "_state") not in entry or ("fa", "Future", "_state") not in cur:
        return out
    h = it.ctx.hooks
    s0, s1 = Fs(entry), Fs(cur)
    for nm, at, may in h.get("batch", lambda *a: [])(it, loop, s1, s0, D, i):
        out.append((nm, at))
        if may is not None:
            out.append((nm + ": no other", z3.And(untouched(s1, s0, may)[1], forall(U, lambda f: z3.Or(may(f), S_(s1.usr, f) == S_(s0.usr, f)), lambda f: [S_(s1.usr, f)]))))
    return out


CL = Comp(cl_world, {CLS: (MOD, "client")}, ClState, PARTS, inv, ("scheduler", "now:TaskCancel", "now:GraphTaskCancel", "now:?", "stop", "start", "join"))


def cl_start(ctx, prog, cls):
    w = cl_world(prog)
    w.root_classes["client"] = prog.cls(MOD, CLS)
    it = Interp(ctx, w)
    for ci in w.root_classes.values():
        it.reg(ci)
    it.reg(prog.cls("scaled.protocol.python.message", "Task"))
    it.frames.append(Frame(FuncV(None, MOD)))
    return w, it, None


CL.start = cl_start


# ------------------------------------------------------------------------------------------------ entries
def announce(it, s, f, name, content):
    return ("scheduler", None, rec("FunctionRequest", type=enum("FunctionRequestType", it, "Add"), function_id=SU(f, BYTES), function_name=ANYV if name is None else SU(name, BYTES), content=SU(content, BYTES)))


def appended(it, s1, s0, f, task):
    """the task is last in its function's line; the other lines are as before"""
    n0 = z3.If(S_(s0.wdom, f), S_(s0.wlen, f), 0)
    return [("somebody waits for the function", s1.wdom == z3.Store(s0.wdom, f, T_)), ("one more waits", S_(s1.wlen, f) == n0 + 1), ("the task is last", S_(S_(s1.wel, f), n0) == task),
            ("those before keep their places", forall(I, lambda i: z3.Implies(z3.And(0 <= i, i < n0), S_(S_(s1.wel, f), i) == S_(S_(s0.wel, f), i)), lambda i: [S_(S_(s1.wel, f), i)])),
            ("the other lines are as before", lists_eq(z3.Store(s0.wdom, f, F_), s1.wlen, s1.wel, s0.wlen, s0.wel))]


def forgotten(it, s1, s0, t, futs):
    out = [("the task is forgotten", z3.And(s1.tdom == z3.Store(s0.tdom, t, F_), same_on(s1.tdom, s1.task, s0.task))),
           ("its function too", z3.And(s1.fdom == z3.Store(s0.fdom, t, F_), same_on(s1.fdom, s1.fname, s0.fname), same_on(s1.fdom, s1.fbytes, s0.fbytes)))]
    if futs:
        out.append(("its future is forgotten", z3.And(s1.fudom == z3.Store(s0.fudom, t, F_), same_on(s1.fudom, s1.fut, s0.fut))))
    return out


def on_echo(it, s0, echo):
    t, st = fld(it, echo, "task_id"), fld(it, echo, "status")
    is_ = lambda n: st == it.to_u(enum("TaskEchoStatus", it, n))
    f = S_(s0.fut, t)
    fid = S_(tf(it, "function_id"), S_(s0.task, t))
    task = S_(s0.task, t)

    def running(it, s1):
        return forgotten(it, s1, s0, t, False) + [only_future(s1, s0, f), ("its future runs, unless the user canceled it", z3.If(S_(s0.st, f) == PENDING, z3.Or(S_(s1.st, f) == RUNNING, z3.And(S_(s1.usr, f), z3.Or(S_(s1.st, f) == CANCELLED, S_(s1.st, f) == NOTIFIED))), S_(s1.st, f) == S_(s0.st, f)))]
    known = S_(s0.wdom, fid)
    bounced = lambda it, s1: appended(it, s1, s0, fid, task)
    return [Out("unknown task", z3.Not(S_(s0.tdom, t)), result=ANYRESULT), Out("duplicated", is_("Duplicated"), result=ANYRESULT),
            Out("function gone, announced already", z3.And(is_("FunctionNotExists"), known), post=bounced, changes=["wait"], result=ANYRESULT),
            Out("function gone", is_("FunctionNotExists"), post=bounced, changes=["wait"], events=[announce(it, s0, fid, S_(s0.fname, t), S_(s0.fbytes, t))], result=ANYRESULT),
            Out("no worker", is_("NoWorker"), post=lambda it, s1: forgotten(it, s1, s0, t, True) + [only_future(s1, s0, f), ("its future ends with an error", settled(it, s1, s0, f, z3.BoolVal(True), lambda v: z3.BoolVal(True)))],
                changes=["tasks", "funcs", "futs", "state"], result=ANYRESULT),
            Out("accepted", True, post=running, changes=["tasks", "funcs", "state"], result=ANYRESULT)]


def pre_echo(it, s, echo):
    t, st = fld(it, echo, "task_id"), fld(it, echo, "status")
    it.ctx.ex.assumed.add("echoes answer submissions (accepted, duplicated, no worker, function not known), one for each time a task is sent")
    fid = S_(tf(it, "function_id"), S_(s.task, t))
    return [disj([st == it.to_u(enum("TaskEchoStatus", it, n)) for n in ("SubmitOK", "Duplicated", "NoWorker", "FunctionNotExists")]),
            # the task is not waiting: it was sent
            forall([U, I], lambda f, i: z3.Implies(z3.And(S_(s.wdom, f), 0 <= i, i < S_(s.wlen, f)), S_(S_(s.wel, f), i) != S_(s.task, t)), lambda f, i: [S_(S_(s.wel, f), i)])]


def on_response(it, s0, resp):
    f = fld(it, resp, "function_id")
    return [Out("nobody waits", z3.Not(S_(s0.wdom, f)), result=ANYRESULT),
            Out("the line goes out", True, post=lambda it, s1: [("nobody waits any more", s1.wdom == z3.Store(s0.wdom, f, F_)), ("the other lines are as before", lists_eq(s1.wdom, s1.wlen, s1.wel, s0.wlen, s0.wel))],
                changes=["wait"], events=[Line(S_(s0.wlen, f), lambda i: S_(S_(s0.wel, f), i), lambda it, z: ("scheduler", None, SU(z, it.class_type(it.find_class("Task")))))], result=ANYRESULT)]


def pre_response(it, s, resp):
    it.ctx.ex.assumed.add("the client only announces functions: responses to it are OK or Duplicated")
    return [disj([fld(it, resp, "status") == it.to_u(enum("FunctionResponseType", it, n)) for n in ("OK", "Duplicated")])]


def on_result(it, s0, res):
    t = fld(it, res, "task_id")
    f = S_(s0.fut, t)
    return [Out("unknown task", z3.Not(S_(s0.fudom, t)), result=ANYRESULT),
            Out("the task's future ends", True, post=lambda it, s1: [("its future is forgotten", z3.And(s1.fudom == z3.Store(s0.fudom, t, F_), same_on(s1.fudom, s1.fut, s0.fut))), only_future(s1, s0, f),
                                                                  ("its future takes the outcome", outcome(it, s1, s0, f, fld(it, res, "status"), fld(it, res, "result")))], changes=["futs", "state"], result=ANYRESULT)]


def pre_result(it, s, res):
    it.ctx.ex.assumed.add("a task is acknowledged before its result comes (C09: the echo is sent on admission, and messages between the two keep their order)")
    return [z3.Not(S_(s.tdom, fld(it, res, "task_id")))]


def on_graph(it, s0, res):
    g, st = fld(it, res, "task_id"), fld(it, res, "status")
    n, at = S_(s0.glen, g), lambda i: S_(S_(s0.gel, g), i)
    rl = it.leaves_of(it.getattr(res, "results"))[1]
    bad = st == it.to_u(enum("TaskStatus", it, "Failed"))
    pay = lambda i: z3.If(bad, S_(rl[1], 0), S_(rl[1], i))
    end = lambda it, s1, s0, i: outcome(it, s1, s0, at(i), st, pay(i))
    may = lambda f: z3.And(KIND(f), OWN(f) == g)

    def batch(it, loop, s1, b0, D, i):
        if i is None:
            return
        yield ("futures visited took their outcome", forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < i), end(it, s1, b0, j)), lambda j: [at(j), S_(rl[1], j)]), lambda f: z3.And(may(f), GIDX(f) < i))
    it.ctx.hooks["batch"] = batch
    return [Out("unknown graph", z3.Not(S_(s0.gdom, g)), result=ANYRESULT),
            Out("the graph's futures end", True, post=lambda it, s1: [("its futures are forgotten", z3.And(s1.gdom == z3.Store(s0.gdom, g, F_), lists_eq(s1.gdom, s1.glen, s1.gel, s0.glen, s0.gel))), untouched(s1, s0, may),
                                                                   ("every future takes its outcome in key order", forall(I, lambda i: z3.Implies(z3.And(0 <= i, i < n), end(it, s1, s0, i)), lambda i: [at(i)]))], changes=["graphs", "state"], result=ANYRESULT)]


def pre_graph(it, s, res):
    rl = it.leaves_of(it.getattr(res, "results"))[1]
    st = fld(it, res, "status")
    is_ = lambda n: st == it.to_u(enum("TaskStatus", it, n))
    it.ctx.ex.assumed.add("a successful graph result has one result for every key, a failed one has one (C13)")
    return [z3.Implies(is_("Success"), rl[0] == S_(s.glen, fld(it, res, "task_id"))), z3.Implies(is_("Failed"), rl[0] >= 1), rl[0] >= 0]


# ------------------------------------------------------------------------------------------------ submit
PAR, NPAR = FN("parameter", U, I, U), FN("parameters", U, I)
PNAME, PKIND, PDEF = FN("parameter_name", U, U), FN("parameter_kind", U, U), FN("parameter_default", U, U)
PIDX, NPOS = FN("parameter_index", U, U, I), FN("positional_parameters", U, I)
STRT = TU("str")


def kinds(it):
    return {n: it.ctx.litu("parameter_kind", n) for n in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD")}


def sig_axioms(it, fn):
    """what inspect.signature gives for any callable"""
    k = kinds(it)
    em = it.ctx.litu("parameter_kind", "empty")
    m, n = NPOS(fn), NPAR(fn)
    pos = lambda j: z3.Or(PKIND(PAR(fn, j)) == k["POSITIONAL_ONLY"], PKIND(PAR(fn, j)) == k["POSITIONAL_OR_KEYWORD"])
    req = lambda j: PDEF(PAR(fn, j)) == em
    it.ctx.ex.assumed.add("inspect.signature: positional parameters come first, those without defaults before those with; names differ; bind refuses exactly what a call would refuse")
    return [0 <= m, m <= n,
            forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < m), pos(j)), lambda j: [PAR(fn, j)]),
            forall(I, lambda j: z3.Implies(z3.And(m <= j, j < n), z3.Not(pos(j))), lambda j: [PAR(fn, j)]),
            forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(PIDX(fn, PNAME(PAR(fn, j))) == j, disj([PKIND(PAR(fn, j)) == x for x in k.values()]), PAR(fn, j) != NONE)), lambda j: [PAR(fn, j)]),
            forall([I, I], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < m, req(j)), req(i)), lambda i, j: [z3.MultiPattern(PAR(fn, i), PAR(fn, j))])]


class CallArgs:
    """the arguments given to submit, and what calling the function with them means"""

    def __init__(self, it, fn):
        ctx = it.ctx
        self.fn, self.n, self.arr = fn, ctx.fresh("nargs", I), ctx.fresh("args", z3.ArraySort(I, U))
        self.K, self.V = ctx.fresh("kwnames", SETU), ctx.fresh("kwvalues", z3.ArraySort(U, U))
        self.binds = ctx.fresh("binds", B)
        k = kinds(it)
        self.em = ctx.litu("parameter_kind", "empty")
        m = NPOS(fn)
        par = lambda j: PAR(fn, j)
        self.pok = lambda j: PKIND(par(j)) == k["POSITIONAL_OR_KEYWORD"]
        self.req = lambda j: PDEF(par(j)) == self.em
        # a keyword that names a parameter which can also be passed by position
        self.pk = lambda x: z3.And(0 <= PIDX(fn, x), PIDX(fn, x) < m, PNAME(par(PIDX(fn, x))) == x, self.pok(PIDX(fn, x)))
        for f in sig_axioms(it, fn) + [self.n >= 0,
                forall(U, lambda x: z3.Implies(z3.And(self.binds, S_(self.K, x), self.pk(x)), PIDX(fn, x) >= self.n), lambda x: [S_(self.K, x)]),
                forall(I, lambda j: z3.Implies(z3.And(self.binds, self.n <= j, j < m, self.req(j)), z3.And(self.pok(j), S_(self.K, PNAME(par(j))))), lambda j: [PAR(fn, j)])]:
            ctx.assume(f)
        self.m = m
        x = z3.Const("x!kw", U)
        self.by_keyword_only = z3.Exists([x], z3.And(S_(self.K, x), z3.Not(self.pk(x))))

    def expected(self, j):
        """what a direct call passes to positional parameter j (j beyond the parameters: to *args)"""
        nm = PNAME(PAR(self.fn, j))
        return z3.If(j < self.n, S_(self.arr, j), z3.If(z3.And(self.pok(j), S_(self.K, nm)), S_(self.V, nm), PDEF(PAR(self.fn, j))))

    def kw_left(self, dom, n):
        """the keywords not yet moved when the first n positions are filled"""
        return forall(I, lambda j: z3.Implies(z3.And(n <= j, j < self.m), S_(dom, PNAME(PAR(self.fn, j))) == S_(self.K, PNAME(PAR(self.fn, j)))), lambda j: [PAR(self.fn, j)])


def signature_world(it):
    w = it.w
    h = it.ctx.hooks
    w.libs["inspect.signature"] = lambda it, a, k: SU(it.to_u(a[0]), TU("Signature"))
    w.attrs[("Signature", "parameters")] = lambda it, o: SU(it.to_u(o), TU("Parameters"))

    def values(it, o, a, k):
        fn = it.to_u(o)
        arr = it.ctx.fresh("params", z3.ArraySort(I, U))
        it.ctx.assume(forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < NPAR(fn)), S_(arr, j) == PAR(fn, j)), lambda j: [S_(arr, j)]))
        t = TList(TU("Parameter"))
        ls = [NPAR(fn), arr] + ([it.ctx.fresh("parmem", z3.ArraySort(U, I))] if t.has_mem else [])
        it.wf(t, ls)
        return it.new_root(t, ls)
    w.attrs[("Parameters", "values")] = native("values", values)

    def bind(it, o):
        def go(a, k):
            ca = h["call"]
            star = [x for x in a if isinstance(x, StarArg)]
            same = len(a) == 1 and len(star) == 1 and set(k) <= {"**"} and it.to_u(o).eq(ca.fn)
            if not same or not it.ctx.valid(z3.And(val_eq(it, star[0].v, ca.args), val_eq(it, k["**"], ca.kwargs) if "**" in k else ca.K == EMPTY)):
                raise Unsupported("bind of other arguments")
            if not it.ctx.decide(ca.binds):
                raise PyRaise("TypeError", (), where="Signature.bind")
            return Opaque("bound arguments")
        return BuiltinF("bind", go, star=True)
    w.attrs[("Signature", "bind")] = bind
    for n in kinds(it):
        w.attrs[("Parameter", n)] = lambda it, o, n=n: SU(it.ctx.litu("parameter_kind", n), TU("parameter_kind"))
        w.libs["inspect.Parameter." + n] = lambda it, *a, n=n: SU(it.ctx.litu("parameter_kind", n), TU("parameter_kind"))
    w.attrs[("Parameter", "empty")] = lambda it, o: SU(it.ctx.litu("parameter_kind", "empty"), ANY)
    w.attrs[("Parameter", "kind")] = lambda it, o: SU(PKIND(it.to_u(o)), TU("parameter_kind"))
    w.attrs[("Parameter", "name")] = lambda it, o: SU(PNAME(it.to_u(o)), STRT)
    w.attrs[("Parameter", "default")] = lambda it, o: SU(PDEF(it.to_u(o)), ANY)


def submit_batch(ca):
    def batch(it, loop, s1, s0, D, i):
        return []
    return batch


def elements(n, a, ok):
    """ok(j, a[j]) for every j < n; the element stored last is named by itself"""
    if z3.is_store(a) and z3.simplify(a.arg(1) + 1 - n).eq(z3.IntVal(0)):
        return z3.And(elements(a.arg(1), a.arg(0), ok), z3.Implies(a.arg(1) >= 0, ok(a.arg(1), a.arg(2))))
    return forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < n), ok(j, S_(a, j))), lambda j: [S_(a, j)])


def arg_pool(it, loop, entry, cur, locs, D, i):
    """candidates for the loops that line the arguments up"""
    ca = it.ctx.hooks.get("call")
    if ca is None:
        return
    for key, ty in it.ctx.ktype.items():
        if key not in entry or key not in cur:
            continue
        if isinstance(ty, TList) and len(ty.e.sorts()) == 1 and ty.e.sorts()[0] == U and not all(a.eq(b) for a, b in zip(entry[key], cur[key])):
            n0, n1, a1 = entry[key][0], cur[key][0], cur[key][1]
            if i is not None:
                yield f"{key} grows by one a round", n1 == n0 + i
            yield f"{key} holds what a direct call passes", elements(n1, a1, lambda j, x: x == ca.expected(j))
            for k2, t2 in it.ctx.ktype.items():
                if isinstance(t2, TDict) and k2 in cur and k2 in entry and not entry[k2][0].eq(cur[k2][0]) and len(cur[k2]) == 2 and cur[k2][0].sort() == SETU:
                    yield f"{k2} keeps the keywords not moved to {key}", ca.kw_left(cur[k2][0], n1)
                    yield f"{k2} keeps its values", forall(U, lambda x: z3.Implies(S_(cur[k2][0], x), S_(cur[k2][1], x) == S_(entry[k2][1], x)), lambda x: [S_(cur[k2][1], x)])


def call_submit(it, obj, args):
    """submit(fn, *args, **kwargs) with any numbers of both"""
    fn = args[0]
    ca = it.ctx.hooks["call"]
    ci = obj.cls
    m = it.prog.find_method(ci, "submit")
    node = m[1]
    fv = FuncV(node, ci.module, ClassV(ci.name, ci.module, ci))
    fr = Frame(fv)
    names = [p.arg for p in node.args.posonlyargs + node.args.args]
    fr.locals[names[0]], fr.locals[names[1]] = obj, fn
    fr.locals[node.args.vararg.arg], fr.locals[node.args.kwarg.arg] = ca.args, ca.kwargs
    return it.run_frame(fv, fr)


def before_submit(it, w, _):
    me = havoc(it, w, _)
    signature_world(it)
    return me


def on_submit(it, s0, fn):
    ca = it.ctx.hooks["call"]
    f = u(it, fn)
    fid = MD5(SERF(f))
    known = S_(s0.wdom, fid)

    def post(it, s1):
        h = it.ctx.hooks
        ids, futs = h.get("ids", []), h.get("futures", [])
        if len(ids) != 1 or len(futs) != 1:
            return [("one task with one future is made", z3.BoolVal(False))]
        t, fu = ids[0], futs[0]
        # ghost: the new future belongs to this task
        it.ctx.assume(z3.And(OWN(fu) == t, z3.Not(KIND(fu))))
        r = S_(s1.task, t)
        la = [S_(a, r) for a in it.ctx.heap[it.ref_cell("Task", "function_args")]]
        nl, ty_, data = la[0], la[1], la[2]
        dt = it.to_u(enum("ArgumentType", it, "Data"))
        j = it.ctx.fresh("position", I)
        big = z3.If(ca.m >= ca.n, ca.m, ca.n)
        return [("the task is registered", z3.And(s1.tdom == z3.Store(s0.tdom, t, T_), same_on(s0.tdom, s1.task, s0.task))),
                ("the task carries its id and its function", z3.And(S_(tf(it, "task_id"), r) == t, S_(tf(it, "function_id"), r) == fid)),
                ("its function is registered", z3.And(s1.fdom == z3.Store(s0.fdom, t, T_), S_(s1.fbytes, t) == SERF(f), same_on(s0.fdom, s1.fname, s0.fname), same_on(s0.fdom, s1.fbytes, s0.fbytes))),
                ("its future is registered", z3.And(s1.fudom == z3.Store(s0.fudom, t, T_), S_(s1.fut, t) == fu, same_on(s0.fudom, s1.fut, s0.fut))),
                ("the future is pending", S_(s1.st, fu) == PENDING), only_future(s1, s0, fu),
                ("binding: no argument beyond those of the call", nl <= big), ("binding: no positional argument is lost", nl >= z3.If(ca.n <= big, ca.n, big)),
                ("binding: every argument is data", z3.Implies(z3.And(0 <= j, j < nl), S_(ty_, j) == dt)),
                ("binding: every positional argument arrives in its place", z3.Implies(z3.And(0 <= j, j < ca.n, j < big), z3.And(j < nl, S_(data, j) == SERA(S_(ca.arr, j))))),
                ("binding: every keyword argument arrives in its place", z3.Implies(z3.And(ca.n <= j, j < ca.m, ca.pok(j), S_(ca.K, PNAME(PAR(f, j)))), z3.And(j < nl, S_(data, j) == SERA(S_(ca.V, PNAME(PAR(f, j))))))),
                ("binding: every other parameter gets its default", z3.Implies(z3.And(ca.n <= j, j < ca.m, j < nl, z3.Not(z3.And(ca.pok(j), S_(ca.K, PNAME(PAR(f, j)))))), S_(data, j) == SERA(PDEF(PAR(f, j)))))] + appended(it, s1, s0, fid, r)
    ch = ["tasks", "funcs", "futs", "wait", "state"]
    res = lambda it, r, s1: [("the task's future is returned", val_eq(it, r, SU(it.ctx.hooks["futures"][0], TRef("Future"))) if len(it.ctx.hooks.get("futures", [])) == 1 else z3.BoolVal(False))]
    return [Out("arguments that do not fit", z3.Not(ca.binds), raises="TypeError", changes=["state"]), Out("arguments that can only be passed by keyword", ca.by_keyword_only, raises="TypeError", changes=["state"]),
            Out("function announced already", known, post=post, changes=ch, check=res), Out("function not announced", True, post=post, changes=ch, events=[announce(it, s0, fid, None, SERF(f))], check=res)]


def pre_submit(it, s, fn):
    h = it.ctx.hooks
    f = u(it, fn)
    ca = h["call"] = CallArgs(it, f)
    it.w.prefix_terms.append(ca.m)
    t, d = TSeq(TOpt(ANY)), TDict(STRT, TOpt(ANY))
    ls = [ca.n, ca.arr] + [it.ctx.fresh("argmem", x) for x in t.sorts()[2:]]
    ca.args, ca.kwargs = it.new_root(t, ls), it.new_root(d, [ca.K, ca.V])
    return []


# ------------------------------------------------------------------------------------------------ disconnecting
def on_exit(it, s0):
    T = z3.BoolVal(True)
    gat = lambda g, i: S_(S_(s0.gel, g), i)
    end = lambda s1, b0, f: settled(it, s1, b0, f, T, of_class(it, "ScaledDisconnect"))

    def batch(it, loop, s1, b0, D, i):
        if D is not None and D.sort() == SETU and loop.kind != "idx":
            yield ("tasks visited ended", forall(U, lambda t: z3.Implies(z3.And(S_(D, t), S_(s0.fudom, t)), end(s1, b0, S_(s0.fut, t))), lambda t: [S_(s0.fut, t)]), lambda f: z3.And(z3.Not(KIND(f)), S_(D, OWN(f))))
            yield ("graphs visited ended", forall([U, I], lambda g, j: z3.Implies(z3.And(S_(D, g), 0 <= j, j < S_(s0.glen, g)), end(s1, b0, gat(g, j))), lambda g, j: [gat(g, j)]), lambda f: z3.And(KIND(f), S_(D, OWN(f))))
        elif i is not None and loop.itr is not None and loop.itr.kind == "idx":
            at = lambda j: loop.itr.elem(j)
            x = at(z3.Const("j!probe", I))
            if isinstance(x, SU) and x.ty == TRef("Future"):
                yield ("futures visited ended", forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < i), end(s1, b0, at(j).z)), lambda j: [at(j).z]),
                       lambda f: z3.And(KIND(f), 0 <= GIDX(f), GIDX(f) < i, OWN(f) == OWN(at(z3.IntVal(0)).z)))
    it.ctx.hooks["batch"] = batch
    tc = lambda x: ("now:TaskCancel", None, rec("TaskCancel", task_id=SU(x, BYTES)))
    gc = lambda x: ("now:GraphTaskCancel", None, rec("GraphTaskCancel", task_id=SU(x, BYTES)))
    post = lambda it, s1: [("every task's future ends with a disconnect error", forall(U, lambda t: z3.Implies(S_(s0.fudom, t), end(s1, s0, S_(s0.fut, t))), lambda t: [S_(s0.fut, t)])),
                           ("every graph's futures end with a disconnect error", forall([U, I], lambda g, j: z3.Implies(z3.And(S_(s0.gdom, g), 0 <= j, j < S_(s0.glen, g)), end(s1, s0, gat(g, j))), lambda g, j: [gat(g, j)]))]
    return [Out("disconnected", True, post=post, changes=list(PARTS), inv=False, events={"now:TaskCancel": [Each(lambda x: S_(s0.fudom, x), tc)], "now:GraphTaskCancel": [Each(lambda x: S_(s0.gdom, x), gc)]}, result=ANYRESULT)]


def call_exit(it, obj, args):
    return it.call(it.ctx.hooks["exit"], [], {})


def on_other(it, s0, m):
    return [Out("refused", True, raises="TypeError")]


def before_init(it, w, _):
    return None


def units(prog):
    def E(name, method, params, cases, pre=None, functions=(), call=None, before=havoc):
        if method is None and call is None:
            def call(it, obj, args):
                return it.call(it.ctx.hooks["callback"], args, {})
        return CL.entry(prog, "Client." + name, CLS, method or "<callback of the connector>", params, cases, pre=pre, functions=functions, before=before, call=call)
    return [E("task echo", None, [("echo", "TaskEcho")], on_echo, pre_echo),
            E("function response", None, [("response", "FunctionResponse")], on_response, pre_response),
            E("task result", None, [("result", "TaskResult")], on_result, pre_result),
            E("graph result", None, [("result", "GraphTaskResult")], on_graph, pre_graph),
            E("submit", "submit", [("fn", TU("function"))], on_submit, pre_submit, call=call_submit, before=before_submit),
            E("exit", None, [], on_exit, call=call_exit),
            E("unknown message", None, [("message", "TaskCancel")], on_other),
            E("disconnect", "disconnect", [], lambda it, s0: [Out("asks the connector to stop", True, events=[("stop", None, None)])]),
            ]
