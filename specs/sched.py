"""Scheduler: task, worker, client and function manager verified together; containers and allocator by their contracts.

Entry points are the handlers and routines the scheduler runs to completion without giving up the event loop.
"""
from vc.core import *
from vc.lib import ENC, DEC
from vc.interp import World, Interp, Frame, CARD, Iter, Event, Repeat, ExcV, Opaque
from vc.spec import *
from specs.maps import S_, T_, F_, EMPTY, SETU, OTM, KVS, OTM_FIELDS, otm_eqs, otm_inv
from specs.queues import IQ, IQ_FIELDS, iq_eqs, STAMP
from specs.alloc import AL, AL_FIELDS, al_eqs, least, load, advice, al_inv
from vc.ev import *
from specs.gstate import TS, Gr, xinv, tstate

TM, WM, CM, FM, GM = "VanillaTaskManager", "VanillaWorkerManager", "VanillaClientManager", "VanillaFunctionManager", "GraphManager"
MODS = {TM: "scaled.scheduler.task_manager", WM: "scaled.scheduler.worker_manager", CM: "scaled.scheduler.client_manager",
        FM: "scaled.scheduler.function_manager", GM: "scaled.scheduler.graph_manager"}
ROOT = {TM: "tm", WM: "wm", CM: "cm", FM: "fm", GM: "gm"}
NOW = z3.Const("now", z3.RealSort())


def now(it, a, k):
    it.ctx.ex.assumed.add("the clock does not advance while one handler runs")
    return SReal(NOW)


def binder_send(it, obj, args, kw):
    def go():
        it.emit("binder", args[0] if args else kw["to"], args[1] if len(args) > 1 else kw["message"])
        it.ctx.ex.assumed.add("binder and connector sends never wait (the high-water marks are 0, checked under C23) and reach the peer named")
    return CoroV(go)


def quiet_send(it, obj, args, kw):
    return CoroV(lambda: None)


def sched_world(prog, gm_contract=True):
    w = World(prog)
    w.refs.add("Task")
    for s in (OTM, KVS, IQ, AL, TS):
        w.abstracts[s.cls] = s
    ci = {c: prog.cls(MODS[c], c) for c in MODS}
    binder = prog.cls("scaled.io.async_binder", "AsyncBinder")
    mon = prog.cls("scaled.io.async_connector", "AsyncConnector")
    w.root_classes = {ROOT[c]: ci[c] for c in MODS}
    links = {"_client_manager": CM, "_function_manager": FM, "_worker_manager": WM, "_graph_manager": GM, "_task_manager": TM}
    for c in MODS:
        for f, t in links.items():
            w.roots[(c, f)] = (ci[t], ROOT[t])
        w.roots[(c, "_binder")] = (binder, "binder")
        w.roots[(c, "_binder_monitor")] = (mon, "monitor")
    w.contracts["AsyncBinder.send"] = binder_send
    w.contracts["AsyncConnector.send"] = quiet_send
    w.libs["time.time"] = now
    w.structs |= {"_FuncInfo", "_TaskInfo", "_Graph"}
    w.loop_pool.append(pool)
    if gm_contract:
        w.contracts["GraphManager.on_task_done"] = gm_done
    return w


def pool(it, loop, entry, cur, locs, D, i):
    """candidate loop invariants over the abstract containers"""
    out = []
    for key, ty in it.ctx.ktype.items():
        if not isinstance(ty, TAbs) or key not in entry or key not in cur:
            continue
        if all(a.eq(b) for a, b in zip(entry[key], cur[key])):
            continue
        a, b = MS(ty.fields, list(entry[key])), MS(ty.fields, list(cur[key]))
        if ty.cls == "IndexedQueue":
            out.append((f"{key} newcomers behind", forall(U, lambda x: z3.Implies(z3.And(S_(b.elems, x), z3.Not(S_(a.elems, x))), S_(b.stamp, x) >= a.clk), lambda x: [S_(b.elems, x)])))
            out.append((f"{key} order kept", forall(U, lambda x: z3.Implies(z3.And(S_(b.elems, x), S_(a.elems, x)), S_(b.stamp, x) == S_(a.stamp, x)), lambda x: [S_(b.elems, x)])))
        if ty.cls == "QueuedAllocator":
            out.append((f"{key} held shrinks with tasks", forall([U, U], lambda w, x: S_(S_(b.held, w), x) == z3.And(S_(S_(a.held, w), x), z3.Or(S_(b.tasks, x), z3.Not(S_(a.tasks, x)))), lambda w, x: [S_(S_(b.held, w), x)])))
    return out


class St:
    """model state of the scheduler, read off the heap"""

    def __init__(self, it, w):
        o = {c: Obj(w.root_classes[ROOT[c]], ROOT[c]) for c in MODS}
        rd = lambda c, f: list(it.read(it.getattr(o[c], f)))
        ab = lambda spec, c, f: spec.ms(it, it.getattr(o[c], f))
        self.tasks, self.ref = rd(TM, "_task_id_to_task")
        self.unq = ab(IQ, TM, "_unassigned")
        self.running = rd(TM, "_running")[0]
        self.limit = it.num(it.getattr(o[TM], "_max_number_of_tasks_waiting"))
        self.n = {s: it.num(it.getattr(o[TM], f"_{f}_count")) for s, f in (("Success", "success"), ("Failed", "failed"), ("Canceled", "canceled"), ("NotFound", "not_found"))}
        a = rd(WM, "_worker_alive_since")
        self.alive, self.since, self.info = a[0], a[1], a[2:]
        self.al = ab(AL, WM, "_allocator")
        self.timeout = it.num(it.getattr(o[WM], "_timeout_seconds"))
        self.cm = ab(OTM, CM, "_client_to_task_ids")
        f = rd(FM, "_function_id_to_func_info")
        self.fdom = f[0]
        names = [n for n, _ in it.field_types("_FuncInfo", MODS[FM])]
        self.fn = dict(zip(names, f[1:]))
        self.uses = ab(OTM, FM, "_function_id_to_task_ids")
        self.retention = it.num(it.getattr(o[FM], "_function_retention_seconds"))
        self.G = Gr(it, o[GM])
        self.gmap = [self.G.gdom, self.G.gmap]
        self.o = o

    def task_id(self, it, r):
        return S_(it.ref_field_arr("Task", "task_id"), r)


PART = ["tasks", "unq", "running", "n", "alive", "since", "info", "al", "cm", "fns", "fn_since", "uses", "cfg", "graphs"]


def part_eq(it, s, e, part):
    """[(name, formula)]: the named part of the state is unchanged"""
    if part == "tasks":
        return [("accepted tasks", s.tasks == e.tasks), ("messages of the accepted tasks", forall(U, lambda t: z3.Implies(S_(e.tasks, t), S_(s.ref, t) == S_(e.ref, t))))]
    if part == "unq":
        return [("waiting queue: " + n, f) for n, f in iq_eqs(it, s.unq, e.unq)]
    if part == "running":
        return [("running tasks", s.running == e.running)]
    if part == "n":
        return [("status counters", conj([s.n[k] == e.n[k] for k in s.n]))]
    if part == "alive":
        return [("alive workers", s.alive == e.alive)]
    if part == "since":
        return [("last heartbeats", forall(U, lambda w: z3.Implies(S_(e.alive, w), S_(s.since, w) == S_(e.since, w))))]
    if part == "info":
        return [("heartbeat contents", forall(U, lambda w: z3.Implies(S_(e.alive, w), conj([S_(a, w) == S_(b, w) for a, b in zip(s.info, e.info)]))))]
    if part == "al":
        return [("allocator: " + n, f) for n, f in al_eqs(it, s.al, e.al)]
    if part == "cm":
        return [("task owners: " + n, f) for n, f in otm_eqs(it, s.cm, e.cm)]
    if part == "uses":
        return [("function uses: " + n, f) for n, f in otm_eqs(it, s.uses, e.uses)]
    if part == "fns":
        return [("stored functions", s.fdom == e.fdom),
                ("stored names and contents", forall(U, lambda f: z3.Implies(S_(e.fdom, f), conj([S_(s.fn[n], f) == S_(e.fn[n], f) for n in ("function_name", "content")]))))]
    if part == "fn_since":
        return [("function ages", forall(U, lambda f: z3.Implies(S_(e.fdom, f), S_(s.fn["alive_since"], f) == S_(e.fn["alive_since"], f))))]
    if part == "cfg":
        return [("configuration", conj([a == b for a, b in ((s.limit, e.limit), (s.timeout, e.timeout), (s.retention, e.retention))]))]
    if part == "graphs":
        same = lambda x: [x.gdom, x.gmap] + x.leaves
        return [("graphs", conj([a == b for a, b in zip(same(s.G), same(e.G))]))]
    raise KeyError(part)


def inv(it, s):
    """-> [(name, formula)]"""
    tid = it.ref_field_arr("Task", "task_id")
    fid = it.ref_field_arr("Task", "function_id")
    s_ = S_
    return [
        ("every accepted task is in exactly one place: waiting or running",
         forall(U, lambda t: z3.And(s_(s.tasks, t) == z3.Or(s_(s.unq.elems, t), s_(s.running, t)), z3.Not(z3.And(s_(s.unq.elems, t), s_(s.running, t)))),
                lambda t: [s_(s.tasks, t), ], )),
        ("waiting and running tasks are accepted tasks",
         z3.And(forall(U, lambda t: z3.Implies(s_(s.unq.elems, t), s_(s.tasks, t)), lambda t: [s_(s.unq.elems, t)]),
                forall(U, lambda t: z3.Implies(s_(s.running, t), z3.And(s_(s.tasks, t), z3.Not(s_(s.unq.elems, t)))), lambda t: [s_(s.running, t)]))),
        ("the stored message is the task's own", forall(U, lambda t: z3.Implies(s_(s.tasks, t), z3.And(s_(s.ref, t) != NONE, s_(tid, s_(s.ref, t)) == t)), lambda t: [s_(s.ref, t)])),
        ("running tasks are exactly those outstanding at a connected worker", forall(U, lambda t: s_(s.running, t) == s_(s.al.tasks, t), lambda t: [s_(s.running, t)])),
        ("outstanding tasks are running", forall(U, lambda t: s_(s.running, t) == s_(s.al.tasks, t), lambda t: [s_(s.al.tasks, t)])),
        ("workers shown alive are exactly those that can be assigned tasks", s.alive == s.al.workers),
        ("every task has a client", forall(U, lambda t: z3.Implies(s_(s.tasks, t), s_(s.cm.vd, t)), lambda t: [s_(s.tasks, t)])),
        ("task owners are client identities", forall(U, lambda t: z3.Implies(s_(s.cm.vd, t), s_(s.cm.vk, t) != NONE), lambda t: [s_(s.cm.vd, t)])),
        ("every task's function is marked as used by it", forall(U, lambda t: z3.Implies(s_(s.tasks, t), z3.And(s_(s.uses.vd, t), s_(s.uses.vk, t) == s_(fid, s_(s.ref, t)))),
                                                                 lambda t: [s_(s.tasks, t)])),
        ("used functions are stored", forall(U, lambda f: z3.Implies(s_(s.uses.kd, f), s_(s.fdom, f)), lambda f: [s_(s.uses.kd, f)])),
    ]


def gm_done(it, obj, args, kw):
    """contract of GraphManager.on_task_done (checked by the graph units): False and nothing happens for a task of no graph"""
    res = args[0]

    def go():
        w = it.w
        s = St(it, w)
        t = it.to_u(it.getattr(res, "task_id"))
        it.ctx.prove("handing the result to its graph: the task is already forgotten everywhere",
                     z3.And(z3.Not(S_(s.tasks, t)), z3.Not(S_(s.unq.elems, t)), z3.Not(S_(s.running, t)), z3.Not(S_(s.al.tasks, t)), z3.Not(S_(s.cm.vd, t)), z3.Not(S_(s.uses.vd, t))))
        for n, f in inv(it, s) + xinv(it, s, ex=t):
            it.ctx.prove("handing the result to its graph: " + n, f)
        for n, f in part_eq(it, s, it.ctx.hooks["s0"], "graphs"):
            it.ctx.prove("handing the result to its graph: the graphs are untouched so far", f)
        it.ctx.prove("handing the result to its graph: its node was dispatched", z3.Implies(S_(s.gmap[0], t), s.G.at("state", S_(s.gmap[1], t), t) == tstate(it, "Running")))
        if not it.ctx.decide(S_(s.gmap[0], t)):
            return False
        it.ctx.hooks["at_graph"] = s
        it.emit("graph", None, res)
        for key in list(it.ctx.heap):
            if key[0] == "rf" and key[1] in ROOT.values():
                it.ctx.heap[key] = tuple(it.ctx.fresh("later", l.sort()) for l in it.ctx.heap[key])
                it.wf(it.ctx.ktype[key], it.ctx.heap[key])
        for n, f in inv(it, St(it, w)):
            it.ctx.assume(f)
        return True
    return CoroV(go)


class Out:
    """expected outcome of an entry point: which parts of the state may change and how, events, result"""

    def __init__(self, name, guard=True, post=None, changes=(), events=(), result=None, raises=None, check=None, inv=True, waits=False):
        self.name, self.guard, self.post, self.changes, self.events, self.result = name, guard, post, set(changes), events, result
        self.raises, self.check, self.inv, self.waits = raises, check, inv, waits


def entry(prog, name, cls, method, params, cases, pre=None, world=sched_world, functions=(), chan=("binder", "graph"), split=0):
    """unit(s): every path of cls.method from any state satisfying the invariant; split: one unit per case"""
    if split:
        return [entry1(prog, name, cls, method, params, cases, pre, world, functions, chan, k) for k in range(split)]
    return [entry1(prog, name, cls, method, params, cases, pre, world, functions, chan, None)]


def entry1(prog, name, cls, method, params, cases, pre, world, functions, chan, k):
    def body(ctx):
        w = world(prog)
        it = Interp(ctx, w)
        ci = w.root_classes[ROOT[cls]]
        for c in MODS:
            it.reg(w.root_classes[ROOT[c]])
        it.frames.append(Frame(FuncV(None, MODS[cls])))
        s0 = St(it, w)
        ctx.hooks["s0"] = s0
        args = [it.fresh_value("arg_" + n, it.class_type(it.find_class(t)) if isinstance(t, str) else t) for n, t in params]
        for n, f in inv(it, s0) + xinv(it, s0, ex=fld(it, args[1], "task_id") if method == "on_task_new" else None):
            ctx.assume(f)
        for f in (pre(it, s0, *args) if pre else []):
            ctx.assume(f[1] if isinstance(f, tuple) else f)
        outs = cases(it, s0, *args)
        ctx.ex.cases_all |= {f"{name}/{o.name}" for j, o in enumerate(outs) if k is None or j == k}
        if k is None:
            o = run_cases(it, outs)
        else:
            o = outs[k]
            for x in outs[:k]:
                ctx.assume(z3.Not(x.guard))
            ctx.assume(o.guard)
            if k == len(outs) - 1:
                pass
        nm = f"{name} [{o.name}]"
        if o.waits:
            def waits(it2, why):
                ctx.ex.cov.add(f"{name}/{o.name}")
                s1 = St(it, w)
                for p in PART:
                    for n, f in part_eq(it, s1, s0, p):
                        ctx.prove(f"{nm}: waits with {n} unchanged", f)
                match_events(it, nm, [e for e in it.log if isinstance(e, Repeat) or e.chan in chan], [])
                raise PathEnd()
            w.on_suspend = waits
        obj = Obj(ci, ROOT[cls])
        exc = res = None
        try:
            res = it.run_method(obj, method, args)
        except PyRaise as e:
            exc = e
        ctx.ex.cov.add(f"{name}/{o.name}")
        if o.waits:
            ctx.fail(f"{nm}: must wait")
            return
        if exc is not None:
            ctx.fail(f"{nm}: raised {exc.cls} {exc.where}", str(exc.eargs))
            return
        s1 = ctx.hooks.get("at_graph") or St(it, w)
        obs = [(f"{nm}: {n} unchanged", f) for p in PART if p not in o.changes for n, f in part_eq(it, s1, s0, p)]
        obs += [(f"{nm}: {n}", f) for n, f in (o.post(it, s1) if o.post else [])]
        obs += [(f"{nm}: invariant: {n}", f) for n, f in inv(it, s1)]
        if o.changes & {"tasks", "cm", "uses", "graphs"} and "at_graph" not in ctx.hooks:
            obs += [(f"{nm}: invariant: {n}", f) for n, f in xinv(it, s1)]
        ctx.prove_all(obs)
        match_events(it, nm, [e for e in it.log if isinstance(e, Repeat) or e.chan in chan], o.events(it, s1) if callable(o.events) else list(o.events))
        if o.check:
            for n, f in o.check(it, res, s1):
                ctx.prove(f"{nm}: {n}", f)
        elif o.result is not ANYRESULT:
            ctx.prove(f"{nm}: result", val_eq(it, res, o.result))
    un = Unit(name if k is None else f"{name}.case{k}", body, [f"{MODS[cls]}:{cls}.{method}"] + list(functions))
    un.cost = 1 if k is not None else 0
    un.max_secs = 700
    return un


# ------------------------------------------------------------------------------------------------ helpers for posts
def u(it, v):
    return it.to_u(v)


def fld(it, m, n):
    return it.to_u(it.getattr(m, n))


def set_is(name, arr, fn, *pats):
    return (name, forall(U, lambda x: S_(arr, x) == fn(x)))


def order_kept(it, s1, s0, also=None):
    """items waiting before and still waiting keep their order, and come before anything put back since"""
    e0, e1 = s0.unq, s1.unq
    return [("waiting queue: tasks that stay keep their order", forall([U, U], lambda x, y: z3.Implies(z3.And(S_(e0.elems, x), S_(e1.elems, x), S_(e0.elems, y), S_(e1.elems, y)),
                                                                                                    (S_(e1.stamp, x) < S_(e1.stamp, y)) == (S_(e0.stamp, x) < S_(e0.stamp, y))))),
            ("waiting queue: tasks put back wait behind the others", forall([U, U], lambda x, y: z3.Implies(z3.And(S_(e0.elems, x), S_(e1.elems, x), S_(e1.elems, y), z3.Not(S_(e0.elems, y))),
                                                                                                        S_(e1.stamp, x) < S_(e1.stamp, y))))]


def taken(m, t):
    return z3.Store(m, t, F_)


def plus(m, t):
    return z3.Store(m, t, T_)


def otm_without(it, s, m0, t, what):
    """the map after the value t was removed (the other pairs unchanged)"""
    return [(f"{what}: exactly this task is removed", s.vd == taken(m0.vd, t)),
            (f"{what}: the others keep theirs", forall(U, lambda x: z3.Implies(z3.And(S_(m0.vd, x), x != t), S_(s.vk, x) == S_(m0.vk, x))))]


def otm_with(it, s, m0, k, t, what):
    return [(f"{what}: exactly this task is added", s.vd == plus(m0.vd, t)), (f"{what}: under the right key", S_(s.vk, t) == k),
            (f"{what}: the others keep theirs", forall(U, lambda x: z3.Implies(z3.And(S_(m0.vd, x), x != t), S_(s.vk, x) == S_(m0.vk, x))))]


def rec(cls, **f):
    return Rec(cls, f)


def enum(cls, it, name):
    ci = it.find_class(cls)
    return it.getattr(ClassV(ci.name, ci.module, ci), name)


# ------------------------------------------------------------------------------------------------ task manager
def routine_cases(it, s0):
    q = s0.unq
    head = it.ctx.fresh("head", U)
    some = it.ctx.fresh("some_waiting", B)
    it.ctx.assume(z3.Implies(some, z3.And(S_(q.elems, head), forall(U, lambda x: z3.Implies(S_(q.elems, x), S_(q.stamp, head) <= S_(q.stamp, x)), lambda x: [S_(q.elems, x)]))))
    it.ctx.assume(z3.Implies(z3.Not(some), q.elems == EMPTY))
    r = it.ctx.fresh("some_least", U)
    room = it.ctx.fresh("some_room", B)
    it.ctx.assume(z3.Implies(room, least(s0.al, r)))
    it.ctx.assume(z3.Implies(z3.Not(room), forall(U, lambda w: z3.Implies(S_(s0.al.workers, w), load(s0.al, w) >= s0.al.cap), lambda w: [S_(s0.al.workers, w)])))
    it.ctx.setfacts_done = True

    def assigned(it, s1):
        w = S_(s1.al.worker, head)
        return [("waiting queue: the first task left it", s1.unq.elems == taken(q.elems, head)),
                ("waiting queue: the others keep their order", forall([U, U], lambda x, y: z3.Implies(z3.And(S_(s1.unq.elems, x), S_(s1.unq.elems, y)), (S_(s1.unq.stamp, x) < S_(s1.unq.stamp, y)) == (S_(q.stamp, x) < S_(q.stamp, y))))),
                ("exactly this task starts running", s1.running == plus(s0.running, head)),
                ("exactly this task becomes outstanding", s1.al.tasks == plus(s0.al.tasks, head)),
                ("connected workers", s1.al.workers == s0.al.workers),
                ("its worker is a least loaded one with room", least(s0.al, w)),
                ("the tasks of the other workers", forall([U, U], lambda x, t: z3.Implies(S_(s0.al.workers, x), S_(S_(s1.al.held, x), t) == z3.Or(S_(S_(s0.al.held, x), t), z3.And(x == w, t == head)))))]

    def rotated(it, s1):
        # nothing is assigned; the task keeps waiting
        return [("waiting queue: nothing is lost", s1.unq.elems == q.elems),
                ("waiting queue: the others keep their order", forall([U, U], lambda x, y: z3.Implies(z3.And(S_(q.elems, x), S_(q.elems, y), x != head, y != head),
                                                                                                      (S_(s1.unq.stamp, x) < S_(s1.unq.stamp, y)) == (S_(q.stamp, x) < S_(q.stamp, y)))))]
    return [Out("nothing waiting", z3.Not(some), waits=True),
            Out("no room", z3.Not(room), post=rotated, changes=["unq"], result=ANYRESULT),
            Out("assigned", True, post=assigned, changes=["unq", "running", "al"], result=ANYRESULT,
                events=lambda it, s1: [("binder", SU(S_(s1.al.worker, head), BYTES), ("task", S_(s0.ref, head)))])]


def new_pre(it, s0, client, task):
    """[(name, formula)]: task ids are fresh, unless the task is a node of a graph, dispatched now"""
    t, f = fld(it, task, "task_id"), fld(it, task, "function_id")
    it.ctx.ex.assumed.add("the id of a submitted task is not that of an unfinished task or graph (ids are random 16-byte strings)")
    g = S_(s0.gmap[1], t)
    node = S_(s0.gmap[0], t)
    return [("the task is not accepted already", z3.And(z3.Not(S_(s0.tasks, t)), z3.Not(S_(s0.cm.vd, t)), z3.Not(S_(s0.al.tasks, t)))),
            ("it is a task", u(it, task) != NONE),
            ("its id is no graph's", z3.Not(S_(s0.G.dom, t))),
            ("its function's use is recorded if it is a node, and only then", z3.If(node, z3.And(S_(s0.uses.vd, t), S_(s0.uses.vk, t) == f), z3.Not(S_(s0.uses.vd, t)))),
            ("a node is dispatched as its graph's own task, for its graph's client", z3.Implies(node, z3.And(
                s0.G.at("state", g, t) == tstate(it, "Running"), s0.G.at("task", g, t) == u(it, task), S_(s0.G.client, g) == u(it, client))))]


def new_cases(it, s0, client, task):
    c, t, f = u(it, client), fld(it, task, "task_id"), fld(it, task, "function_id")
    r = it.ctx.fresh("some_least", U)
    room = it.ctx.fresh("some_room", B)
    it.ctx.assume(z3.Implies(room, least(s0.al, r)))
    it.ctx.assume(z3.Implies(z3.Not(room), forall(U, lambda w: z3.Implies(S_(s0.al.workers, w), load(s0.al, w) >= s0.al.cap), lambda w: [S_(s0.al.workers, w)])))
    full = z3.And(z3.Not(S_(s0.gmap[0], t)), z3.Not(room), 0 <= s0.limit, s0.limit <= CARD(s0.unq.elems))
    echo = lambda st: ("binder", client, rec("TaskEcho", task_id=SU(t, BYTES), status=enum("TaskEchoStatus", it, st)))

    def accepted(it, s1):
        return [("exactly this task is accepted", s1.tasks == plus(s0.tasks, t)),
                ("with the message that was submitted", S_(s1.ref, t) == u(it, task)),
                ("the other tasks keep their messages", forall(U, lambda x: z3.Implies(S_(s0.tasks, x), S_(s1.ref, x) == S_(s0.ref, x)))),
                ("waiting queue: the task entered it", s1.unq.elems == plus(s0.unq.elems, t))] + order_kept(it, s1, s0) + \
            otm_with(it, s1.cm, s0.cm, c, t, "task owners") + otm_with(it, s1.uses, s0.uses, f, t, "function uses") + \
            [("only the used function's age changes", forall(U, lambda x: z3.Implies(z3.And(S_(s0.fdom, x), x != f), S_(s1.fn["alive_since"], x) == S_(s0.fn["alive_since"], x)))),
             ("the used function counts as used now", S_(s1.fn["alive_since"], f) == NOW)]
    return [Out("unknown function", z3.Not(S_(s0.fdom, f)), events=[echo("FunctionNotExists")], result=ANYRESULT),
            Out("no room", full, events=[echo("NoWorker")], result=ANYRESULT),
            Out("accepted", True, post=accepted, changes=["tasks", "unq", "cm", "uses", "fn_since"], events=[echo("SubmitOK")], result=ANYRESULT)]


def done_parts(it, s0, s1, t, st):
    """the task t is forgotten everywhere and counted under its status; nothing else changes"""
    return [("exactly this task is forgotten", s1.tasks == taken(s0.tasks, t)),
            ("the other tasks keep their messages", forall(U, lambda x: z3.Implies(z3.And(S_(s0.tasks, x), x != t), S_(s1.ref, x) == S_(s0.ref, x))))] + \
        otm_without(it, s1.cm, s0.cm, t, "task owners") + otm_without(it, s1.uses, s0.uses, t, "function uses") + \
        [(f"counted once under its own status ({k})", s1.n[k] == s0.n[k] + z3.If(st == it.to_u(enum("TaskStatus", it, k)), 1, 0)) for k in s0.n]


DONE = ["tasks", "cm", "uses", "n"]


def result_rec(it, t, status, duration, payload):
    return rec("TaskResult", task_id=SU(t, BYTES), status=status, duration=duration, result=payload)


def cancel_cases(it, s0, client, msg):
    t = fld(it, msg, "task_id")
    q = s0.unq

    def withdrawn(it, s1):
        return [("waiting queue: exactly this task left it", s1.unq.elems == taken(q.elems, t))] + order_kept(it, s1, s0) + \
            done_parts(it, s0, s1, t, it.to_u(enum("TaskStatus", it, "Canceled")))
    res = rec("TaskResult", task_id=SU(t, BYTES), status=enum("TaskStatus", it, "Canceled"), duration=ANYV, result=ANYV)
    return [Out("waiting task of a graph", z3.And(S_(q.elems, t), S_(s0.gmap[0], t)), post=withdrawn, changes=DONE + ["unq"], events=[("graph", ANYV, res)], result=ANYRESULT),
            Out("waiting task", S_(q.elems, t), post=withdrawn, changes=DONE + ["unq"],
                events=[("binder", SU(S_(s0.cm.vk, t), BYTES), res)], result=ANYRESULT),
            Out("running task", S_(s0.running, t), events=[("binder", SU(S_(s0.al.worker, t), BYTES), rec("TaskCancel", task_id=SU(t, BYTES)))], result=ANYRESULT),
            Out("unknown task", True, result=ANYRESULT)]


def result_pre(it, s0, msg):
    return []


def result_cases(it, s0, msg):
    """a worker's result reaches the worker manager"""
    t = fld(it, msg, "task_id")
    st = fld(it, msg, "status")
    w = S_(s0.al.worker, t)

    def freed(it, s1):
        return [("exactly this task stops running", s1.running == taken(s0.running, t)),
                ("exactly this task is no longer outstanding", s1.al.tasks == taken(s0.al.tasks, t)),
                ("the other workers' tasks are untouched", forall([U, U], lambda x, y: z3.Implies(S_(s0.al.workers, x), S_(S_(s1.al.held, x), y) == z3.And(S_(S_(s0.al.held, x), y), y != t)))),
                ("the other tasks keep their workers", forall(U, lambda x: z3.Implies(z3.And(S_(s0.al.tasks, x), x != t), S_(s1.al.worker, x) == S_(s0.al.worker, x)))),
                ("connected workers", s1.al.workers == s0.al.workers)] + done_parts(it, s0, s1, t, st)
    ch = DONE + ["running", "al"]
    return [Out("task nobody holds", z3.Not(S_(s0.al.tasks, t)), result=ANYRESULT),
            Out("node of a graph", S_(s0.gmap[0], t), post=freed, changes=ch, events=[("graph", ANYV, msg)], result=ANYRESULT),
            Out("task of a client", True, post=freed, changes=ch, events=[("binder", SU(S_(s0.cm.vk, t), BYTES), msg)], result=ANYRESULT)]


# ------------------------------------------------------------------------------------------------ worker manager
def requeued(it, s0, s1, back):
    """the tasks x with back(x) return to the waiting queue, nothing else moves"""
    return [("waiting queue: exactly the returned tasks are added", forall(U, lambda x: S_(s1.unq.elems, x) == z3.Or(S_(s0.unq.elems, x), back(x)))),
            ("exactly the returned tasks stop running", forall(U, lambda x: S_(s1.running, x) == z3.And(S_(s0.running, x), z3.Not(back(x))))),
            ("exactly the returned tasks are no longer outstanding", forall(U, lambda x: S_(s1.al.tasks, x) == z3.And(S_(s0.al.tasks, x), z3.Not(back(x)))))] + order_kept(it, s1, s0) + [
            ("the other tasks keep their workers", forall(U, lambda x: z3.Implies(S_(s1.al.tasks, x), S_(s1.al.worker, x) == S_(s0.al.worker, x)))),
            ("the workers that stay keep their other tasks", forall([U, U], lambda w, x: z3.Implies(S_(s1.al.workers, w), S_(S_(s1.al.held, w), x) == z3.And(S_(S_(s0.al.held, w), x), z3.Not(back(x))))))]


def balance_cases(it, s0, msg):
    ids = it.getattr(msg, "task_ids")
    ty, ls = it.leaves_of(ids)
    it.memfacts(ls)
    named = lambda x: S_(ls[-1], x) > 0
    back = lambda x: z3.And(named(x), S_(s0.al.tasks, x))
    return [Out("tasks given back", True, post=lambda it, s1: requeued(it, s0, s1, back) + [("connected workers", s1.al.workers == s0.al.workers)],
                changes=["unq", "running", "al"], result=ANYRESULT)]


def disconnect_cases(it, s0, source, msg):
    w = fld(it, msg, "worker")
    back = lambda x: z3.And(S_(s0.al.tasks, x), S_(s0.al.worker, x) == w)
    post = lambda it, s1: requeued(it, s0, s1, back) + [("exactly this worker is removed", s1.al.workers == taken(s0.al.workers, w)), ("exactly this worker is no longer alive", s1.alive == taken(s0.alive, w)),
                                                        ("the other workers' heartbeats", forall(U, lambda x: z3.Implies(S_(s1.alive, x), z3.And(S_(s1.since, x) == S_(s0.since, x), *[S_(a, x) == S_(b, x) for a, b in zip(s1.info, s0.info)]))))]
    return [Out("not connected", z3.Not(S_(s0.alive, w)), result=ANYRESULT),
            Out("disconnected", True, post=post, changes=["unq", "running", "al", "alive", "since", "info"], result=ANYRESULT,
                events=[("binder", source, rec("DisconnectResponse", worker=SU(w, BYTES)))])]


def heartbeat_cases(it, s0, worker, info):
    w = u(it, worker)
    leaves = it.to_leaves(info, it.class_type(it.find_class("Heartbeat")))

    def post(it, s1):
        return [("the sender is alive, nobody else changes", s1.alive == plus(s0.alive, w)), ("the sender can be assigned tasks, nobody else changes", s1.al.workers == plus(s0.al.workers, w)),
                ("outstanding tasks", s1.al.tasks == s0.al.tasks), ("capacity", s1.al.cap == s0.al.cap),
                ("worker of each task", forall(U, lambda t: z3.Implies(S_(s0.al.tasks, t), S_(s1.al.worker, t) == S_(s0.al.worker, t)))),
                ("tasks of each worker", forall([U, U], lambda x, t: z3.Implies(S_(s0.al.workers, x), S_(S_(s1.al.held, x), t) == S_(S_(s0.al.held, x), t)))),
                ("a new worker holds nothing", z3.Implies(z3.Not(S_(s0.al.workers, w)), forall(U, lambda t: z3.Not(S_(S_(s1.al.held, w), t))))),
                ("the sender's last heartbeat is now", S_(s1.since, w) == NOW),
                ("the sender's heartbeat is kept", conj([S_(a, w) == b for a, b in zip(s1.info, leaves)])),
                ("the other workers' heartbeats", forall(U, lambda x: z3.Implies(z3.And(S_(s0.alive, x), x != w), z3.And(S_(s1.since, x) == S_(s0.since, x), *[S_(a, x) == S_(b, x) for a, b in zip(s1.info, s0.info)]))))]
    return [Out("heartbeat", True, post=post, changes=["alive", "since", "info", "al"], events=[("binder", worker, rec("HeartbeatEcho"))], result=ANYRESULT)]


def advice_state(it, s):
    o = s.o[WM]
    return list(it.read(Box(it.field_cell(o, "_last_balance_advice"), ()))), it.num(it.getattr(o, "_load_balance_advice_same_count"))


def wroutine_cases(it, s0):
    o = s0.o[WM]
    dom, val = advice(it, s0.al)
    last, count = advice_state(it, s0)
    seconds, trigger = it.num(it.getattr(o, "_load_balance_seconds")), it.num(it.getattr(o, "_load_balance_trigger_times"))
    same = it.ctx.fresh("same_advice", B)
    it.ctx.assume(same == z3.And(z3.Not(last[0]), last[1] == dom, forall(U, lambda w: z3.Implies(S_(dom, w), S_(last[2], w) == S_(val, w)))))
    run = z3.If(same, count + 1, z3.IntVal(1))
    w0 = it.ctx.fresh("advised_one", U)
    some = it.ctx.fresh("some_advised", B)
    it.ctx.assume(z3.Implies(some, S_(dom, w0)))
    it.ctx.assume(z3.Implies(z3.Not(some), dom == EMPTY))
    dead = lambda w: z3.And(S_(s0.alive, w), NOW - S_(s0.since, w) > z3.ToReal(s0.timeout))
    back = lambda x: z3.And(S_(s0.al.tasks, x), dead(S_(s0.al.worker, x)))

    def post(off):
        def f(it, s1):
            a1, c1 = advice_state(it, s1)
            adv = [("advice: nothing is remembered", z3.And(c1 == count, *[a == b for a, b in zip(a1, last)]))] if off else \
                [("advice: the advice just computed is remembered", z3.And(z3.Not(a1[0]), a1[1] == dom, forall(U, lambda w: z3.Implies(S_(dom, w), S_(a1[2], w) == S_(val, w))))),
                 ("advice: the length of the run of equal advice", c1 == run)]
            return adv + requeued(it, s0, s1, back) + [
                ("exactly the silent workers are removed", forall(U, lambda w: S_(s1.al.workers, w) == z3.And(S_(s0.al.workers, w), z3.Not(dead(w))))),
                ("exactly the silent workers are no longer alive", forall(U, lambda w: S_(s1.alive, w) == z3.And(S_(s0.alive, w), z3.Not(dead(w))))),
                ("the other workers' heartbeats", forall(U, lambda x: z3.Implies(S_(s1.alive, x), z3.And(S_(s1.since, x) == S_(s0.since, x), *[S_(a, x) == S_(b, x) for a, b in zip(s1.info, s0.info)]))))]
        return f
    ch = ["unq", "running", "al", "alive", "since", "info"]
    ask = [Each(lambda w: S_(dom, w), lambda w: ("binder", SU(w, BYTES), rec("BalanceRequest", number_of_tasks=SInt(S_(val, w)))))]
    return [Out("balancing disabled", seconds <= 0, post=post(True), changes=ch, result=ANYRESULT),
            Out("advice triggers", z3.And(run == trigger, some), post=post(False), changes=ch, result=ANYRESULT, events=ask),
            Out("advice does not trigger", True, post=post(False), changes=ch, result=ANYRESULT)]


# ------------------------------------------------------------------------------------------------ function manager
def fn_eq_but(it, s0, s1, f):
    return [("the other functions keep name, content and age", forall(U, lambda x: z3.Implies(z3.And(S_(s0.fdom, x), x != f), conj([S_(s1.fn[n], x) == S_(s0.fn[n], x) for n in s0.fn]))))]


def function_cases(it, s0, source, msg):
    f, kind = fld(it, msg, "function_id"), fld(it, msg, "type")
    is_ = lambda k: kind == it.to_u(enum("FunctionRequestType", it, k))
    ans = lambda st, name=b"", content=b"": [("binder", source, rec("FunctionResponse", status=enum("FunctionResponseType", it, st), function_id=SU(f, BYTES), function_name=name, content=content))]
    have = S_(s0.fdom, f)
    stored = lambda n: SU(S_(s0.fn[n], f), BYTES)
    touched = lambda it, s1: fn_eq_but(it, s0, s1, f) + [("the function counts as used now", S_(s1.fn["alive_since"], f) == NOW)]
    added = lambda it, s1: fn_eq_but(it, s0, s1, f) + [("exactly this function is added", s1.fdom == plus(s0.fdom, f)), ("under the name and content sent", z3.And(
        S_(s1.fn["function_name"], f) == fld(it, msg, "function_name"), S_(s1.fn["content"], f) == fld(it, msg, "content"))), ("the function counts as used now", S_(s1.fn["alive_since"], f) == NOW)]
    dropped = lambda it, s1: fn_eq_but(it, s0, s1, f) + [("exactly this function is dropped", s1.fdom == taken(s0.fdom, f))]
    return [Out("check: held", z3.And(is_("Check"), have), events=ans("OK"), result=ANYRESULT),
            Out("check: not held", is_("Check"), events=ans("NotExists"), result=ANYRESULT),
            Out("add: held", z3.And(is_("Add"), have), events=ans("Duplicated"), post=touched, changes=["fn_since"], result=ANYRESULT),
            Out("add: new", is_("Add"), events=ans("OK"), post=added, changes=["fns", "fn_since"], result=ANYRESULT),
            Out("request: held", z3.And(is_("Request"), have), events=ans("OK", stored("function_name"), stored("content")), result=ANYRESULT),
            Out("request: not held", is_("Request"), events=ans("NotExists"), result=ANYRESULT),
            Out("delete: not held", z3.And(is_("Delete"), z3.Not(have)), events=ans("NotExists"), result=ANYRESULT),
            Out("delete: in use", z3.And(is_("Delete"), S_(s0.uses.kd, f)), events=ans("StillHaveTask"), result=ANYRESULT),
            Out("delete: idle", True, events=ans("OK"), post=dropped, changes=["fns", "fn_since"], result=ANYRESULT)]


def froutine_cases(it, s0):
    gone = lambda f: z3.And(S_(s0.fdom, f), NOW - S_(s0.fn["alive_since"], f) > z3.ToReal(s0.retention), z3.Not(S_(s0.uses.kd, f)))

    def post(it, s1):
        return [("exactly the idle functions past the retention time are dropped", forall(U, lambda f: S_(s1.fdom, f) == z3.And(S_(s0.fdom, f), z3.Not(gone(f))))),
                ("the functions that stay keep name, content and age", forall(U, lambda x: z3.Implies(S_(s1.fdom, x), conj([S_(s1.fn[n], x) == S_(s0.fn[n], x) for n in s0.fn]))))]

    tell = Each(gone, lambda f: Each(lambda w: S_(s0.al.workers, w), lambda w: ("binder", SU(w, BYTES), rec("FunctionRequest", type=enum("FunctionRequestType", it, "Delete"), function_id=SU(f, BYTES), function_name=ANYV, content=ANYV))))
    return [Out("clean-up", True, post=post, changes=["fns", "fn_since"], result=ANYRESULT, events=[tell])]


# ------------------------------------------------------------------------------------------------ status report
def get(it, v, *path):
    """the entry of a (nested) dictionary with constant keys; None if there is none"""
    from vc.interp import ConcDict
    for k in path:
        v = it.freeze(v) if not isinstance(v, ConcDict) else v
        items = v.items if isinstance(v, ConcDict) else list(v.fields.items()) if isinstance(v, Rec) else []
        hit = [x for n, x in items if n == k]
        if not hit:
            return None
        v = hit[0]
    return v


def tstat_cases(it, s0):
    def check(it, res, s1):
        exp = {"unassigned": s0.unq.size if hasattr(s0.unq, "size") else CARD(s0.unq.elems), "running": CARD(s0.running), "success": s0.n["Success"], "failed": s0.n["Failed"], "canceled": s0.n["Canceled"], "not_found": s0.n["NotFound"]}
        return [(f"reports the true number: {k}", val_eq(it, get(it, res, "task_manager", k), SInt(x))) for k, x in exp.items()]
    return [Out("report", True, check=check)]


def wstat_cases(it, s0):
    def check(it, res, s1):
        v = get(it, res, "worker_manager")
        ty, ls = it.leaves_of(v) if isinstance(v, (Box, Snap)) else (None, None)
        if not isinstance(ty, TList) or not isinstance(ty.e, TRec) or not {"worker", "free", "sent"} <= {n for n, _ in ty.e.fields}:
            return [("a list of workers with their free and sent slots", F_)]
        col, o = {}, 1
        for n, t in ty.e.fields:
            col[n] = ls[o]
            o += len(t.sorts())
        it.setfacts(s0.alive)
        n = ls[0]
        who = lambda i: ENC(S_(col["worker"], i))
        ok = lambda i: z3.And(0 <= i, i < n)
        al = s0.al
        return [("as many entries as connected workers", n == CARD(s0.alive)),
                ("every entry is a connected worker", forall(I, lambda i: z3.Implies(ok(i), S_(s0.alive, who(i))))),
                ("no worker twice", forall([I, I], lambda i, j: z3.Implies(z3.And(ok(i), ok(j), i != j), who(i) != who(j)))),
                ("sent is the number of outstanding tasks", forall(I, lambda i: z3.Implies(ok(i), S_(col["sent"], i) == load(al, who(i))))),
                ("sent and free slots add up to the capacity", forall(I, lambda i: z3.Implies(ok(i), S_(col["sent"], i) + S_(col["free"], i) == al.cap)))]
    return [Out("report", True, check=check)]


def fstat_cases(it, s0):
    return [Out("report", True, result=ANYRESULT)]


def units(prog):
    E = lambda *a, **k: entry(prog, *a, **k)
    out = sum([
        E("TaskManager.routine", TM, "routine", [], routine_cases, functions=[f"{MODS[WM]}:{WM}.assign_task_to_worker"]),
        E("TaskManager.on_task_new", TM, "on_task_new", [("client", BYTES), ("task", "Task")], new_cases, pre=new_pre),
        E("TaskManager.on_task_cancel", TM, "on_task_cancel", [("client", BYTES), ("cancel", "TaskCancel")], cancel_cases, functions=[f"{MODS[TM]}:{TM}.on_task_done", f"{MODS[WM]}:{WM}.on_task_cancel"]),
        E("WorkerManager.on_task_done", WM, "on_task_done", [("result", "TaskResult")], result_cases, functions=[f"{MODS[TM]}:{TM}.on_task_done"]),
        E("WorkerManager.on_balance_response", WM, "on_balance_response", [("response", "BalanceResponse")], balance_cases),
        E("WorkerManager.on_disconnect", WM, "on_disconnect", [("source", BYTES), ("request", "DisconnectRequest")], disconnect_cases),
        E("WorkerManager.on_heartbeat", WM, "on_heartbeat", [("worker", BYTES), ("info", "Heartbeat")], heartbeat_cases),
        E("WorkerManager.routine", WM, "routine", [], wroutine_cases, functions=[f"{MODS[WM]}:{WM}._VanillaWorkerManager__balance_request", f"{MODS[WM]}:{WM}._VanillaWorkerManager__clean_workers"], split=3),
        E("TaskManager.statistics", TM, "statistics", [], tstat_cases),
        E("WorkerManager.statistics", WM, "statistics", [], wstat_cases),
        E("FunctionManager.statistics", FM, "statistics", [], fstat_cases),
        E("ClientManager.statistics", CM, "statistics", [], fstat_cases),
        E("FunctionManager.on_function", FM, "on_function", [("source", BYTES), ("request", "FunctionRequest")], function_cases),
        E("FunctionManager.routine", FM, "routine", [], froutine_cases, functions=[f"{MODS[WM]}:{WM}.on_delete_function"]),
    ], [])
    return out
