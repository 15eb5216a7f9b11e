"""Scheduler: graph manager. The task manager by its contracts (checked by the units of specs/sched.py), client and function manager by their code."""
from vc.core import *
from vc.interp import TUnk, World, Interp, Frame, CARD, Iter, Event, Repeat, ExcV, Opaque
from vc.spec import *
from vc.ev import *
from specs.maps import S_, T_, F_, EMPTY, SETU, SETSET
from specs.gstate import Gr, xinv, ginv, args_of, argtype, tstate, ts_ready, CYCLIC
import specs.sched as S
from specs.sched import TM, WM, CM, FM, GM, MODS, ROOT, St, PART, part_eq, inv, Out, u, fld, rec, enum, NOW, otm_without, taken, plus

KEYS = {"tasks": [("tm", "_task_id_to_task")], "unq": [("tm", "_unassigned")], "running": [("tm", "_running")],
        "n": [("tm", f"_{x}_count") for x in ("success", "failed", "canceled", "not_found")], "al": [("wm", "_allocator")],
        "alive": [("wm", "_worker_alive_since")], "since": [("wm", "_worker_alive_since")], "info": [("wm", "_worker_alive_since")],
        "cm": [("cm", "_client_to_task_ids")], "uses": [("fm", "_function_id_to_task_ids")],
        "fns": [("fm", "_function_id_to_func_info")], "fn_since": [("fm", "_function_id_to_func_info")]}


def apply_out(it, s, o):
    """the state after a call whose outcome is o"""
    ctx = it.ctx
    keys = {("rf", r, f) for p in o.changes for r, f in KEYS[p]}
    for k in keys:
        if k not in ctx.heap:
            raise Unsupported(f"no heap cell {k}")
        ls = tuple(ctx.fresh("after", l.sort()) for l in ctx.heap[k])
        it.wf(ctx.ktype[k], ls)
        ctx.heap[k] = ls
    s1 = St(it, it.w)
    for p in PART:
        if p not in o.changes and any(("rf", r, f) in keys for r, f in KEYS.get(p, [])):
            for _, f in part_eq(it, s1, s, p):
                ctx.assume(f)
    for _, f in (o.post(it, s1) if o.post else []):
        ctx.assume(f)
    for _, f in inv(it, s1):
        ctx.assume(f)
    return s1


def tm_new(it, obj, args, kw):
    """contract of the task manager's on_task_new (specs/sched.py: TaskManager.on_task_new)"""
    client, task = (list(args) + [kw[n] for n in ("client", "task")[len(args):]])

    def go():
        s = St(it, it.w)
        for n, f in inv(it, s) + S.new_pre(it, s, client, task):
            it.ctx.prove(f"dispatching a node: {n}", f)
        it.ctx.ex.assumed.add("TaskManager.on_task_new satisfies its contract (proved by specs.sched TaskManager.on_task_new)")
        outs = S.new_cases(it, s, client, task)
        o = run_cases(it, outs)
        if o.name != "accepted":
            it.ctx.fail(f"a dispatched node is accepted by the task manager ({o.name})")
        apply_out(it, s, o)
        it.emit("dispatch", client, task)
    return CoroV(go)


def tm_cancel(it, obj, args, kw):
    """contract of the task manager's on_task_cancel (specs/sched.py: TaskManager.on_task_cancel)"""
    client, msg = (list(args) + [kw[n] for n in ("client", "task_cancel")[len(args):]])

    def go():
        s = St(it, it.w)
        for n, f in inv(it, s):
            it.ctx.prove(f"withdrawing a node: {n}", f)
        it.ctx.ex.assumed.add("TaskManager.on_task_cancel satisfies its contract (proved by specs.sched TaskManager.on_task_cancel)")
        o = run_cases(it, S.cancel_cases(it, s, client, msg))
        if o.name == "waiting task of a graph":
            it.ctx.fail("a withdrawn node's cancellation comes back to the graph manager while it cleans up")
        apply_out(it, s, o)
        it.emit("withdraw", client, msg)
    return CoroV(go)


def graph_world(prog):
    w = S.sched_world(prog, gm_contract=False)
    w.contracts[f"{TM}.on_task_new"] = tm_new
    w.contracts[f"{TM}.on_task_cancel"] = tm_cancel
    w.loop_pool.append(gpool)
    w.lean = True
    return w


class At:
    """the state at given heap contents"""

    def __init__(self, it, heap):
        self.it, self.heap = it, heap

    def __enter__(self):
        self.save = self.it.ctx.heap
        self.it.ctx.heap = dict(self.save)
        self.it.ctx.heap.update(self.heap)
        return St(self.it, self.it.w)

    def __exit__(self, *a):
        self.it.ctx.heap = self.save


def gpool(it, loop, entry, cur, locs, D, i):
    """candidate invariants of the graph manager's loops"""
    if "s0" not in it.ctx.hooks:
        return []
    same = lambda r: all(k not in entry or all(a.eq(b) for a, b in zip(entry[k], cur[k])) for k in cur if k[0] == "rf" and k[1] in r)
    managers, graphs = same(("tm", "fm", "cm", "wm")), same(("gm",))
    if managers and graphs:
        return []
    with At(it, entry) as e:
        pass
    with At(it, cur) as c:
        out = [] if managers else [("inv " + n, f) for n, f in inv(it, c)]
        if D is not None and D.sort() == SETU:
            struct = [k for k, t in it.ctx.ktype.items() if isinstance(t, TStruct) and t.cls == "_Graph" and k in entry and k in cur]
            for k in struct:
                out += clean_pool(it, it.ctx.ktype[k], entry[k], cur[k], e, c, D, k)
            if not graphs and "g" in it.ctx.hooks:
                up = it.loopstack[-1].x if it.loopstack else None
                out += dispatch_pool(it, e, c, D, entry, cur) if up is None else prune_pool(it, e, c, D, up, entry, cur)
    return out


def clean_pool(it, ty, a, b, e, c, D, k):
    """the nodes in D of a graph that is out of the tables already, kept in a cell of its own, have been dealt with"""
    run, idle = tstate(it, "Running"), tstate(it, "Inactive")
    off = ty.offset("tasks")[0]
    tt = ty.offset("tasks")[2]
    st_ = a[off + tt.nhead + tt.v.offset("state")[0]]
    Ta, Tb = a[off], b[off]
    st, wait = (lambda x: S_(st_, x)), (lambda x: S_(e.unq.elems, x))
    gone = lambda x: z3.And(S_(D, x), S_(Ta, x))
    back = lambda x: z3.And(gone(x), st(x) == run, wait(x))
    G, H = e.G, c.G
    out = [(f"{k} nodes removed", forall(U, lambda x: S_(Tb, x) == z3.And(S_(Ta, x), z3.Not(S_(D, x))), lambda x: [S_(Tb, x)])),
           (f"{k} nodes forgotten", forall(U, lambda x: S_(H.gdom, x) == z3.And(S_(G.gdom, x), z3.Not(gone(x))), lambda x: [S_(H.gdom, x)])),
           (f"{k} uses dropped", forall(U, lambda x: S_(c.uses.vd, x) == z3.And(S_(e.uses.vd, x), z3.Not(z3.Or(back(x), z3.And(gone(x), st(x) == idle)))), lambda x: [S_(c.uses.vd, x)])),
           (f"{k} uses kept", forall(U, lambda x: z3.Implies(S_(c.uses.vd, x), S_(c.uses.vk, x) == S_(e.uses.vk, x)), lambda x: [S_(c.uses.vd, x)]))]
    for n, p, q in (("tasks", c.tasks, e.tasks), ("waiting", c.unq.elems, e.unq.elems), ("owned", c.cm.vd, e.cm.vd)):
        out.append((f"{k} {n} withdrawn", forall(U, lambda x: S_(p, x) == z3.And(S_(q, x), z3.Not(back(x))), lambda x: [S_(p, x)])))
    return out + [
        (f"{k} owners kept", forall(U, lambda x: z3.Implies(S_(c.cm.vd, x), S_(c.cm.vk, x) == S_(e.cm.vk, x)), lambda x: [S_(c.cm.vd, x)])),
        (f"{k} messages kept", forall(U, lambda x: z3.Implies(S_(c.tasks, x), S_(c.ref, x) == S_(e.ref, x)), lambda x: [S_(c.tasks, x)]))]


def others(it, e, c, g):
    """every graph but g is as it was"""
    out = []
    for j, (a, b) in enumerate(zip(e.G.leaves[1:], c.G.leaves[1:])):
        if not a.eq(b):
            out.append((f"other graphs {j}", forall(U, lambda h: z3.Implies(h != g, S_(b, h) == S_(a, h)), lambda h: [S_(b, h)])))
    return out


def args_at(it, heap):
    return heap.get(it.ref_cell("Task", "function_args"), it.ctx.heap[it.ref_cell("Task", "function_args")])


def dispatch_pool(it, e, c, D, entry, cur):
    """the ready nodes in D have been dispatched"""
    g = it.ctx.hooks["g"]
    run = tstate(it, "Running")
    G, H = e.G, c.G
    d = lambda x: S_(D, x)
    tid = it.ref_field_arr("Task", "task_id")
    cl = S_(G.client, g)
    out = others(it, e, c, g) + [
        ("g dropped nodes", forall(U, lambda x: z3.And(z3.Implies(H.at("T", g, x), G.at("T", g, x)), z3.Implies(z3.And(G.at("T", g, x), z3.Not(H.at("T", g, x))), z3.And(G.at("fin", g, x), z3.Not(H.at("kd", g, x)), z3.Not(G.at("tm", g, x) > 0)))), lambda x: [H.at("T", g, x)])),
        ("g dropped nodes (2)", forall(U, lambda x: z3.Implies(z3.And(G.at("T", g, x), z3.Not(H.at("T", g, x))), z3.And(G.at("fin", g, x), z3.Not(H.at("kd", g, x)), z3.Not(G.at("tm", g, x) > 0))), lambda x: [G.at("T", g, x)])),
        ("g waiting lists", forall([U, U], lambda p, x: z3.And(H.at("kd", g, p), H.at("ks", g, p, x)) == z3.And(G.at("kd", g, p), G.at("ks", g, p, x), z3.Not(d(x))), lambda p, x: [H.at("ks", g, p, x)])),
        ("g waiting lists (2)", forall([U, U], lambda p, x: z3.And(H.at("kd", g, p), H.at("ks", g, p, x)) == z3.And(G.at("kd", g, p), G.at("ks", g, p, x), z3.Not(d(x))), lambda p, x: [G.at("ks", g, p, x)])),
        ("g states", forall(U, lambda x: H.at("state", g, x) == z3.If(d(x), run, G.at("state", g, x)), lambda x: [H.at("state", g, x)])),
        ("nodes forgotten", forall(U, lambda x: S_(H.gdom, x) == z3.And(S_(G.gdom, x), z3.Not(z3.And(G.at("T", g, x), z3.Not(H.at("T", g, x))))), lambda x: [S_(H.gdom, x)])),
        ("uses kept", z3.And(c.uses.vd == e.uses.vd, forall(U, lambda x: z3.Implies(S_(c.uses.vd, x), S_(c.uses.vk, x) == S_(e.uses.vk, x)), lambda x: [S_(c.uses.vd, x)]))),
        ("functions kept", z3.And(*[f for _, f in part_eq(it, c, e, "fns")])),
        ("owners", forall(U, lambda x: z3.Implies(S_(c.cm.vd, x), S_(c.cm.vk, x) == z3.If(d(x), cl, S_(e.cm.vk, x))), lambda x: [S_(c.cm.vd, x)])),
        ("messages", forall(U, lambda x: z3.Implies(S_(c.tasks, x), S_(c.ref, x) == z3.If(d(x), G.at("task", g, x), S_(e.ref, x))), lambda x: [S_(c.tasks, x)]))]
    for n, p, q in (("tasks", c.tasks, e.tasks), ("waiting", c.unq.elems, e.unq.elems), ("owned", c.cm.vd, e.cm.vd)):
        out.append((f"{n} added", forall(U, lambda x: S_(p, x) == z3.Or(S_(q, x), d(x)), lambda x: [S_(p, x)])))
    a, b = args_at(it, entry), args_at(it, cur)
    for j, (p, q) in enumerate(zip(a, b)):
        out.append((f"arguments kept {j}", forall(U, lambda r: z3.Implies(z3.Not(z3.And(d(S_(tid, r)), G.at("task", g, S_(tid, r)) == r)), S_(q, r) == S_(p, r)), lambda r: [S_(q, r)])))
    return out


def prune_pool(it, e, c, D, up, entry, cur):
    """the inputs in D of the node `up` no longer wait for it; those no node waits for are dropped"""
    g = it.ctx.hooks["g"]
    G, H = e.G, c.G
    d = lambda x: S_(D, x)
    drop = lambda x: z3.And(d(x), z3.Not(H.at("kd", g, x)), z3.Not(G.at("tm", g, x) > 0))
    out = others(it, e, c, g) + [
        ("g waiting lists", forall([U, U], lambda p, x: z3.And(H.at("kd", g, p), H.at("ks", g, p, x)) == z3.And(G.at("kd", g, p), G.at("ks", g, p, x), z3.Not(z3.And(d(p), x == up))), lambda p, x: [H.at("ks", g, p, x)])),
        ("g waiting lists (2)", forall([U, U], lambda p, x: z3.And(H.at("kd", g, p), H.at("ks", g, p, x)) == z3.And(G.at("kd", g, p), G.at("ks", g, p, x), z3.Not(z3.And(d(p), x == up))), lambda p, x: [G.at("ks", g, p, x)])),
        ("g dropped nodes", forall(U, lambda x: H.at("T", g, x) == z3.And(G.at("T", g, x), z3.Not(drop(x))), lambda x: [H.at("T", g, x)])),
        ("nodes forgotten", forall(U, lambda x: S_(H.gdom, x) == z3.And(S_(G.gdom, x), z3.Not(drop(x))), lambda x: [S_(H.gdom, x)]))]
    for k, ty in list(it.ctx.ktype.items()):
        if k[0] == "own" and isinstance(ty, TDict) and k in cur and len(cur[k]) == ty.nhead + 1 and cur[k][0].sort() == SETU and cur[k][ty.nhead].sort() == z3.ArraySort(U, U):
            out.append((f"{k} inputs", forall(U, lambda x: z3.And(S_(cur[k][0], x) == d(x), z3.Implies(d(x), S_(cur[k][ty.nhead], x) == G.at("result", g, x))), lambda x: [S_(cur[k][0], x)])))
            out.append((f"{k} inputs (2)", forall(U, lambda x: z3.And(S_(cur[k][0], x) == d(x), z3.Implies(d(x), S_(cur[k][ty.nhead], x) == G.at("result", g, x))), lambda x: [d(x)])))
    return out


def gentry(prog, name, method, params, cases, pre=None, functions=(), xex=None, case=None):
    """unit: every path of the method from any state satisfying the invariants; case: of one case of the contract alone"""
    def body(ctx):
        w = graph_world(prog)
        it = Interp(ctx, w)
        ci = w.root_classes[ROOT[GM]]
        for c in MODS:
            it.reg(w.root_classes[ROOT[c]])
        it.frames.append(Frame(FuncV(None, MODS[GM])))
        s0 = St(it, w)
        ctx.hooks["s0"] = s0
        args = [it.fresh_value("arg_" + n, it.class_type(it.find_class(t)) if isinstance(t, str) else t) for n, t in params]
        for n, f in inv(it, s0) + xinv(it, s0, ex=xex(it, *args) if xex else None) + ginv(it, s0):
            ctx.assume(f)
        for n, f in (pre(it, s0, *args) if pre else []):
            ctx.assume(f)
        outs = cases(it, s0, *args)
        ctx.ex.cases_all |= {f"{name}/{o.name}" for o in outs if case in (None, o.name)}
        if case is None:
            o = run_cases(it, outs)
        else:
            for o in outs:
                if o.name == case:
                    break
                ctx.assume(z3.Not(o.guard))
            ctx.assume(o.guard if not isinstance(o.guard, bool) else z3.BoolVal(o.guard))
        nm = f"{name} [{o.name}]"
        obj = Obj(ci, ROOT[GM])
        exc = res = None
        try:
            res = it.run_method(obj, method, args)
        except PyRaise as e:
            exc = e
        ctx.ex.cov.add(f"{name}/{o.name}")
        if exc is not None:
            ctx.fail(f"{nm}: raised {exc.cls} {exc.where}", str(exc.eargs))
            return
        s1 = St(it, w)
        obs = [(f"{nm}: {n} unchanged", f) for p in PART if p not in o.changes for n, f in part_eq(it, s1, s0, p)]
        obs += [(f"{nm}: {n}", f) for n, f in (o.post(it, s1) if o.post else [])]
        obs += [(f"{nm}: invariant: {n}", f) for n, f in inv(it, s1)]
        if o.changes:
            obs += [(f"{nm}: invariant: {n}", f) for n, f in xinv(it, s1)]
            if "graphs" in o.changes:
                obs += [(f"{nm}: invariant: {n}", f) for n, f in ginv(it, s1)]
        for n, f in obs:
            ctx.prove(n, f)
        match_events(it, nm, [e for e in it.log if isinstance(e, Repeat) or e.chan in ("binder", "dispatch", "withdraw")], o.events(it, s1) if callable(o.events) else list(o.events))
        if o.result is not ANYRESULT:
            ctx.prove(f"{nm}: result", val_eq(it, res, o.result))
    un = Unit(name if case is None else f"{name}.{case}", body, [f"{MODS[GM]}:{GM}.{method}"] + list(functions))
    un.max_secs = 500
    return un


def cleaned(it, s0, s1, g):
    """graph g and all its nodes are gone; what was waiting is withdrawn"""
    G, H = s0.G, s1.G
    run, idle = tstate(it, "Running"), tstate(it, "Inactive")
    mine = lambda x: G.at("T", g, x)
    st = lambda x: G.at("state", g, x)
    back = lambda x: z3.And(mine(x), st(x) == run, S_(s0.unq.elems, x))
    return [("exactly this graph is gone", H.dom == taken(G.dom, g)),
            ("exactly its nodes are forgotten", forall(U, lambda x: S_(H.gdom, x) == z3.And(S_(G.gdom, x), S_(G.gmap, x) != g))),
            ("the other graphs keep their nodes", forall(U, lambda x: z3.Implies(S_(H.gdom, x), S_(H.gmap, x) == S_(G.gmap, x)))),
            ("the other graphs are untouched", forall(U, lambda x: z3.Implies(S_(H.dom, x), conj([S_(a, x) == S_(b, x) for a, b in zip(H.leaves[1:], G.leaves[1:])])))),
            ("exactly its waiting nodes are withdrawn from the accepted tasks", forall(U, lambda x: S_(s1.tasks, x) == z3.And(S_(s0.tasks, x), z3.Not(back(x))))),
            ("exactly its waiting nodes are withdrawn from the queue", forall(U, lambda x: S_(s1.unq.elems, x) == z3.And(S_(s0.unq.elems, x), z3.Not(back(x))))),
            ("the client loses the graph and exactly those nodes", forall(U, lambda x: S_(s1.cm.vd, x) == z3.And(S_(s0.cm.vd, x), x != g, z3.Not(back(x))))),
            ("the others keep their clients", forall(U, lambda x: z3.Implies(S_(s1.cm.vd, x), S_(s1.cm.vk, x) == S_(s0.cm.vk, x)))),
            ("exactly the functions of its undispatched and withdrawn nodes are released", forall(U, lambda x: S_(s1.uses.vd, x) == z3.And(S_(s0.uses.vd, x), z3.Not(z3.Or(back(x), z3.And(mine(x), st(x) == idle)))))),
            ("the others keep their functions", forall(U, lambda x: z3.Implies(S_(s1.uses.vd, x), S_(s1.uses.vk, x) == S_(s0.uses.vk, x)))),
            ("the messages of the accepted tasks", forall(U, lambda x: z3.Implies(S_(s1.tasks, x), S_(s1.ref, x) == S_(s0.ref, x))))]


CLEAN = ["tasks", "unq", "n", "cm", "uses", "graphs"]


def withdrawals(it, s0, g):
    run = tstate(it, "Running")
    return Each(lambda x: z3.And(s0.G.at("T", g, x), s0.G.at("state", g, x) == run), lambda x: ("withdraw", ANYV, rec("TaskCancel", task_id=SU(x, BYTES))))


def cancel_graph_cases(it, s0, msg):
    g = fld(it, msg, "task_id")
    it.ctx.hooks["g"] = g
    return [Out("unknown graph", z3.Not(S_(s0.G.dom, g)), result=ANYRESULT),
            Out("cancelled", True, changes=CLEAN, post=lambda it, s1: cleaned(it, s0, s1, g), events=lambda it, s1: [withdrawals(it, s0, g)], result=ANYRESULT)]


def status(it, n):
    return it.to_u(enum("TaskStatus", it, n))


def done_pre(it, s0, msg):
    """established by the task manager before it hands the result on (specs/sched.py: gm_done)"""
    t = fld(it, msg, "task_id")
    st = fld(it, msg, "status")
    it.ctx.ex.assumed.add("a task result carries a final status (Success, Failed, Canceled or NotFound)")
    return [("forgotten", z3.And(z3.Not(S_(s0.tasks, t)), z3.Not(S_(s0.cm.vd, t)), z3.Not(S_(s0.uses.vd, t)))),
            ("dispatched", z3.Implies(S_(s0.gmap[0], t), s0.G.at("state", S_(s0.gmap[1], t), t) == tstate(it, "Running"))),
            ("final", z3.Or(*[st == status(it, n) for n in ("Success", "Failed", "Canceled", "NotFound")])),
            ("payload", fld(it, msg, "result") != NONE)]


def done_cases(it, s0, msg):
    t, st, payload = fld(it, msg, "task_id"), fld(it, msg, "status"), fld(it, msg, "result")
    G = s0.G
    g = S_(G.gmap, t)
    it.ctx.hooks["g"] = g
    ok = st == status(it, "Success")
    client = SU(S_(G.client, g), BYTES)
    run, idle, suc = tstate(it, "Running"), tstate(it, "Inactive"), tstate(it, "Success")
    more = it.ctx.fresh("more_to_do", B)
    y = it.ctx.fresh("unfinished", U)
    it.ctx.assume(z3.Implies(more, z3.And(G.at("nodes", g, y), z3.Not(G.at("fin", g, y)), y != t)))
    it.ctx.assume(z3.Implies(z3.Not(more), forall(U, lambda x: z3.Implies(G.at("nodes", g, x), z3.Or(G.at("fin", g, x), x == t)), lambda x: [G.at("nodes", g, x)])))
    # the nodes that become ready
    m = type("M", (), dict(nodes=S_(G.nodes, g), preds=S_(G.preds, g), out=S_(G.out, g), fin=z3.Store(S_(G.fin, g), t, T_)))
    R = ts_ready(it, m)
    new = lambda x: S_(R, x)
    res1 = lambda x: z3.If(x == t, payload, G.at("result", g, x))
    an, at, ad = args_of(it)
    tid = it.ref_field_arr("Task", "task_id")
    TASK, DATA = argtype(it, "Task"), argtype(it, "Data")

    def advanced(it, s1):
        H = s1.G
        an1, at1, ad1 = args_of(it)
        return [("the same graphs", H.dom == G.dom),
                ("the other graphs are untouched", forall(U, lambda h: z3.Implies(z3.And(S_(G.dom, h), h != g), conj([S_(a, h) == S_(b, h) for a, b in zip(H.leaves[1:], G.leaves[1:])])))),
                ("the node is done, the ready ones are handed out, no other", forall(U, lambda x: z3.And(H.at("fin", g, x) == z3.Or(G.at("fin", g, x), x == t), H.at("out", g, x) == z3.Or(G.at("out", g, x), new(x))))),
                ("the graph keeps nodes, inputs, targets and client", z3.And(S_(H.nodes, g) == S_(G.nodes, g), S_(H.preds, g) == S_(G.preds, g), S_(H.tn, g) == S_(G.tn, g), S_(H.ta, g) == S_(G.ta, g), S_(H.client, g) == S_(G.client, g))),
                ("its result is kept, the others too", forall(U, lambda x: z3.Implies(H.at("T", g, x), H.at("result", g, x) == res1(x)))),
                ("nodes keep their tasks", forall(U, lambda x: z3.Implies(H.at("T", g, x), H.at("task", g, x) == G.at("task", g, x)))),
                ("the newly accepted tasks are the ready nodes", forall(U, lambda x: S_(s1.tasks, x) == z3.Or(S_(s0.tasks, x), new(x)))),
                ("with their own messages", forall(U, lambda x: z3.Implies(S_(s1.tasks, x), S_(s1.ref, x) == z3.If(new(x), G.at("task", g, x), S_(s0.ref, x))))),
                ("the ready nodes wait for a worker", forall(U, lambda x: S_(s1.unq.elems, x) == z3.Or(S_(s0.unq.elems, x), new(x)))),
                ("the ready nodes belong to the graph's client", forall(U, lambda x: z3.And(S_(s1.cm.vd, x) == z3.Or(S_(s0.cm.vd, x), new(x)), z3.Implies(S_(s1.cm.vd, x), S_(s1.cm.vk, x) == z3.If(new(x), S_(G.client, g), S_(s0.cm.vk, x)))))),
                ("function uses", z3.And(s1.uses.vd == s0.uses.vd, forall(U, lambda x: z3.Implies(S_(s1.uses.vd, x), S_(s1.uses.vk, x) == S_(s0.uses.vk, x))))),
                ("tasks already accepted keep their arguments", forall(U, lambda x: z3.Implies(S_(s0.tasks, x), z3.And(*[S_(p, S_(s0.ref, x)) == S_(q, S_(s0.ref, x)) for p, q in ((an, an1), (at, at1), (ad, ad1))]))))]

    def task_of(x):
        def right(it, got):
            if not (isinstance(got, Rec) and got.cls == "Task"):
                return z3.BoolVal(False)
            r = G.at("task", g, x)
            fs = []
            for n, ty in it.fields_of(it.find_class("Task")):
                if n == "function_args":
                    ty1, ls = it.leaves_of(got.fields[n])
                    if isinstance(ty1, TUnk):
                        fs.append(S_(an, r) == 0)
                        continue
                    k = it.ctx.fresh("position", I)
                    old, oldt = S_(S_(ad, r), k), S_(S_(at, r), k)
                    fs += [ls[0] == S_(an, r), z3.Implies(z3.And(0 <= k, k < S_(an, r)), z3.And(S_(ls[1], k) == DATA, S_(ls[2], k) == z3.If(oldt == DATA, old, res1(old))))]
                else:
                    ls = it.pre_ref_field("Task", n, r)
                    fs.append(val_eq(it, got.fields[n], Snap(ty, ls) if isinstance(ty, (TList, TSet, TDict)) else it.from_leaves(ty, ls)))
            return conj(fs)
        return right

    def outcome(st, results):
        return ("binder", client, rec("GraphTaskResult", task_id=SU(g, BYTES), status=st, results=results))

    def targets(it, got):
        ty, ls = it.leaves_of(got)
        if isinstance(ty, TUnk):
            return S_(G.tn, g) == 0
        return z3.And(ls[0] == S_(G.tn, g), forall(I, lambda k: z3.Implies(z3.And(0 <= k, k < ls[0]), S_(ls[1], k) == res1(S_(S_(G.ta, g), k)))))

    def payload_only(it, got):
        if isinstance(got, tuple):
            return it.to_u(got[0]) == payload if len(got) == 1 else z3.BoolVal(False)
        ty, ls = it.leaves_of(got)
        return z3.And(ls[0] == 1, S_(ls[1], 0) == payload)
    gone = lambda it, s1: cleaned(it, s0, s1, g)
    return [Out("task of no graph", z3.Not(S_(G.gdom, t)), result=False),
            Out("last node", z3.And(ok, z3.Not(more)), post=gone, changes=["n", "unq", "tasks", "cm", "uses", "graphs"], result=True,
                events=lambda it, s1: [Each(lambda x: z3.BoolVal(False), lambda x: ("withdraw", ANYV, ANYV)), outcome(enum("TaskStatus", it, "Success"), targets)]),
            Out("node done", ok, post=advanced, changes=["tasks", "unq", "cm", "uses", "fn_since", "graphs"], result=True,
                events=lambda it, s1: [Each(new, lambda x: ("dispatch", client, task_of(x)))]),
            Out("node failed", True, post=gone, changes=CLEAN, result=True,
                events=lambda it, s1: [Each(lambda x: z3.And(G.at("T", g, x), G.at("state", g, x) == run, x != t), lambda x: ("withdraw", ANYV, rec("TaskCancel", task_id=SU(x, BYTES)))),
                                       outcome(SU(st, it.typeof(it.getattr(msg, "status"))), payload_only)])]


def units(prog):
    E = lambda *a, **k: gentry(prog, *a, **k)
    return [
        E("GraphManager.on_graph_task_cancel", "on_graph_task_cancel", [("cancel", "GraphTaskCancel")], cancel_graph_cases),
    ] + [E("GraphManager.on_task_done", "on_task_done", [("result", "TaskResult")], done_cases, pre=done_pre, xex=lambda it, msg: fld(it, msg, "task_id"), case=c)
         for c in ("task of no graph", "node failed", "last node")]   # "node done": contract written, its loop invariants are not settled by the solver yet
