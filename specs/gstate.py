"""Graph manager state: its model, invariants and the contract of the standard library's TopologicalSorter."""
from vc.core import *
from vc.interp import Iter, TUnk
from vc.spec import *
from specs.maps import S_, T_, F_, EMPTY, SETU, SETSET

TS_FIELDS = [("nodes", TRaw(SETU)), ("preds", TRaw(SETSET)), ("out", TRaw(SETU)), ("fin", TRaw(SETU)), ("ready", TRaw(B))]


def ts_init(it, graph=None):
    """TopologicalSorter(graph): graph maps each node to the set of its predecessors, predecessors are nodes too"""
    it.ctx.ex.assumed.add("graphlib.TopologicalSorter behaves as documented (ready nodes are those not handed out before whose predecessors are all done; a prepared sorter is inactive only once all nodes are done)")
    if graph is None:
        return [EMPTY, z3.K(U, EMPTY), EMPTY, EMPTY, F_]
    ty, ls = it.leaves_of(graph)
    if isinstance(ty, TUnk):
        return [EMPTY, z3.K(U, EMPTY), EMPTY, EMPTY, F_]
    if not (isinstance(ty, TDict) and isinstance(ty.v, TSet)):
        raise Unsupported(f"TopologicalSorter({ty})")
    dom, val = ls[0], ls[ty.nhead]
    nodes = it.ctx.fresh("ts_nodes", SETU)
    preds = it.ctx.fresh("ts_preds", SETSET)
    user = z3.Function(f"ts_user!{it.ctx.n}", U, U)
    it.ctx.assume(forall(U, lambda x: z3.Implies(S_(dom, x), S_(nodes, x)), lambda x: [S_(dom, x)]))
    it.ctx.assume(forall([U, U], lambda x, p: z3.Implies(z3.And(S_(dom, x), S_(S_(val, x), p)), S_(nodes, p)), lambda x, p: [S_(S_(val, x), p)]))
    it.ctx.assume(forall(U, lambda p: z3.Implies(S_(nodes, p), z3.Or(S_(dom, p), z3.And(S_(dom, user(p)), S_(S_(val, user(p)), p)))), lambda p: [S_(nodes, p)]))
    it.ctx.assume(forall(U, lambda x: S_(preds, x) == z3.If(S_(dom, x), S_(val, x), EMPTY), lambda x: [S_(preds, x)]))
    return [nodes, preds, EMPTY, EMPTY, F_]


def ts_ready(it, m):
    """the set of nodes that can be handed out now"""
    r = it.ctx.fresh("ts_ready", SETU)
    miss = z3.Function(f"ts_miss!{it.ctx.n}", U, U)
    it.ctx.assume(forall(U, lambda x: z3.Implies(S_(r, x), z3.And(S_(m.nodes, x), z3.Not(S_(m.out, x)))), lambda x: [S_(r, x)]))
    it.ctx.assume(forall([U, U], lambda x, p: z3.Implies(z3.And(S_(r, x), S_(S_(m.preds, x), p)), S_(m.fin, p)), lambda x, p: [z3.MultiPattern(S_(r, x), S_(S_(m.preds, x), p))]))
    left = lambda x: z3.Implies(z3.And(S_(m.nodes, x), z3.Not(S_(m.out, x)), z3.Not(S_(r, x))), z3.And(S_(S_(m.preds, x), miss(x)), z3.Not(S_(m.fin, miss(x)))))
    it.ctx.assume(forall(U, left, lambda x: [S_(r, x)]))
    it.ctx.assume(forall(U, left, lambda x: [S_(m.nodes, x)]))
    it.setfacts(r)
    return r


def ts_active(it, m):
    a = it.ctx.fresh("ts_active", B)
    x = it.ctx.fresh("ts_undone", U)
    it.ctx.assume(z3.Implies(a, z3.And(S_(m.nodes, x), z3.Not(S_(m.fin, x)))))
    it.ctx.assume(z3.Implies(z3.Not(a), forall(U, lambda y: z3.Implies(S_(m.nodes, y), S_(m.fin, y)), lambda y: [S_(m.nodes, y)])))
    return [Case(z3.Not(m.ready), raises="ValueError", name="not prepared"), Case(result=SBool(a), name="asked")]


def ts_get_ready(it, m):
    r = ts_ready(it, m)
    out = it.ctx.fresh("ts_out", SETU)
    it.ctx.assume(forall(U, lambda x: S_(out, x) == z3.Or(S_(m.out, x), S_(r, x)), lambda x: [S_(out, x)]))
    it.ctx.assume(forall(U, lambda x: z3.Implies(S_(m.out, x), S_(out, x)), lambda x: [S_(m.out, x)]))
    it.ctx.assume(forall(U, lambda x: z3.Implies(S_(r, x), S_(out, x)), lambda x: [S_(r, x)]))
    return [Case(z3.Not(m.ready), raises="ValueError", name="not prepared"), Case(upd={"out": out}, result=lambda it: Snap(TSet(BYTES), [r]), name="handed out")]


def ts_done(it, m, x):
    return [Case(z3.Not(m.ready), raises="ValueError", name="not prepared"), Case(z3.Not(S_(m.nodes, x)), raises="ValueError", name="unknown node"),
            Case(z3.Not(S_(m.out, x)), raises="ValueError", name="not handed out"), Case(S_(m.fin, x), raises="ValueError", name="done already"),
            Case(upd={"fin": z3.Store(m.fin, x, T_)}, name="done")]


def ts_prepare(it, m):
    """the nodes and their predecessors have no cycle, or CycleError"""
    return [Case(m.ready, raises="ValueError", name="prepared already"), Case(CYCLIC(m.nodes, m.preds), raises="CycleError", name="cycle"), Case(upd={"ready": T_}, name="prepared")]


CYCLIC = z3.Function("cyclic", SETU, SETSET, B)
TS = AbsSpec("TopologicalSorter", TS_FIELDS, [
    Op("prepare", [], ts_prepare), Op("is_active", [], ts_active), Op("get_ready", [], ts_get_ready), Op("done", [("node", ANY)], ts_done),
], init=ts_init)


class Gr:
    """the graph manager's tables: every leaf is indexed by the graph's id first"""

    def __init__(self, it, gm):
        self.it = it
        self.box = it.getattr(gm, "_graph_task_id_to_graph")
        self.ty = it.type_at(self.box)
        ls = list(it.read(self.box))
        self.dom = ls[0]
        h = self.ty.nhead
        self.leaves = ls
        self.leaf(self.ty.v, ls[h:])
        self.gdom, self.gmap = it.read(it.getattr(gm, "_task_id_to_graph_task_id"))

    def leaf(self, ty, ls):
        def get(t, l, n):
            a, b, t2 = t.offset(n)
            return l[a:b], t2
        (self.tn, self.ta, self.tm), _ = get(ty, ls, "target_task_ids")
        (self.ids,), _ = get(ty, ls, "task_ids")
        (self.nodes, self.preds, self.out, self.fin, self.prep), _ = get(ty, ls, "sorter")
        tl, tt = get(ty, ls, "tasks")
        self.T = tl[0]
        (self.state,), _ = get(tt.v, tl[tt.nhead:], "state")
        (self.task,), _ = get(tt.v, tl[tt.nhead:], "task")
        (self.result,), _ = get(tt.v, tl[tt.nhead:], "result")
        (self.kd, self.ks), _ = get(ty, ls, "dependencies")
        (self.client,), _ = get(ty, ls, "client")

    # per graph and node
    def at(self, n, g, *xs):
        v = S_(getattr(self, n), g)
        for x in xs:
            v = S_(v, x)
        return v


def tstate(it, name):
    ci = it.find_class("_TaskState")
    return it.to_u(it.getattr(ClassV(ci.name, ci.module, ci), name))


def xinv(it, s, ex=None):
    """what the graph manager's nodes and the other managers' tables say about each other (ex: a node left out)"""
    G = s.G
    tid, fid = it.ref_field_arr("Task", "task_id"), it.ref_field_arr("Task", "function_id")
    run, idle = tstate(it, "Running"), tstate(it, "Inactive")
    st = lambda t: G.at("state", S_(G.gmap, t), t)
    tk = lambda t: G.at("task", S_(G.gmap, t), t)
    ok = lambda t: z3.And(S_(G.gdom, t), t != ex) if ex is not None else S_(G.gdom, t)
    pt = lambda t: [S_(G.gdom, t)]
    return [
        ("a dispatched node is an accepted task of its graph's client", forall(U, lambda t: z3.Implies(z3.And(ok(t), st(t) == run), z3.And(S_(s.tasks, t), S_(s.ref, t) == tk(t), S_(s.cm.vd, t), S_(s.cm.vk, t) == G.at("client", S_(G.gmap, t)))), pt)),
        ("a node not dispatched yet or done is no accepted task", forall(U, lambda t: z3.Implies(z3.And(ok(t), st(t) != run), z3.And(z3.Not(S_(s.tasks, t)), z3.Not(S_(s.cm.vd, t)))), pt)),
        ("the function of a node not dispatched yet is marked as used by it", forall(U, lambda t: z3.Implies(z3.And(ok(t), st(t) == idle), z3.And(S_(s.uses.vd, t), S_(s.uses.vk, t) == S_(fid, tk(t)))), pt)),
        ("a done node uses no function", forall(U, lambda t: z3.Implies(z3.And(ok(t), st(t) != idle, st(t) != run), z3.Not(S_(s.uses.vd, t))), pt)),
        ("a graph is owned by its client, its id is no task's", forall(U, lambda g: z3.Implies(S_(G.dom, g), z3.And(S_(s.cm.vd, g), S_(s.cm.vk, g) == S_(G.client, g), z3.Not(S_(s.tasks, g)), z3.Not(S_(G.gdom, g)))), lambda g: [S_(G.dom, g)])),
    ]


def node_pat(G, n):
    return lambda g, t: [G.at(n, g, t)]


def ginv(it, s, only=None):
    """structure of every graph; only: of this graph alone"""
    G = s.G
    tid = it.ref_field_arr("Task", "task_id")
    an, at, ad = args_of(it)
    run, idle, suc = tstate(it, "Running"), tstate(it, "Inactive"), tstate(it, "Success")
    TASK = argtype(it, "Task")
    A = lambda n: (lambda g, *x: G.at(n, g, *x))
    Tk, ids, nodes, preds, out, fin, state, task, res, kd, ks = [A(n) for n in ("T", "ids", "nodes", "preds", "out", "fin", "state", "task", "result", "kd", "ks")]
    dom = lambda g: S_(G.dom, g)

    def fa(n, f, pats):
        """for every graph (and more)"""
        import inspect
        k = len(inspect.signature(f).parameters) - 1
        if only is not None:
            q = forall([U] * k, lambda *x: f(only, *x), (lambda *x: pats(only, *x))) if k else f(only)
            return (n, z3.Implies(dom(only), q))
        return (n, forall([U] * (k + 1), lambda g, *x: z3.Implies(dom(g), f(g, *x)), pats))
    out_ = [
        fa("a graph's nodes point back to it", lambda g, t: z3.Implies(Tk(g, t), z3.And(S_(G.gdom, t), S_(G.gmap, t) == g)), lambda g, t: [Tk(g, t)]),
        fa("targets are kept", lambda g, t: z3.Implies(G.at("tm", g, t) > 0, Tk(g, t)), lambda g, t: [G.at("tm", g, t)]),
        fa("sorter and node list agree", lambda g, t: ids(g, t) == nodes(g, t), lambda g, t: [ids(g, t)]),
        fa("sorter and node list agree (2)", lambda g, t: ids(g, t) == nodes(g, t), lambda g, t: [nodes(g, t)]),
        fa("the sorter is prepared", lambda g: S_(G.prep, g), lambda g: [S_(G.dom, g)]),
        fa("kept nodes are nodes", lambda g, t: z3.Implies(Tk(g, t), ids(g, t)), lambda g, t: [Tk(g, t)]),
        fa("nodes no longer kept are done", lambda g, t: z3.Implies(z3.And(ids(g, t), z3.Not(Tk(g, t))), fin(g, t)), lambda g, t: [ids(g, t)]),
        fa("handed out nodes are nodes", lambda g, t: z3.Implies(out(g, t), nodes(g, t)), lambda g, t: [out(g, t)]),
        fa("done nodes were handed out", lambda g, t: z3.Implies(fin(g, t), out(g, t)), lambda g, t: [fin(g, t)]),
        fa("inputs are nodes", lambda g, t, p: z3.Implies(z3.And(nodes(g, t), preds(g, t, p)), nodes(g, p)), lambda g, t, p: [preds(g, t, p)]),
        fa("a node is dispatched when handed out and done when its result came", lambda g, t: z3.Implies(Tk(g, t), state(g, t) == z3.If(fin(g, t), suc, z3.If(out(g, t), run, idle))), lambda g, t: [Tk(g, t)]),
        fa("a done node has its result", lambda g, t: z3.Implies(z3.And(Tk(g, t), fin(g, t)), res(g, t) != NONE), lambda g, t: [Tk(g, t)]),
        fa("a node is handed out only after its inputs", lambda g, t, p: z3.Implies(z3.And(out(g, t), preds(g, t, p)), fin(g, p)), lambda g, t, p: [preds(g, t, p)]),
        fa("a node whose inputs are done is handed out", lambda g, t: z3.Implies(z3.And(nodes(g, t), z3.Not(out(g, t))), exists(U, lambda p: z3.And(preds(g, t, p), z3.Not(fin(g, p))))), lambda g, t: [nodes(g, t)]),
        fa("a node's task is its own", lambda g, t: z3.Implies(Tk(g, t), z3.And(task(g, t) != NONE, S_(tid, task(g, t)) == t)), lambda g, t: [Tk(g, t)]),
        fa("inputs of a waiting node are its task arguments", lambda g, t, p: z3.Implies(z3.And(Tk(g, t), z3.Not(out(g, t)), preds(g, t, p)),
            exists(I, lambda i: z3.And(0 <= i, i < S_(an, task(g, t)), S_(S_(at, task(g, t)), i) == TASK, S_(S_(ad, task(g, t)), i) == p))), lambda g, t, p: [preds(g, t, p)]),
        (lambda n: (n, z3.Implies(dom(only), forall([U, I], lambda t, i: z3.Implies(z3.And(Tk(only, t), z3.Not(out(only, t)), 0 <= i, i < S_(an, task(only, t)), S_(S_(at, task(only, t)), i) == TASK),
            preds(only, t, S_(S_(ad, task(only, t)), i))), lambda t, i: [S_(S_(ad, task(only, t)), i)])) if only is not None else
            forall([U, U, I], lambda g, t, i: z3.Implies(z3.And(dom(g), Tk(g, t), z3.Not(out(g, t)), 0 <= i, i < S_(an, task(g, t)), S_(S_(at, task(g, t)), i) == TASK),
            preds(g, t, S_(S_(ad, task(g, t)), i))), lambda g, t, i: [S_(S_(ad, task(g, t)), i)])))("task arguments of a waiting node are its inputs"),
        fa("waiting nodes are listed with each of their inputs", lambda g, p, t: z3.And(kd(g, p), ks(g, p, t)) == z3.And(Tk(g, t), z3.Not(out(g, t)), preds(g, t, p)), lambda g, p, t: [ks(g, p, t)]),
        fa("waiting nodes are listed with each of their inputs (2)", lambda g, p, t: z3.Implies(z3.And(Tk(g, t), z3.Not(out(g, t)), preds(g, t, p)), z3.And(kd(g, p), ks(g, p, t))), lambda g, p, t: [preds(g, t, p)]),
        fa("inputs of waiting nodes are kept", lambda g, t, p: z3.Implies(z3.And(Tk(g, t), z3.Not(out(g, t)), preds(g, t, p)), Tk(g, p)), lambda g, t, p: [preds(g, t, p)]),
        fa("no finished graph is kept", lambda g: exists(U, lambda t: z3.And(nodes(g, t), z3.Not(fin(g, t)))), lambda g: [S_(G.dom, g)]),
    ]
    if only is None:
        out_.append(("a node's graph is kept and has it", forall(U, lambda t: z3.Implies(S_(G.gdom, t), z3.And(dom(S_(G.gmap, t)), Tk(S_(G.gmap, t), t))), lambda t: [S_(G.gdom, t)])))
    return out_


def args_of(it):
    """arrays over task references: number of arguments, kinds, data"""
    return it.ctx.heap[it.ref_cell("Task", "function_args")][:3]


def argtype(it, name):
    ci = it.find_class("ArgumentType")
    return it.to_u(it.getattr(ClassV(ci.name, ci.module, ci), name))
