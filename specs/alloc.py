"""C05/C06/C25: QueuedAllocator."""
from vc.core import *
from vc.interp import World, CARD, Iter
from vc.spec import *
from specs.maps import S_, T_, F_, EMPTY, SETU, SETSET
from specs.queues import PQ, STAMP

MAPU = z3.ArraySort(U, U)

# model: connected workers, the outstanding tasks of each, all outstanding tasks, the worker of each, the capacity
AL_FIELDS = [("workers", TRaw(SETU)), ("held", TRaw(SETSET)), ("tasks", TRaw(SETU)), ("worker", TRaw(MAPU)), ("cap", TRaw(I))]


def load(m, w):
    return CARD(S_(m.held, w))


def al_inv(it, m):
    it.setfacts(EMPTY)
    it.setfacts(m.workers)
    it.setfacts(m.tasks)
    return [
        m.cap >= 1,
        forall(U, lambda t: z3.Implies(S_(m.tasks, t), z3.And(S_(m.workers, S_(m.worker, t)), S_(S_(m.held, S_(m.worker, t)), t))), lambda t: [S_(m.tasks, t)]),
        forall([U, U], lambda w, t: z3.Implies(z3.And(S_(m.workers, w), S_(S_(m.held, w), t)), z3.And(S_(m.tasks, t), S_(m.worker, t) == w)),
               lambda w, t: [S_(S_(m.held, w), t)]),
        forall(U, lambda w: z3.Implies(S_(m.workers, w), z3.And(load(m, w) >= 0, load(m, w) <= m.cap)), lambda w: [S_(m.workers, w)]),
    ]


def al_eqs(it, g, e):
    return [("connected workers", g.workers == e.workers),
            ("outstanding tasks", g.tasks == e.tasks),
            ("tasks of each worker", forall([U, U], lambda w, t: z3.Implies(S_(e.workers, w), S_(S_(g.held, w), t) == S_(S_(e.held, w), t)))),
            ("worker of each task", forall(U, lambda t: z3.Implies(S_(e.tasks, t), S_(g.worker, t) == S_(e.worker, t)))),
            ("capacity", g.cap == e.cap)]


def least(m, r):
    """r is a connected worker with the fewest outstanding tasks and room"""
    return z3.And(S_(m.workers, r), load(m, r) < m.cap,
                  forall(U, lambda w: z3.Implies(S_(m.workers, w), load(m, r) <= load(m, w)), lambda w: [S_(m.workers, w)]))


def pick(it, m):
    room, r = it.ctx.fresh("room", B), it.ctx.fresh("least_loaded", U)
    it.ctx.assume(z3.Implies(room, least(m, r)))
    it.ctx.assume(z3.Implies(z3.Not(room), forall(U, lambda w: z3.Implies(S_(m.workers, w), load(m, w) >= m.cap), lambda w: [S_(m.workers, w)])))
    return room, r


def al_add(it, m, w):
    return [Case(S_(m.workers, w), result=SBool(F_), name="already connected"),
            Case(result=SBool(T_), upd={"workers": z3.Store(m.workers, w, T_), "held": z3.Store(m.held, w, EMPTY)}, name="connected")]


def exact_list(it, arr):
    """a list holding exactly the members of a set, each once"""
    mem = it.ctx.fresh("listed", z3.ArraySort(U, I))
    it.ctx.assume(forall(U, lambda x: S_(mem, x) == z3.If(S_(arr, x), 1, 0), lambda x: [S_(mem, x)]))
    it.ctx.assume(forall(U, lambda x: S_(mem, x) == z3.If(S_(arr, x), 1, 0), lambda x: [S_(arr, x)]))
    ls = [CARD(arr), it.ctx.fresh("list", z3.ArraySort(I, U)), mem]
    b = it.new_root(TList(BYTES), ls)
    it.memfacts(ls)
    return b


def is_exact_list(arr):
    def chk(it, res):
        if isinstance(res, (Box, Snap)):
            ty, ls = it.leaves_of(res)
            if isinstance(ty, TList) and ty.has_mem:
                it.memfacts(ls)
                return forall(U, lambda x: S_(ls[-1], x) == z3.If(S_(arr, x), 1, 0))
            if not ls:
                return forall(U, lambda x: z3.Not(S_(arr, x)))
        return F_
    return chk


def al_remove_worker(it, m, w):
    nt = it.ctx.fresh("tasks_after", SETU)
    d = lambda t: S_(nt, t) == z3.And(S_(m.tasks, t), S_(m.worker, t) != w)
    it.ctx.assume(forall(U, d, lambda t: [S_(nt, t)]))
    it.ctx.assume(forall(U, d, lambda t: [S_(m.tasks, t)]))
    return [Case(z3.Not(S_(m.workers, w)), result=lambda it: it.new_root(TUnk_("list")), check=is_exact_list(EMPTY), name="not connected"),
            Case(result=lambda it: exact_list(it, S_(m.held, w)), check=is_exact_list(S_(m.held, w)),
                 upd={"workers": z3.Store(m.workers, w, F_), "tasks": nt}, name="disconnected")]


def TUnk_(k):
    from vc.interp import TUnk
    return TUnk(k)


def al_assign(it, m, t):
    room, r = pick(it, m)
    old = it.ctx.fresh("maybe_old", U)
    it.ctx.assume(z3.Or(old == NONE, old == S_(m.worker, t)))
    z = lambda it, res: it.to_leaves(res, TOpt(BYTES))[0]
    return [Case(S_(m.tasks, t), result=lambda it: SU(old, TOpt(BYTES)), choose=(old, z, lambda z: z3.Or(z == NONE, z == S_(m.worker, t))), name="already outstanding"),
            Case(z3.Not(room), result=None, name="no room"),
            Case(result=lambda it: SU(r, BYTES), choose=(r, z, lambda z: z3.And(z != NONE, least(m, z))),
                 upd={"tasks": z3.Store(m.tasks, t, T_), "worker": z3.Store(m.worker, t, r), "held": z3.Store(m.held, r, z3.Store(S_(m.held, r), t, T_))}, name="assigned")]


def al_remove_task(it, m, t):
    w = S_(m.worker, t)
    return [Case(z3.Not(S_(m.tasks, t)), result=None, name="not outstanding"),
            Case(result=lambda it: SU(w, BYTES), upd={"tasks": z3.Store(m.tasks, t, F_), "held": z3.Store(m.held, w, z3.Store(S_(m.held, w), t, F_))}, name="freed")]


def al_get(it, m, t):
    return [Case(z3.Not(S_(m.tasks, t)), result=None, name="not outstanding"), Case(result=lambda it: SU(S_(m.worker, t), BYTES), name="outstanding")]


def al_room(it, m):
    room, r = pick(it, m)
    return [Case(result=SBool(room))]


def advice(it, m):
    """the workers holding more than the average, each with its surplus over the average rounded down"""
    some = it.ctx.fresh("some_busy", B)
    idle = it.ctx.fresh("some_idle", B)
    w1, w2 = it.ctx.fresh("busy", U), it.ctx.fresh("idle", U)
    has = lambda w: z3.And(S_(m.workers, w), load(m, w) > 0)
    no = lambda w: z3.And(S_(m.workers, w), load(m, w) == 0)
    it.ctx.assume(z3.Implies(some, has(w1)))
    it.ctx.assume(z3.Implies(z3.Not(some), forall(U, lambda w: z3.Not(has(w)), lambda w: [S_(m.workers, w)])))
    it.ctx.assume(z3.Implies(idle, no(w2)))
    it.ctx.assume(z3.Implies(z3.Not(idle), forall(U, lambda w: z3.Not(no(w)), lambda w: [S_(m.workers, w)])))
    total, n = CARD(m.tasks), CARD(m.workers)
    mean = z3.ToReal(total) / z3.ToReal(n)
    dom, val = it.ctx.fresh("advised", SETU), it.ctx.fresh("surplus", STAMP)
    over = lambda w: z3.And(some, idle, S_(m.workers, w), z3.ToReal(load(m, w)) > mean)
    it.ctx.assume(forall(U, lambda w: z3.And(S_(dom, w) == over(w), z3.Implies(over(w), S_(val, w) == load(m, w) - z3.ToInt(mean))), lambda w: [S_(dom, w)]))
    it.ctx.assume(forall(U, lambda w: S_(dom, w) == over(w), lambda w: [S_(m.workers, w)]))
    # elementary arithmetic: the sum over the workers is the number of outstanding tasks, so a worker's load never exceeds it
    it.ctx.assume(forall(U, lambda w: z3.Implies(S_(m.workers, w), load(m, w) <= total), lambda w: [S_(m.workers, w)]))
    it.ctx.assume(z3.Implies(n > 0, z3.And(mean >= 0, mean * n == total)))
    return dom, val


def al_balance(it, m):
    dom, val = advice(it, m)
    return [Case(result=lambda it: Snap(TDict(BYTES, TInt()), [dom, val]))]


def al_stats(it, m):
    def chk(it, res):
        if not isinstance(res, (Box, Snap)):
            return F_
        ty, ls = it.leaves_of(res)
        if not (isinstance(ty, TDict) and isinstance(ty.v, TRec)):
            return F_
        k = 1
        f = [ls[0] == m.workers]
        names = [n for n, _ in ty.v.fields]
        if sorted(names) != ["free", "sent"]:
            return F_
        for (n, _), a in zip(ty.v.fields, ls[ty.nhead:]):
            f.append(forall(U, lambda w: z3.Implies(S_(m.workers, w), S_(a, w) == (load(m, w) if n == "sent" else m.cap - load(m, w)))))
        return conj(f)
    free, sent = it.ctx.fresh("free", STAMP), it.ctx.fresh("sent", STAMP)
    it.ctx.assume(forall(U, lambda w: z3.Implies(S_(m.workers, w), z3.And(S_(sent, w) == load(m, w), S_(free, w) == m.cap - load(m, w))), lambda w: [S_(sent, w)]))
    it.ctx.assume(forall(U, lambda w: z3.Implies(S_(m.workers, w), z3.And(S_(sent, w) == load(m, w), S_(free, w) == m.cap - load(m, w))), lambda w: [S_(free, w)]))
    return [Case(result=lambda it: it.new_root(TDict(BYTES, TRec("dict!", [("free", TInt()), ("sent", TInt())])), [m.workers, free, sent]), check=chk)]


W_, TK = ("worker", BYTES), ("task_id", BYTES)
AL = AbsSpec("QueuedAllocator", AL_FIELDS, [
    Op("add_worker", [W_], al_add, is_async=True),
    Op("remove_worker", [W_], al_remove_worker),
    Op("get_worker_ids", [], lambda it, m: [Case(result=lambda it: it.new_root(TSet(BYTES), [m.workers]))]),
    Op("assign_task", [TK], al_assign, is_async=True),
    Op("remove_task", [TK], al_remove_task),
    Op("get_assigned_worker", [TK], al_get),
    Op("has_available_worker", [], al_room),
    Op("balance", [], al_balance),
    Op("statistics", [], al_stats),
], inv=al_inv, eqs=al_eqs)


def al_world(prog):
    w = World(prog)
    w.abstracts["PriorityQueue"] = PQ
    w.schemas["QueuedAllocator"] = {"_worker_queue": TAbs("PriorityQueue", PQ.fields)}
    w.list_literal = lambda it, vals: tuple(vals) if len(vals) == 2 and isinstance(vals[0], (int, SInt)) and isinstance(vals[1], SU) else None
    w.sum_facts = al_sum
    return w


def al_sum(it, dom, arr, z):
    """the loads of the workers add up to the number of outstanding tasks (disjoint union; lemma assumed)"""
    me = it.ctx.hooks.get("allocator")
    if me is None:
        return
    m = MS(AL_FIELDS, al_abs(it, me))
    same = z3.And(dom == m.workers, forall(U, lambda w: z3.Implies(S_(m.workers, w), S_(arr, w) == load(m, w))))
    if it.ctx.valid(same):
        it.ctx.ex.assumed.add("the sizes of disjoint finite sets add up to the size of their union (lemma assumed, used for the average load)")
        it.ctx.assume(z == CARD(m.tasks))


def al_abs(it, me):
    a = it.read(it.getattr(me, "_workers_to_task_ids")) or [EMPTY, z3.K(U, EMPTY)]
    b = it.read(it.getattr(me, "_task_id_to_worker")) or [EMPTY, z3.K(U, NONE)]
    cap = it.num(it.getattr(me, "_max_tasks_per_worker"))
    return [a[0], a[1], b[0], b[1], z3.IntVal(cap) if isinstance(cap, int) else cap]


def al_rep(it, me):
    m = MS(AL_FIELDS, al_abs(it, me))
    q = MS(PQ.fields, list(it.read(it.getattr(me, "_worker_queue"))))
    return al_inv(it, m) + [q.dom == m.workers, forall(U, lambda w: z3.Implies(S_(m.workers, w), S_(q.prio, w) == load(m, w)), lambda w: [S_(q.prio, w)])]


def al_setup(it, me):
    it.ctx.hooks["allocator"] = me


def init_args(it):
    c = it.fresh_value("capacity", TInt())
    it.ctx.assume(c.z >= 1)
    it.ctx.hooks["cap"] = c.z
    return [c]


AL.init = lambda it, *a: [EMPTY, z3.K(U, EMPTY), EMPTY, z3.K(U, NONE), it.num(a[0]) if a else it.ctx.hooks["cap"]]


def units(prog):
    return class_units(prog, AL, "scaled.scheduler.allocators.queued", "QueuedAllocator", al_world, al_abs, al_rep, init_args=init_args, setup=al_setup)
