"""C02 IndexedQueue, C03 PriorityQueue."""
from vc.core import *
from vc.interp import World, CARD, Iter
from vc.spec import *
from specs.maps import S_, T_, F_, EMPTY, SETU

STAMP = z3.ArraySort(U, I)

# ------------------------------------------------------------------------------------------------- IndexedQueue
# model: the items inside, the arrival stamp of each, and the stamp of the next arrival
IQ_FIELDS = [("elems", TRaw(SETU)), ("stamp", TRaw(STAMP)), ("clk", TRaw(I))]


def iq_inv(it, m):
    it.setfacts(m.elems)
    return [
        forall(U, lambda x: z3.Implies(S_(m.elems, x), S_(m.stamp, x) < m.clk), lambda x: [S_(m.elems, x)]),
        forall([U, U], lambda x, y: z3.Implies(z3.And(S_(m.elems, x), S_(m.elems, y), x != y), S_(m.stamp, x) != S_(m.stamp, y)),
               lambda x, y: [z3.MultiPattern(S_(m.elems, x), S_(m.elems, y))]),
    ]


def iq_eqs(it, g, e):
    """the same items in the same order"""
    return [("items", g.elems == e.elems),
            ("arrival order", forall([U, U], lambda x, y: z3.Implies(z3.And(S_(e.elems, x), S_(e.elems, y)),
                                                                     (S_(g.stamp, x) < S_(g.stamp, y)) == (S_(e.stamp, x) < S_(e.stamp, y)))))]


def iq_put(it, m, x):
    return [Case(S_(m.elems, x), raises="KeyError", name="already inside"),
            Case(upd={"elems": z3.Store(m.elems, x, T_), "stamp": z3.Store(m.stamp, x, m.clk), "clk": m.clk + 1}, name="entered last")]


def iq_first(it, m):
    """the item that entered first; it exists because a non-empty queue is finite"""
    r = it.ctx.fresh("first", U)
    ne = it.ctx.fresh("nonempty", B)
    it.ctx.assume(z3.Implies(ne, z3.And(S_(m.elems, r), CARD(m.elems) > 0,
                                        forall(U, lambda x: z3.Implies(S_(m.elems, x), S_(m.stamp, r) <= S_(m.stamp, x)), lambda x: [S_(m.elems, x)]))))
    it.ctx.assume(z3.Implies(z3.Not(ne), z3.And(m.elems == EMPTY, CARD(m.elems) == 0)))
    return ne, r


def iq_get(suspend):
    def f(it, m):
        ne, r = iq_first(it, m)
        return [Case(ne, result=lambda it: SU(r, ANY), upd={"elems": z3.Store(m.elems, r, F_)}, name="first item"),
                Case(suspend=True, name="empty") if suspend else Case(raises="QueueEmpty", name="empty")]
    return f


def iq_remove(it, m, x):
    return [Case(z3.Not(S_(m.elems, x)), raises="KeyError", name="not inside"),
            Case(upd={"elems": z3.Store(m.elems, x, F_)}, name="taken out")]


def iq_empty(it, m):
    ne, r = iq_first(it, m)
    return [Case(result=SBool(z3.Not(ne)))]


X = ("item", ANY)
IQ = AbsSpec("IndexedQueue", IQ_FIELDS, [
    Op("put", [X], iq_put, is_async=True),
    Op("put_nowait", [X], iq_put),
    Op("get", [], iq_get(True), is_async=True),
    Op("get_nowait", [], iq_get(False)),
    Op("remove", [X], iq_remove),
    Op("__contains__", [X], lambda it, m, x: [Case(result=SBool(S_(m.elems, x)))]),
    Op("__len__", [], lambda it, m: [Case(result=SInt(CARD(m.elems)))]),
    Op("qsize", [], lambda it, m: [Case(result=SInt(CARD(m.elems)))]),
    Op("empty", [], iq_empty),
], inv=iq_inv, init=lambda it: [EMPTY, z3.K(U, z3.IntVal(0)), z3.IntVal(0)], eqs=iq_eqs)


def iq_world(prog):
    w = World(prog)
    w.refs.add("_Node")
    w.schemas["_Node"] = {"value": ANY}
    return w


def iq_parts(it, me):
    q = it.getattr(me, "_queue")
    dl = it.getattr(q, "_double_linked_list")
    hm = it.read(it.getattr(q, "_hash_map")) or [EMPTY, z3.K(U, NONE)]
    one = lambda o, n: it.to_leaves(it.getattr(o, n), TOpt(TRef("_Node")))[0]
    size = it.to_leaves(it.getattr(dl, "_size"), TInt())[0]
    it.find_class("_Node") if "_Node" in it.known else it.reg(it.prog.cls("scaled.utility.queues.async_indexed_queue", "_Node"))
    f = lambda n: it.ctx.heap[it.ref_cell("_Node", n)][0]
    return hm[0], hm[1], one(dl, "_head"), one(dl, "_tail"), size, f("value"), f("prev"), f("next")


def iq_ghost(it):
    g = it.ctx.hooks
    if "nstamp" not in g:
        g["nstamp"] = z3.Const("pre.node_stamp", STAMP)
        g["clk"] = z3.Const("pre.clk", I)
    key = ("alloc", "_Node")
    if key not in it.ctx.heap:
        it.init_cell(key, TSet(TRef("_Node")), "alloc._Node")
    # nodes allocated since then arrive at clk (at most one per call)
    a = it.ctx.heap[key][0]
    pre = it.ctx.pre[key][0]
    if a.eq(pre):
        return g["nstamp"], g["clk"]
    node = a.arg(1)
    base = a.arg(0)
    if not base.eq(pre):
        raise Unsupported("more than one node created")
    return z3.Store(g["nstamp"], node, g["clk"]), g["clk"] + 1


def iq_abs(it, me):
    dom, hm, *_ = iq_parts(it, me)
    ns, clk = iq_ghost(it)
    st = it.ctx.fresh("stamp_of", STAMP)
    it.ctx.assume(forall(U, lambda x: S_(st, x) == S_(ns, S_(hm, x)), lambda x: [S_(st, x)]))
    return [dom, st, clk]


def iq_rep(it, me):
    dom, hm, head, tail, size, val, prv, nxt = iq_parts(it, me)
    ns, clk = iq_ghost(it)
    alloc = it.ctx.heap[("alloc", "_Node")][0]
    inq = lambda n: z3.And(S_(dom, S_(val, n)), S_(hm, S_(val, n)) == n)
    P = lambda n: [S_(val, n)]
    it.setfacts(dom)
    return [
        size == CARD(dom),
        forall(U, lambda x: z3.Implies(S_(dom, x), z3.And(S_(val, S_(hm, x)) == x, S_(hm, x) != NONE, S_(alloc, S_(hm, x)))), lambda x: [S_(hm, x)]),
        (head == NONE) == (tail == NONE),
        z3.Implies(head == NONE, forall(U, lambda x: z3.Not(S_(dom, x)))),
        z3.Implies(head != NONE, z3.And(inq(head), S_(prv, head) == NONE, inq(tail), S_(nxt, tail) == NONE)),
        forall(U, lambda n: z3.Implies(z3.And(inq(n), n != head), z3.And(S_(prv, n) != NONE, inq(S_(prv, n)), S_(nxt, S_(prv, n)) == n,
                                                                        S_(ns, S_(prv, n)) > S_(ns, n))), lambda n: [S_(prv, n)]),
        forall(U, lambda n: z3.Implies(z3.And(inq(n), n != tail), z3.And(S_(nxt, n) != NONE, inq(S_(nxt, n)), S_(prv, S_(nxt, n)) == n,
                                                                        S_(ns, S_(nxt, n)) < S_(ns, n))), lambda n: [S_(nxt, n)]),
        forall(U, lambda n: z3.Implies(inq(n), S_(ns, n) < clk), lambda n: [S_(ns, n)]),
        forall(U, lambda n: z3.Implies(inq(n), z3.And(S_(ns, tail) <= S_(ns, n), S_(ns, n) <= S_(ns, head))), lambda n: [S_(ns, n)]),
        # neighbours are adjacent in arrival order
        forall([U, U], lambda n, m: z3.Implies(z3.And(inq(n), inq(m), n != head), z3.Or(S_(ns, m) <= S_(ns, n), S_(ns, m) >= S_(ns, S_(prv, n)))),
               lambda n, m: [z3.MultiPattern(S_(prv, n), S_(ns, m))]),
        forall([U, U], lambda n, m: z3.Implies(z3.And(inq(n), inq(m), n != m), S_(ns, n) != S_(ns, m)), lambda n, m: [z3.MultiPattern(S_(ns, n), S_(ns, m))]),
    ]


# ------------------------------------------------------------------------------------------------- PriorityQueue
# model: the data inside and the priority of each (a load count, never below zero)
PQ_FIELDS = [("dom", TRaw(SETU)), ("prio", TRaw(STAMP))]


def pq_inv(it, m):
    it.setfacts(m.dom)
    return [forall(U, lambda x: z3.Implies(S_(m.dom, x), S_(m.prio, x) >= 0), lambda x: [S_(m.dom, x)])]


def pq_eqs(it, g, e):
    return [("entries", g.dom == e.dom),
            ("priorities", forall(U, lambda x: z3.Implies(S_(e.dom, x), S_(g.prio, x) == S_(e.prio, x))))]


def is_least(m, r):
    return z3.And(S_(m.dom, r), forall(U, lambda x: z3.Implies(S_(m.dom, x), S_(m.prio, r) <= S_(m.prio, x)), lambda x: [S_(m.dom, x)]))


def pq_least(it, m):
    r = it.ctx.fresh("least", U)
    ne = it.ctx.fresh("nonempty", B)
    it.ctx.assume(z3.Implies(ne, z3.And(is_least(m, r), CARD(m.dom) > 0)))
    it.ctx.assume(z3.Implies(z3.Not(ne), z3.And(m.dom == EMPTY, CARD(m.dom) == 0)))
    return ne, r


def pq_put(it, m, e):
    p, d = e
    return [Case(upd={"dom": z3.Store(m.dom, d, T_), "prio": z3.Store(m.prio, d, p)}, name="entered")]


def pq_put_pre(it, m, e):
    p, d = e
    return [("the entry is not inside yet", z3.Not(S_(m.dom, d))), ("its priority is not negative", p >= 0)]


def pq_get(suspend):
    """at call sites: some least entry.  For the implementation the least entry actually returned is checked by `pq_result`"""
    def f(it, m):
        ne, r = pq_least(it, m)
        return [Case(ne, result=lambda it: (SInt(S_(m.prio, r)), SU(r, ANY)), upd={"dom": z3.Store(m.dom, r, F_)}, name="least entry",
                     choose=(r, lambda it, res: it.to_u(res[1]) if isinstance(res, tuple) and len(res) == 2 else None, lambda z: is_least(m, z))),
                Case(suspend=True, name="empty") if suspend else Case(raises="QueueEmpty", name="empty")]
    return f


def pq_remove(it, m, d):
    return [Case(z3.Not(S_(m.dom, d)), raises="KeyError", name="absent"),
            Case(upd={"dom": z3.Store(m.dom, d, F_)}, name="taken out")]


def pq_decrease(it, m, d):
    return [Case(z3.Not(S_(m.dom, d)), raises="KeyError", name="absent"),
            Case(upd={"prio": z3.Store(m.prio, d, S_(m.prio, d) - 1)}, name="lowered")]


def pq_max(it, m):
    ne, r = pq_least(it, m)
    return [Case(ne, result=lambda it: SInt(S_(m.prio, r)), name="least priority"), Case(raises="IndexError", name="empty")]


E_ = ("entry", TTuple([TInt(), ANY]))
D_ = ("data", ANY)


def mk_entry(it, vals):
    p, d = vals[0]
    e = it.alloc_ref("Entry")
    it.ctx.heap[("fa", "Entry", "prio")] = (z3.Store(entry_arr(it, "prio"), e.z, it.num(p)),)
    it.ctx.heap[("fa", "Entry", "data")] = (z3.Store(entry_arr(it, "data"), e.z, d.z),)
    return [e]


PQ = AbsSpec("PriorityQueue", PQ_FIELDS, [
    Op("put", [E_], pq_put, is_async=True, pre=pq_put_pre, mkargs=mk_entry),
    Op("put_nowait", [E_], pq_put, pre=pq_put_pre, mkargs=mk_entry),
    Op("get", [], pq_get(True), is_async=True),
    Op("get_nowait", [], pq_get(False)),
    Op("remove", [D_], pq_remove),
    Op("decrease_priority", [D_], pq_decrease,
       pre=lambda it, m, d: [("its priority is at least one", z3.Implies(S_(m.dom, d), S_(m.prio, d) >= 1))]),
    Op("max_priority", [], pq_max),
    Op("__len__", [], lambda it, m: [Case(result=SInt(CARD(m.dom)))]),
    Op("qsize", [], lambda it, m: [Case(result=SInt(CARD(m.dom)))]),
    Op("empty", [], lambda it, m: [Case(result=SBool(z3.Not(pq_least(it, m)[0])))]),
], inv=pq_inv, init=lambda it: [EMPTY, z3.K(U, z3.IntVal(0))], eqs=pq_eqs)


# entries are two-element lists [priority, data], shared between the heap and the locator
def entry_arr(it, n):
    return it.ctx.heap[it.ref_cell("Entry", n, {"prio": TInt(), "data": ANY}[n])][0]


def hk(it):
    """ghost: the priority under which each entry was last placed in the heap by heapq"""
    key = ("g", "hk")
    if key not in it.ctx.heap:
        it.init_cell(key, TRaw(STAMP), "hk")
    return it.ctx.heap[key][0]


def entry_get(it, e, i):
    if i == 0:
        return SInt(S_(entry_arr(it, "prio"), e.z))
    if i == 1:
        return SU(S_(entry_arr(it, "data"), e.z), ANY)
    raise Unsupported("index of an entry")


def entry_set(it, e, i, v):
    n = "prio" if i == 0 else "data"
    if i not in (0, 1):
        raise Unsupported("index of an entry")
    key = it.ref_cell("Entry", n, {"prio": TInt(), "data": ANY}[n])
    z = it.num(v) if n == "prio" else it.to_leaves(v, ANY)[0]
    it.ctx.heap[key] = (z3.Store(it.ctx.heap[key][0], e.z, z),)


def entry_eq(it, a, b):
    a, b = a.z, b.z
    return z3.And(S_(entry_arr(it, "prio"), a) == S_(entry_arr(it, "prio"), b), S_(entry_arr(it, "data"), a) == S_(entry_arr(it, "data"), b))


def heap_valid(it, ls, except_=None):
    """every member sits in the heap under its current priority"""
    mem, k, p = ls[-1], hk(it), entry_arr(it, "prio")
    return forall(U, lambda e: z3.Implies(z3.And(S_(mem, e) > 0, *([e != except_] if except_ is not None else [])), S_(p, e) == S_(k, e)), lambda e: [S_(mem, e)])


def heap_top(it, ls):
    """heapq: position 0 holds a least member"""
    mem, p = ls[-1], entry_arr(it, "prio")
    top = S_(ls[1], 0)
    it.ctx.assume(z3.Implies(ls[0] > 0, z3.And(S_(mem, top) > 0, forall(U, lambda e: z3.Implies(S_(mem, e) > 0, S_(p, top) <= S_(p, e)), lambda e: [S_(mem, e)]))))


ASSUMED_HEAPQ = "heapq.heappush/heappop/_siftdown keep a valid heap valid and position 0 least (contract assumed; entries compared by priority, ties in any order)"


def heap_list(it, q):
    ty = it.type_at(q)
    if not isinstance(ty, TList):
        ty = it.retype(q, TList(TRef("Entry")))
    ls = list(it.read(q))
    it.memfacts(ls)
    it.ctx.ex.assumed.add(ASSUMED_HEAPQ)
    return ls


def permuted(it, q, n, mem):
    ls = [n, it.ctx.fresh("heap", z3.ArraySort(I, U)), mem]
    it.write(q, ls)
    it.memfacts(ls)
    heap_top(it, ls)


def heappush(it, a, k):
    q, e = a
    if not (isinstance(e, SU) and e.ty == TRef("Entry")):
        raise Unsupported("heappush of something else than an entry")
    ls = heap_list(it, q)
    it.ctx.prove("heappush: the list is a heap", heap_valid(it, ls))
    it.ctx.heap[("g", "hk")] = (z3.Store(hk(it), e.z, S_(entry_arr(it, "prio"), e.z)),)
    permuted(it, q, ls[0] + 1, z3.Store(ls[-1], e.z, S_(ls[-1], e.z) + 1))


def heappop(it, a, k):
    q = a[0]
    ls = heap_list(it, q)
    it.ctx.prove("heappop: the list is a heap", heap_valid(it, ls))
    if not it.ctx.decide(ls[0] > 0):
        raise PyRaise("IndexError", ())
    heap_top(it, ls)
    r = S_(ls[1], 0)
    permuted(it, q, ls[0] - 1, z3.Store(ls[-1], r, S_(ls[-1], r) - 1))
    return SU(r, TRef("Entry"))


def siftdown(it, a, k):
    q, lo, i = a
    ls = heap_list(it, q)
    z = it.num(i)
    if lo != 0:
        raise Unsupported("_siftdown from elsewhere than the root")
    e = S_(ls[1], z)
    it.ctx.prove("_siftdown: the position is inside", z3.And(0 <= z, z < ls[0]))
    it.ctx.prove("_siftdown: every other entry sits under its priority", heap_valid(it, ls, e))
    it.ctx.prove("_siftdown: the entry's priority did not grow", S_(entry_arr(it, "prio"), e) <= S_(hk(it), e))
    it.ctx.heap[("g", "hk")] = (z3.Store(hk(it), e, S_(entry_arr(it, "prio"), e)),)
    permuted(it, q, ls[0], ls[-1])


def heapify(it, a, k):
    ls = heap_list(it, a[0])
    k2 = it.ctx.fresh("hk", STAMP)
    p = entry_arr(it, "prio")
    it.ctx.assume(k2 == p)
    hk(it)
    it.ctx.heap[("g", "hk")] = (k2,)
    permuted(it, a[0], ls[0], ls[-1])


def entry_index(it, q, e):
    """list.index compares entries by value"""
    ty, ls = it.type_at(q), list(it.read(q))
    if not (isinstance(ty, TList) and ty.e == TRef("Entry") and isinstance(e, SU)):
        return None
    it.memfacts(ls)
    w = it.ctx.fresh("index", I)
    found = it.ctx.fresh("found", B)
    same = lambda j: z3.Or(S_(ls[1], j) == e.z, entry_eq(it, SU(S_(ls[1], j), ty.e), e))
    it.ctx.assume(z3.Implies(found, z3.And(0 <= w, w < ls[0], same(w), S_(ls[-1], S_(ls[1], w)) > 0)))
    it.ctx.assume(z3.Implies(z3.Not(found), z3.And(S_(ls[-1], e.z) == 0, forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < ls[0]), z3.Not(same(j))), lambda j: [S_(ls[1], j)]))))
    if not it.ctx.decide(found):
        raise PyRaise("ValueError", ("not in list",))
    return SInt(w)


def pair_literal(it, vals):
    """the literal [priority, data] is an entry, any other list literal an ordinary list"""
    if len(vals) == 2 and isinstance(vals[0], (int, SInt)) and isinstance(vals[1], SU) and not isinstance(vals[1].ty, (TRef, TOpt)):
        return mk_entry(it, [(vals[0], vals[1])])[0]
    return None


def pq_world(prog):
    w = World(prog)
    w.schemas["Entry"] = {"prio": TInt(), "data": ANY, "__getitem__": entry_get, "__setitem__": entry_set, "__eq__": entry_eq,
                          "__unpack__": lambda it, e: (entry_get(it, e, 0), entry_get(it, e, 1))}
    w.schemas["PriorityQueue"] = {"_queue": TList(TRef("Entry")), "_locator": TDict(ANY, TRef("Entry"))}
    w.list_index = entry_index
    w.list_literal = pair_literal
    w.libs.update({"heapq.heappush": heappush, "heapq.heappop": heappop, "heapq._siftdown": siftdown, "heapq.heapify": heapify})
    return w


def pq_parts(it, me):
    q = list(it.read(it.getattr(me, "_queue"))) or it.empty_leaves(TList(TRef("Entry")))
    l = list(it.read(it.getattr(me, "_locator"))) or it.empty_leaves(TDict(ANY, TRef("Entry")))
    return q, l


def pq_abs(it, me):
    q, l = pq_parts(it, me)
    pr = it.ctx.fresh("prio_of", STAMP)
    p = entry_arr(it, "prio")
    it.ctx.assume(forall(U, lambda d: S_(pr, d) == S_(p, S_(l[1], d)), lambda d: [S_(pr, d)]))
    return [l[0], pr]


def pq_rep(it, me):
    q, l = pq_parts(it, me)
    p, d = entry_arr(it, "prio"), entry_arr(it, "data")
    mem = q[-1]
    it.memfacts(q)
    it.setfacts(l[0])
    if ("alloc", "Entry") not in it.ctx.heap:
        it.init_cell(("alloc", "Entry"), TSet(TRef("Entry")), "alloc.Entry")
    al = it.ctx.heap[("alloc", "Entry")][0]
    return [
        q[0] == CARD(l[0]),
        # the heap holds exactly the located entries, each once
        forall(U, lambda e: z3.And(S_(mem, e) >= 0, S_(mem, e) <= 1), lambda e: [S_(mem, e)]),
        forall(U, lambda e: z3.Implies(S_(mem, e) > 0, z3.And(S_(l[0], S_(d, e)), S_(l[1], S_(d, e)) == e, e != NONE, S_(al, e))), lambda e: [S_(mem, e)]),
        forall(U, lambda x: z3.Implies(S_(l[0], x), z3.And(S_(mem, S_(l[1], x)) == 1, S_(d, S_(l[1], x)) == x)), lambda x: [S_(l[1], x)]),
        forall(U, lambda e: z3.Implies(S_(mem, e) > 0, S_(p, e) >= 0), lambda e: [S_(mem, e)]),
        heap_valid(it, q),
        z3.Implies(q[0] > 0, z3.And(S_(mem, S_(q[1], 0)) > 0, forall(U, lambda e: z3.Implies(S_(mem, e) > 0, S_(p, S_(q[1], 0)) <= S_(p, e)), lambda e: [S_(mem, e)]))),
    ]


def units(prog):
    return class_units(prog, IQ, "scaled.utility.queues.async_indexed_queue", "IndexedQueue", iq_world, iq_abs, iq_rep) + \
        class_units(prog, PQ, "scaled.utility.queues.async_priority_queue", "PriorityQueue", pq_world, pq_abs, pq_rep)
