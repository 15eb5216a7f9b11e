"""C04: OneToManyDict and KeyValueDictSet."""
from vc.core import *
from vc.interp import World, CARD, Iter
from vc.spec import *

SETU = z3.ArraySort(U, B)
SETSET = z3.ArraySort(U, SETU)


def world(prog):
    w = World(prog)
    return w


# model: kd = set of keys, ks = key -> set of values, vd = set of values, vk = value -> its key
OTM_FIELDS = [("kd", TRaw(SETU)), ("ks", TRaw(SETSET)), ("vd", TRaw(SETU)), ("vk", TRaw(z3.ArraySort(U, U)))]


def otm_inv(it, m):
    it.setfacts(m.kd)
    it.setfacts(m.vd)
    # every set of values has its cardinality facts
    return [
        forall(U, lambda v: z3.Implies(z3.Select(m.vd, v), z3.And(z3.Select(m.kd, z3.Select(m.vk, v)), z3.Select(z3.Select(m.ks, z3.Select(m.vk, v)), v))),
               lambda v: [z3.Select(m.vd, v)]),
        forall([U, U], lambda k, v: z3.Implies(z3.And(z3.Select(m.kd, k), z3.Select(z3.Select(m.ks, k), v)), z3.And(z3.Select(m.vd, v), z3.Select(m.vk, v) == k)),
               lambda k, v: [z3.Select(z3.Select(m.ks, k), v)]),
        forall(U, lambda k: z3.Implies(z3.Select(m.kd, k), CARD(z3.Select(m.ks, k)) > 0), lambda k: [z3.Select(m.kd, k)]),
    ]


def otm_eqs(it, g, e):
    return [("keys", g.kd == e.kd), ("values", g.vd == e.vd),
            ("values of each key", forall([U, U], lambda k, v: z3.Implies(z3.Select(e.kd, k), z3.Select(z3.Select(g.ks, k), v) == z3.Select(z3.Select(e.ks, k), v)))),
            ("key of each value", forall(U, lambda v: z3.Implies(z3.Select(e.vd, v), z3.Select(g.vk, v) == z3.Select(e.vk, v))))]


T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
EMPTY = empty_set(U)


def S_(a, k):
    return z3.Select(a, k)


def sset(it, arr):
    return Snap(TSet(ANY), [arr])


def otm_add(it, m, k, v):
    old = it.ctx.fresh("values_of_key", SETU)
    it.ctx.assume(old == z3.If(S_(m.kd, k), S_(m.ks, k), EMPTY))
    return [Case(z3.And(S_(m.vd, v), S_(m.vk, v) != k), raises="ValueError", name="value owned by another key"),
            Case(upd={"kd": z3.Store(m.kd, k, T_), "ks": z3.Store(m.ks, k, z3.Store(old, v, T_)), "vd": z3.Store(m.vd, v, T_), "vk": z3.Store(m.vk, v, k)},
                 name="added")]


def otm_get_key(it, m, v):
    return [Case(z3.Not(S_(m.vd, v)), raises="ValueError", name="absent"),
            Case(result=lambda it: SU(S_(m.vk, v), ANY), name="present")]


def otm_get_values(it, m, k):
    return [Case(z3.Not(S_(m.kd, k)), raises="ValueError", name="absent"),
            Case(result=lambda it: sset(it, S_(m.ks, k)), name="present")]


def otm_remove_key(it, m, k):
    nv = it.ctx.fresh("vd_after", SETU)
    f = forall(U, lambda v: S_(nv, v) == z3.And(S_(m.vd, v), S_(m.vk, v) != k), lambda v: [S_(nv, v)])
    it.ctx.assume(f)
    it.ctx.assume(forall(U, lambda v: S_(nv, v) == z3.And(S_(m.vd, v), S_(m.vk, v) != k), lambda v: [S_(m.vd, v)]))
    return [Case(z3.Not(S_(m.kd, k)), raises="KeyError", name="absent"),
            Case(result=lambda it: sset(it, S_(m.ks, k)), upd={"kd": z3.Store(m.kd, k, F_), "vd": nv}, name="present")]


def otm_remove_value(it, m, v):
    k = S_(m.vk, v)
    ns = z3.Store(S_(m.ks, k), v, F_)
    last = it.ctx.fresh("last", B)
    w = it.ctx.fresh("other", U)
    it.ctx.assume(z3.Implies(last, forall(U, lambda x: z3.Not(S_(ns, x)))))
    it.ctx.assume(z3.Implies(z3.Not(last), S_(ns, w)))
    nk = it.ctx.fresh("keys_after", SETU)
    it.ctx.assume(nk == z3.Store(m.kd, k, z3.Not(last)))
    return [Case(z3.Not(S_(m.vd, v)), raises="ValueError", name="absent"),
            Case(result=lambda it: SU(k, ANY), upd={"kd": nk, "ks": z3.Store(m.ks, k, ns), "vd": z3.Store(m.vd, v, F_)}, name="present")]


K, V = ("key", ANY), ("value", ANY)
OTM = AbsSpec("OneToManyDict", OTM_FIELDS, [
    Op("add", [K, V], otm_add),
    Op("has_key", [K], lambda it, m, k: [Case(result=SBool(S_(m.kd, k)))]),
    Op("__contains__", [K], lambda it, m, k: [Case(result=SBool(S_(m.kd, k)))]),
    Op("has_value", [V], lambda it, m, v: [Case(result=SBool(S_(m.vd, v)))]),
    Op("get_key", [V], otm_get_key),
    Op("get_values", [K], otm_get_values),
    Op("remove_key", [K], otm_remove_key),
    Op("remove_value", [V], otm_remove_value),
    Op("keys", [], lambda it, m: [Case(result=lambda it: sset(it, m.kd))]),
    Op("values", [], lambda it, m: [Case(result=lambda it: View("values", Snap(TDict(ANY, TSet(ANY)), [m.kd, m.ks])))]),
    Op("items", [], lambda it, m: [Case(result=lambda it: View("items", Snap(TDict(ANY, TSet(ANY)), [m.kd, m.ks])))]),
], inv=otm_inv, init=lambda it: [EMPTY, z3.K(U, EMPTY), EMPTY, z3.K(U, NONE)], eqs=otm_eqs)


def otm_abs(it, me):
    a = it.read(it.getattr(me, "_key_to_value_set"))
    b = it.read(it.getattr(me, "_value_to_key"))
    if not a:
        a = [EMPTY, z3.K(U, EMPTY)]
    if not b:
        b = [EMPTY, z3.K(U, NONE)]
    return [a[0], a[1], b[0], b[1]]


def otm_rep(it, me):
    return otm_inv(it, MS(OTM_FIELDS, otm_abs(it, me)))


# ---------------------------------------------------------------- KeyValueDictSet
KVS_FIELDS = [("kd", TRaw(SETU)), ("ks", TRaw(SETSET))]


def kvs_inv(it, m):
    it.setfacts(m.kd)
    return [forall(U, lambda k: z3.Implies(S_(m.kd, k), CARD(S_(m.ks, k)) > 0), lambda k: [S_(m.kd, k)])]


def kvs_eqs(it, g, e):
    return [("keys", g.kd == e.kd),
            ("values of each key", forall([U, U], lambda k, v: z3.Implies(S_(e.kd, k), S_(S_(g.ks, k), v) == S_(S_(e.ks, k), v))))]


def kvs_add(it, m, k, v):
    old = it.ctx.fresh("values_of_key", SETU)
    it.ctx.assume(old == z3.If(S_(m.kd, k), S_(m.ks, k), EMPTY))
    return [Case(upd={"kd": z3.Store(m.kd, k, T_), "ks": z3.Store(m.ks, k, z3.Store(old, v, T_))}, name="added")]


def kvs_remove_value(it, m, k, v):
    ns = z3.Store(S_(m.ks, k), v, F_)
    last = it.ctx.fresh("last", B)
    w = it.ctx.fresh("other", U)
    it.ctx.assume(z3.Implies(last, forall(U, lambda x: z3.Not(S_(ns, x)))))
    it.ctx.assume(z3.Implies(z3.Not(last), S_(ns, w)))
    return [Case(z3.Not(S_(m.kd, k)), raises="KeyError", name="key absent"),
            Case(z3.Not(S_(S_(m.ks, k), v)), raises="KeyError", name="value absent"),
            Case(last, upd={"kd": z3.Store(m.kd, k, F_)}, name="last value of its key"),
            Case(upd={"ks": z3.Store(m.ks, k, ns)}, name="other values remain")]


KVS = AbsSpec("KeyValueDictSet", KVS_FIELDS, [
    Op("add", [K, V], kvs_add),
    Op("__contains__", [K], lambda it, m, k: [Case(result=SBool(S_(m.kd, k)))]),
    Op("get_values", [K], otm_get_values),
    Op("remove_key", [K], lambda it, m, k: [Case(z3.Not(S_(m.kd, k)), raises="KeyError", name="absent"),
                                            Case(result=lambda it: sset(it, S_(m.ks, k)), upd={"kd": z3.Store(m.kd, k, F_)}, name="present")]),
    Op("remove_value", [K, V], kvs_remove_value),
    Op("keys", [], lambda it, m: [Case(result=lambda it: sset(it, m.kd))]),
    Op("values", [], lambda it, m: [Case(result=lambda it: View("values", Snap(TDict(ANY, TSet(ANY)), [m.kd, m.ks])))]),
    Op("items", [], lambda it, m: [Case(result=lambda it: View("items", Snap(TDict(ANY, TSet(ANY)), [m.kd, m.ks])))]),
], inv=kvs_inv, init=lambda it: [EMPTY, z3.K(U, EMPTY)], eqs=kvs_eqs)


def kvs_abs(it, me):
    a = it.read(it.getattr(me, "_key_to_value_set")) or [EMPTY, z3.K(U, EMPTY)]
    return [a[0], a[1]]


def units(prog):
    return class_units(prog, OTM, "scaled.utility.one_to_many_dict", "OneToManyDict", world, otm_abs, otm_rep) + \
        class_units(prog, KVS, "scaled.utility.key_value_set", "KeyValueDictSet", world, kvs_abs, lambda it, me: kvs_inv(it, MS(KVS_FIELDS, kvs_abs(it, me))))
