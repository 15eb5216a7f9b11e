"""Meaning of Python built-ins, container methods and the library calls the code under verification makes."""
from __future__ import annotations
import ast
import zlib

from .core import *
from .program import ClassInfo
from .interp import (Interp, ExcV, TypeV, RepoMod, Opaque, LibM, TUnk, ConcSet, ConcDict, StarArg, SuperV, GenExp, Iter, CARD, EXC_BASE,
                     exc_sub, Poison, Frame)

ENC = z3.Function("str_encode", U, U)
DEC = z3.Function("bytes_decode", U, U)
HEX = z3.Function("bytes_hex", U, U)
UNHEX = z3.Function("bytes_fromhex", U, U)
HASH = z3.Function("hash", U, I)
_isinst: dict = {}
_sums: dict = {}


def ISINST(name):
    if name not in _isinst:
        _isinst[name] = z3.Function(f"isinstance_{name}", U, B)
    return _isinst[name]


def SUM(dom, arr):
    """sum over a finite set of keys (uninterpreted apart from the facts assumed where it is used)"""
    k = (str(dom.sort()), str(arr.sort()))
    if k not in _sums:
        _sums[k] = z3.Function(f"sum_{len(_sums)}", dom.sort(), arr.sort(), arr.sort().range())
    return _sums[k](dom, arr)


# ------------------------------------------------------------------------------------------------------ names
TYPES = {"int", "float", "str", "bytes", "bool", "list", "dict", "set", "tuple", "frozenset", "object", "type", "bytearray", "memoryview"}


def builtin(it, name):
    if name in TYPES or name in EXC_BASE:
        return TypeV(name)
    if name in BUILTINS:
        fn = BUILTINS[name]
        return BuiltinF(name, lambda a, k: fn(it, a, k))
    if name in ("NotImplemented", "__debug__"):
        return True if name == "__debug__" else Opaque(name)
    if name == "__name__":
        return it.fr.module or "__main__"
    return UNDEF


LIBTYPES = {"asyncio.Queue", "queue.Queue", "asyncio.QueueEmpty", "asyncio.CancelledError", "concurrent.futures.Future", "bidict.bidict",
            "graphlib.TopologicalSorter", "collections.defaultdict", "collections.OrderedDict", "threading.Thread", "threading.Event",
            "threading.Lock", "threading.RLock", "asyncio.Lock", "multiprocessing.Process", "typing.Any", "asyncio.TimeoutError",
            "asyncio.Task", "asyncio.exceptions.CancelledError", "enum.Enum", "struct.error", "collections.ChainMap",
            "multiprocessing.get_context().Process", "queue.Empty"}


def lib_value(it, name):
    h = it.w.libs.get("=" + name)
    if h is not None:
        return h(it)
    if name in LIBTYPES or name.split(".")[-1] in EXC_BASE:
        return TypeV(name)
    return ModuleV(name)


def module_attr(it, mod, name):
    d = f"{mod}.{name}"
    h = it.w.libs.get("=" + d)
    if h is not None:
        return h(it)
    if name == "__name__":
        return mod.split(".")[-1]
    if mod == "zmq" and name.isupper():
        return CONST(it, d)
    if mod == "signal" and name.startswith("SIG"):
        return CONST(it, d)
    if mod == "pickle" and name == "HIGHEST_PROTOCOL":
        return 5
    if mod == "math" and name == "inf":
        raise Unsupported("math.inf")
    return lib_value(it, d)


def CONST(it, d):
    return SU(it.ctx.litu("const", d), TU("const"))


IGNORED = ("logging.",)


def ignored(it, f):
    n = f.name if isinstance(f, ModuleV) else ""
    return any(n.startswith(p) for p in IGNORED) and not n.startswith("logging.config")


# ------------------------------------------------------------------------------------------------------ calls
def call(it, name, args, kwargs):
    h = it.w.libs.get(name)
    if h is not None:
        return h(it, args, kwargs)
    if name.split(".")[-1] in EXC_BASE:
        return ExcV(name.split(".")[-1], tuple(args))
    if name in CALLS:
        return CALLS[name](it, args, kwargs)
    base = name.split(".")[0]
    if base == "builtins":
        return call(it, name.split(".", 1)[1], args, kwargs)
    raise Unsupported(f"library call {name}")


def c_int(it, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, SInt)):
        return v
    if isinstance(v, SBool):
        return SInt(it.num(v))
    if isinstance(v, SReal):
        # truncation towards zero
        return SInt(z3.If(v.z >= 0, z3.ToInt(v.z), -z3.ToInt(-v.z)))
    if isinstance(v, float):
        return int(v)
    if isinstance(v, (str, SStr)):
        s = it.zs(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise PyRaise("ValueError", ("int",))
        h = getattr(it.w, "str_to_int", None)
        if h:
            return h(it, s)
    raise Unsupported(f"int({v!r})")


def c_float(it, a, k):
    z = it.real(a[0]) if a else z3.RealVal(0)
    if z is None:
        raise Unsupported("float()")
    return SReal(z)


def c_str(it, a, k):
    return to_str(it, a[0]) if a else ""


def to_str(it, v):
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, SU) and isinstance(v.ty, TU) and v.ty.name == "str":
        return v
    if isinstance(v, SInt) and getattr(it.w, "int_to_str", None):
        return it.w.int_to_str(it, v.z)
    if isinstance(v, SInt) and it.w.str_mode == "S":
        return SStr(z3.If(v.z >= 0, z3.IntToStr(v.z), z3.Concat(z3.StringVal("-"), z3.IntToStr(-v.z))))
    if isinstance(v, EnumV):
        return f"{v.cls}.{v.name}"
    if isinstance(v, ClassV):
        return f"<class {v.name}>"
    z = it.ctx.fresh("str", U)
    it.ctx.assume(z != NONE)
    return SU(z, TU("str"))


def c_bool(it, a, k):
    t = it.truth(a[0]) if a else False
    return t if isinstance(t, bool) else SBool(t)


_copy_nodes: dict = {}


def copy_comp(it, v, kind, pair=False):
    """{x for x in v} etc. through the comprehension machinery"""
    from .loops import comprehension
    src = {"list": "[x__ for x__ in src__]", "set": "{x__ for x__ in src__}", "dict": "{k__: v__ for k__, v__ in src__}"}[kind]
    if kind not in _copy_nodes:
        _copy_nodes[kind] = ast.parse(src, mode="eval").body
    f = Frame(it.fr.fv)
    f.closure = it.fr
    f.module, f.cls = it.fr.module, it.fr.cls
    f.locals["src__"] = v
    it.frames.append(f)
    try:
        return comprehension(it, _copy_nodes[kind], kind)
    finally:
        it.frames.pop()


def plain(v):
    if isinstance(v, ConcSet):
        return tuple(v.vals)
    if isinstance(v, ConcDict):
        return tuple(k for k, _ in v.items)
    return v


def force(it, v):
    if isinstance(v, GenExp):
        from .loops import comprehension
        return comprehension(it, v.node, "list", v.frame)
    return v


def c_list(it, a, k):
    if not a:
        return it.new_root(TUnk("list"))
    v = plain(force(it, a[0]))
    if isinstance(a[0], GenExp):
        return v
    if isinstance(v, (Box, Snap)):
        ty, ls = it.leaves_of(v)
        if isinstance(ty, TList):
            if ty.e.mutable:
                raise Unsupported("copy of a list of containers")
            return it.new_root(TList(ty.e), ls)
    itr = it.make_iter(v)
    if itr.kind == "conc":
        return it.make_list(itr.vals)
    return copy_comp(it, v if not isinstance(v, Iter) else itr, "list")


def c_tuple(it, a, k):
    if not a:
        return ()
    v = plain(force(it, a[0]))
    itr = it.make_iter(v)
    if itr.kind == "conc":
        return tuple(itr.vals)
    b = c_list(it, [v], {})
    ty, ls = it.leaves_of(b)
    return Snap(TSeq(ty.e), ls)


def c_set(it, a, k):
    if not a:
        return it.new_root(TUnk("set"))
    v = plain(force(it, a[0]))
    if isinstance(v, View) and v.kind == "keys":
        v = v.args[0]
    if isinstance(v, (Box, Snap)):
        ty, ls = it.leaves_of(v)
        if isinstance(ty, TUnk):
            return it.new_root(TUnk("set"))
        if isinstance(ty, TSet):
            return it.new_root(ty, ls[:1])
        if isinstance(ty, TDict):
            return it.new_root(TSet(ty.k), ls[:1])
        if isinstance(ty, TList) and ty.has_mem:
            S_ = it.ctx.fresh("setof", z3.ArraySort(U, B))
            mem = ls[-1]
            for arr in (S_, mem):
                it.ctx.assume(forall(U, lambda x: z3.Select(S_, x) == (z3.Select(mem, x) > 0), lambda x: [z3.Select(arr, x)]))
            it.setfacts(S_)
            it.ctx.assume(CARD(S_) <= ls[0])
            return it.new_root(TSet(ty.e), [S_])
    itr = it.make_iter(v)
    if itr.kind == "conc":
        b = it.new_root(TUnk("set"))
        for x in itr.vals:
            it.set_add(b, x)
        return b
    return copy_comp(it, v, "set")


def c_dict(it, a, k):
    b = None
    if a:
        v = force(it, a[0])
        if isinstance(v, ConcDict):
            b = it.new_root(TUnk("dict"))
            for x, y in v.items:
                it.dict_set(b, x, y)
        elif isinstance(v, (Box, Snap)) and isinstance(it.leaves_of(v)[0], (TDict, TUnk)):
            ty, ls = it.leaves_of(v)
            if isinstance(ty, TUnk):
                b = it.new_root(TUnk("dict"))
            else:
                if ty.v.mutable:
                    if isinstance(v, Snap):
                        return v
                    it.shared[v.root] = len(v.steps)
                    return Snap(ty, ls)
                b = it.new_root(TDict(ty.k, ty.v, ordered=ty.ordered), ls)
        else:
            itr = it.make_iter(v)
            if itr.kind == "conc":
                b = it.new_root(TUnk("dict"))
                for p in itr.vals:
                    it.dict_set(b, p[0], p[1])
            else:
                b = copy_comp(it, v, "dict")
    if b is None:
        if k:
            return ConcDict(list(k.items()))
        return it.new_root(TUnk("dict"))
    for x, y in k.items():
        it.dict_set(b, x, y)
    return b


def c_bytes(it, a, k):
    if not a:
        return b""
    if isinstance(a[0], bytes) or isinstance(a[0], SU):
        return a[0]
    raise Unsupported("bytes()")


def b_len(it, a, k):
    v = a[0]
    if isinstance(v, ConcSet):
        return len(set(v.vals))
    if isinstance(v, ConcDict):
        return len(v.items)
    return it.length(v)


def class_names(it, v):
    """names of the classes in v's mro, or None when not known statically"""
    if isinstance(v, bool) or isinstance(v, SBool):
        return {"bool", "int", "object"}
    if isinstance(v, (int, SInt)):
        return {"int", "object"}
    if isinstance(v, (float, SReal)):
        return {"float", "object"}
    if isinstance(v, (str, SStr)):
        return {"str", "object"}
    if isinstance(v, bytes):
        return {"bytes", "object"}
    if isinstance(v, tuple):
        return {"tuple", "object"}
    if v is None:
        return {"NoneType", "object"}
    ci = None
    if isinstance(v, (Rec, EnumV)):
        ci = it.find_class(v.cls)
    elif isinstance(v, Obj):
        ci = v.cls
    elif isinstance(v, (Box, Snap)):
        ty = it.leaves_of(v)[0]
        if isinstance(ty, TStruct):
            ci = it.find_class(ty.cls) if not isinstance(ty, TAbs) else None
            if ci is None:
                return {ty.cls, "object"}
        else:
            return {("set" if isinstance(ty, TSet) else "dict" if isinstance(ty, TDict) else "tuple" if isinstance(ty, TSeq) else
                     "list" if isinstance(ty, TList) else ty.kind), "object"}
    elif isinstance(v, ExcV):
        if v.cls == "?":
            return None
        out, c = set(), v.cls
        while c:
            out.add(c)
            c = EXC_BASE.get(c)
        return out
    elif isinstance(v, SU):
        ty = v.ty
        if isinstance(ty, TOpt):
            return None
        if isinstance(ty, TRef):
            if ty.cls in it.known:
                ci = it.known[ty.cls]
            else:
                return {ty.cls, "object"}
        elif isinstance(ty, TEnum):
            ci = it.find_class(ty.cls)
        elif ty.name in ("bytes", "str"):
            return {ty.name, "object"}
        else:
            return None
    elif isinstance(v, (FuncV, BoundM, BuiltinF)):
        return {"function", "object"}
    elif isinstance(v, Opaque):
        return None
    if ci is None:
        return None
    return {c.name for c in it.prog.mro(ci)} | {b.split(".")[-1] for b in it.prog.lib_bases(ci)} | {"object"}


def b_isinstance(it, a, k):
    v, c = a
    if isinstance(c, tuple):
        rs = [b_isinstance(it, [v, x], {}) for x in c]
        return _bool(disj([x.z if isinstance(x, SBool) else z3.BoolVal(x) for x in rs]))
    name = c.name.split(".")[-1] if isinstance(c, (ClassV, TypeV, ModuleV)) else None
    if name is None:
        raise Unsupported(f"isinstance of {c!r}")
    ns = class_names(it, v)
    if ns is not None:
        return name in ns
    if isinstance(v, SU) and isinstance(v.ty, TOpt):
        if not it.ctx.decide(v.z != NONE):
            return name in ("NoneType", "object")
        return b_isinstance(it, [SU(v.z, v.ty.t), c], {})
    if isinstance(v, ExcV):
        if name in ("Exception", "BaseException"):
            return True
        return SBool(ISINST(name)(it.to_u(v)))
    if isinstance(v, SU):
        # None is an instance of nothing but NoneType/object
        it.ctx.assume(z3.Not(ISINST(name)(NONE)))
        h = getattr(it.w, "isinstance_facts", None)
        if h:
            h(it, v, name)
        return SBool(ISINST(name)(v.z))
    raise Unsupported(f"isinstance({v!r})")


def _bool(z):
    return True if is_true(z) else False if is_false(z) else SBool(z)


def b_range(it, a, k):
    if len(a) == 1:
        return View("range", 0, a[0], 1)
    if len(a) == 2:
        return View("range", a[0], a[1], 1)
    return View("range", *a)


def b_zip(it, a, k):
    a = [plain(force(it, x)) for x in a]
    return View("zip", *a)


def b_enumerate(it, a, k):
    st = k.get("start", a[1] if len(a) > 1 else 0)
    return View("enumerate", plain(force(it, a[0])), st)


def b_sum(it, a, k):
    v = plain(force(it, a[0]))
    itr = it.make_iter(v)
    start = a[1] if len(a) > 1 else 0
    if itr.kind == "conc":
        r = start
        for x in itr.vals:
            r = binop(it, ast.Add(), r, x)
        return r
    if isinstance(v, View) and v.kind == "values":
        ty, ls = it.leaves_of(v.args[0])
        arr = ls[ty.nhead]
        if arr.sort().range() in (I, R):
            z = SUM(ls[0], arr)
            h = getattr(it.w, "sum_facts", None)
            if h:
                h(it, ls[0], arr, z)
            r = SInt(z) if arr.sort().range() == I else SReal(z)
            return r if start == 0 else binop(it, ast.Add(), r, start)
    h = getattr(it.w, "sum_list", None)
    if h:
        r = h(it, v)
        if r is not None:
            return r
    raise Unsupported("sum()")


def b_minmax(it, a, k, mx):
    d = k.get("default", UNDEF)
    if "key" in k:
        return b_minmax_key(it, a, k, mx)
    if len(a) > 1:
        r = a[0]
        for x in a[1:]:
            c = order(it, ast.Gt() if mx else ast.Lt(), x, r)
            if isinstance(c, bool):
                r = x if c else r
            else:
                nr, nx = it.num(r), it.num(x)
                if nr is not None and nx is not None:
                    r = SInt(z3.If(c, nx, nr))
                else:
                    r = SReal(z3.If(c, it.real(x), it.real(r)))
        return r
    v = plain(force(it, a[0]))
    itr = it.make_iter(v)
    if itr.kind == "conc":
        if not itr.vals:
            if d is not UNDEF:
                return d
            raise PyRaise("ValueError", ("empty",))
        return b_minmax(it, itr.vals, {}, mx) if len(itr.vals) > 1 else itr.vals[0]
    empty = CARD(itr.S) == 0 if itr.kind == "set" else itr.n == 0
    if it.ctx.decide(empty):
        if d is not UNDEF:
            return d
        raise PyRaise("ValueError", ("empty",))
    ks = itr.S.sort().domain() if itr.kind == "set" else I
    w = it.ctx.fresh("argbest", ks)
    rng = (lambda y: z3.Select(itr.S, y)) if itr.kind == "set" else (lambda y: z3.And(0 <= y, y < itr.n))
    it.ctx.assume(rng(w))
    best = itr.elem(w)
    zb = it.real(best)
    if zb is None:
        raise Unsupported("min/max of non-numbers")
    y = it.ctx.fresh("y", ks)
    n0 = it.ctx.n
    zy = it.real(itr.elem(y))
    body = lambda q: z3.Implies(rng(q), z3.substitute(zy, (y, q)) <= zb if mx else z3.substitute(zy, (y, q)) >= zb)
    it.ctx.assume(forall(ks, body))
    return best


def b_minmax_key(it, a, k, mx):
    raise Unsupported("min/max with key")


def b_any(it, a, k):
    from .loops import quantify
    return quantify(it, a[0], True)


def b_all(it, a, k):
    from .loops import quantify
    return quantify(it, a[0], False)


def b_hash(it, a, k):
    v = a[0]
    if isinstance(v, SU):
        return SInt(HASH(v.z))
    if isinstance(v, (bytes, str, EnumV)):
        return SInt(HASH(it.to_u(v)))
    if isinstance(v, (int, SInt)):
        # hash(n) of an integer is not n in general (-1 and -2 collide)
        return SInt(HASH(it.to_u(v)))
    raise Unsupported("hash()")


def b_getattr(it, a, k):
    n = a[1]
    if not isinstance(n, str):
        raise Unsupported("getattr of computed name")
    try:
        return it.getattr(a[0], n)
    except PyRaise as e:
        if e.cls == "AttributeError" and len(a) > 2:
            return a[2]
        raise


def b_hasattr(it, a, k):
    try:
        it.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if e.cls == "AttributeError":
            return False
        raise


def b_callable(it, a, k):
    v = a[0]
    if isinstance(v, (FuncV, BoundM, BuiltinF, ClassV, TypeV)):
        return True
    if isinstance(v, SU):
        f = z3.Function("callable", U, B)
        return SBool(z3.And(v.z != NONE, f(v.z)))
    return False


def b_type(it, a, k):
    v = a[0]
    if isinstance(v, (Rec, EnumV)):
        ci = it.find_class(v.cls)
        return ClassV(ci.name, ci.module, ci)
    if isinstance(v, Obj):
        return ClassV(v.cls.name, v.cls.module, v.cls)
    if isinstance(v, SU) and isinstance(v.ty, TRef) and v.ty.cls in it.known:
        ci = it.known[v.ty.cls]
        return ClassV(ci.name, ci.module, ci)
    if isinstance(v, ExcV):
        return TypeV(v.cls)
    raise Unsupported("type()")


def b_sorted(it, a, k):
    v = plain(force(it, a[0]))
    itr = it.make_iter(v)
    if itr.kind == "conc" and len(itr.vals) <= 1:
        return it.make_list(itr.vals)
    # a permutation of the elements; the order itself is left open
    b = c_list(it, [v], {})
    ty, ls = it.leaves_of(b)
    if not ty.has_mem:
        raise Unsupported("sorted()")
    n = it.ctx.fresh("sorted", ls[1].sort())
    new = [ls[0], n, ls[-1]]
    it.memfacts(new)
    return it.new_root(ty, new)


def b_reversed(it, a, k):
    v = plain(force(it, a[0]))
    itr = it.make_iter(v)
    if itr.kind == "conc":
        return tuple(reversed(itr.vals))
    if itr.kind == "idx":
        return Iter("idx", n=itr.n, elem=lambda i: itr.elem(itr.n - 1 - i), mem=itr.mem, zof=(lambda i: itr.zof(itr.n - 1 - i)) if itr.zof else None)
    raise Unsupported("reversed()")


def b_iter(it, a, k):
    v = plain(force(it, a[0]))
    if isinstance(v, SU) and isinstance(v.ty, TRef):
        return v
    return v if isinstance(v, (Iter, View, Box, Snap, tuple)) else it.make_iter(v)


def b_next(it, a, k):
    v = plain(force(it, a[0]))
    itr = it.make_iter(v)
    if itr.kind == "conc":
        if itr.vals:
            return itr.vals[0]
        if len(a) > 1:
            return a[1]
        raise PyRaise("StopIteration", ())
    empty = CARD(itr.S) == 0 if itr.kind == "set" else itr.n == 0
    if it.ctx.decide(empty):
        if len(a) > 1:
            return a[1]
        raise PyRaise("StopIteration", ())
    if itr.kind == "idx":
        return itr.elem(z3.IntVal(0))
    w = it.ctx.fresh("some", itr.S.sort().domain())
    it.ctx.assume(z3.Select(itr.S, w))
    return itr.elem(w)


def b_abs(it, a, k):
    v = a[0]
    if isinstance(v, SInt):
        return SInt(z3.If(v.z >= 0, v.z, -v.z))
    if isinstance(v, SReal):
        return SReal(z3.If(v.z >= 0, v.z, -v.z))
    return abs(v)


def b_round(it, a, k):
    raise Unsupported("round()")


def b_print(it, a, k):
    return None


def b_id(it, a, k):
    return SInt(it.ctx.fresh("id", I))


def b_map(it, a, k):
    itr = it.make_iter(plain(force(it, a[1])))
    f = a[0]
    if len(a) > 2:
        raise Unsupported("map of several iterables")
    if itr.kind == "conc":
        return tuple(it.call(f, [x], {}) for x in itr.vals)
    out = Iter(itr.kind, n=itr.n, S=itr.S, elem=lambda q: it.call(f, [itr.elem(q)], {}), guard=itr.guard)
    return out


def b_filter(it, a, k):
    raise Unsupported("filter()")


BUILTINS = {"len": b_len, "isinstance": b_isinstance, "range": b_range, "zip": b_zip, "enumerate": b_enumerate, "sum": b_sum,
            "min": lambda it, a, k: b_minmax(it, a, k, False), "max": lambda it, a, k: b_minmax(it, a, k, True), "any": b_any, "all": b_all,
            "hash": b_hash, "getattr": b_getattr, "hasattr": b_hasattr, "callable": b_callable, "sorted": b_sorted, "repr": lambda it, a, k: to_str(it, Opaque()) ,
            "print": b_print, "abs": b_abs, "round": b_round, "id": b_id, "iter": b_iter, "next": b_next, "reversed": b_reversed, "map": b_map,
            "filter": b_filter}


def c_bidict(it, a, k):
    if len(a) == 1 and isinstance(a[0], ConcDict):
        return a[0]
    raise Unsupported("bidict of a computed mapping")


def c_defaultdict(it, a, k):
    d = a[0] if a else None
    kind = d.name if isinstance(d, TypeV) else None
    return it.new_root(TUnk("dict", default=kind))


def ceil_floor(it, a, up):
    v = a[0]
    if isinstance(v, (int, SInt)):
        return v
    z = it.real(v)
    return SInt(-z3.ToInt(-z) if up else z3.ToInt(z))


CALLS = {"int": c_int, "float": c_float, "str": c_str, "bool": c_bool, "list": c_list, "tuple": c_tuple, "set": c_set, "frozenset": c_set,
         "dict": c_dict, "bytes": c_bytes, "collections.defaultdict": c_defaultdict, "bidict.bidict": c_bidict, "type": b_type,
         "collections.OrderedDict": c_dict,
         "math.ceil": lambda it, a, k: ceil_floor(it, a, True), "math.floor": lambda it, a, k: ceil_floor(it, a, False),
         "object": lambda it, a, k: Opaque(),
         "bytes.fromhex": lambda it, a, k: SU(UNHEX(it.to_u(a[0])), BYTES),
         "dict.fromkeys": lambda it, a, k: fromkeys(it, a),
         "itertools.chain": lambda it, a, k: concat(it, [("*", x) for x in a], "list"),
         "copy.copy": lambda it, a, k: copy_of(it, a[0]),
         "functools.partial": lambda it, a, k: BuiltinF("partial", lambda a2, k2: it.call(a[0], list(a[1:]) + list(a2), {**k, **k2}))}


def fromkeys(it, a):
    s = c_set(it, [a[0]], {})
    v = a[1] if len(a) > 1 else None
    ty, ls = it.leaves_of(s)
    if isinstance(ty, TUnk):
        return it.new_root(TUnk("dict"))
    if it.w.dict_ordered:
        # order of first occurrence matters
        it.ctx.assume(True)
    vt = it.typeof(v)
    vl = it.to_leaves(v, vt)
    return it.new_root(TDict(ty.e, vt), [ls[0]] + [z3.K(ls[0].sort().domain(), x) for x in vl])


def copy_of(it, v):
    if isinstance(v, (Rec, SU, int, str, bytes, EnumV, tuple, Snap)) or v is None:
        return v
    if isinstance(v, Box):
        ty, ls = it.leaves_of(v)
        if isinstance(ty, (TSet, TList, TDict)):
            return it.new_root(ty, ls)
    raise Unsupported("copy.copy")


def star_call(it, f, args, kwargs):
    h = getattr(it.w, "star_call", None)
    if h:
        r = h(it, f, args, kwargs)
        if r is not UNDEF:
            return r
    if isinstance(f, BuiltinF) and f.name == "zip" and len(args) == 1 and isinstance(args[0], StarArg):
        raise Unsupported("zip(*symbolic)")
    if f is None:
        raise PyRaise("TypeError", ("'NoneType' object is not callable",))
    raise Unsupported("call with a symbolic number of arguments")


# -------------------------------------------------------------------------------------------------- operators
def eq(it, a, b):
    a, b = conc_box(it, a, b), conc_box(it, b, a)
    if isinstance(a, (ConcSet, ConcDict)) or isinstance(b, (ConcSet, ConcDict)):
        if isinstance(a, ConcSet) and isinstance(b, ConcSet):
            return set(a.vals) == set(b.vals)
        raise Unsupported("equality of literal container")
    return it.eq(a, b)


def conc_box(it, a, other):
    """a literal set/dict as a heap container when it is compared with one"""
    if isinstance(a, ConcSet) and isinstance(other, (Box, Snap)):
        b = it.new_root(TUnk("set"))
        for x in a.vals:
            it.set_add(b, x)
        return b
    if isinstance(a, ConcDict) and isinstance(other, (Box, Snap)):
        b = it.new_root(TUnk("dict"))
        for k, v in a.items:
            it.dict_set(b, k, v)
        return b
    return a


def contains(it, c, x):
    if isinstance(c, ConcSet):
        c = tuple(c.vals)
    if isinstance(c, ConcDict):
        c = tuple(k for k, _ in c.items)
    if isinstance(c, GenExp):
        c = force(it, c)
    if isinstance(c, View) and c.kind == "range":
        z = it.num(x)
        lo, hi, st = [it.num(q) for q in c.args]
        if z is not None and c.args[2] == 1:
            return z3.And(z >= lo, z < hi)
    return it.contains(c, x)


def order(it, op, a, b):
    na, nb = it.num(a), it.num(b)
    if na is None or nb is None:
        na, nb = it.real(a), it.real(b)
    if na is not None and nb is not None:
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        return {ast.Lt: lambda: na < nb, ast.LtE: lambda: na <= nb, ast.Gt: lambda: na > nb, ast.GtE: lambda: na >= nb}[type(op)]()
    if isinstance(a, (Box, Snap)) and isinstance(b, (Box, Snap)):
        ta, la = it.leaves_of(a)
        tb, lb = it.leaves_of(b)
        if isinstance(ta, (TSet, TDict)) and isinstance(tb, (TSet, TDict)):
            if isinstance(op, (ast.Gt, ast.GtE)):
                ta, la, tb, lb = tb, lb, ta, la
            sub = subset(it, la[0], lb[0])
            if isinstance(op, (ast.Lt, ast.Gt)):
                return z3.And(sub, la[0] != lb[0])
            return sub
    if a is None or b is None:
        raise PyRaise("TypeError", ("ordering None",))
    if isinstance(a, str) and isinstance(b, str):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
    raise Unsupported(f"ordering of {a!r} and {b!r}")


def subset(it, a, b):
    r = it.ctx.fresh("subset", B)
    ks = a.sort().domain()
    w = it.ctx.fresh("notin", ks)
    if not z3.is_K(a):
        it.ctx.assume(z3.Implies(r, forall(ks, lambda x: z3.Implies(z3.Select(a, x), z3.Select(b, x)), lambda x: [z3.Select(a, x)])))
    it.ctx.assume(z3.Implies(z3.Not(r), z3.And(sel(a, w), z3.Not(sel(b, w)))))
    return r


def binop(it, op, a, b):
    o = type(op)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        try:
            if o is ast.Div:
                if isinstance(a, int) and isinstance(b, int) and b != 0:
                    return SReal(z3.Q(a, b))
                return a / b
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b,
                    ast.Pow: lambda: a ** b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b, ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b}[o]()
        except ZeroDivisionError:
            raise PyRaise("ZeroDivisionError", ())
        except KeyError:
            raise Unsupported("operator")
    na, nb = it.num(a), it.num(b)
    if na is not None and nb is not None:
        if o is ast.Add:
            return SInt(na + nb)
        if o is ast.Sub:
            return SInt(na - nb)
        if o is ast.Mult:
            return SInt(na * nb)
        if o is ast.Div:
            if it.ctx.decide(nb == 0):
                raise PyRaise("ZeroDivisionError", ())
            return SReal(z3.ToReal(na) / z3.ToReal(nb))
        if o in (ast.FloorDiv, ast.Mod):
            if it.ctx.decide(nb == 0):
                raise PyRaise("ZeroDivisionError", ())
            if not it.ctx.decide(nb > 0):
                raise Unsupported("division by a negative number")
            return SInt(na / nb) if o is ast.FloorDiv else SInt(na % nb)
        raise Unsupported("integer operator")
    ra, rb = it.real(a), it.real(b)
    if ra is not None and rb is not None:
        if o is ast.Add:
            return SReal(ra + rb)
        if o is ast.Sub:
            return SReal(ra - rb)
        if o is ast.Mult:
            return SReal(ra * rb)
        if o is ast.Div:
            if it.ctx.decide(rb == 0):
                raise PyRaise("ZeroDivisionError", ())
            return SReal(ra / rb)
        raise Unsupported("real operator")
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and o is ast.Add:
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        return SStr(z3.Concat(it.zs(a), it.zs(b)))
    if isinstance(a, bytes) and isinstance(b, bytes) and o is ast.Add:
        return a + b
    if isinstance(a, tuple) and isinstance(b, tuple) and o is ast.Add:
        return a + b
    if o is ast.Mod and isinstance(a, str):
        return to_str(it, Opaque())
    if isinstance(a, View) and a.kind == "keys":
        a = c_set(it, [a], {})
    if isinstance(b, View) and b.kind == "keys":
        b = c_set(it, [b], {})
    if isinstance(a, ConcSet) and isinstance(b, Box):
        a = conc_box(it, a, b)
    if isinstance(b, ConcSet) and isinstance(a, Box):
        b = conc_box(it, b, a)
    if isinstance(a, (Box, Snap)) and isinstance(b, (Box, Snap, tuple)):
        ta, la = it.leaves_of(a)
        if isinstance(ta, TSet) or isinstance(ta, TUnk) and ta.kind == "set":
            nm = {ast.BitOr: "union", ast.BitAnd: "intersection", ast.Sub: "difference"}.get(o)
            if nm:
                return method(it, a, nm, [b], {})
        if isinstance(ta, TList) or isinstance(ta, TUnk) and ta.kind == "list":
            if o is ast.Add:
                return concat(it, [("*", a), ("*", b)], "list")
        if isinstance(ta, TDict) and o is ast.BitOr:
            r = c_dict(it, [a], {})
            method(it, r, "update", [b], {})
            return r
    if isinstance(a, SU) and isinstance(b, (SU, bytes, str)) and o is ast.Add:
        f = z3.Function("bytes_concat", U, U, U)
        z = f(a.z, it.to_u(b))
        it.ctx.assume(z != NONE)
        return SU(z, a.ty)
    if isinstance(a, bytes) and isinstance(b, SU) and o is ast.Add:
        f = z3.Function("bytes_concat", U, U, U)
        z = f(it.to_u(a), b.z)
        it.ctx.assume(z != NONE)
        return SU(z, b.ty)
    if isinstance(a, SU) and a.ty == TU("str") or isinstance(b, SU) and b.ty == TU("str"):
        return to_str(it, Opaque())
    if a is None or b is None:
        raise PyRaise("TypeError", ("operand None",))
    raise Unsupported(f"operator {o.__name__} on {a!r}, {b!r}")


# -------------------------------------------------------------------------------------------------- items
def norm_index(it, n, i):
    """index within bounds or IndexError; -> z3 Int"""
    z = it.num(i)
    if z is None:
        raise Unsupported("list index")
    if isinstance(i, int):
        z = z3.IntVal(i) if i >= 0 else n + i
        ok = (n > i) if i >= 0 else (n >= -i)
    else:
        neg = it.ctx.decide(z < 0)
        if neg:
            z = n + z
        ok = z3.And(z >= 0, z < n)
    if not it.ctx.decide(ok):
        raise PyRaise("IndexError", ("list index out of range",))
    return z3.simplify(z)


def getitem(it, o, i):
    if isinstance(o, tuple):
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                raise PyRaise("IndexError", ("tuple",))
        if isinstance(i, SInt):
            n = norm_index(it, z3.IntVal(len(o)), i)
            for j in range(len(o) - 1):
                if it.ctx.decide(n == j):
                    return o[j]
            return o[len(o) - 1]
    if isinstance(o, (str, bytes)) and isinstance(i, int):
        try:
            return o[i]
        except IndexError:
            raise PyRaise("IndexError", ("string",))
    if isinstance(o, ConcDict):
        syms = []
        for k, v in o.items:
            e = it.eq(k, i)
            if e is True:
                return v
            if e is False:
                continue
            syms.append((e, v))
        for e, v in syms:
            if it.ctx.decide(e):
                return v
        raise PyRaise("KeyError", (i,))
    if isinstance(o, ClassV):
        ci = o.node
        if ci.is_enum:
            ms = it.prog.enum_members(ci)
            if isinstance(i, str):
                if i in ms:
                    return ms[i]
                raise PyRaise("KeyError", (i,))
            for n, m in ms.items():
                e = it.eq(n, i)
                if e is True or (not isinstance(e, bool) and it.ctx.decide(e)):
                    return m
            raise PyRaise("KeyError", (i,))
        return o
    if isinstance(o, (TypeV, ModuleV)):
        return o
    if isinstance(o, (Box, Snap)):
        ty, ls = it.leaves_of(o)
        if isinstance(ty, TUnk):
            if ty.kind == "dict" and ty.default:
                raise Unsupported("item of an untyped defaultdict")
            raise PyRaise("KeyError" if ty.kind == "dict" else "IndexError", (i,))
        if isinstance(ty, TDict):
            k = it.keyterm(ty.k, i)
            if k is None:
                raise PyRaise("KeyError", (i,))
            if not it.ctx.decide(sel(ls[0], k)):
                if ty.default is not None:
                    d = default_value(it, ty)
                    it.dict_set(o, i, d)
                    ty, ls = it.leaves_of(o)
                    return it.dict_get(o, i, ty, ls)
                raise PyRaise("KeyError", (i,))
            return it.dict_get(o, i, ty, ls)
        if isinstance(ty, TList):
            return it.list_item(o, norm_index(it, ls[0], i))
        if isinstance(ty, TAbs):
            return it.w.abstracts[ty.cls].call(it, o, "__getitem__", [i], {})
    if isinstance(o, SU) and isinstance(o.ty, TOpt):
        if not it.ctx.decide(o.z != NONE):
            raise PyRaise("TypeError", ("'NoneType' object is not subscriptable",))
        o = SU(o.z, o.ty.t)
    if isinstance(o, SU) and isinstance(o.ty, TRef):
        h = it.w.schemas.get(o.ty.cls, {}).get("__getitem__")
        if h:
            return h(it, o, i)
        return it.call_method(o, "__getitem__", [i], {})
    if isinstance(o, (Obj, Rec)):
        return it.call_method(o, "__getitem__", [i], {})
    if isinstance(o, SStr) and it.w.str_mode == "S":
        z = it.num(i)
        n = z3.Length(o.z)
        zi = norm_index(it, n, i)
        return SStr(z3.SubString(o.z, zi, 1))
    if o is None:
        raise PyRaise("TypeError", ("'NoneType' object is not subscriptable",))
    raise Unsupported(f"item of {o!r}")


def default_value(it, ty):
    d = ty.default
    if callable(d):
        return d(it)
    if d in ("set", "list", "dict"):
        return it.new_root(ty.v)
    if d == "int":
        return 0
    raise Unsupported(f"default factory {d}")


def setitem(it, o, i, v):
    if isinstance(o, Box):
        ty = it.type_at(o)
        if isinstance(ty, TDict) or isinstance(ty, TUnk) and ty.kind == "dict":
            return it.dict_set(o, i, v)
        if isinstance(ty, TList):
            ls = list(it.read(o))
            z = norm_index(it, ls[0], i)
            if ty.has_mem:
                new = it.to_leaves(v, ty.e)[0]
                old = z3.Select(ls[1], z)
                mem = ls[-1]
                mem = z3.Store(mem, old, z3.Select(mem, old) - 1)
                mem = z3.Store(mem, new, z3.Select(mem, new) + 1)
                n2 = [ls[0], z3.Store(ls[1], z, new), mem]
                it.write(o, n2)
                it.memfacts(n2)
                return
            it.store_at(o.root, o.steps + (("i", z),), v, ty.e)
            return
        if isinstance(ty, TAbs):
            return it.w.abstracts[ty.cls].call(it, o, "__setitem__", [i, v], {})
    if isinstance(o, SU) and isinstance(o.ty, TRef):
        h = it.w.schemas.get(o.ty.cls, {}).get("__setitem__")
        if h:
            return h(it, o, i, v)
        return it.call_method(o, "__setitem__", [i, v], {})
    if isinstance(o, Obj):
        return it.call_method(o, "__setitem__", [i, v], {})
    if isinstance(o, ConcDict):
        raise Unsupported("assignment into a literal dictionary")
    if o is None or isinstance(o, (tuple, str, bytes)):
        raise PyRaise("TypeError", ("item assignment",))
    raise Unsupported(f"item assignment on {o!r}")


def delitem(it, o, i):
    if isinstance(o, Box):
        ty = it.type_at(o)
        if isinstance(ty, TUnk) and ty.kind == "dict":
            raise PyRaise("KeyError", (i,))
        if isinstance(ty, TDict):
            k = it.keyterm(ty.k, i)
            if k is None or not it.ctx.decide(sel(it.read(o)[0], k)):
                raise PyRaise("KeyError", (i,))
            it.check_frozen(o)
            it.dict_pop_at(o, i)
            return
        if isinstance(ty, TList):
            list_pop(it, o, i)
            return
        if isinstance(ty, TAbs):
            return it.w.abstracts[ty.cls].call(it, o, "__delitem__", [i], {})
    if isinstance(o, Obj) or isinstance(o, SU) and isinstance(o.ty, TRef):
        return it.call_method(o, "__delitem__", [i], {})
    raise Unsupported(f"del item of {o!r}")


def slice(it, o, lo, hi, st):
    if st is not None:
        if st == -1 and lo is None and hi is None:
            itr = it.make_iter(o)
            if itr.kind == "conc":
                return tuple(reversed(itr.vals)) if isinstance(o, tuple) else it.make_list(list(reversed(itr.vals)))
            r = b_reversed(it, [o], {})
            return c_list(it, [r], {})
        if isinstance(o, (Box, Snap)) and isinstance(it.leaves_of(o)[0], TList) and isinstance(st, int) and st > 1 and it.leaves_of(o)[1][0] is not None:
            # every st-th item of the plain slice
            whole = slice(it, o, lo, hi, None)
            ty, ls = it.leaves_of(whole)
            if ty.e.mutable:
                raise Unsupported("slice of a list of containers")
            n2 = (ls[0] + (st - 1)) / st
            arrs = []
            for a in ls[1:1 + len(ty.e.sorts())]:
                b = it.ctx.fresh("slice", a.sort())
                it.ctx.assume(forall(I, lambda j: z3.Select(b, j) == z3.Select(a, j * st), lambda j: [z3.Select(b, j)]))
                arrs.append(b)
            out = [n2] + arrs
            t = TList(ty.e)
            if t.has_mem:
                mem = it.ctx.fresh("slicemem", z3.ArraySort(U, I))
                out.append(mem)
                it.memfacts(out)
            return Snap(TSeq(ty.e), out) if isinstance(ty, TSeq) else it.new_root(t, out)
        raise Unsupported("slice step")
    if isinstance(o, (tuple, str, bytes)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
        return o[lo:hi]
    if isinstance(o, SStr):
        n = z3.Length(o.z)
        l = z3.IntVal(0) if lo is None else it.num(lo)
        h = n if hi is None else it.num(hi)
        if isinstance(lo, int) and lo < 0:
            l = z3.If(n + lo < 0, z3.IntVal(0), n + lo)
        elif lo is not None and not isinstance(lo, int):
            if it.ctx.decide(l < 0):
                l = z3.If(n + l < 0, z3.IntVal(0), n + l)
        if isinstance(hi, int) and hi < 0:
            h = n + hi
        elif hi is not None and not isinstance(hi, int):
            if it.ctx.decide(h < 0):
                h = n + h
        h = z3.If(h > n, n, h)
        return SStr(z3.If(h > l, z3.SubString(o.z, l, h - l), z3.StringVal("")))
    if isinstance(o, SU) and isinstance(o.ty, TU):
        f = z3.Function("slice", U, I, I, U)
        l = z3.IntVal(0) if lo is None else it.num(lo)
        h = z3.IntVal(-10 ** 9) if hi is None else it.num(hi)
        z = f(o.z, l, h)
        it.ctx.assume(z != NONE)
        return SU(z, o.ty)
    if isinstance(o, (Box, Snap)):
        ty, ls = it.leaves_of(o)
        if isinstance(ty, TUnk):
            return it.new_root(TUnk("list"))
        if isinstance(ty, TList):
            n = ls[0]

            def norm(x, d):
                if x is None:
                    return d
                z = it.num(x)
                if isinstance(x, int):
                    if x < 0:
                        return z3.If(n + x < 0, z3.IntVal(0), n + x)
                    return z3.If(z > n, n, z)
                if it.ctx.decide(z < 0):
                    return z3.If(n + z < 0, z3.IntVal(0), n + z)
                return z if tidy and it.ctx.valid(z <= n) else z3.If(z > n, n, z)
            tidy = it.w.tidy_slices
            l, h = norm(lo, z3.IntVal(0)), norm(hi, n)
            if not (tidy and it.ctx.valid(l <= h)):
                h = z3.If(h < l, l, h)
            return slice_list(it, o, l, h)
    raise Unsupported(f"slice of {o!r}")


def slice_list(it, v, lo, hi, aslist=False):
    ty, ls = it.leaves_of(v)
    if ty.e.mutable:
        raise Unsupported("slice of a list of containers")
    n = z3.simplify(hi - lo)
    m = len(ty.e.sorts())
    arrs = []
    for a in ls[1:1 + m]:
        b = it.ctx.fresh("slice", a.sort())
        it.ctx.assume(forall(I, lambda j: z3.Select(b, j) == z3.Select(a, j + lo), lambda j: [z3.Select(b, j)]))
        arrs.append(b)
    out = [n] + arrs
    t = TList(ty.e)
    if t.has_mem:
        mem = it.ctx.fresh("slicemem", z3.ArraySort(U, I))
        out.append(mem)
        it.memfacts(out)
        it.ctx.assume(forall(U, lambda x: z3.Select(mem, x) <= z3.Select(ls[-1], x), lambda x: [z3.Select(mem, x)]))
    if isinstance(ty, TSeq) and not aslist:
        return Snap(TSeq(ty.e), out)
    return it.new_root(t, out)


def concat(it, parts, kind):
    """list made of single values and ('*', iterable) parts"""
    box = it.new_root(TUnk("list"))
    for p in parts:
        if isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], str) and p[0] == "*":
            method(it, box, "extend", [p[1]], {})
        else:
            it.list_append(box, p)
    if kind == "tuple":
        ty, ls = it.leaves_of(box)
        if isinstance(ty, TUnk):
            return ()
        return Snap(TSeq(ty.e), ls)
    return box


def dict_display(it, items):
    if all(k is None and isinstance(v, ConcDict) or k is not None and isinstance(k, (str, int, bytes, EnumV)) for k, v in items):
        out = {}
        for k, v in items:
            if k is None:
                for a, b in v.items:
                    out[a] = b
            else:
                out[k] = v
        return ConcDict(list(out.items()))
    h = getattr(it.w, "dict_display", None)
    if h:
        return h(it, items)
    if all(isinstance(k, str) for k, v in items if k is not None):
        return Opaque("dict display")
    b = it.new_root(TUnk("dict"))
    for k, v in items:
        if k is None:
            method(it, b, "update", [v], {})
        else:
            it.dict_set(b, k, v)
    return b


# -------------------------------------------------------------------------------------------------- methods
def method(it, o, name, a, k):
    h = it.w.libs.get("." + name)
    if h is not None:
        r = h(it, o, a, k)
        if r is not UNDEF:
            return r
    if isinstance(o, (ConcSet, ConcDict)):
        return conc_method(it, o, name, a, k)
    if isinstance(o, (Box, Snap)):
        ty = it.leaves_of(o)[0]
        if isinstance(ty, TDict) or isinstance(ty, TUnk) and ty.kind == "dict":
            f = DICT.get(name)
        elif isinstance(ty, TSet) or isinstance(ty, TUnk) and ty.kind == "set":
            f = SETM.get(name)
        elif isinstance(ty, TList) or isinstance(ty, TUnk) and ty.kind == "list":
            f = LISTM.get(name)
        else:
            f = None
        if f is None:
            if name.startswith("__"):
                return dunder(it, o, name, a)
            raise PyRaise("AttributeError", (name,))
        return f(it, o, a, k)
    if isinstance(o, View):
        if name in ("copy", "isdisjoint") or name.startswith("__"):
            return dunder(it, o, name, a)
    if isinstance(o, (SU, bytes, str, SStr)):
        return text_method(it, o, name, a, k)
    if isinstance(o, Opaque):
        return Opaque(o.name + "." + name)
    if isinstance(o, (SInt, int)) and name == "bit_length":
        raise Unsupported("bit_length")
    if isinstance(o, tuple) and name in ("index", "count"):
        if name == "index":
            for j, x in enumerate(o):
                e = it.eq(x, a[0])
                if e is True or (not isinstance(e, bool) and it.ctx.decide(e)):
                    return j
            raise PyRaise("ValueError", ("index",))
    if isinstance(o, CoroV):
        raise Unsupported("coroutine method " + name)
    if isinstance(o, (int, SInt, float, SReal, tuple, bool, SBool)):
        raise PyRaise("AttributeError", (name,))
    raise Unsupported(f"method {name} of {o!r}")


def dunder(it, o, name, a):
    if name == "__len__":
        return it.length(o)
    if name == "__contains__":
        c = contains(it, o, a[0])
        return c if isinstance(c, bool) else SBool(c)
    if name == "__iter__":
        return it.make_iter(o)
    if name == "__getitem__":
        return getitem(it, o, a[0])
    if name == "__setitem__":
        return setitem(it, o, a[0], a[1])
    if name == "__delitem__":
        return delitem(it, o, a[0])
    raise Unsupported(name)


def conc_method(it, o, name, a, k):
    if isinstance(o, ConcDict):
        if name == "get":
            try:
                return getitem(it, o, a[0])
            except PyRaise as e:
                if e.cls == "KeyError":
                    return a[1] if len(a) > 1 else None
                raise
        if name == "items":
            return tuple((x, y) for x, y in o.items)
        if name == "keys":
            return tuple(x for x, _ in o.items)
        if name == "values":
            return tuple(y for _, y in o.items)
        if name == "update":
            h = getattr(it.w, "opaque_update", None)
            raise Unsupported("update of a literal dictionary")
    raise Unsupported(f"{name} of a literal container")


def typed(it, o):
    ty, ls = it.leaves_of(o)
    return ty, ls


# ---- dict
def d_get(it, o, a, k):
    ty, ls = typed(it, o)
    d = a[1] if len(a) > 1 else None
    if isinstance(ty, TUnk):
        return d
    kt = it.keyterm(ty.k, a[0])
    if kt is None or not it.ctx.decide(sel(ls[0], kt)):
        return d
    return it.dict_get(o, a[0], ty, ls)


def d_pop(it, o, a, k):
    ty, ls = typed(it, o)
    d = a[1] if len(a) > 1 else UNDEF
    kt = None if isinstance(ty, TUnk) else it.keyterm(ty.k, a[0])
    if kt is None or not it.ctx.decide(sel(ls[0], kt)):
        if d is not UNDEF:
            return d
        raise PyRaise("KeyError", (a[0],))
    it.check_frozen(o)
    return it.dict_pop_at(o, a[0])


def d_setdefault(it, o, a, k):
    ty, ls = typed(it, o)
    if not isinstance(ty, TUnk):
        kt = it.keyterm(ty.k, a[0])
        if it.ctx.decide(sel(ls[0], kt)):
            return it.dict_get(o, a[0], ty, ls)
    v = a[1] if len(a) > 1 else None
    it.dict_set(o, a[0], v)
    ty, ls = typed(it, o)
    return it.dict_get(o, a[0], ty, ls)


def d_update(it, o, a, k):
    for x, y in k.items():
        it.dict_set(o, x, y)
    if not a:
        return None
    v = force(it, a[0])
    if isinstance(v, ConcDict):
        for x, y in v.items:
            it.dict_set(o, x, y)
        return None
    if isinstance(v, (Box, Snap)) and isinstance(it.leaves_of(v)[0], (TDict, TUnk)):
        tv, lv = it.leaves_of(v)
        if isinstance(tv, TUnk):
            return None
        to, lo = typed(it, o)
        if isinstance(to, TUnk):
            it.retype(o, TDict(tv.k, tv.v, ordered=tv.ordered))
            to, lo = typed(it, o)
        if tv.v.mutable or to.ordered or tv.ordered or to.v.sorts() != tv.v.sorts():
            raise Unsupported("dict.update")
        it.check_frozen(o)
        new = union_arr(it, lo[0], lv[0])
        ks = new.sort().domain()
        vals = []
        for x, y in zip(lo[to.nhead:], lv[tv.nhead:]):
            z = it.ctx.fresh("upd", x.sort())
            it.ctx.assume(forall(ks, lambda q: z3.Select(z, q) == z3.If(z3.Select(lv[0], q), z3.Select(y, q), z3.Select(x, q)), lambda q: [z3.Select(z, q)]))
            vals.append(z)
        it.write(o, [new] + vals)
        return None
    itr = it.make_iter(v)
    if itr.kind == "conc":
        for x in itr.vals:
            it.dict_set(o, x[0], x[1])
        return None
    d_update(it, o, [c_dict(it, [v], {})], {})


def d_clear(it, o, a, k):
    ty, ls = typed(it, o)
    if isinstance(ty, TUnk):
        return None
    it.check_frozen(o)
    for b in list(it.live()):
        if b.root == o.root and len(b.steps) > len(o.steps) and b.steps[:len(o.steps)] == o.steps:
            raise Unsupported("clear while elements are referenced")
    it.write(o, it.empty_leaves(ty))


def d_popitem(it, o, a, k):
    ty, ls = typed(it, o)
    if isinstance(ty, TUnk):
        raise PyRaise("KeyError", ())
    it.setfacts(ls[0])
    if not it.ctx.decide(CARD(ls[0]) > 0):
        raise PyRaise("KeyError", ())
    if ty.ordered:
        kk = z3.Select(ls[1], CARD(ls[0]) - 1) if not k.get("last") is False else z3.Select(ls[1], 0)
    else:
        kk = it.ctx.fresh("popitem", ls[0].sort().domain())
    it.ctx.assume(z3.Select(ls[0], kk))
    key = it.from_leaves(ty.k, [kk])
    return (key, it.dict_pop_at(o, key))


DICT = {"get": d_get, "pop": d_pop, "setdefault": d_setdefault, "update": d_update, "clear": d_clear, "popitem": d_popitem,
        "keys": lambda it, o, a, k: View("keys", o), "values": lambda it, o, a, k: View("values", o), "items": lambda it, o, a, k: View("items", o),
        "copy": lambda it, o, a, k: c_dict(it, [o], {})}


# ---- set
def union_arr(it, s, t):
    if z3.is_K(t):
        return s
    if z3.is_K(s):
        return t
    ks = s.sort().domain()
    n = it.ctx.fresh("union", s.sort())
    for x in (n, s, t):
        it.ctx.assume(forall(ks, lambda q: z3.Select(n, q) == z3.Or(z3.Select(s, q), z3.Select(t, q)), lambda q: [z3.Select(x, q)]))
    it.setfacts(n)
    it.ctx.assume(z3.And(CARD(n) >= CARD(s), CARD(n) >= CARD(t), CARD(n) <= CARD(s) + CARD(t)))
    return n


def inter_arr(it, s, t, neg):
    if z3.is_K(t):
        return s if neg else t
    if z3.is_K(s):
        return s
    ks = s.sort().domain()
    n = it.ctx.fresh("diff" if neg else "inter", s.sort())
    for x in (n, s):
        it.ctx.assume(forall(ks, lambda q: z3.Select(n, q) == z3.And(z3.Select(s, q), z3.Not(z3.Select(t, q)) if neg else z3.Select(t, q)), lambda q: [z3.Select(x, q)]))
    it.setfacts(n)
    it.ctx.assume(CARD(n) <= CARD(s))
    return n


def set_arg(it, v, like):
    v = plain(force(it, v))
    if isinstance(v, (Box, Snap)):
        ty, ls = it.leaves_of(v)
        if isinstance(ty, (TSet, TDict)):
            return ls[0], (ty.e if isinstance(ty, TSet) else ty.k)
    b = c_set(it, [v], {})
    ty, ls = it.leaves_of(b)
    if isinstance(ty, TUnk):
        return None, None
    return ls[0], ty.e


def s_remove(it, o, a, k, strict=True):
    ty, ls = typed(it, o)
    kt = None if isinstance(ty, TUnk) else it.keyterm(ty.e, a[0])
    if kt is None:
        if strict:
            raise PyRaise("KeyError", (a[0],))
        return None
    if strict and not it.ctx.decide(sel(ls[0], kt)):
        raise PyRaise("KeyError", (a[0],))
    it.write(o, [it.store_out(ls[0], kt)])


def s_pop(it, o, a, k):
    ty, ls = typed(it, o)
    if isinstance(ty, TUnk):
        raise PyRaise("KeyError", ())
    it.setfacts(ls[0])
    if not it.ctx.decide(CARD(ls[0]) > 0):
        raise PyRaise("KeyError", ())
    w = it.ctx.fresh("setpop", ls[0].sort().domain())
    it.ctx.assume(z3.Select(ls[0], w))
    it.write(o, [it.store_out(ls[0], w)])
    return it.from_leaves(ty.e, [w])


def set_op(kind, inplace):
    def f(it, o, a, k):
        ty, ls = typed(it, o)
        cur, et = (None, None) if isinstance(ty, TUnk) else (ls[0], ty.e)
        for x in a:
            s, t = set_arg(it, x, et)
            if s is None:
                if kind == "inter" and cur is not None:
                    cur = it.default_term(cur.sort())
                continue
            if cur is None:
                if kind == "union":
                    cur, et = s, t
                continue
            cur = union_arr(it, cur, s) if kind == "union" else inter_arr(it, cur, s, kind == "diff")
        if inplace:
            if cur is not None:
                if isinstance(ty, TUnk):
                    it.retype(o, TSet(et))
                it.check_frozen(o)
                it.write(o, [cur])
            return None
        return it.new_root(TUnk("set")) if cur is None else it.new_root(TSet(et), [cur])
    return f


def s_issubset(it, o, a, k):
    ty, ls = typed(it, o)
    s, t = set_arg(it, a[0], None)
    if isinstance(ty, TUnk):
        return True
    if s is None:
        s = it.default_term(ls[0].sort())
    return SBool(subset(it, ls[0], s))


def s_isdisjoint(it, o, a, k):
    b = set_op("inter", False)(it, o, a, k)
    n = it.length(b)
    return n == 0 if isinstance(n, int) else SBool(n.z == 0)


SETM = {"add": lambda it, o, a, k: it.set_add(o, a[0]), "remove": s_remove, "discard": lambda it, o, a, k: s_remove(it, o, a, k, False),
        "pop": s_pop, "update": set_op("union", True), "union": set_op("union", False), "difference": set_op("diff", False),
        "difference_update": set_op("diff", True), "intersection": set_op("inter", False), "intersection_update": set_op("inter", True),
        "copy": lambda it, o, a, k: c_set(it, [o], {}), "clear": d_clear, "issubset": s_issubset, "isdisjoint": s_isdisjoint,
        "issuperset": lambda it, o, a, k: s_issubset(it, c_set(it, [a[0]], {}), [o], {})}


# ---- list
def l_extend(it, o, a, k):
    v = plain(force(it, a[0]))
    itr = it.make_iter(v)
    if itr.kind == "conc":
        for x in itr.vals:
            it.list_append(o, x)
        return None
    b = v if isinstance(v, (Box, Snap)) and isinstance(it.leaves_of(v)[0], TList) else c_list(it, [v], {})
    tb, lb = it.leaves_of(b)
    to, lo = typed(it, o)
    if isinstance(to, TUnk):
        to = it.retype(o, TList(tb.e))
        it.write(o, list(lb))
        return None
    if to.e.sorts() != tb.e.sorts() or tb.e.mutable:
        raise Unsupported("list.extend")
    n0, n1 = lo[0], lb[0]
    out = [n0 + n1]
    for x, y in zip(lo[1:1 + len(to.e.sorts())], lb[1:]):
        z = it.ctx.fresh("ext", x.sort())
        it.ctx.assume(forall(I, lambda j: z3.And(z3.Implies(j < n0, z3.Select(z, j) == z3.Select(x, j)), z3.Implies(z3.And(j >= n0, j < n0 + n1), z3.Select(z, j) == z3.Select(y, j - n0))),
                             lambda j: [z3.Select(z, j)]))
        out.append(z)
    if to.has_mem:
        m = it.ctx.fresh("extmem", lo[-1].sort())
        for x in (m, lo[-1], lb[-1]):
            if not z3.is_K(x):
                it.ctx.assume(forall(U, lambda q: z3.Select(m, q) == z3.Select(lo[-1], q) + z3.Select(lb[-1], q), lambda q: [z3.Select(x, q)]))
        out.append(m)
        it.memfacts(out)
    it.write(o, out)


def list_pop(it, o, i):
    ty, ls = typed(it, o)
    if isinstance(ty, TUnk):
        raise PyRaise("IndexError", ())
    z = norm_index(it, ls[0], i)
    v = it.list_item(o, z)
    it.detach(o.root, o.steps + (("i", z),))
    ls = list(it.read(o))
    last = z3.simplify(ls[0] - 1)
    out = [last]
    m = len(ty.e.sorts())
    islast = z3.simplify(z == last)
    for x in ls[1:1 + m]:
        if is_true(islast):
            out.append(x)
        else:
            n = it.ctx.fresh("popl", x.sort())
            it.ctx.assume(forall(I, lambda j: z3.Select(n, j) == z3.If(j < z, z3.Select(x, j), z3.Select(x, j + 1)), lambda j: [z3.Select(n, j)]))
            out.append(n)
    if ty.has_mem:
        e = z3.Select(ls[1], z)
        out.append(z3.Store(ls[-1], e, z3.Select(ls[-1], e) - 1))
    it.write(o, out)
    if ty.has_mem:
        it.memfacts(out)
    return v


def l_pop(it, o, a, k):
    return list_pop(it, o, a[0] if a else -1)


def l_insert(it, o, a, k):
    ty, ls = typed(it, o)
    if isinstance(ty, TUnk):
        return it.list_append(o, a[1])
    if not (isinstance(a[0], int) and a[0] == 0) or ty.e.mutable:
        raise Unsupported("list.insert")
    es = it.to_leaves(a[1], ty.e)
    out = [ls[0] + 1]
    for x, e in zip(ls[1:], es):
        n = it.ctx.fresh("insl", x.sort())
        it.ctx.assume(forall(I, lambda j: z3.Select(n, j) == z3.If(j == 0, e, z3.Select(x, j - 1)), lambda j: [z3.Select(n, j)]))
        out.append(n)
    if ty.has_mem:
        out.append(z3.Store(ls[-1], es[0], z3.Select(ls[-1], es[0]) + 1))
        it.memfacts(out)
    it.write(o, out)


def l_remove(it, o, a, k):
    i = l_index(it, o, a, k)
    list_pop(it, o, i)


def l_index(it, o, a, k):
    ty, ls = typed(it, o)
    if isinstance(ty, TUnk):
        raise PyRaise("ValueError", ("not in list",))
    h = getattr(it.w, "list_index", None)
    if h:
        r = h(it, o, a[0])
        if r is not None:
            return r
    if ty.e.mutable or isinstance(ty.e, TRef):
        raise Unsupported("list.index of objects")
    c = it.contains(o, a[0])
    if not it.ctx.decide(c):
        raise PyRaise("ValueError", ("not in list",))
    zs = it.to_leaves(a[0], ty.e)
    w = it.ctx.fresh("index", I)
    it.ctx.assume(z3.And(0 <= w, w < ls[0], *[z3.Select(x, w) == z for x, z in zip(ls[1:], zs)]))
    it.ctx.assume(forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < w), z3.Not(conj([z3.Select(x, j) == z for x, z in zip(ls[1:], zs)])))))
    return SInt(w)


def l_count(it, o, a, k):
    ty, ls = typed(it, o)
    if isinstance(ty, TUnk):
        return 0
    if ty.has_mem and not isinstance(ty.e, TRef):
        return SInt(z3.Select(ls[-1], it.to_leaves(a[0], ty.e)[0]))
    raise Unsupported("list.count")


LISTM = {"append": lambda it, o, a, k: it.list_append(o, a[0]), "extend": l_extend, "pop": l_pop, "insert": l_insert, "remove": l_remove,
         "index": l_index, "count": l_count, "clear": d_clear, "copy": lambda it, o, a, k: c_list(it, [o], {}),
         "popleft": lambda it, o, a, k: list_pop(it, o, 0), "appendleft": lambda it, o, a, k: l_insert(it, o, [0] + list(a), k)}


# ---- text
def text_method(it, o, name, a, k):
    if isinstance(o, SU) and isinstance(o.ty, TOpt):
        if not it.ctx.decide(o.z != NONE):
            raise PyRaise("AttributeError", (name,))
        o = SU(o.z, o.ty.t)
    if isinstance(o, bytes) and all(isinstance(x, (int, str, bytes)) for x in a):
        if name in ("hex", "decode"):
            return getattr(o, name)()
    if isinstance(o, str) and all(isinstance(x, (int, str)) for x in a) and name in (
            "encode", "split", "strip", "lower", "upper", "startswith", "endswith", "partition", "rpartition", "rsplit", "replace", "isdigit", "format", "ljust", "rjust"):
        r = getattr(o, name)(*a)
        return it.make_list(r) if isinstance(r, list) else r
    if isinstance(o, (SStr, str)) and it.w.str_mode == "S":
        return sstr_method(it, o, name, a, k)
    tn = o.ty.name if isinstance(o, SU) else ("bytes" if isinstance(o, bytes) else "str")
    z = it.to_u(o)
    if tn in ("bytes", "any") and name == "hex":
        it.ctx.assume(z3.And(HEX(z) != NONE, UNHEX(HEX(z)) == z))
        return SU(HEX(z), TU("str"))
    if tn == "str" and name == "encode":
        it.ctx.assume(z3.And(ENC(z) != NONE, DEC(ENC(z)) == z))
        return SU(ENC(z), BYTES)
    if tn in ("bytes", "any") and name == "decode":
        it.ctx.ex.assumed.add("bytes decoded to text are valid UTF-8")
        it.ctx.assume(z3.And(DEC(z) != NONE, ENC(DEC(z)) == z))
        return SU(DEC(z), TU("str"))
    if tn == "str" and name in ("format", "strip", "lower", "upper", "join", "ljust", "rjust", "replace"):
        return to_str(it, Opaque())
    if tn == "str" and name == "split":
        r = it.fresh_value("parts", TList(TU("str")))
        it.ctx.assume(it.leaves_of(r)[1][0] >= 1)
        return r
    if tn == "bytes" and name == "join":
        return SU(it.ctx.fresh("joined", U), BYTES)
    raise Unsupported(f"method {name} of {o!r}")


def str_parts(z):
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for c in z.children() for p in str_parts(c)]
    return [z]


def str_concat(ps):
    ps = [p for p in ps if not (z3.is_string_value(p) and p.as_string() == "")]
    return z3.StringVal("") if not ps else ps[0] if len(ps) == 1 else z3.Concat(*ps)


def first_cut(it, z, s):
    """z = h + s + t at the first occurrence of s, or None where there is none (branches)"""
    c = it.ctx
    ps = str_parts(z3.simplify(z))
    for i, p in enumerate(ps):
        if z3.is_string_value(p):
            x = p.as_string()
            if s in x and (len(s) == 1 or i == 0):
                j = x.index(s)
                return str_concat(ps[:i] + [z3.StringVal(x[:j])]), str_concat([z3.StringVal(x[j + len(s):])] + ps[i + 1:])
            if len(s) > 1:
                break
        elif len(s) > 1 or c.feasible(z3.Contains(p, z3.StringVal(s))):
            break
    else:
        return None
    zs = z3.StringVal(s)
    if not c.decide(z3.Contains(z, zs)):
        return None
    h, t = c.fresh("before", S), c.fresh("after", S)
    c.assume(z3.And(z == z3.Concat(h, zs, t), z3.IndexOf(z, zs, 0) == z3.Length(h)))
    c.assume(z3.Not(z3.Contains(str_concat([h, z3.StringVal(s[:-1])]), zs)))
    return h, t


def last_cut(it, z, s):
    """z = h + s + t at the last occurrence of s, or None where there is none (branches)"""
    c = it.ctx
    ps = str_parts(z3.simplify(z))
    for i in reversed(range(len(ps))):
        p = ps[i]
        if z3.is_string_value(p):
            x = p.as_string()
            if s in x and (len(s) == 1 or i == len(ps) - 1):
                j = x.rindex(s)
                return str_concat(ps[:i] + [z3.StringVal(x[:j])]), str_concat([z3.StringVal(x[j + len(s):])] + ps[i + 1:])
            if len(s) > 1:
                break
        elif len(s) > 1 or c.feasible(z3.Contains(p, z3.StringVal(s))):
            break
    else:
        return None
    zs = z3.StringVal(s)
    if not c.decide(z3.Contains(z, zs)):
        return None
    h, t = c.fresh("rhead", S), c.fresh("rtail", S)
    c.assume(z3.And(z == z3.Concat(h, zs, t), z3.Not(z3.Contains(t, zs))))
    if len(s) > 1:
        c.assume(z3.Not(z3.Contains(str_concat([z3.StringVal(s[1:]), t]), zs)))
    return h, t


def sstr_method(it, o, name, a, k):
    z = it.zs(o)
    c = it.ctx
    if name == "startswith":
        return SBool(z3.PrefixOf(it.zs(a[0]), z))
    if name == "endswith":
        return SBool(z3.SuffixOf(it.zs(a[0]), z))
    if name == "isdigit":
        return SBool(z3.InRe(z, z3.Plus(z3.Range("0", "9"))))
    if name == "count" and isinstance(a[0], str) and a[0]:
        cut, n = first_cut(it, z, a[0]), 0
        while cut is not None and n < 2:
            n += 1
            cut = first_cut(it, cut[1], a[0])
        if cut is None:
            return n
        m = c.fresh("count", I)
        c.assume(m > n)
        return SInt(m)
    if name in ("find", "index"):
        i = z3.IndexOf(z, it.zs(a[0]), 0)
        if name == "index" and not c.decide(i >= 0):
            raise PyRaise("ValueError", ("substring not found",))
        return SInt(i)
    if name in ("split", "partition") and isinstance(a[0], (str,)) and len(a[0]) > 0:
        s = it.zs(a[0])
        cut = first_cut(it, z, a[0])
        if cut is None:
            return it.make_list([o]) if name == "split" else (o, "", "")
        h, t = cut
        mx = a[1] if len(a) > 1 else k.get("maxsplit", -1)
        if name == "partition":
            return (SStr(h), a[0], SStr(t))
        if mx == 1:
            return it.make_list([SStr(h), SStr(t)])
        # two parts, or more than two
        cut = first_cut(it, t, a[0])
        if cut is None:
            return it.make_list([SStr(h), SStr(t)])
        t1, t2 = cut
        cut = first_cut(it, t2, a[0])
        if cut is None:
            return it.make_list([SStr(h), SStr(t1), SStr(t2)])
        ty = TList(TStr())
        ls = it.list_leaves([SStr(h), SStr(t1)], ty)
        n = c.fresh("nsplit", I)
        c.assume(n >= 4)
        arr = c.fresh("split", z3.ArraySort(I, S))
        c.assume(z3.And(z3.Select(arr, 0) == h, z3.Select(arr, 1) == t1))
        return it.new_root(ty, [n, arr])
    if name in ("rsplit", "rpartition") and isinstance(a[0], str):
        cut = last_cut(it, z, a[0])
        if cut is None:
            return it.make_list([o]) if name == "rsplit" else ("", "", o)
        h, t = cut
        if name == "rpartition":
            return (SStr(h), a[0], SStr(t))
        if (a[1] if len(a) > 1 else k.get("maxsplit", -1)) == 1:
            return it.make_list([SStr(h), SStr(t)])
        raise Unsupported("rsplit")
    if name == "encode":
        return SU(z3.Function("sencode", S, U)(z), BYTES)
    raise Unsupported(f"string method {name}")


# -------------------------------------------------------------------------------------------------- library base classes
def queue_like(it, ci):
    return any(b.split(".")[-1] == "Queue" for b in it.prog.lib_bases(ci))


def queue_init(it, o, ci):
    """asyncio.Queue.__init__: calls _init(maxsize)"""
    if it.prog.find_method(ci, "_init"):
        it.call_method(o, "_init", [0], {})


def own_method(it, o, ci, name):
    return it.prog.find_method(ci, name) is not None


def inherited(it, o, ci, name):
    """asyncio.Queue in terms of _put/_get (CPython's implementation, assumed contract; the queues here are unbounded)"""
    h = it.w.attrs.get((ci.name, "inherited"))
    if h:
        r = h(it, o, name)
        if r is not None:
            return r
    if not queue_like(it, ci):
        return None

    def size():
        return it.length(it.getattr(o, "_queue"))

    def empty():
        t = it.truth(it.getattr(o, "_queue"))
        return t if isinstance(t, bool) else z3.Not(t)

    def put_now(a):
        it.ctx.ex.assumed.add("asyncio.Queue.put/get/get_nowait/qsize/empty behave as CPython's (put = _put, get = wait until non-empty then _get)")
        it.call_method(o, "_put", [a[0]], {})

    def get_now():
        t = it.truth(it.getattr(o, "_queue"))
        if not it.ctx.decide(t):
            raise PyRaise("QueueEmpty", ())
        return it.call_method(o, "_get", [], {})

    def get_wait():
        t = it.truth(it.getattr(o, "_queue"))
        if not it.ctx.decide(t):
            if it.w.on_suspend is None:
                raise PathEnd()
            it.w.on_suspend(it, "queue.get")
            it.ctx.assume(it.truth(it.getattr(o, "_queue")))
        return it.call_method(o, "_get", [], {})
    if name == "put":
        return BuiltinF("put", lambda a, k: CoroV(lambda: put_now(a)))
    if name == "put_nowait":
        return BuiltinF("put_nowait", lambda a, k: put_now(a))
    if name == "get":
        return BuiltinF("get", lambda a, k: CoroV(get_wait))
    if name == "get_nowait":
        return BuiltinF("get_nowait", lambda a, k: get_now())
    if name == "qsize":
        return BuiltinF("qsize", lambda a, k: size())
    if name == "empty":
        def emp(a, k):
            t = it.truth(it.getattr(o, "_queue"))
            return (not t) if isinstance(t, bool) else SBool(z3.Not(t))
        return BuiltinF("empty", emp)
    return None
