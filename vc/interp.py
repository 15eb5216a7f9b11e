"""Symbolic interpreter of Python functions over the heap of core.Ctx."""
from __future__ import annotations
import ast
import builtins
import weakref

from .core import *
from .program import node_pos
from .program import ClassInfo, Program, dotted


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ExcV:
    """exception object; cls is a class name, '?' for an arbitrary subclass of Exception"""

    def __init__(self, cls, args=(), u=None):
        self.cls, self.args, self.u = cls, args, u

    def __repr__(self):
        return f"{self.cls}{self.args}"


class TypeV:
    """a library class used as a value"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, TypeV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class RepoMod:
    def __init__(self, name):
        self.name = name


class Poison:
    def __init__(self, name):
        self.name = name


class Opaque:
    """result of a library call whose value no contract speaks about"""

    def __init__(self, name=""):
        self.name = name


class LibM:
    """method of a library-modelled value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Event:
    def __init__(self, chan, to, msg, extra=None):
        self.chan, self.to, self.msg, self.extra = chan, to, msg, extra

    def __repr__(self):
        return f"Event({self.chan},{self.to},{self.msg})"


class Repeat:
    """events of the iterations of a loop: for every element, exactly one of the alternatives (facts, events)"""

    def __init__(self, it, elem, D, alts, partial=False):
        self.it, self.elem, self.D, self.alts, self.partial = it, elem, D, alts, partial

    def __repr__(self):
        return f"Repeat({self.alts})"


EXC_BASE = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "ValueError": "Exception",
            "TypeError": "Exception", "AttributeError": "Exception", "AssertionError": "Exception",
            "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "ZeroDivisionError": "ArithmeticError",
            "ArithmeticError": "Exception", "OverflowError": "ArithmeticError", "StopIteration": "Exception",
            "TimeoutError": "OSError", "OSError": "Exception", "ImportError": "Exception", "NameError": "Exception",
            "UnboundLocalError": "NameError", "UnicodeDecodeError": "ValueError", "QueueEmpty": "Exception", "Empty": "Exception",
            "InvalidStateError": "Exception", "CancelledError": "BaseException", "KeyboardInterrupt": "BaseException",
            "CycleError": "ValueError", "struct.error": "Exception", "ZMQError": "Exception", "PicklingError": "Exception",
            "Exception": "BaseException", "SystemExit": "BaseException", "ScaledDisconnect": "Exception", "GeneratorExit": "BaseException",
            "EOFError": "Exception", "RecursionError": "RuntimeError", "MemoryError": "Exception", "?": "Exception",
            "BufferError": "Exception", "StopAsyncIteration": "Exception"}


def exc_sub(c, base):
    while c is not None:
        if c == base:
            return True
        c = EXC_BASE.get(c)
    return False


class Frame:
    def __init__(self, fv, parent=None, selfcls=None):
        self.fv = fv
        self.locals = {}
        self.closure = fv.closure if fv else None
        self.module = fv.module if fv else None
        self.cls = fv.cls if fv else None
        self.nonlocals = set()


class World:
    """configuration of a verification unit"""

    def __init__(self, prog):
        self.prog = prog
        self.schemas = {}       # class name -> {field: T}
        self.refs = set()       # classes whose instances are shareable references
        self.lean = False      # loops: only the specification's own candidate invariants and unchanged cells
        self.structs = set()    # classes with uniquely owned mutable instances
        self.abstracts = {}     # class name -> AbsSpec
        self.roots = {}         # (class name, field) -> (class name, root)
        self.root_classes = {}  # root -> ClassInfo
        self.prefix_terms = []  # positions worth trying as the length of a kept prefix
        self.contracts = {}     # 'Class.method' -> fn(interp, selfv, args, kwargs)
        self.libs = {}          # dotted -> fn(interp, args, kwargs)
        self.attrs = {}         # (root class, name) -> fn(interp, obj)
        self.str_mode = "U"
        self.tidy_slices = False  # ask the solver whether slice bounds are in range
        self.no_mem = False     # leave out the facts about multisets of list contents
        self.loop_pool = []     # fn(interp, snap) -> [(name, formula)]
        self.ignore_chans = set()
        self.on_suspend = None
        self.opaque_call = None
        self.opaque_star = False
        self.dict_ordered = False
        self.inline_async = True
        self.ann_override = {}  # (class, field) -> T


CARDS = {}


def CARD(s):
    """cardinality of a (finite) set given as array"""
    k = s.sort().domain()
    if k not in CARDS:
        CARDS[k] = z3.Function(f"card_{k}", z3.ArraySort(k, B), I)
    return CARDS[k](s)


BYVAL = z3.Function("hexof", U, U)


class Interp:
    MAXDEPTH = 40

    def __init__(self, ctx, world):
        self.ctx = ctx
        self.w = world
        self.prog = world.prog
        self.frames = []
        self.callpath = []
        self.known = {}
        self.log = []
        self.boxes = []
        self.shared = {}  # location of a dictionary -> its containers are shared with a copy
        self.loopstack = []
        self.loopvis = {}
        self.modcache = {}
        self.exc_stack = []
        self.cardseen = set()
        self.depth = 0
        from . import lib
        self.lib = lib

    # ================================================================== helpers: classes and types
    def find_class(self, name):
        """ClassInfo by bare name: seen classes first, then the message module"""
        if name in self.known:
            return self.known[name]
        for mod in ("scaled.protocol.python.message",):
            m = self.prog.module(mod)
            if m and name in m.names:
                ci = self.prog.cls(mod, name)
                self.known[name] = ci
                return ci
        raise Unsupported(f"class {name} unknown")

    def reg(self, ci):
        self.known.setdefault(ci.name, ci)
        return ci

    def schema(self, ci):
        """field types of a class"""
        key = ("schema", ci.module, ci.name)
        if key in self.modcache:
            return self.modcache[key]
        over = self.w.schemas.get(ci.name, {})
        out = {}
        for c in reversed(self.prog.mro(ci)):
            if c.is_dataclass:
                for n, ann, _ in c.anns:
                    out[n] = ("ann", c, ann)
            for n, ann in c.init_annotations().items():
                out[n] = ("ann", c, ann)
        for n, t in over.items():
            out[n] = t
        self.modcache[key] = out
        return out

    def field_type(self, ci, name):
        sc = self.schema(ci)
        if name not in sc:
            return None
        t = sc[name]
        if isinstance(t, tuple):
            t = self.ann_type(t[1].module, t[2])
            sc[name] = t
        return t

    def fields_of(self, ci):
        sc = self.schema(ci)
        return [(n, self.field_type(ci, n)) for n in sc]

    def ann_type(self, module, e):
        if isinstance(e, ast.Constant):
            if e.value is None:
                return TNone()
            if isinstance(e.value, str):
                return self.ann_type(module, ast.parse(e.value, mode="eval").body)
        if isinstance(e, ast.Subscript):
            h = dotted(e.value).split(".")[-1]
            args = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if h in ("Dict", "dict", "DefaultDict", "OrderedDict"):
                return TDict(self.ann_type(module, args[0]), self.ann_type(module, args[1]), ordered=self.w.dict_ordered)
            if h in ("Set", "set", "FrozenSet"):
                return TSet(self.ann_type(module, args[0]))
            if h in ("List", "list", "Iterable", "Sequence"):
                return TList(self.ann_type(module, args[0]))
            if h == "Optional":
                t = self.ann_type(module, args[0])
                return t if isinstance(t, (TOpt, TObj)) else TOpt(t)
            if h in ("Tuple", "tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return TSeq(self.ann_type(module, args[0]))
                return TTuple([self.ann_type(module, a) for a in args])
            if h in ("Callable", "Union", "Type", "Coroutine", "Literal"):
                return ANY
            return self.ann_type(module, e.value)
        n = dotted(e)
        last = n.split(".")[-1]
        prim = {"bytes": BYTES, "int": TInt(), "float": TReal(), "bool": TBool(), "Any": ANY, "Callable": ANY, "object": ANY}
        if n in prim:
            return prim[n]
        if n == "str":
            return TStr() if self.w.str_mode == "S" else TU("str")
        if n in ("Dict", "Set", "List", "set", "dict", "list"):
            raise Unsupported(f"unparameterised annotation {n}")
        r = self.prog.resolve(module, n.split(".")[0]) if module else None
        if r and r[0] == "class":
            return self.class_type(r[1])
        if last in self.w.abstracts:
            return TAbs(last, self.w.abstracts[last].fields)
        if last in ("Future",) and "Future" in self.w.refs:
            return TRef("Future")
        return ANY if last in ("KeyT", "ValueT", "T", "Hashable", "MessageVariant") else TU(last)

    def class_type(self, ci):
        self.reg(ci)
        if ci.name in self.w.abstracts:
            return TAbs(ci.name, self.w.abstracts[ci.name].fields)
        if ci.name in self.w.refs:
            return TRef(ci.name)
        if ci.is_enum:
            return TEnum(ci.name)
        if ci.name in self.w.structs:
            return TStruct(ci.name, self.fields_of(ci))
        if ci.is_dataclass:
            return TRec(ci.name, self.fields_of(ci))
        return TObj(ci.name, None)

    # ================================================================== values <-> terms
    def typeof(self, v):
        if isinstance(v, bool) or isinstance(v, SBool):
            return TBool()
        if isinstance(v, (int, SInt)):
            return TInt()
        if isinstance(v, (float, SReal)):
            return TReal()
        if isinstance(v, SStr):
            return TStr()
        if isinstance(v, str):
            return TStr() if self.w.str_mode == "S" else TU("str")
        if isinstance(v, bytes):
            return BYTES
        if v is None:
            return TOpt(ANY)
        if isinstance(v, EnumV):
            return TEnum(v.cls)
        if isinstance(v, SU):
            return v.ty
        if isinstance(v, SRaw):
            return TRaw(v.z.sort())
        if isinstance(v, Rec):
            return self.class_type(self.find_class(v.cls))
        if isinstance(v, tuple):
            return TTuple([self.typeof(x) for x in v])
        if isinstance(v, Box):
            return self.type_at(v)
        if isinstance(v, Snap):
            return v.ty
        if isinstance(v, Obj):
            return TObj(v.cls.name if isinstance(v.cls, ClassInfo) else v.cls, v.root)
        if isinstance(v, (ClassV, TypeV, FuncV, BoundM, Opaque, ExcV, LibM, BuiltinF)):
            return ANY
        if isinstance(v, ConcDict) and all(isinstance(k, str) for k, _ in v.items):
            return TRec("dict!", [(k, self.typeof(x)) for k, x in sorted(v.items, key=lambda p: p[0])])
        raise Unsupported(f"type of {v!r}")

    def to_u(self, v):
        """any single value as an opaque term"""
        if v is None:
            return NONE
        if isinstance(v, SU):
            return v.z
        if isinstance(v, bytes):
            return self.ctx.litu("b", v)
        if isinstance(v, str):
            return self.ctx.litu("s", v)
        if isinstance(v, EnumV):
            return self.ctx.litu("enum", (v.cls, v.name))
        if isinstance(v, bool):
            return self.ctx.litu("bool", v)
        if isinstance(v, (int, SInt)):
            z = v.z if isinstance(v, SInt) else z3.IntVal(v)
            t = BOXI(z)
            self.ctx.assume(UNBOXI(t) == z)
            self.ctx.assume(t != NONE)
            return t
        if isinstance(v, ExcV):
            if v.u is None:
                v.u = self.ctx.fresh("exc", U)
                self.ctx.assume(v.u != NONE)
            return v.u
        if isinstance(v, ClassV):
            return self.ctx.litu("class", v.name)
        if isinstance(v, TypeV):
            return self.ctx.litu("class", v.name)
        if isinstance(v, Opaque):
            z = self.ctx.fresh("opaque", U)
            self.ctx.assume(z != NONE)
            return z
        raise Unsupported(f"{v!r} as opaque term")

    def to_leaves(self, v, ty):
        if isinstance(v, Poison):
            raise Unsupported(f"value of '{v.name}' after a loop")
        if isinstance(ty, TInt):
            if isinstance(v, bool):
                return [z3.IntVal(int(v))]
            if isinstance(v, int):
                return [z3.IntVal(v)]
            if isinstance(v, SInt):
                return [v.z]
            if isinstance(v, SBool):
                return [z3.If(v.z, z3.IntVal(1), z3.IntVal(0))]
        elif isinstance(ty, TBool):
            if isinstance(v, bool):
                return [z3.BoolVal(v)]
            if isinstance(v, SBool):
                return [v.z]
        elif isinstance(ty, TReal):
            z = self.real(v)
            if z is not None:
                return [z]
        elif isinstance(ty, TStr):
            if isinstance(v, str):
                return [z3.StringVal(v)]
            if isinstance(v, SStr):
                return [v.z]
        elif isinstance(ty, TNone):
            if v is None:
                return []
        elif isinstance(ty, TRaw):
            return [v.z if isinstance(v, Sym) else v]
        elif isinstance(ty, TOpt):
            if ty.uleaf():
                return [self.to_u(v)] if not isinstance(v, Rec) else self.to_leaves(v, ty.t)
            if v is None:
                return [z3.BoolVal(True)] + [self.default_term(s) for s in ty.t.sorts()]
            return [z3.BoolVal(False)] + self.to_leaves(v, ty.t)
        elif isinstance(ty, (TU, TRef, TEnum)):
            if isinstance(v, SU) and isinstance(v.ty, TOpt):
                if not self.ctx.decide(v.z != NONE):
                    raise Unsupported(f"None stored where {ty} is expected")
                return [v.z]
            if v is None:
                raise Unsupported(f"None stored where {ty} is expected")
            return [self.to_u(v)]
        elif isinstance(ty, TTuple):
            if isinstance(v, tuple) and len(v) == len(ty.ts):
                return [l for x, t in zip(v, ty.ts) for l in self.to_leaves(x, t)]
        elif isinstance(ty, TRec):
            if isinstance(v, ConcDict) and ty.cls == "dict!" and sorted(k for k, _ in v.items) == [n for n, _ in ty.fields]:
                d = dict(v.items)
                return [l for n, t in ty.fields for l in self.to_leaves(d[n], t)]
            if isinstance(v, Rec) and v.cls == ty.cls:
                return [l for n, t in ty.fields for l in self.to_leaves(v.fields[n], t)]
        elif isinstance(ty, (TSet, TDict, TList, TStruct)):
            if isinstance(v, Box):
                return self.coerce(self.type_at(v), list(self.read(v)), ty)
            if isinstance(v, Snap):
                return self.coerce(v.ty, list(v.leaves), ty)
            if isinstance(v, ConcDict) and isinstance(ty, TDict) and not ty.ordered:
                ls = list(self.empty_leaves(ty))
                for k, x in v.items:
                    kz = self.to_leaves(k, ty.k)[0]
                    xs = self.to_leaves(x, ty.v)
                    ls = [z3.Store(ls[0], kz, z3.BoolVal(True))] + [z3.Store(a, kz, b) for a, b in zip(ls[1:], xs)]
                return ls
            if isinstance(v, tuple) and isinstance(ty, TSeq):
                return self.list_leaves([x for x in v], ty)
        raise Unsupported(f"cannot represent {v!r} as {ty}")

    def default_term(self, s):
        if s == I:
            return z3.IntVal(0)
        if s == B:
            return z3.BoolVal(False)
        if s == R:
            return z3.RealVal(0)
        if s == U:
            return NONE
        if s == S:
            return z3.StringVal("")
        if isinstance(s, z3.ArraySortRef):
            return z3.K(s.domain(), self.default_term(s.range()))
        return self.ctx.fresh("dflt", s)

    def empty_leaves(self, ty):
        if isinstance(ty, (TSet, TDict)):
            return [self.default_term(s) for s in ty.sorts()]
        if isinstance(ty, TList):
            return [self.default_term(s) for s in ty.sorts()]
        raise Unsupported(f"empty {ty}")

    def coerce(self, t0, leaves, t1):
        if isinstance(t0, TUnk):
            return self.empty_leaves(t1)
        s0, s1 = t0.sorts(), t1.sorts()
        if s0 == s1:
            return leaves
        if isinstance(t0, TList) and isinstance(t1, TList) and s0[:len(s1)] == s1:
            return leaves[:len(s1)]
        if isinstance(t0, TDict) and isinstance(t1, TDict) and t0.ordered and not t1.ordered:
            return self.coerce(TDict(t0.k, t0.v), [leaves[0]] + leaves[2:], t1)
        raise Unsupported(f"{t0} used as {t1}")

    def list_leaves(self, vals, ty):
        """leaves of a list of known length"""
        es = ty.e.sorts()
        arrs = [z3.K(I, self.default_term(s)) for s in es]
        mem = z3.K(U, z3.IntVal(0)) if ty.has_mem else None
        for i, v in enumerate(vals):
            ls = self.to_leaves(v, ty.e)
            arrs = [z3.Store(a, i, l) for a, l in zip(arrs, ls)]
            if mem is not None:
                mem = z3.Store(mem, ls[0], z3.Select(mem, ls[0]) + 1)
        return [z3.IntVal(len(vals))] + arrs + ([mem] if mem is not None else [])

    def from_leaves(self, ty, ls, loc=None):
        """value of type ty from its leaves; loc = (root, steps) when it lives in the heap"""
        if isinstance(ty, TInt):
            return SInt(ls[0]) if not z3.is_int_value(ls[0]) else ls[0].as_long()
        if isinstance(ty, TBool):
            return True if is_true(ls[0]) else False if is_false(ls[0]) else SBool(ls[0])
        if isinstance(ty, TReal):
            return SReal(ls[0])
        if isinstance(ty, TStr):
            return SStr(ls[0])
        if isinstance(ty, TNone):
            return None
        if isinstance(ty, TRaw):
            return SRaw(ls[0])
        if isinstance(ty, TOpt):
            if ty.uleaf():
                if ls[0].eq(NONE):
                    return None
                return SU(ls[0], ty)
            if self.ctx.decide(ls[0]):
                return None
            l2 = None if loc is None else (loc[0], loc[1] + (("o",),))
            return self.from_leaves(ty.t, ls[1:], l2)
        if isinstance(ty, (TU, TRef)):
            return SU(ls[0], ty)
        if isinstance(ty, TEnum):
            z = ls[0]
            ms = self.prog.enum_members(self.find_class(ty.cls))
            alts = []
            for m in ms.values():
                c = self.to_u(m)
                if z.eq(c):
                    return m
                alts.append(z == c)
            self.ctx.assume(z3.Or(*alts))
            return SU(z, ty)
        if isinstance(ty, TTuple):
            out, k = [], 0
            for j, t in enumerate(ty.ts):
                n = len(t.sorts())
                l2 = None if loc is None else (loc[0], loc[1] + (("t", j),))
                out.append(self.from_leaves(t, ls[k:k + n], l2))
                k += n
            return tuple(out)
        if isinstance(ty, TRec):
            f, k = {}, 0
            for n, t in ty.fields:
                m = len(t.sorts())
                f[n] = self.from_leaves(t, ls[k:k + m], None)
                k += m
            return ConcDict(list(f.items())) if ty.cls == "dict!" else Rec(ty.cls, f)
        if isinstance(ty, (TSet, TDict, TList, TStruct)):
            if loc is None:
                return Snap(ty, list(ls))
            return self.mkbox(loc[0], loc[1])
        raise Unsupported(f"value of {ty}")

    def fresh_value(self, hint, ty):
        if isinstance(ty, TObj):
            return Obj(self.find_class(ty.cls), ty.root)
        ls = self.ctx.fresh_leaves(hint, ty)
        self.wf(ty, ls)
        return self.from_leaves(ty, ls)

    def wf(self, ty, ls):
        """facts every value of the type satisfies"""
        if isinstance(ty, (TU, TRef)):
            self.ctx.assume(ls[0] != NONE)
        elif isinstance(ty, TList):
            self.ctx.assume(ls[0] >= 0)
            if ty.has_mem:
                self.memfacts(ls)
                if not isinstance(ty.e, TOpt):
                    self.ctx.assume(z3.Select(ls[-1], NONE) == 0)
        elif isinstance(ty, TSet):
            self.setfacts(ls[0])
            if ls[0].sort().domain() == U and not isinstance(ty.e, TOpt):
                self.ctx.assume(z3.Not(z3.Select(ls[0], NONE)))
        elif isinstance(ty, TDict):
            self.setfacts(ls[0])
            if ls[0].sort().domain() == U and not isinstance(ty.k, TOpt):
                self.ctx.assume(z3.Not(z3.Select(ls[0], NONE)))
            if isinstance(ty.v, (TU, TRef)):
                a = ls[ty.nhead]
                self.ctx.assume(forall(U, lambda k: z3.Select(a, k) != NONE, lambda k: [z3.Select(a, k)]))
            if isinstance(ty.v, TRec) or isinstance(ty.v, TTuple) or isinstance(ty.v, TStruct):
                sub = [(t, ) for t in (ty.v.ts if isinstance(ty.v, TTuple) else [t for _, t in ty.v.fields])]
                k = ty.nhead
                for (t,) in sub:
                    n = len(t.sorts())
                    if isinstance(t, (TU, TRef)):
                        a = ls[k]
                        self.ctx.assume(forall(U, lambda q: z3.Select(a, q) != NONE, lambda q: [z3.Select(a, q)]))
                    k += n
            if ty.ordered:
                self.ordfacts(ls)
        elif isinstance(ty, TRec) or isinstance(ty, TStruct):
            k = 0
            for n, t in ty.fields:
                m = len(t.sorts())
                self.wf(t, ls[k:k + m])
                k += m
        elif isinstance(ty, TTuple):
            k = 0
            for t in ty.ts:
                m = len(t.sorts())
                self.wf(t, ls[k:k + m])
                k += m
        elif isinstance(ty, TOpt) and not ty.uleaf():
            self.wf(ty.t, ls[1:])

    def setfacts(self, s):
        c = CARD(s)
        k = s.sort().domain()
        key = s.get_id()
        if key in self.cardseen and not self.ctx.subs:
            return
        self.cardseen.add(key)
        self.ctx.assume(c >= 0)
        if z3.is_K(s):
            self.ctx.assume(c == 0)
            return
        w = self.ctx.fresh("wit", k)
        self.ctx.assume(z3.Implies(c > 0, z3.Select(s, w)))
        self.ctx.assume(forall(k, lambda x: z3.Implies(z3.Select(s, x), c > 0), lambda x: [z3.Select(s, x)]))

    def memfacts(self, ls):
        """link between the indexed contents of a list and its content multiset"""
        if self.w.no_mem:
            return
        n, a, mem = ls[0], ls[1], ls[-1]
        pos = POS(n, a)
        self.ctx.assume(forall(U, lambda x: z3.And(z3.Select(mem, x) >= 0, z3.Implies(
            z3.Select(mem, x) > 0,
            z3.And(z3.Select(pos, x) >= 0, z3.Select(pos, x) < n, z3.Select(a, z3.Select(pos, x)) == x))),
            lambda x: [z3.Select(mem, x)]))
        self.ctx.assume(forall(I, lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.Select(mem, z3.Select(a, i)) > 0),
                               lambda i: [z3.Select(a, i)]))

    def ordfacts(self, ls):
        """insertion order of a dictionary: a bijection between 0..len-1 and the keys"""
        dom, o = ls[0], ls[1]
        n = CARD(dom)
        ks = dom.sort().domain()
        p = z3.Function(f"ordpos_{ks}", z3.ArraySort(ks, B), z3.ArraySort(I, ks), ks, I)
        self.ctx.assume(forall(I, lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(
            z3.Select(dom, z3.Select(o, i)), p(dom, o, z3.Select(o, i)) == i)), lambda i: [z3.Select(o, i)]))
        self.ctx.assume(forall(ks, lambda k: z3.Implies(z3.Select(dom, k), z3.And(
            p(dom, o, k) >= 0, p(dom, o, k) < n, z3.Select(o, p(dom, o, k)) == k)),
            lambda k: [p(dom, o, k)]))

    # ================================================================== heap
    def mkbox(self, root, steps=()):
        b = Box(root, steps)
        self.boxes.append(weakref.ref(b))
        if len(self.boxes) > 4000:
            self.boxes = [w for w in self.boxes if w() is not None]
        return b

    def new_root(self, ty, leaves=None):
        self.ctx.n += 1
        key = ("own", self.ctx.n)
        self.ctx.ktype[key] = ty
        if leaves is None:
            leaves = [] if isinstance(ty, TUnk) else self.empty_leaves(ty)
        self.ctx.heap[key] = tuple(leaves)
        return self.mkbox(key)

    def root_type(self, root):
        if root in self.ctx.ktype:
            return self.ctx.ktype[root]
        raise Unsupported(f"untyped heap cell {root}")

    def step_type(self, ty, st):
        if st[0] == "f":
            off = ty.offset(st[1])
            if off is None:
                raise PyRaise("AttributeError", (st[1],))
            return off[2]
        if st[0] == "k":
            return ty.v
        if st[0] == "i":
            return ty.e
        if st[0] == "o":
            return ty.t
        if st[0] == "t":
            return ty.ts[st[1]]
        raise Unsupported(str(st))

    def type_at(self, box):
        ty = self.root_type(box.root)
        for st in box.steps:
            ty = self.step_type(ty, st)
        return ty

    def sub(self, ty, ls, st):
        if st[0] == "f":
            a, b, t = ty.offset(st[1])
            return t, ls[a:b]
        if st[0] == "k":
            h = 0 if isinstance(ty, TArr) else ty.nhead
            return ty.v, [z3.Select(l, st[1]) for l in ls[h:]]
        if st[0] == "i":
            n = len(ty.e.sorts())
            return ty.e, [z3.Select(l, st[1]) for l in ls[1:1 + n]]
        if st[0] == "o":
            return ty.t, ls[1:]
        if st[0] == "t":
            k = sum(len(t.sorts()) for t in ty.ts[:st[1]])
            return ty.ts[st[1]], ls[k:k + len(ty.ts[st[1]].sorts())]

    def read(self, box):
        ty, ls = self.root_type(box.root), list(self.ctx.heap[box.root])
        for st in box.steps:
            ty, ls = self.sub(ty, ls, st)
        return ls

    def write(self, box, leaves):
        self.check_frozen(box)
        root = box.root

        def upd(ty, ls, steps):
            if not steps:
                return list(leaves)
            st = steps[0]
            t, sl = self.sub(ty, ls, st)
            new = upd(t, sl, steps[1:])
            ls = list(ls)
            if st[0] == "f":
                a, b, _ = ty.offset(st[1])
                ls[a:b] = new
            elif st[0] == "k":
                h = 0 if isinstance(ty, TArr) else ty.nhead
                for j, x in enumerate(new):
                    if not x.eq(sl[j]):
                        ls[h + j] = z3.Store(ls[h + j], st[1], x)
            elif st[0] == "i":
                for j, x in enumerate(new):
                    if not x.eq(sl[j]):
                        ls[1 + j] = z3.Store(ls[1 + j], st[1], x)
            elif st[0] == "o":
                ls[1:] = new
            elif st[0] == "t":
                k = sum(len(t2.sorts()) for t2 in ty.ts[:st[1]])
                ls[k:k + len(new)] = new
            return ls

        self.ctx.heap[root] = tuple(upd(self.root_type(root), list(self.ctx.heap[root]), list(box.steps)))

    def check_frozen(self, box):
        if box.frozen or any(r == box.root and len(box.steps) > n + 1 for r, n in self.shared.items()):
            raise Unsupported("mutation of a container that is shared or read-only here")

    def live(self):
        for wr in self.boxes:
            b = wr()
            if b is not None:
                yield b

    def rebase(self, old_root, old_steps, new_root, new_steps):
        """live wrappers under old location now point under the new one"""
        n = len(old_steps)
        for b in list(self.live()):
            if b.root == old_root and len(b.steps) >= n:
                ok = True
                for s1, s2 in zip(b.steps[:n], old_steps):
                    if s1[0] != s2[0]:
                        ok = False
                        break
                    if s1[0] in ("k", "i"):
                        if not s1[1].eq(s2[1]):
                            if not self.ctx.decide(s1[1] == s2[1]):
                                ok = False
                                break
                    elif s1 != s2:
                        ok = False
                        break
                if ok:
                    if b.root in self.shared and len(b.steps) > self.shared[b.root]:
                        b.frozen = True
                    b.root = new_root
                    b.steps = tuple(new_steps) + tuple(b.steps[n:])

    def detach(self, root, steps, force=False):
        """the object at a location is about to be removed or overwritten: keep live references to it valid"""
        n = len(steps)
        hit = False
        for b in list(self.live()):
            if b.root == root and len(b.steps) >= n:
                hit = True
                break
        if not hit:
            return
        box = Box(root, steps)
        ty = self.type_at(box)
        if not ty.mutable:
            if not isinstance(ty, TTuple):
                return
        ls = self.read(box)
        self.ctx.n += 1
        key = ("own", self.ctx.n)
        self.ctx.ktype[key] = ty
        self.ctx.heap[key] = tuple(ls)
        self.rebase(root, steps, key, ())

    def is_owned(self, box):
        return box.root[0] == "own" and not box.steps

    def absorb(self, v, ty, root, steps):
        """leaves of v for storing at location (root,steps); containers move there"""
        if isinstance(v, Box):
            if v.root == root and tuple(v.steps) == tuple(steps):
                return list(self.read(v)), None
            vt = self.type_at(v)
            if vt.mutable and not self.is_owned(v):
                raise Unsupported(f"container at {v} would be shared with {root}{steps}")
            self.check_frozen(v)
            ls = self.to_leaves(v, ty)
            return ls, v.root
        if isinstance(v, tuple) and isinstance(ty, TTuple):
            out, mv = [], []
            for j, (x, t) in enumerate(zip(v, ty.ts)):
                ls, m = self.absorb(x, t, root, tuple(steps) + (("t", j),))
                out += ls
                if m:
                    mv.append((m, tuple(steps) + (("t", j),)))
            for m, st in mv:
                self.rebase(m, (), root, st)
            return out, None
        return self.to_leaves(v, ty), None

    def store_at(self, root, steps, v, ty):
        """assign v to the location, moving owned containers"""
        isopt = isinstance(ty, TOpt) and not ty.uleaf()
        st = tuple(steps)
        if isinstance(v, Box) and v.root == root and (v.steps == st or (isopt and v.steps == st + (("o",),))):
            return
        self.detach(root, st)
        ls, moved = self.absorb(v, ty.t if isopt and v is not None else ty, root, st)
        if isopt and v is not None:
            ls = [z3.BoolVal(False)] + ls
        self.write(Box(root, st), ls)
        if moved is not None:
            self.rebase(moved, (), root, st + ((("o",),) if isopt else ()))

    def get_at(self, root, steps):
        b = Box(root, steps)
        return self.from_leaves(self.type_at(b), self.read(b), (root, tuple(steps)))

    # untyped containers get their type on first use
    def retype(self, box, ty):
        cur = self.type_at(box)
        if isinstance(cur, TUnk):
            if box.steps:
                raise Unsupported("untyped nested container")
            self.ctx.ktype[box.root] = ty
            self.ctx.heap[box.root] = tuple(self.empty_leaves(ty))
        return self.type_at(box)

    # ================================================================== booleans / equality
    def truth(self, v):
        """z3 Bool or python bool"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str, bytes)):
            return bool(v)
        if isinstance(v, SBool):
            return v.z
        if isinstance(v, SInt):
            return v.z != 0
        if isinstance(v, SReal):
            return v.z != 0
        if isinstance(v, SStr):
            return z3.Length(v.z) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, SU):
            t = v.ty.t if isinstance(v.ty, TOpt) else v.ty
            if isinstance(t, TRef):
                ci = self.known.get(t.cls)
                if ci and (self.prog.find_method(ci, "__bool__") or self.prog.find_method(ci, "__len__")):
                    raise Unsupported("truth of object with __bool__/__len__")
                nn = z3.BoolVal(True)
            elif isinstance(t, TEnum):
                nn = z3.BoolVal(True)
            elif t.name == "bytes" or t.name == "str":
                nn = BLEN(v.z) != 0
                self.ctx.assume(BLEN(v.z) >= 0)
                e = self.to_u(b"" if t.name == "bytes" else "")
                if t.name == "str":
                    self.ctx.assume(BLEN(e) == 0)
                self.ctx.assume((BLEN(v.z) == 0) == (v.z == e))
            else:
                nn = TRUTHY(v.z)
            return z3.And(v.z != NONE, nn) if isinstance(v.ty, TOpt) else nn
        if isinstance(v, (Box, Snap, View)):
            if isinstance(v, Box):
                t = self.type_at(v)
                if isinstance(t, TStruct):
                    if isinstance(t, TAbs):
                        return self.truth(self.length(v))
                    return True
            n = self.length(v)
            return n != 0 if isinstance(n, int) else n.z != 0
        if isinstance(v, (Rec, EnumV, ClassV, FuncV, BoundM, BuiltinF, ExcV, TypeV, LibM)):
            return True
        if isinstance(v, Obj):
            m = self.prog.find_method(v.cls, "__bool__") or self.prog.find_method(v.cls, "__len__")
            if m:
                return self.truth(self.call_method(v, m[1].name, [], {}))
            return True
        raise Unsupported(f"truth value of {v!r}")

    def cond(self, v):
        return self.ctx.decide(self.truth(v))

    def real(self, v):
        if isinstance(v, bool):
            return z3.RealVal(int(v))
        if isinstance(v, int):
            return z3.RealVal(v)
        if isinstance(v, float):
            return z3.RealVal(repr(v))
        if isinstance(v, SInt):
            return z3.ToReal(v.z)
        if isinstance(v, SReal):
            return v.z
        return None

    def num(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SInt):
            return v.z
        if isinstance(v, SBool):
            return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, SU) and isinstance(v.ty, TU) and v.ty.name == "int":
            return UNBOXI(v.z)
        return None

    def eq(self, a, b):
        """z3 Bool / python bool: a == b"""
        if a is b and not isinstance(a, float):
            return True
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("comparison of a loop-carried value")
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, SU):
                return o.z == NONE if isinstance(o.ty, TOpt) or o.ty == ANY else False
            return False
        conc = (int, float, str, bytes, bool)
        if isinstance(a, conc) and isinstance(b, conc):
            return a == b
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            return na == nb
        ra, rb = self.real(a), self.real(b)
        if ra is not None and rb is not None:
            return ra == rb
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            if isinstance(a, SStr) or isinstance(b, SStr):
                za = a.z if isinstance(a, SStr) else z3.StringVal(a)
                zb = b.z if isinstance(b, SStr) else z3.StringVal(b)
                return za == zb
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return conj([x if not isinstance(x, bool) else z3.BoolVal(x) for x in (self.eq(x, y) for x, y in zip(a, b))])
        if isinstance(a, Rec) and isinstance(b, Rec):
            if a.cls != b.cls:
                return False
            return conj([x if not isinstance(x, bool) else z3.BoolVal(x)
                         for x in (self.eq(a.fields[k], b.fields[k]) for k in a.fields)])
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return a == b
        ub = (SU, bytes, str, EnumV, ExcV, TypeV, ClassV)
        if isinstance(a, ub) and isinstance(b, ub):
            if isinstance(a, ClassV) and isinstance(b, ClassV):
                return a.name == b.name
            ta, tb = self.typeof(a), self.typeof(b)
            ta = ta.t if isinstance(ta, TOpt) else ta
            tb = tb.t if isinstance(tb, TOpt) else tb
            if isinstance(ta, TEnum) and isinstance(tb, TEnum) and ta.cls != tb.cls:
                return False
            if isinstance(ta, TRef) and isinstance(tb, TRef):
                return self.ref_eq(a, b, ta, tb)
            if type(ta) is not type(tb) and not (ta == ANY or tb == ANY):
                return False
            if isinstance(ta, TU) and isinstance(tb, TU) and ta.name != tb.name and "any" not in (ta.name, tb.name):
                return False
            return self.to_u(a) == self.to_u(b)
        if isinstance(a, (int, SInt)) and isinstance(b, SU) and b.ty == ANY or isinstance(b, (int, SInt)) and isinstance(a, SU) and a.ty == ANY:
            return self.to_u(a) == self.to_u(b)
        if isinstance(a, (Box, Snap)) and isinstance(b, (Box, Snap)):
            return self.cont_eq(a, b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.root == b.root
        if isinstance(a, (Box, Snap)) and isinstance(b, (SU, EnumV, bytes, str, int, bool)) or \
                isinstance(b, (Box, Snap)) and isinstance(a, (SU, EnumV, bytes, str, int, bool)):
            x = a if isinstance(a, SU) else b
            if isinstance(x, SU) and x.ty == ANY:
                raise Unsupported("equality of container and opaque value")
            return False
        if type(a) is type(b) and isinstance(a, (TypeV, FuncV, ClassV)):
            return a is b
        if isinstance(a, (Rec, tuple, EnumV, bytes, str, int, Box)) and isinstance(b, (Rec, tuple, EnumV, bytes, str, int, Box)):
            return False
        raise Unsupported(f"equality of {a!r} and {b!r}")

    def ref_eq(self, a, b, ta, tb):
        ci = self.known.get(ta.cls)
        if ci is not None and ci.is_dataclass and ta.cls == tb.cls:
            raise Unsupported("structural equality of shareable dataclass objects")
        h = self.w.schemas.get(ta.cls, {}).get("__eq__")
        if h:
            return h(self, a, b)
        return self.to_u(a) == self.to_u(b)

    def leaves_of(self, v):
        return (self.type_at(v), list(self.read(v))) if isinstance(v, Box) else (v.ty, list(v.leaves))

    def cont_eq(self, a, b):
        ta, la = self.leaves_of(a)
        tb, lb = self.leaves_of(b)
        if isinstance(ta, TUnk) and isinstance(tb, TUnk):
            return ta.kind == tb.kind
        if isinstance(ta, TUnk):
            ta, la = tb, self.empty_leaves(tb)
        if isinstance(tb, TUnk):
            tb, lb = ta, self.empty_leaves(ta)
        if isinstance(ta, TSet) and isinstance(tb, TSet):
            return self.pointwise_set_eq(la[0], lb[0])
        if isinstance(ta, TDict) and isinstance(tb, TDict):
            va, vb = la[ta.nhead:], lb[tb.nhead:]
            if any(isinstance(s, z3.ArraySortRef) for s in ta.v.sorts()):
                raise Unsupported("equality of nested dictionaries")
            ks = la[0].sort().domain()
            fs = [self.pointwise_set_eq(la[0], lb[0])]
            # equal iff same keys and same values; stated both ways with a witness for inequality
            r = self.ctx.fresh("dicteq", B)
            w = self.ctx.fresh("diff", ks)
            body = lambda k: z3.And(z3.Select(la[0], k) == z3.Select(lb[0], k), z3.Implies(
                z3.Select(la[0], k), conj([z3.Select(x, k) == z3.Select(y, k) for x, y in zip(va, vb)])))
            self.ctx.assume(z3.Implies(r, forall(ks, body, lambda k: [z3.Select(la[0], k), ] if not z3.is_K(la[0]) else [z3.Select(lb[0], k)])
                                       if not (z3.is_K(la[0]) and z3.is_K(lb[0])) else z3.BoolVal(True)))
            self.ctx.assume(z3.Implies(z3.Not(r), z3.Not(body(w))))
            self.ctx.assume(z3.Implies(r, CARD(la[0]) == CARD(lb[0])))
            return r
        if isinstance(ta, TList) and isinstance(tb, TList):
            if la[1].sort() != lb[1].sort():
                raise Unsupported("equality of lists of different kinds")
            n = len(ta.e.sorts())
            r = self.ctx.fresh("listeq", B)
            w = self.ctx.fresh("diffi", I)
            body = lambda i: z3.Implies(z3.And(0 <= i, i < la[0]), conj([z3.Select(x, i) == z3.Select(y, i) for x, y in zip(la[1:1 + n], lb[1:1 + n])]))
            self.ctx.assume(z3.Implies(r, z3.And(la[0] == lb[0], forall(I, body))))
            self.ctx.assume(z3.Implies(z3.Not(r), z3.Or(la[0] != lb[0], z3.Not(body(w)))))
            return r
        if isinstance(ta, TStruct) and isinstance(tb, TStruct):
            if isinstance(a, Box) and isinstance(b, Box) and a.root == b.root and a.steps == b.steps:
                return True
            raise Unsupported("equality of mutable objects")
        if type(ta) is not type(tb):
            return False
        raise Unsupported("container equality")

    def pointwise_set_eq(self, a, b):
        if a.eq(b):
            return z3.BoolVal(True)
        if z3.is_K(a) and z3.is_K(b):
            return z3.BoolVal(True)
        return a == b   # extensional arrays

    def is_(self, a, b):
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, SU):
                if isinstance(o.ty, TOpt) or o.ty == ANY:
                    return o.z == NONE
                return False
            return o is None
        if isinstance(a, Box) and isinstance(b, Box):
            if a.root == b.root and len(a.steps) == len(b.steps):
                return all(x == y if x[0] not in "ki" else x[1].eq(y[1]) for x, y in zip(a.steps, b.steps))
            return False
        if isinstance(a, SU) and isinstance(b, SU):
            return a.z == b.z
        if isinstance(a, (bool, EnumV, ClassV, TypeV)) or isinstance(b, (bool, EnumV, ClassV, TypeV)):
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return self.eq(a, b)
            if isinstance(a, (bool,)) or isinstance(b, bool):
                return a is b
            return self.eq(a, b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.root == b.root
        raise Unsupported(f"identity of {a!r} and {b!r}")

    # ================================================================== containers
    def length(self, v):
        if isinstance(v, (tuple, str, bytes)):
            return len(v)
        if isinstance(v, View):
            if v.kind in ("keys", "values", "items"):
                return self.length(v.args[0])
            if v.kind == "range":
                lo, hi, st = v.args
                if all(isinstance(x, int) for x in v.args):
                    return len(range(lo, hi, st))
                if st == 1:
                    n = self.num(hi) - self.num(lo)
                    return SInt(z3.If(n > 0, n, z3.IntVal(0)))
            raise Unsupported(f"len of {v.kind}")
        if isinstance(v, (Box, Snap)):
            ty, ls = self.leaves_of(v)
            if isinstance(ty, TUnk):
                return 0
            if isinstance(ty, TAbs):
                return self.call_method(v, "__len__", [], {})
            if isinstance(ty, (TSet, TDict)):
                self.setfacts(ls[0])
                c = CARD(ls[0])
                if z3.is_K(ls[0]):
                    return 0
                return SInt(c)
            if isinstance(ty, TList):
                n = z3.simplify(ls[0])
                return n.as_long() if z3.is_int_value(n) else SInt(ls[0])
        if isinstance(v, SU):
            t = v.ty.t if isinstance(v.ty, TOpt) else v.ty
            if isinstance(t, TU) and t.name in ("bytes", "str"):
                self.ctx.assume(BLEN(v.z) >= 0)
                self.ctx.assume(BLEN(v.z) < 2 ** 50)
                self.ctx.ex.assumed.add("every bytes object is shorter than 2**50 bytes")
                return SInt(BLEN(v.z))
        if isinstance(v, SStr):
            return SInt(z3.Length(v.z))
        if isinstance(v, Obj):
            return self.call_method(v, "__len__", [], {})
        raise Unsupported(f"len of {v!r}")

    def keyterm(self, ty, k):
        """term of a key/element for type ty; None when no value of that type can equal k"""
        try:
            return self.to_leaves(k, ty)[0]
        except Unsupported:
            if k is None:
                return None
            raise

    def contains(self, c, x):
        if isinstance(c, tuple):
            return disj([z3.BoolVal(e) if isinstance(e, bool) else e for e in (self.eq(y, x) for y in c)])
        if isinstance(c, View) and c.kind == "keys":
            return self.contains(c.args[0], x)
        if isinstance(c, View) and c.kind == "values":
            b = c.args[0]
            ty, ls = self.leaves_of(b)
            if isinstance(ty, TUnk):
                return False
            if len(ty.v.sorts()) == 1:
                r = self.ctx.fresh("inval", B)
                ks = ls[0].sort().domain()
                w = self.ctx.fresh("wit", ks)
                z = self.to_leaves(x, ty.v)[0]
                va = ls[ty.nhead]
                self.ctx.assume(z3.Implies(r, z3.And(z3.Select(ls[0], w), z3.Select(va, w) == z)))
                self.ctx.assume(z3.Implies(z3.Not(r), forall(ks, lambda k: z3.Implies(z3.Select(ls[0], k), z3.Select(va, k) != z),
                                                             lambda k: [z3.Select(ls[0], k)])))
                return r
            raise Unsupported("membership in values()")
        if isinstance(c, (Box, Snap)):
            ty, ls = self.leaves_of(c)
            if isinstance(ty, TUnk):
                return False
            if isinstance(ty, TAbs):
                return self.truth(self.call_method(c, "__contains__", [x], {}))
            if isinstance(ty, (TSet, TDict)):
                k = self.keyterm(ty.e if isinstance(ty, TSet) else ty.k, x)
                if k is None:
                    return False
                return sel(ls[0], k)
            if isinstance(ty, TList):
                if ty.has_mem:
                    k = self.keyterm(ty.e, x)
                    if isinstance(ty.e, TRef):
                        raise Unsupported("membership of object in list")
                    return z3.Select(ls[-1], k) > 0 if not isinstance(z3.simplify(z3.Select(ls[-1], k)), int) else False
                zs = self.to_leaves(x, ty.e)
                r = self.ctx.fresh("inlist", B)
                w = self.ctx.fresh("wit", I)
                body = lambda i: conj([z3.Select(a, i) == z for a, z in zip(ls[1:], zs)])
                self.ctx.assume(z3.Implies(r, z3.And(0 <= w, w < ls[0], body(w))))
                self.ctx.assume(z3.Implies(z3.Not(r), forall(I, lambda i: z3.Implies(z3.And(0 <= i, i < ls[0]), z3.Not(body(i))))))
                return r
        if isinstance(c, (SStr, str)) and isinstance(x, (SStr, str)):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            return z3.Contains(self.zs(c), self.zs(x))
        if isinstance(c, ClassV) and c.node.is_enum:
            return True if isinstance(x, EnumV) and x.cls == c.name else False
        if isinstance(c, Obj):
            return self.truth(self.call_method(c, "__contains__", [x], {}))
        if isinstance(c, SU) and isinstance(c.ty, TRef):
            return self.truth(self.call_method(c, "__contains__", [x], {}))
        raise Unsupported(f"membership in {c!r}")

    def zs(self, v):
        return v.z if isinstance(v, SStr) else z3.StringVal(v)

    def set_add(self, box, x, ty=None):
        t = self.retype(box, TSet(self.typeof(x)))
        k = self.to_leaves(x, t.e)[0]
        s = self.read(box)[0]
        self.write(box, [self.store_in(s, k)])

    def store_in(self, s, k):
        self.setfacts(s)
        s2 = z3.Store(s, k, z3.BoolVal(True))
        self.ctx.assume(CARD(s2) == CARD(s) + z3.If(sel(s, k), z3.IntVal(0), z3.IntVal(1)))
        self.ctx.assume(CARD(s2) > 0)
        self.cardseen.add(s2.get_id())
        return s2

    def store_out(self, s, k):
        self.setfacts(s)
        s2 = z3.Store(s, k, z3.BoolVal(False))
        self.ctx.assume(CARD(s2) == CARD(s) - z3.If(sel(s, k), z3.IntVal(1), z3.IntVal(0)))
        self.setfacts(s2)
        return s2

    def dict_set(self, box, key, v):
        cur = self.type_at(box)
        if isinstance(cur, TUnk):
            vt = self.typeof(v)
            if isinstance(vt, TUnk):
                raise Unsupported("dictionary of untyped containers")
            cur = self.retype(box, TDict(self.typeof(key), vt, default=cur.default, ordered=self.w.dict_ordered))
        if not isinstance(cur, TDict):
            raise Unsupported(f"item assignment on {cur}")
        self.check_frozen(box)
        k = self.to_leaves(key, cur.k)[0]
        ls = list(self.read(box))
        dom = ls[0]
        if self.has_live_under(box, k):
            if self.ctx.decide(sel(dom, k)):
                self.detach(box.root, box.steps + (("k", k),))
        nd = self.store_in(dom, k)
        if cur.ordered:
            isnew = z3.Not(sel(dom, k))
            ls[1] = z3.If(isnew, z3.Store(ls[1], CARD(dom), k), ls[1])
        ls[0] = nd
        self.write(box, ls)
        b2 = Box(box.root, box.steps + (("k", k),))
        new, moved = self.absorb(v, cur.v.t if isinstance(cur.v, TOpt) and not cur.v.uleaf() and v is not None else cur.v, box.root, b2.steps)
        if isinstance(cur.v, TOpt) and not cur.v.uleaf() and v is not None:
            new = [z3.BoolVal(False)] + new
        self.write(b2, new)
        if moved is not None:
            self.rebase(moved, (), box.root, b2.steps)
        if cur.ordered:
            self.ordfacts(self.read(box))

    def has_live_under(self, box, k):
        n = len(box.steps)
        for b in self.live():
            if b.root == box.root and len(b.steps) > n and b.steps[n][0] == "k" and b is not box:
                return True
        return False

    def dict_get(self, box, key, ty, ls, snap=False):
        """value stored under a key known to be present"""
        k = self.to_leaves(key, ty.k)[0]
        if isinstance(box, Snap):
            t, sl = self.sub(ty, ls, ("k", k))
            self.uwf(t, sl)
            return self.from_leaves(t, sl, None)
        st = box.steps + (("k", k),)
        t, sl = self.sub(ty, ls, ("k", k))
        self.uwf(t, sl)
        return self.from_leaves(t, sl, (box.root, st))

    def uwf(self, t, sl):
        """facts about a value just read from a container"""
        if isinstance(t, (TU, TRef)):
            self.ctx.assume(sl[0] != NONE)
        elif isinstance(t, TSet):
            self.setfacts(sl[0])
        elif isinstance(t, TList):
            self.ctx.assume(sl[0] >= 0)
        elif isinstance(t, TDict):
            self.setfacts(sl[0])
        elif isinstance(t, (TRec, TStruct)):
            k = 0
            for _, f in t.fields:
                n = len(f.sorts())
                self.uwf(f, sl[k:k + n])
                k += n
        elif isinstance(t, TTuple):
            k = 0
            for f in t.ts:
                n = len(f.sorts())
                self.uwf(f, sl[k:k + n])
                k += n

    def dict_pop_at(self, box, key):
        ty = self.type_at(box)
        k = self.to_leaves(key, ty.k)[0]
        v = self.dict_get(box, key, ty, self.read(box))
        # v (if a container) is a live wrapper: detach moves it out
        self.detach(box.root, box.steps + (("k", k),))
        ls = list(self.read(box))
        nd = self.store_out(ls[0], k)
        if ty.ordered:
            o2 = self.ctx.fresh("ord", ls[1].sort())
            self.ordremove(ls[0], ls[1], nd, o2, k)
            ls[1] = o2
        ls[0] = nd
        self.write(box, ls)
        return v

    def ordremove(self, dom, o, nd, o2, k):
        """order after deletion: the remaining keys keep their relative order"""
        ks = dom.sort().domain()
        p = z3.Function(f"ordpos_{ks}", z3.ArraySort(ks, B), z3.ArraySort(I, ks), ks, I)
        pk = p(dom, o, k)
        self.ctx.assume(forall(I, lambda i: z3.Select(o2, i) == z3.If(i < pk, z3.Select(o, i), z3.Select(o, i + 1)),
                               lambda i: [z3.Select(o2, i)]))
        self.ordfacts([nd, o2])

    def list_append(self, box, v):
        cur = self.type_at(box)
        if isinstance(cur, TUnk):
            vt = self.typeof(v)
            cur = self.retype(box, TList(vt))
        ls = list(self.read(box))
        if isinstance(v, Box) and self.type_at(v).mutable:
            self.check_frozen(box)
            n0 = ls[0]
            ls[0] = ls[0] + 1
            self.write(box, ls)
            self.store_at(box.root, box.steps + (("i", n0),), v, cur.e)
            return
        if isinstance(v, (SU, type(None))) and isinstance(cur.e, (TU, TRef)) and not isinstance(cur.e, TOpt) and (v is None or isinstance(v.ty, TOpt)):
            # widen the element type of an owned list
            if box.steps:
                raise Unsupported("None appended")
            cur = TList(TOpt(cur.e))
            self.ctx.ktype[box.root] = cur
        es = self.to_leaves(v, cur.e)
        n = ls[0]
        for j, e in enumerate(es):
            ls[1 + j] = z3.Store(ls[1 + j], n, e)
        ls[0] = z3.simplify(n + 1)
        if cur.has_mem:
            ls[-1] = z3.Store(ls[-1], es[0], z3.Select(ls[-1], es[0]) + 1)
        self.write(box, ls)

    def list_item(self, v, i, checked=True):
        """v[i] for a symbolic list; i z3 Int within bounds"""
        ty, ls = self.leaves_of(v)
        t, sl = self.sub(ty, ls, ("i", i))
        if ty.has_mem and checked:
            self.ctx.assume(z3.Implies(z3.And(0 <= i, i < ls[0]), z3.Select(ls[-1], sl[0]) > 0))
        self.uwf(t, sl)
        if isinstance(v, Snap):
            return self.from_leaves(t, sl, None)
        return self.from_leaves(t, sl, (v.root, v.steps + (("i", i),)))

    # ================================================================== iteration
    def make_iter(self, v):
        if isinstance(v, (tuple, list)):
            return Iter("conc", vals=list(v))
        if isinstance(v, (str, bytes)):
            return Iter("conc", vals=list(v))
        if isinstance(v, Iter):
            return v
        if isinstance(v, ClassV) and v.node.is_enum:
            seen, out = set(), []
            for m in self.prog.enum_members(v.node).values():
                if m not in seen:
                    seen.add(m)
                    out.append(m)
            return Iter("conc", vals=out)
        if isinstance(v, View):
            if v.kind in ("keys", "values", "items"):
                b = v.args[0]
                ty, ls = self.leaves_of(b)
                if isinstance(ty, TUnk):
                    return Iter("conc", vals=[])
                if isinstance(ty, TAbs):
                    return self.w.abstracts[ty.cls].iter(self, b, v.kind)
                if z3.is_K(ls[0]):
                    return Iter("conc", vals=[])

                def mk(k, kind=v.kind, b=b):
                    ty, ls = self.leaves_of(b)
                    key = self.from_leaves(ty.k, [k])
                    if kind == "keys":
                        return key
                    val = self.dict_get(b, key, ty, ls)
                    return val if kind == "values" else (key, val)
                if ty.ordered:
                    self.ordfacts(ls)
                    return Iter("idx", n=CARD(ls[0]), elem=lambda i: mk(z3.Select(ls[1], i)), guard=b if isinstance(b, Box) else None, keyof=lambda i: z3.Select(ls[1], i))
                return Iter("set", S=ls[0], elem=mk, guard=b if isinstance(b, Box) else None)
            if v.kind == "range":
                lo, hi, st = v.args
                if all(isinstance(x, int) for x in v.args):
                    return Iter("conc", vals=list(range(lo, hi, st)))
                if not isinstance(st, int) or st <= 0:
                    raise Unsupported("range step")
                l, h = self.num(lo), self.num(hi)
                d = h - l
                if st == 1:
                    n = z3.If(d > 0, d, z3.IntVal(0))
                else:
                    n = z3.If(d > 0, (d + (st - 1)) / st, z3.IntVal(0))
                return Iter("idx", n=n, elem=lambda i: SInt(l + i * st))
            if v.kind == "zip":
                its = [self.make_iter(a) for a in v.args]
                if all(i.kind == "conc" for i in its):
                    return Iter("conc", vals=list(zip(*[i.vals for i in its])))
                its = [self.to_idx(i) for i in its]
                n = its[0].n
                for i in its[1:]:
                    n = z3.If(i.n < n, i.n, n)
                return Iter("idx", n=n, elem=lambda k: tuple(i.elem(k) for i in its))
            if v.kind == "enumerate":
                it = self.make_iter(v.args[0])
                st = v.args[1]
                if it.kind == "conc":
                    return Iter("conc", vals=[(st + j, x) for j, x in enumerate(it.vals)])
                if it.kind == "idx":
                    return Iter("idx", n=it.n, elem=lambda k: (SInt(k + st), it.elem(k)), guard=it.guard, mem=it.mem, zof=it.zof)
            raise Unsupported(f"iteration over {v.kind}")
        if isinstance(v, (Box, Snap)):
            ty, ls = self.leaves_of(v)
            if isinstance(ty, TUnk):
                return Iter("conc", vals=[])
            if isinstance(ty, TSet):
                if z3.is_K(ls[0]):
                    return Iter("conc", vals=[])
                self.setfacts(ls[0])
                return Iter("set", S=ls[0], elem=lambda k: self.from_leaves(ty.e, [k]), guard=v if isinstance(v, Box) else None)
            if isinstance(ty, TDict):
                return self.make_iter(View("keys", v))
            if isinstance(ty, TAbs):
                return self.w.abstracts[ty.cls].iter(self, v, "iter")
            if isinstance(ty, TList):
                n = z3.simplify(ls[0])
                if z3.is_int_value(n) and n.as_long() <= 8 and all(not z3.is_const(a) for a in ls[1:2]):
                    return Iter("conc", vals=[self.list_item(v, z3.IntVal(i)) for i in range(n.as_long())])
                zof = (lambda i: z3.Select(ls[1], i)) if ty.has_mem else None
                # the list is read afresh: element changes during iteration are seen
                return Iter("idx", n=ls[0], elem=lambda i: self.list_item(v, i), guard=v if isinstance(v, Box) else None,
                            mem=ls[-1] if ty.has_mem else None, zof=zof)
        if isinstance(v, Obj) or (isinstance(v, SU) and isinstance(v.ty, TRef)):
            return self.make_iter(self.call_method(v, "__iter__", [], {}))
        raise Unsupported(f"iteration over {v!r}")

    def to_idx(self, it):
        if it.kind == "idx":
            return it
        if it.kind == "conc":
            vals = it.vals
            if not vals:
                return Iter("idx", n=z3.IntVal(0), elem=lambda i: None)
            box = self.new_root(TList(self.typeof(vals[0])), self.list_leaves(vals, TList(self.typeof(vals[0]))))
            return Iter("idx", n=z3.IntVal(len(vals)), elem=lambda i: self.list_item(box, i))
        raise Unsupported("position-wise iteration over an unordered container")

    # ================================================================== calls
    def push_call(self, site):
        self.callpath.append(site)

    def call_func(self, fv, args, kwargs, site=None):
        """call a repository function given as FuncV; async functions give a coroutine"""
        node = fv.node
        if isinstance(node, ast.AsyncFunctionDef):
            frame = self.bind(fv, args, kwargs)
            return CoroV(lambda: self.run_frame(fv, frame, site))
        frame = self.bind(fv, args, kwargs)
        return self.run_frame(fv, frame, site)

    def bind(self, fv, args, kwargs):
        node = fv.node
        a = node.args
        fr = Frame(fv)
        names = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        nd = len(a.defaults)
        for i, n in enumerate(names):
            if i < len(args):
                if n in kwargs:
                    raise PyRaise("TypeError", (f"multiple values for {n}",))
                fr.locals[n] = args[i]
            elif n in kwargs:
                fr.locals[n] = kwargs.pop(n)
            elif i >= len(names) - nd:
                fr.locals[n] = self.eval_in(a.defaults[i - (len(names) - nd)], fv)
            else:
                raise PyRaise("TypeError", (f"missing argument {n}",))
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise("TypeError", ("too many arguments",))
            fr.locals[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            fr.locals[a.vararg.arg] = ()
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kwargs:
                fr.locals[p.arg] = kwargs.pop(p.arg)
            elif d is not None:
                fr.locals[p.arg] = self.eval_in(d, fv)
            else:
                raise PyRaise("TypeError", (f"missing keyword argument {p.arg}",))
        if kwargs:
            if a.kwarg is None:
                raise PyRaise("TypeError", (f"unexpected keyword arguments {list(kwargs)}",))
            fr.locals[a.kwarg.arg] = ("kwargs", kwargs)
        elif a.kwarg is not None:
            fr.locals[a.kwarg.arg] = ("kwargs", {})
        return fr

    def eval_in(self, e, fv):
        fr = Frame(fv)
        self.frames.append(fr)
        try:
            return self.ev(e)
        finally:
            self.frames.pop()

    def run_frame(self, fv, fr, site=None):
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            raise Unsupported("call depth")
        self.frames.append(fr)
        self.callpath.append((fv.module, fv.qual, site))
        try:
            if isinstance(fv.node, ast.Lambda):
                return self.ev(fv.node.body)
            self.block(fv.node.body)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.callpath.pop()
            self.frames.pop()
            self.depth -= 1

    @property
    def fr(self):
        return self.frames[-1]

    def await_(self, v):
        if isinstance(v, CoroV):
            if v.thunk is None:
                raise PyRaise("RuntimeError", ("coroutine reused",))
            t, v.thunk = v.thunk, None
            return t()
        if v is None or isinstance(v, (bool, int, bytes, str, Box, Rec, tuple)):
            raise PyRaise("TypeError", ("object can't be awaited",))
        if isinstance(v, Opaque):
            return v
        raise Unsupported(f"await of {v!r}")

    def call(self, f, args, kwargs, site=None):
        if isinstance(f, BoundM):
            return self.call_bound(f, args, kwargs, site)
        if isinstance(f, FuncV):
            q = f.qual
            if q in self.w.contracts and not self.is_target(q):
                return self.w.contracts[q](self, None, args, kwargs)
            return self.call_func(f, args, kwargs, site)
        if isinstance(f, BuiltinF):
            return f.fn(args, kwargs)
        if isinstance(f, ClassV):
            return self.construct(f.node, args, kwargs, site)
        if isinstance(f, TypeV):
            return self.lib.call(self, f.name, args, kwargs)
        if isinstance(f, LibM):
            return self.lib.method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, ModuleV):
            return self.lib.call(self, f.name, args, kwargs)
        if isinstance(f, SU) and self.w.opaque_call:
            return self.w.opaque_call(self, f, args, kwargs)
        if f is None:
            raise PyRaise("TypeError", ("'NoneType' object is not callable",))
        raise Unsupported(f"call of {f!r}")

    def is_target(self, q):
        return getattr(self, "targets", None) and q in self.targets and self.depth <= self.target_depth

    targets = ()
    target_depth = 0

    def call_bound(self, f, args, kwargs, site):
        ci, node = f.func
        q = f"{ci.name}.{node.name}"
        q2 = f"{f.obj.cls.name}.{node.name}" if isinstance(f.obj, Obj) else None
        for k in (q2, q):
            if k and k in self.w.contracts and not self.is_target(k):
                return self.w.contracts[k](self, f.obj, args, kwargs)
        fv = FuncV(node, ci.module, ClassV(ci.name, ci.module, ci))
        nm = ci.mangle(node.name)
        if nm in ci.statics:
            return self.call_func(fv, args, kwargs, site)
        if nm in ci.classmethods:
            return self.call_func(fv, [ClassV(ci.name, ci.module, ci)] + list(args), kwargs, site)
        return self.call_func(fv, [f.obj] + list(args), kwargs, site)

    def call_method(self, obj, name, args, kwargs):
        f = self.getattr(obj, name)
        return self.call(f, args, kwargs)

    def run_method(self, obj, name, args=(), kwargs=None):
        """call and, for async methods, run to completion"""
        r = self.call_method(obj, name, list(args), kwargs or {})
        return self.await_(r) if isinstance(r, CoroV) else r

    # ------------------------------------------------------------------ construction
    def construct(self, ci, args, kwargs, site=None):
        self.reg(ci)
        if ci.name in self.w.abstracts and self.w.abstracts[ci.name].construct:
            return self.w.abstracts[ci.name].construct(self, args, kwargs)
        k = f"{ci.name}()"
        if k in self.w.contracts:
            return self.w.contracts[k](self, None, args, kwargs)
        if ci.is_enum:
            return self.enum_lookup(ci, args[0])
        if self.is_exception(ci):
            return ExcV(ci.name, tuple(args))
        if ci.is_dataclass and not self.prog.find_method(ci, "__init__"):
            vals = self.dc_bind(ci, args, kwargs)
            if ci.name in self.w.refs:
                obj = self.alloc_ref(ci.name)
                for n, v in vals.items():
                    self.set_ref_field(obj, ci, n, v)
            elif ci.name in self.w.structs:
                ty = TStruct(ci.name, self.fields_of(ci))
                ls, moves = [], []
                self.ctx.n += 1
                key = ("own", self.ctx.n)
                for n, t in ty.fields:
                    isopt = isinstance(t, TOpt) and not t.uleaf()
                    v = vals[n]
                    l, m = self.absorb(v, t.t if isopt and v is not None else t, key, (("f", n),))
                    if isopt and v is not None:
                        l = [z3.BoolVal(False)] + l
                    ls += l
                    if m is not None:
                        moves.append((m, (("f", n),) + ((("o",),) if isopt else ())))
                self.ctx.ktype[key] = ty
                self.ctx.heap[key] = tuple(ls)
                for m, st in moves:
                    self.rebase(m, (), key, st)
                obj = self.mkbox(key)
            else:
                obj = Rec(ci.name, vals)
            pi = self.prog.find_method(ci, "__post_init__")
            if pi:
                self.call_method(obj, "__post_init__", [], {})
            return obj
        # general object: a root of its own
        if ci.name in self.w.refs:
            obj = self.alloc_ref(ci.name)
        else:
            if self.loopstack:
                raise Unsupported(f"object of class {ci.name} created in a loop")
            self.ctx.n += 1
            obj = Obj(ci, ("new", self.ctx.n))
        if self.prog.find_method(ci, "__init__"):
            self.call_method(obj, "__init__", list(args), kwargs)
        elif self.lib.queue_like(self, ci):
            self.lib.queue_init(self, obj, ci)
        return obj

    def dc_bind(self, ci, args, kwargs):
        fs = []
        for c in reversed(self.prog.mro(ci)):
            for n, ann, d in c.anns:
                fs.append((n, d, c))
        vals = {}
        args = list(args)
        if len(args) > len(fs):
            raise PyRaise("TypeError", ("too many arguments",))
        for (n, d, c), v in zip(fs, args):
            vals[n] = v
        for n, v in kwargs.items():
            if n in vals or n not in [f[0] for f in fs]:
                raise PyRaise("TypeError", (n,))
            vals[n] = v
        for n, d, c in fs:
            if n not in vals:
                if d is None:
                    raise PyRaise("TypeError", (f"missing {n}",))
                vals[n] = self.eval_in(d, FuncV(ast.Lambda(args=None, body=None), c.module, ClassV(c.name, c.module, c)))
        return vals

    def is_exception(self, ci):
        for b in self.prog.lib_bases(ci):
            if b.split(".")[-1] in EXC_BASE:
                EXC_BASE.setdefault(ci.name, b.split(".")[-1])
                return True
        return False

    def alloc_ref(self, cls):
        r = self.ctx.fresh(f"new_{cls}", U)
        key = ("alloc", cls)
        if key not in self.ctx.heap:
            self.init_cell(key, TSet(TRef(cls)), f"alloc.{cls}")
        a = self.ctx.heap[key][0]
        self.ctx.assume(r != NONE)
        self.ctx.assume(z3.Not(z3.Select(a, r)))
        self.ctx.heap[key] = (z3.Store(a, r, z3.BoolVal(True)),)
        return SU(r, TRef(cls))

    def ref_cell(self, cls, name, create_ty=None):
        key = ("fa", cls, name)
        if key not in self.ctx.heap:
            t = self.field_type(self.find_class(cls), name) if create_ty is None else create_ty
            if t is None:
                raise PyRaise("AttributeError", (name,))
            self.init_cell(key, TArr(t), f"{cls}.{name}")
        return key

    def field_cell(self, o, name):
        """heap cell of a field of a root object"""
        self.obj_getattr(o, name)
        return ("rf", o.root, name)

    def ref_field_arr(self, cls, name):
        """the field `name` of every object of class cls, as an array (single-leaf fields)"""
        return self.ctx.heap[self.ref_cell(cls, name)][0]

    def pre_ref_field(self, cls, name, z):
        """leaves of the field of object z at the beginning of the unit"""
        key = self.ref_cell(cls, name)
        return [z3.Select(l, z) for l in self.ctx.pre[key]]

    def field_types(self, cls, module):
        ci = self.prog.cls(module, cls)
        self.reg(ci)
        return self.fields_of(ci)

    def set_ref_field(self, ref, ci, name, v):
        key = self.ref_cell(ci.name, name)
        self.store_at(key, (("k", ref.z),), v, self.ctx.ktype[key].v)

    def get_ref_field(self, ref, ci, name):
        key = self.ref_cell(ci.name, name)
        t = self.ctx.ktype[key].v
        b = Box(key, (("k", ref.z),))
        ls = self.read(b)
        self.uwf(t, ls)
        return self.from_leaves(t, ls, (key, b.steps))

    def enum_lookup(self, ci, v):
        ms = list(dict.fromkeys(self.prog.enum_members(ci).values()))
        if isinstance(v, EnumV) and v.cls == ci.name:
            return v
        if isinstance(v, SU) and isinstance(v.ty, TEnum) and v.ty.cls == ci.name:
            return v
        for m in ms:
            e = self.eq(m.value, v)
            if isinstance(e, bool):
                if e:
                    return m
            else:
                pass
        conds = [(m, self.eq(m.value, v)) for m in ms]
        sym = [(m, e) for m, e in conds if not isinstance(e, bool)]
        if not sym:
            raise PyRaise("ValueError", (f"not a valid {ci.name}",))
        valid = z3.Or(*[e for _, e in sym])
        if not self.ctx.decide(valid):
            raise PyRaise("ValueError", (f"not a valid {ci.name}",))
        r = self.ctx.fresh(f"enum_{ci.name}", U)
        for m, e in sym:
            self.ctx.assume((r == self.to_u(m)) == e)
        return self.from_leaves(TEnum(ci.name), [r])

    def enum_split(self, v):
        """branch on the member of a symbolic enumeration value"""
        if isinstance(v, EnumV):
            return v
        ms = list(dict.fromkeys(self.prog.enum_members(self.find_class(v.ty.cls)).values()))
        for m in ms[:-1]:
            if self.ctx.decide(v.z == self.to_u(m)):
                return m
        self.ctx.assume(v.z == self.to_u(ms[-1]))
        return ms[-1]

    def enum_value(self, v, attr):
        if isinstance(v, EnumV):
            return v.value if attr == "value" else v.name
        ms = list(dict.fromkeys(self.prog.enum_members(self.find_class(v.ty.cls)).values()))
        vals = [m.value if attr == "value" else m.name for m in ms]
        t0 = self.typeof(vals[0])
        if isinstance(t0, TInt):
            z = z3.IntVal(vals[-1])
            for m, x in zip(ms[:-1], vals[:-1]):
                z = z3.If(v.z == self.to_u(m), z3.IntVal(x), z)
            return SInt(z)
        if isinstance(t0, TStr):
            z = z3.StringVal(vals[-1])
            for m, x in zip(ms[:-1], vals[:-1]):
                z = z3.If(v.z == self.to_u(m), z3.StringVal(x), z)
            return SStr(z)
        r = self.ctx.fresh(f"ev_{v.ty.cls}", U)
        for m, x in zip(ms, vals):
            self.ctx.assume((v.z == self.to_u(m)) == (r == self.to_u(x)))
        return SU(r, t0)

    # ------------------------------------------------------------------ attributes
    def mangle(self, name):
        if name.startswith("__") and not name.endswith("__") and self.fr.cls is not None:
            return self.fr.cls.node.mangle(name)
        return name

    def getattr(self, v, name):
        if isinstance(v, Obj):
            return self.obj_getattr(v, name)
        if isinstance(v, Box):
            ty = self.type_at(v)
            if isinstance(ty, TAbs):
                return BuiltinF(f"{ty.cls}.{name}", lambda a, k: self.w.abstracts[ty.cls].call(self, v, name, a, k))
            if isinstance(ty, TStruct):
                if ty.offset(name):
                    return self.get_at(v.root, v.steps + (("f", name),))
                return self.class_attr(v, self.find_class(ty.cls), name)
            return LibM(v, name)
        if isinstance(v, Rec):
            if name in v.fields:
                return v.fields[name]
            return self.class_attr(v, self.find_class(v.cls), name)
        if isinstance(v, EnumV):
            if name in ("value", "name"):
                return self.enum_value(v, name)
            return self.class_attr(v, self.find_class(v.cls), name)
        if isinstance(v, SU):
            ty = v.ty
            if isinstance(ty, TOpt):
                if not self.ctx.decide(v.z != NONE):
                    raise PyRaise("AttributeError", (f"'NoneType' object has no attribute '{name}'",))
                ty = ty.t
                v = SU(v.z, ty)
            if isinstance(ty, TEnum):
                if name in ("value", "name"):
                    return self.enum_value(v, name)
                return self.class_attr(v, self.find_class(ty.cls), name)
            if isinstance(ty, TRef):
                h = self.w.attrs.get((ty.cls, name))
                if h:
                    return h(self, v)
                ci = self.known.get(ty.cls)
                if ci is not None or ty.cls in self.w.schemas:
                    if ci is None:
                        return self.get_ref_field2(v, ty.cls, name)
                    if self.field_type(ci, name) is not None:
                        return self.get_ref_field(v, ci, name)
                    return self.class_attr(v, ci, name)
            if isinstance(ty, TU):
                h = self.w.attrs.get((ty.name, name))
                if h:
                    return h(self, v)
                return LibM(v, name)
        if isinstance(v, RepoMod):
            r = self.resolve_global(v.name, name)
            if r is not None:
                return r
            raise PyRaise("AttributeError", (name,))
        if isinstance(v, ModuleV):
            return self.lib.module_attr(self, v.name, name)
        if isinstance(v, TypeV):
            return self.lib.module_attr(self, v.name, name)
        if isinstance(v, ClassV):
            ci = v.node
            if ci.is_enum and name in self.prog.enum_members(ci):
                return self.prog.enum_members(ci)[name]
            if name == "__name__":
                return ci.name
            m = self.prog.find_method(ci, name)
            if m:
                fv = FuncV(m[1], m[0].module, ClassV(m[0].name, m[0].module, m[0]))
                if name in m[0].classmethods:
                    return BoundM(v, m)
                return fv
            for c in self.prog.mro(ci):
                if name in c.attrs:
                    return self.eval_in(c.attrs[name], FuncV(ast.Lambda(args=None, body=None), c.module, ClassV(c.name, c.module, c)))
            raise PyRaise("AttributeError", (name,))
        if v is None:
            raise PyRaise("AttributeError", (f"'NoneType' object has no attribute '{name}'",))
        if isinstance(v, ExcV):
            if name == "args":
                return tuple(v.args)
            raise Unsupported(f"exception attribute {name}")
        if isinstance(v, SuperV):
            return self.super_attr(v, name)
        if isinstance(v, Opaque):
            return LibM(v, name)
        if isinstance(v, Poison):
            raise Unsupported(f"value of '{v.name}' after a loop")
        if isinstance(v, ConcDict) and name in ("inverse", "inv"):
            return ConcDict([(b, a) for a, b in v.items])
        if isinstance(v, FuncV) and name == "__name__":
            return v.name
        if isinstance(v, BoundM):
            if name == "__self__":
                return v.obj
            if name == "__name__":
                return v.func[1].name
        return LibM(v, name)

    def get_ref_field2(self, ref, cls, name):
        t = self.w.schemas[cls].get(name)
        if t is None:
            return LibM(ref, name)
        key = self.ref_cell(cls, name, t)
        ls = self.read(Box(key, (("k", ref.z),)))
        return self.from_leaves(t, ls, (key, (("k", ref.z),)))

    def class_attr(self, v, ci, name):
        m = self.prog.find_method(ci, name)
        if m:
            if name in m[0].props:
                return self.call_bound(BoundM(v, m), [], {}, None)
            return BoundM(v, m)
        if name == "__class__":
            return ClassV(ci.name, ci.module, ci)
        for c in self.prog.mro(ci):
            if name in c.attrs and not c.is_dataclass:
                return self.eval_in(c.attrs[name], FuncV(ast.Lambda(args=None, body=None), c.module, ClassV(c.name, c.module, c)))
        raise PyRaise("AttributeError", (f"'{ci.name}' object has no attribute '{name}'",))

    def obj_getattr(self, v, name):
        ci = v.cls
        self.reg(ci)
        h = self.w.attrs.get((ci.name, name))
        if h:
            return h(self, v)
        key = ("rf", v.root, name)
        if key in self.ctx.heap:
            return self.get_at(key, ())
        if ("raw",) + key in self.ctx.heap:
            return self.ctx.heap[("raw",) + key][0]
        if (ci.name, name) in self.w.roots:
            c, r = self.w.roots[(ci.name, name)]
            return Obj(c, r) if isinstance(c, ClassInfo) else Obj(self.w.root_classes[r], r)
        m = self.prog.find_method(ci, name)
        if m:
            if name in m[0].props:
                return self.call_bound(BoundM(v, m), [], {}, None)
            return BoundM(v, m)
        if v.root[0] != "new" if isinstance(v.root, tuple) else True:
            t = self.field_type(ci, name)
            if t is not None and not isinstance(t, TObj):
                self.init_cell(key, t, f"{v.root}.{name}")
                return self.get_at(key, ())
            if isinstance(t, TObj):
                # an object created by the constructor and owned by this one
                return Obj(self.find_class(t.cls), t.root if t.root is not None else f"{v.root}.{name}")
        if name == "__class__":
            return ClassV(ci.name, ci.module, ci)
        for c in self.prog.mro(ci):
            if name in c.attrs:
                return self.eval_in(c.attrs[name], FuncV(ast.Lambda(args=None, body=None), c.module, ClassV(c.name, c.module, c)))
        q = self.lib.inherited(self, v, ci, name)
        if q is not None:
            return q
        raise PyRaise("AttributeError", (f"'{ci.name}' object has no attribute '{name}'",))

    def init_cell(self, key, t, hint):
        """arbitrary initial contents of a field that is part of the pre-state"""
        if self.ctx.subs:
            raise NeedCell(lambda: None if key in self.ctx.heap else self.init_cell(key, t, hint))
        nm = "".join(c if c.isalnum() or c in "._" else "" for c in hint.replace("!", "").replace("@", ""))
        ls = tuple(z3.Const(f"pre.{nm}.{j}", s) for j, s in enumerate(t.sorts()))
        self.ctx.ktype[key] = t
        self.ctx.heap[key] = ls
        self.ctx.pre[key] = ls
        self.wf(t, ls)

    def setattr(self, v, name, x):
        if isinstance(v, Obj):
            key = ("rf", v.root, name)
            h = self.w.attrs.get((v.cls.name, name + "="))
            if h:
                return h(self, v, x)
            t = self.ctx.ktype.get(key)
            if t is None:
                t = self.field_type(v.cls, name)
                if isinstance(t, TObj):
                    t = None
                if t is None:
                    # dynamic field
                    if isinstance(x, (Obj, ClassV, FuncV, BoundM, Opaque, TypeV, BuiltinF, LibM, tuple, type(None), ExcV, Rec)) :
                        self.ctx.heap[("raw",) + key] = (x,)
                        return
                    t = self.typeof(x)
                    if isinstance(t, TUnk):
                        if not self.is_owned(x):
                            raise Unsupported("shared container")
                        self.ctx.ktype[key] = t
                        self.ctx.heap[key] = ()
                        self.rebase(x.root, (), key, ())
                        return
                if not (isinstance(v.root, tuple) and v.root[0] == "new"):
                    if key not in self.ctx.heap:
                        self.init_cell(key, t, f"{v.root}.{name}")
                else:
                    if isinstance(t, TDict) and isinstance(x, Box) and isinstance(self.type_at(x), TUnk) and self.type_at(x).default is not None:
                        t = TDict(t.k, t.v, default=self.type_at(x).default, ordered=t.ordered)
                    self.ctx.ktype[key] = t
                    self.ctx.heap[key] = tuple(self.default_term(s) for s in t.sorts())
            if isinstance(t, TUnk):
                self.ctx.ktype[key] = t = self.typeof(x)
                self.ctx.heap[key] = tuple(self.default_term(s) for s in t.sorts())
            self.store_at(key, (), x, t)
            return
        if isinstance(v, Box):
            ty = self.type_at(v)
            if isinstance(ty, TStruct):
                off = ty.offset(name)
                if off is None:
                    raise PyRaise("AttributeError", (name,))
                self.store_at(v.root, v.steps + (("f", name),), x, off[2])
                return
        if isinstance(v, SU):
            ty = v.ty
            if isinstance(ty, TOpt):
                if not self.ctx.decide(v.z != NONE):
                    raise PyRaise("AttributeError", (name,))
                ty = ty.t
            if isinstance(ty, TRef):
                if ty.cls in self.w.schemas and name in self.w.schemas[ty.cls]:
                    key = self.ref_cell(ty.cls, name, self.w.schemas[ty.cls][name])
                    self.store_at(key, (("k", v.z),), x, self.ctx.ktype[key].v)
                    return
                self.set_ref_field(v, self.find_class(ty.cls), name, x)
                return
        if v is None:
            raise PyRaise("AttributeError", (name,))
        raise Unsupported(f"attribute assignment on {v!r}.{name}")

    # ------------------------------------------------------------------ names
    def resolve_global(self, module, name):
        key = ("g", module, name)
        if key in self.modcache:
            return self.modcache[key]
        r = self.prog.resolve(module, name)
        v = None
        if r is not None:
            if r[0] == "class":
                self.reg(r[1])
                v = ClassV(r[1].name, r[1].module, r[1])
            elif r[0] == "func":
                v = FuncV(r[1], r[2])
            elif r[0] == "repomod":
                v = RepoMod(r[1])
            elif r[0] == "lib":
                v = self.lib.lib_value(self, r[1])
            elif r[0] == "expr":
                over = self.w.libs.get(f"{r[2]}.{name}")
                if over is not None:
                    v = over(self)
                else:
                    v = self.eval_in(r[1], FuncV(ast.Lambda(args=None, body=None), r[2]))
                if isinstance(v, (Box,)):
                    return v
        if v is not None:
            self.modcache[key] = v
        return v

    def lookup(self, name):
        f = self.fr
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"value of '{v.name}' after a loop")
                return v
            f = f.closure
        if name in getattr(self, "spec_names", {}):
            return self.spec_names[name]
        fr = self.fr
        if self.fr.fv is not None and isinstance(self.fr.fv.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if name in assigned_names(self.fr.fv.node):
                raise PyRaise("UnboundLocalError", (name,))
        v = self.resolve_global(fr.module, name)
        if v is not None:
            return v
        b = self.lib.builtin(self, name)
        if b is not UNDEF:
            return b
        raise PyRaise("NameError", (name,))

    # ================================================================== statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} line {s.lineno}")
        return m(s)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            self.fr.locals[a.asname or a.name.split(".")[0]] = self.lib.lib_value(self, a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s):
        for a in s.names:
            if (s.module or "").startswith("scaled"):
                self.fr.locals[a.asname or a.name] = self.resolve_global(s.module, a.name)
            else:
                self.fr.locals[a.asname or a.name] = self.lib.lib_value(self, f"{s.module}.{a.name}")

    def s_Global(self, s):
        raise Unsupported("global statement")

    def s_Nonlocal(self, s):
        self.fr.nonlocals.update(s.names)

    def s_Return(self, s):
        raise ReturnEx(self.ev(s.value) if s.value is not None else None)

    def s_Break(self, s):
        raise BreakEx()

    def s_Continue(self, s):
        raise ContinueEx()

    def s_If(self, s):
        if self.cond(self.ev(s.test)):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_Assert(self, s):
        if not self.cond(self.ev(s.test)):
            raise PyRaise("AssertionError", (), where=f"line {s.lineno}")

    def s_Raise(self, s):
        if s.exc is None:
            if not self.exc_stack:
                raise PyRaise("RuntimeError", ("no active exception",))
            e = self.exc_stack[-1]
            raise PyRaise(e.cls, e.args, value=e)
        v = self.ev(s.exc)
        if s.cause is not None:
            self.ev(s.cause)
        if isinstance(v, (ClassV, TypeV)):
            v = self.call(v, [], {})
        if not isinstance(v, ExcV):
            raise Unsupported(f"raise {v!r}")
        raise PyRaise(v.cls, v.args, value=v, where=f"line {s.lineno}")

    def exc_of(self, pr):
        if pr.value is not None:
            return pr.value
        pr.value = ExcV(pr.cls, pr.eargs)
        return pr.value

    def exc_match(self, exc, t):
        if isinstance(t, tuple):
            for x in t:
                if self.exc_match(exc, x):
                    return True
            return False
        name = t.name.split(".")[-1] if isinstance(t, (TypeV, ClassV, ModuleV)) else None
        if name is None:
            raise Unsupported(f"except {t!r}")
        if exc.cls == "?":
            if name in ("Exception", "BaseException"):
                return True
            # an arbitrary exception may or may not be of this class
            k = self.ctx.choose(2)
            if k == 0:
                exc.cls = name
                return True
            return False
        return exc_sub(exc.cls, name)

    def s_Try(self, s):
        try:
            try:
                self.block(s.body)
            except PyRaise as pr:
                exc = self.exc_of(pr)
                for h in s.handlers:
                    if h.type is None or self.exc_match(exc, self.ev(h.type)):
                        if h.name:
                            self.fr.locals[h.name] = exc
                        self.exc_stack.append(exc)
                        try:
                            self.block(h.body)
                        finally:
                            self.exc_stack.pop()
                            if h.name:
                                self.fr.locals.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(s.orelse)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.block(s.finalbody)
            raise
        self.block(s.finalbody)

    def s_With(self, s):
        self.with_items(s, list(s.items), False)

    def s_AsyncWith(self, s):
        self.with_items(s, list(s.items), True)

    def with_items(self, s, items, asyn):
        if not items:
            self.block(s.body)
            return
        it = items[0]
        cm = self.ev(it.context_expr)
        en, exi = ("__aenter__", "__aexit__") if asyn else ("__enter__", "__exit__")
        v = self.call_method(cm, en, [], {})
        if asyn:
            v = self.await_(v)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)

        def leave(args):
            r = self.call_method(cm, exi, args, {})
            return self.await_(r) if asyn else r
        try:
            self.with_items(s, items[1:], asyn)
        except PyRaise as pr:
            e = self.exc_of(pr)
            r = leave([Opaque(), e, Opaque()])
            if r is not None and not isinstance(r, Opaque) and self.cond(r):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            leave([None, None, None])
            raise
        leave([None, None, None])

    def s_FunctionDef(self, s):
        self.fr.locals[s.name] = FuncV(s, self.fr.module, self.fr.cls, self.fr)

    def s_AsyncFunctionDef(self, s):
        self.fr.locals[s.name] = FuncV(s, self.fr.module, self.fr.cls, self.fr)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is None:
            return
        v = self.ev(s.value)
        if isinstance(v, Box) and isinstance(self.type_at(v), TUnk):
            try:
                t = self.ann_type(self.fr.module, s.annotation)
            except Unsupported:
                t = None
            if isinstance(s.target, ast.Attribute):
                t = None
            if isinstance(t, (TSet, TDict, TList)):
                u = self.type_at(v)
                if isinstance(t, TDict):
                    t.default = u.default
                self.retype(v, t)
        self.assign(s.target, v)

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.inplace(s.op, cur, self.ev(s.value))
            self.assign(t, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            n = self.mangle(t.attr)
            cur = self.getattr(o, n)
            v = self.inplace(s.op, cur, self.ev(s.value))
            if v is not cur:
                self.setattr(o, n, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            cur = self.getitem(o, i)
            v = self.inplace(s.op, cur, self.ev(s.value))
            if v is not cur:
                self.setitem(o, i, v)
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, v):
        if isinstance(cur, Box):
            ty = self.type_at(cur)
            if isinstance(ty, TList) or isinstance(ty, TUnk) and ty.kind == "list":
                if isinstance(op, ast.Add):
                    self.lib.method(self, cur, "extend", [v], {})
                    return cur
            if isinstance(ty, TSet) or isinstance(ty, TUnk) and ty.kind == "set":
                nm = {ast.BitOr: "update", ast.Sub: "difference_update", ast.BitAnd: "intersection_update"}.get(type(op))
                if nm:
                    self.lib.method(self, cur, nm, [v], {})
                    return cur
            if isinstance(ty, TDict) and isinstance(op, ast.BitOr):
                self.lib.method(self, cur, "update", [v], {})
                return cur
        return self.binop(op, cur, v)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in self.fr.locals:
                    raise PyRaise("UnboundLocalError", (t.id,))
                del self.fr.locals[t.id]
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value), self.ev(t.slice)
                self.delitem(o, i)
            elif isinstance(t, ast.Attribute):
                raise Unsupported("del attribute")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.fr.nonlocals:
                f = self.fr.closure
                while f is not None:
                    if t.id in f.locals:
                        f.locals[t.id] = v
                        return
                    f = f.closure
            self.fr.locals[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr(o, self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, (bytes, str)):
            v = tuple(v)
        if isinstance(v, SU) and isinstance(v.ty, TRef):
            h = self.w.schemas.get(v.ty.cls, {}).get("__unpack__")
            if h:
                v = h(self, v)
        if isinstance(v, View) or isinstance(v, Iter):
            it = self.make_iter(v)
            if it.kind == "conc":
                v = tuple(it.vals)
            elif it.kind == "idx":
                n = SInt(it.n)
                if star:
                    raise Unsupported("starred unpack of iterator")
                if not self.ctx.decide(it.n == len(elts)):
                    raise PyRaise("ValueError", ("unpack",))
                v = tuple(it.elem(z3.IntVal(i)) for i in range(len(elts)))
        if isinstance(v, tuple):
            if not star:
                if len(v) != len(elts):
                    raise PyRaise("ValueError", ("unpack",))
                for e, x in zip(elts, v):
                    self.assign(e, x)
                return
            i = star[0]
            after = len(elts) - i - 1
            if len(v) < len(elts) - 1:
                raise PyRaise("ValueError", ("unpack",))
            for e, x in zip(elts[:i], v[:i]):
                self.assign(e, x)
            self.assign(elts[i].value, self.make_list(list(v[i:len(v) - after])))
            for e, x in zip(elts[i + 1:], v[len(v) - after:]):
                self.assign(e, x)
            return
        if isinstance(v, (Box, Snap)):
            ty, ls = self.leaves_of(v)
            if isinstance(ty, TList):
                if not star:
                    if not self.ctx.decide(ls[0] == len(elts)):
                        raise PyRaise("ValueError", ("unpack",))
                    for j, e in enumerate(elts):
                        self.assign(e, self.list_item(v, z3.IntVal(j)))
                    return
                i = star[0]
                after = len(elts) - i - 1
                if not self.ctx.decide(ls[0] >= len(elts) - 1):
                    raise PyRaise("ValueError", ("unpack",))
                for j, e in enumerate(elts[:i]):
                    self.assign(e, self.list_item(v, z3.IntVal(j)))
                self.assign(elts[i].value, self.lib.slice_list(self, v, z3.IntVal(i), ls[0] - after, aslist=True))
                for j, e in enumerate(elts[i + 1:]):
                    self.assign(e, self.list_item(v, ls[0] - after + j))
                return
        if v is None:
            raise PyRaise("TypeError", ("cannot unpack None",))
        raise Unsupported(f"unpacking {v!r}")

    # ------------------------------------------------------------------ subscripts
    def getitem(self, o, i):
        return self.lib.getitem(self, o, i)

    def setitem(self, o, i, v):
        return self.lib.setitem(self, o, i, v)

    def delitem(self, o, i):
        return self.lib.delitem(self, o, i)

    # ================================================================== expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} line {getattr(e, 'lineno', '?')}")
        return m(e)

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return Opaque("...")
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), self.mangle(e.attr))

    def e_Subscript(self, e):
        o = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower) if e.slice.lower is not None else None
            hi = self.ev(e.slice.upper) if e.slice.upper is not None else None
            st = self.ev(e.slice.step) if e.slice.step is not None else None
            return self.lib.slice(self, o, lo, hi, st)
        return self.getitem(o, self.ev(e.slice))

    def e_Tuple(self, e):
        out = []
        star = False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                it = self.make_iter(v)
                if it.kind == "conc":
                    out += it.vals
                else:
                    star = True
                    out.append(("*", v))
            else:
                out.append(self.ev(x))
        if star:
            return self.lib.concat(self, [("*", x[1]) if isinstance(x, tuple) and len(x) == 2 and x[0] == "*" else x for x in out], "tuple")
        return tuple(out)

    def e_List(self, e):
        out, star = [], False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                it = self.make_iter(v)
                if it.kind == "conc":
                    out += it.vals
                else:
                    star = True
                    out.append(("*", v))
            else:
                out.append(self.ev(x))
        if star:
            return self.lib.concat(self, out, "list")
        return self.make_list(out)

    def make_list(self, vals):
        h = getattr(self.w, "list_literal", None)
        if h:
            r = h(self, vals)
            if r is not None:
                return r
        if not vals:
            return self.new_root(TUnk("list"))
        box = self.new_root(TUnk("list"))
        for v in vals:
            self.list_append(box, v)
        return box

    def e_Set(self, e):
        vals = [self.ev(x) for x in e.elts]
        if all(isinstance(v, (EnumV, bytes, str, int, TypeV, ClassV)) for v in vals):
            return ConcSet(vals)
        box = self.new_root(TUnk("set"))
        for v in vals:
            self.set_add(box, v)
        return box

    def e_Dict(self, e):
        if not e.keys:
            return self.new_root(TUnk("dict"))
        if any(k is None for k in e.keys):
            return self.lib.dict_display(self, [(None if k is None else self.ev(k), self.ev(v)) for k, v in zip(e.keys, e.values)])
        items = [(self.ev(k), self.ev(v)) for k, v in zip(e.keys, e.values)]
        if all(isinstance(k, (str, EnumV, int, bytes)) for k, _ in items):
            return ConcDict(items)
        box = self.new_root(TUnk("dict"))
        for k, v in items:
            self.dict_set(box, k, v)
        return box

    def e_JoinedStr(self, e):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value)
                if p.format_spec is not None:
                    self.ev(p.format_spec)
                    parts.append(None)
                elif p.conversion == 114:
                    parts.append(None)
                else:
                    parts.append(self.lib.to_str(self, v))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        if self.w.str_mode == "S" and all(isinstance(p, (str, SStr)) for p in parts):
            return SStr(z3.Concat(*[self.zs(p) for p in parts if not (isinstance(p, str) and p == "")]) if len([p for p in parts if not (isinstance(p, str) and p == "")]) > 1 else self.zs([p for p in parts if not (isinstance(p, str) and p == "")][0]))
        z = self.ctx.fresh("fstr", U)
        self.ctx.assume(z != NONE)
        return SU(z, TU("str"))

    def e_FormattedValue(self, e):
        return self.ev(e.value)

    def e_BoolOp(self, e):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1:
                return v
            c = self.cond(v)
            if isinstance(e.op, ast.And) and not c:
                return v if not isinstance(v, SBool) else False
            if isinstance(e.op, ast.Or) and c:
                return v if not isinstance(v, SBool) else True
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else SBool(z3.Not(t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, SInt):
                return SInt(-v.z)
            if isinstance(v, SReal):
                return SReal(-v.z)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, (ast.Set, ast.List)) and not any(isinstance(x, ast.Starred) for x in r.elts):
                right = tuple(self.ev(x) for x in r.elts)  # membership in a display: one of its values
            else:
                right = self.ev(r)
            c = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                if res is None:
                    return c if isinstance(c, bool) else SBool(c)
                return c if isinstance(c, bool) else SBool(c)
            if not self.ctx.decide(c):
                return False
            res = True
            left = right

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.lib.eq(self, a, b)
        if isinstance(op, ast.NotEq):
            r = self.lib.eq(self, a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, ast.In):
            return self.lib.contains(self, b, a)
        if isinstance(op, ast.NotIn):
            r = self.lib.contains(self, b, a)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        return self.lib.order(self, op, a, b)

    def e_IfExp(self, e):
        return self.ev(e.body) if self.cond(self.ev(e.test)) else self.ev(e.orelse)

    def e_Await(self, e):
        return self.await_(self.ev(e.value))

    def e_Lambda(self, e):
        return FuncV(e, self.fr.module, self.fr.cls, self.fr, "<lambda>")

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        raise Unsupported("starred expression")

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return SuperV(self.fr.cls, self.fr.locals.get("self"))
        f = self.ev(e.func)
        if isinstance(f, (ModuleV, LibM)) and self.lib.ignored(self, f):
            for a in e.args:
                self.ev(a.value if isinstance(a, ast.Starred) else a)
            return Opaque()
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                it = self.make_iter(v)
                if it.kind == "conc":
                    args += it.vals
                else:
                    args.append(StarArg(v, it))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, tuple) and len(v) == 2 and v[0] == "kwargs":
                    kwargs.update(v[1])
                elif isinstance(v, ConcDict) and all(isinstance(k0, str) for k0, _ in v.items):
                    kwargs.update(dict(v.items))
                elif isinstance(v, (Box, Snap)) and self.takes_star(f):
                    kwargs["**"] = v
                else:
                    raise Unsupported("** in call")
            else:
                kwargs[k.arg] = v
        if any(isinstance(a, StarArg) for a in args) and not self.takes_star(f):
            return self.lib.star_call(self, f, args, kwargs)
        return self.call(f, args, kwargs, node_pos(e))

    def takes_star(self, f):
        """callees modelled as taking *args and **kwargs of unknown size"""
        return isinstance(f, BuiltinF) and f.star or isinstance(f, SU) and self.w.opaque_call is not None and self.w.opaque_star

    # comprehensions
    def e_ListComp(self, e):
        return self.comp(e, "list")

    def e_SetComp(self, e):
        return self.comp(e, "set")

    def e_GeneratorExp(self, e):
        return GenExp(self, e, self.fr)

    def e_DictComp(self, e):
        return self.comp(e, "dict")

    def comp(self, e, kind):
        from .loops import comprehension
        return comprehension(self, e, kind)

    # ------------------------------------------------------------------ loops
    def s_For(self, s):
        from .loops import exec_for
        exec_for(self, s)

    def s_AsyncFor(self, s):
        raise Unsupported("async for")

    def s_While(self, s):
        from .loops import exec_while
        exec_while(self, s)

    def super_attr(self, sv, name):
        ci = sv.cls.node
        for b in ci.bases:
            r = self.prog.resolve(ci.module, b)
            if r and r[0] == "class":
                m = self.prog.find_method(r[1], name)
                if m:
                    return BoundM(sv.obj, m)
        q = self.lib.inherited(self, sv.obj, ci, name)
        if q is not None:
            return q
        return BuiltinF("super." + name, lambda a, k: None)

    # ------------------------------------------------------------------ events
    def emit(self, chan, to, msg, extra=None):
        if chan in self.w.ignore_chans:
            return
        if self.ctx.subs:
            raise EffectInComp("message sent in a comprehension")
        self.log.append(Event(chan, self.freeze(to), self.freeze(msg), extra))

    def freeze(self, v):
        """immutable snapshot of a message"""
        if isinstance(v, Box):
            ty, ls = self.leaves_of(v)
            if isinstance(ty, TUnk):
                return Snap(ty, [])
            return Snap(ty, ls)
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.freeze(x) for k, x in v.fields.items()})
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, SU) and isinstance(v.ty, TOpt) and isinstance(v.ty.t, TRef) and v.ty.t.cls in self.known and self.known[v.ty.t.cls].is_dataclass and self.ctx.valid(v.z != NONE):
            v = SU(v.z, v.ty.t)
        if isinstance(v, SU) and isinstance(v.ty, TRef) and v.ty.cls in self.known and self.known[v.ty.cls].is_dataclass:
            ci = self.known[v.ty.cls]
            r = Rec(ci.name, {n: self.freeze(self.get_ref_field(v, ci, n)) for n, _ in self.fields_of(ci)})
            r.ref = v
            return r
        return v


class TUnk(T):
    """container whose element type is not known yet (necessarily empty)"""
    mutable = True

    def __init__(self, kind, default=None):
        self.kind, self.default = kind, default

    def sorts(self):
        return []

    def __repr__(self):
        return f"TUnk({self.kind})"


class ConcSet:
    """set of literals"""

    def __init__(self, vals):
        self.vals = vals


class ConcDict:
    """dictionary display with literal keys"""

    def __init__(self, items):
        self.items = items


class StarArg:
    def __init__(self, v, it):
        self.v, self.it = v, it


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class GenExp:
    """generator expression, evaluated where it is consumed"""

    def __init__(self, it, node, frame):
        self.node, self.frame = node, frame


class Iter:
    def __init__(self, kind, vals=None, n=None, elem=None, S=None, guard=None, mem=None, zof=None, keyof=None):
        self.kind, self.vals, self.n, self.elem, self.S, self.guard, self.mem = kind, vals, n, elem, S, guard, mem
        self.zof, self.keyof = zof, keyof


_posf = {}


def POS(n, a):
    """position of a member in a list, as an array element -> index"""
    f = z3.Function("listpos", I, a.sort(), z3.ArraySort(U, I))
    return f(n, a)


_assigned: dict = {}


def assigned_names(node):
    k = id(node)
    if k not in _assigned:
        out = set()

        def walk(n, top):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.ClassDef)):
                    for m in ast.walk(c):
                        if isinstance(m, ast.NamedExpr):
                            out.add(m.target.id)
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    out.add(c.id)
                if isinstance(c, ast.ExceptHandler) and c.name:
                    out.add(c.name)
                walk(c, False)
        walk(node, True)
        gl = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Nonlocal, ast.Global)):
                gl.update(n.names)
        _assigned[k] = (node, out - gl)
    return _assigned[k][1]
