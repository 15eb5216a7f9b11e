"""Core of the verification-condition generator: types, values, symbolic state, path exploration.

A *type* describes how a Python value is flattened into z3 terms (its leaves).  Mutable containers and owned objects are
``Box``es: a type plus a location in the symbolic heap.  Containers follow a unique-owner discipline that the executor checks at
every store (a container stored in a second place is refused as unsupported, never silently copied).
"""
from __future__ import annotations
import itertools
import os
import time
import z3

_multipattern = z3.MultiPattern


def _safe_multipattern(*args):
    """z3's MultiPattern drops its arguments before it uses them; keep them alive"""
    keep = list(args)
    p = _multipattern(*args)
    del keep
    return p


z3.MultiPattern = _safe_multipattern
z3.z3.MultiPattern = _safe_multipattern

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)

U = z3.DeclareSort("U")
I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()
S = z3.StringSort()

NONE = z3.Const("None!", U)
LITCODE = z3.Function("litcode", U, I)
CLS = z3.Function("cls", U, I)          # class tag of an opaque object
BLEN = z3.Function("blen", U, I)         # length of opaque bytes
TRUTHY = z3.Function("truthy", U, B)     # truth value of an opaque object
BOXI = z3.Function("boxint", I, U)       # int as an opaque object
UNBOXI = z3.Function("unboxint", U, I)


class Unsupported(Exception):
    """The source uses something outside the verifier's subset: the function's obligations are not discharged."""


class PathEnd(Exception):
    pass


class NeedCell(Exception):
    """a heap cell of the pre-state must be created outside the body being explored"""

    def __init__(self, make):
        self.make = make


class Restart(Exception):
    """Loop candidate set or havoc set changed: verify the function again."""


class EffectInComp(Exception):
    pass


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, cls, args=(), value=None, where=""):
        super().__init__(cls)
        self.cls = cls          # name of the exception class, or SU class value for opaque
        self.eargs = args
        self.value = value
        self.where = where


# --------------------------------------------------------------------------------------------------------------- types
class T:
    mutable = False

    def sorts(self):
        raise NotImplementedError

    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__

    def __hash__(self):
        return hash(repr(self))

    def __repr__(self):
        return type(self).__name__


class TInt(T):
    def sorts(self):
        return [I]


class TBool(T):
    def sorts(self):
        return [B]


class TReal(T):
    def sorts(self):
        return [R]


class TStr(T):
    def sorts(self):
        return [S]


class TNone(T):
    def sorts(self):
        return []


class TU(T):
    """Opaque non-None value: bytes, user objects, callables..."""

    def __init__(self, name="any"):
        self.name = name

    def sorts(self):
        return [U]

    def __repr__(self):
        return f"TU({self.name})"


class TAnyMsg(TU):
    pass


class TEnum(T):
    def __init__(self, cls):
        self.cls = cls

    def sorts(self):
        return [U]

    def __repr__(self):
        return f"TEnum({self.cls})"


class TRef(T):
    """Reference to a mutable object of a repository class whose instances may be shared (linked nodes, entries)."""

    def __init__(self, cls):
        self.cls = cls

    def sorts(self):
        return [U]

    def __repr__(self):
        return f"TRef({self.cls})"


class TObj(T):
    """A root object of the world (a manager): not flattened, always the same statically known object."""

    def __init__(self, cls, root):
        self.cls = cls
        self.root = root

    def sorts(self):
        raise Unsupported("root object stored as data")

    def __repr__(self):
        return f"TObj({self.cls},{self.root})"


class TOpt(T):
    def __init__(self, t):
        self.t = t

    def uleaf(self):
        return isinstance(self.t, (TU, TRef, TEnum))

    def sorts(self):
        return [U] if self.uleaf() else [B] + self.t.sorts()

    @property
    def mutable(self):
        return self.t.mutable

    def __repr__(self):
        return f"TOpt({self.t})"


class TTuple(T):
    def __init__(self, ts):
        self.ts = list(ts)

    def sorts(self):
        return [s for t in self.ts for s in t.sorts()]

    def __repr__(self):
        return f"TTuple({self.ts})"


class TRec(T):
    """Immutable value record of a repository dataclass."""

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields  # list of (name, T)

    def sorts(self):
        return [s for _, t in self.fields for s in t.sorts()]

    def __repr__(self):
        return f"TRec({self.cls})"


class TStruct(T):
    """Mutable object with a unique owner."""

    mutable = True

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields

    def sorts(self):
        return [s for _, t in self.fields for s in t.sorts()]

    def offset(self, name):
        k = 0
        for n, t in self.fields:
            m = len(t.sorts())
            if n == name:
                return k, k + m, t
            k += m
        return None

    def __repr__(self):
        return f"TStruct({self.cls})"


class TAbs(TStruct):
    """Owned object of a class known only through its contract: its fields are the model fields of that contract."""

    def __repr__(self):
        return f"TAbs({self.cls})"


def one(t):
    s = t.sorts()
    if len(s) != 1:
        raise Unsupported(f"key type {t} is not a single term")
    return s[0]


class TSet(T):
    mutable = True

    def __init__(self, e):
        self.e = e

    def sorts(self):
        return [z3.ArraySort(one(self.e), B)]

    def __repr__(self):
        return f"TSet({self.e})"


class TDict(T):
    """dom, [ord: insertion order as index -> key], one array per value leaf"""

    mutable = True

    def __init__(self, k, v, default=None, ordered=False):
        self.k = k
        self.v = v
        self.default = default  # factory for defaultdict
        self.ordered = ordered

    @property
    def nhead(self):
        return 2 if self.ordered else 1

    def sorts(self):
        ks = one(self.k)
        head = [z3.ArraySort(ks, B)] + ([z3.ArraySort(I, ks)] if self.ordered else [])
        return head + [z3.ArraySort(ks, s) for s in self.v.sorts()]

    def __eq__(self, o):
        return isinstance(o, TDict) and self.k == o.k and self.v == o.v

    __hash__ = T.__hash__

    def __repr__(self):
        return f"TDict({self.k},{self.v})"


class TArr(T):
    """heap array of one field of a shareable class: reference -> field value"""

    def __init__(self, v):
        self.v = v

    def sorts(self):
        return [z3.ArraySort(U, s) for s in self.v.sorts()]

    def __repr__(self):
        return f"TArr({self.v})"


class TList(T):
    """length, one array per element leaf, and for single-U elements the ghost multiset of contents"""

    mutable = True

    def __init__(self, e):
        self.e = e

    @property
    def has_mem(self):
        s = self.e.sorts()
        return len(s) == 1 and s[0] == U

    def sorts(self):
        es = self.e.sorts()
        return [I] + [z3.ArraySort(I, s) for s in es] + ([z3.ArraySort(U, I)] if self.has_mem else [])

    def __repr__(self):
        return f"TList({self.e})"


class TSeq(TList):
    """Immutable tuple of unknown length."""

    mutable = False

    def __repr__(self):
        return f"TSeq({self.e})"


class TRaw(T):
    """Ghost/model component: a raw z3 term of a given sort."""

    def __init__(self, sort):
        self.sort = sort

    def sorts(self):
        return [self.sort]

    def __repr__(self):
        return f"TRaw({self.sort})"


BYTES = TU("bytes")
ANY = TU("any")


# -------------------------------------------------------------------------------------------------------------- values
class Sym:
    pass


class SInt(Sym):
    def __init__(self, z):
        self.z = z


class SBool(Sym):
    def __init__(self, z):
        self.z = z


class SReal(Sym):
    def __init__(self, z):
        self.z = z


class SStr(Sym):
    def __init__(self, z):
        self.z = z


class SU(Sym):
    def __init__(self, z, ty):
        self.z = z
        self.ty = ty  # TU / TRef / TEnum / TOpt of those

    def __repr__(self):
        return f"SU({self.z},{self.ty})"


class SRaw(Sym):
    def __init__(self, z):
        self.z = z


class Rec:
    """value record"""

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields  # ordered dict name -> value

    def __repr__(self):
        return f"Rec({self.cls},{self.fields})"


class EnumV:
    """a concrete enumeration member"""

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, EnumV) and (self.cls, self.name) == (o.cls, o.name)

    def __hash__(self):
        return hash((self.cls, self.name))

    def __repr__(self):
        return f"{self.cls}.{self.name}"


class Box:
    """reference to a mutable container or owned object: a root key of the heap and a path of steps into it"""

    __slots__ = ("root", "steps", "frozen", "__weakref__")

    def __init__(self, root, steps=()):
        self.root = root
        self.steps = tuple(steps)
        self.frozen = False

    def __repr__(self):
        return f"Box({self.root},{self.steps})"


class Snap:
    """immutable snapshot of a container"""

    def __init__(self, ty, leaves):
        self.ty, self.leaves = ty, leaves

    def __repr__(self):
        return f"Snap({self.ty})"


class Obj:
    """root object"""

    def __init__(self, cls, root):
        self.cls = cls
        self.root = root

    def __repr__(self):
        return f"Obj({self.cls},{self.root})"


class ClassV:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node

    def __repr__(self):
        return f"<class {self.name}>"


class FuncV:
    def __init__(self, node, module, cls=None, closure=None, name=None):
        self.node, self.module, self.cls, self.closure = node, module, cls, closure
        self.name = name or getattr(node, "name", "<lambda>")

    @property
    def qual(self):
        return f"{self.cls.name}.{self.name}" if self.cls else self.name


class BoundM:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class BuiltinF:
    def __init__(self, name, fn, star=False):
        self.name, self.fn, self.star = name, fn, star  # star: takes *args and **kwargs of unknown size, as StarArg and kwargs["**"]

    def __repr__(self):
        return f"<builtin {self.name}>"


class CoroV:
    def __init__(self, thunk):
        self.thunk = thunk


class ModuleV:
    def __init__(self, name):
        self.name = name


class View:
    """dict.keys()/values()/items() view, zip/enumerate/range/iterators: anything iterable described lazily"""

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args


class Undefined:
    pass


UNDEF = Undefined()

_lits: dict = {}


def lit(kind, value):
    key = (kind, value)
    if key not in _lits:
        _lits[key] = (z3.Const("lit!" + "".join(ch if ch.isalnum() or ch in "_.!" else f"${ord(ch)}" for ch in f"{kind}!{value!r}"), U), len(_lits) + 1)
    return _lits[key]


def is_true(z):
    return z3.is_true(z)


def is_false(z):
    return z3.is_false(z)


def conj(xs):
    xs = [x for x in xs if not is_true(x)]
    return z3.BoolVal(True) if not xs else (xs[0] if len(xs) == 1 else z3.And(*xs))


def disj(xs):
    xs = [x for x in xs if not is_false(x)]
    return z3.BoolVal(False) if not xs else (xs[0] if len(xs) == 1 else z3.Or(*xs))


def empty_set(sort):
    return z3.K(sort, z3.BoolVal(False))


_qc = itertools.count()


_NOPAT = (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES)


def pattern_ok(p):
    """a quantifier pattern must not contain connectives"""
    if isinstance(p, z3.PatternRef):
        return True
    todo, seen = [p], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() in _NOPAT:
            return False
        todo += t.children()
    return True


def forall(sorts, fn, patterns=None):
    """forall over fresh bound variables; fn receives them"""
    if not isinstance(sorts, (list, tuple)):
        sorts = [sorts]
    n = next(_qc)
    vs = [z3.Const(f"q{n}_{i}", s) for i, s in enumerate(sorts)]
    body = fn(*vs)
    if isinstance(body, bool):
        body = z3.BoolVal(body)
    if is_true(body):
        return body
    if patterns is not None:
        ps = [p for p in patterns(*vs) if pattern_ok(p)]
        try:
            return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


def exists(sorts, fn):
    if not isinstance(sorts, (list, tuple)):
        sorts = [sorts]
    n = next(_qc)
    vs = [z3.Const(f"e{n}_{i}", s) for i, s in enumerate(sorts)]
    return z3.Exists(vs, fn(*vs))


def sel(a, i):
    return z3.simplify(z3.Select(a, i)) if z3.is_K(a) else z3.Select(a, i)


_subset_cache: dict = {}


def consts_of(t, acc=None, seen=None):
    """uninterpreted constants occurring in a term"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            stack.extend(x.children())
    return acc


# ------------------------------------------------------------------------------------------------------------- context
class Obligation:
    def __init__(self, name, ok, backend, secs, status, detail="", model=None):
        self.name, self.ok, self.backend, self.secs, self.status = name, ok, backend, secs, status
        self.detail, self.model = detail, model


class LoopInfo:
    def __init__(self):
        self.mods = set()
        self.local_mods = set()
        self.cands = None
        self.dropped = set()
        self.extra = []


z3.set_param("memory_max_size", 3500)     # megabytes; reaching it is an unknown answer


def checked(s, *fs, ms=60000):
    """one solver call; running out of time or memory is an unknown answer"""
    s.set("timeout", ms)
    try:
        return s.check(*fs)
    except z3.Z3Exception as e:
        if "canceled" in str(e) or "memory" in str(e) or "max" in str(e):
            return z3.unknown
        raise


class Explorer:
    """Explores every path of one verification unit."""

    RL_FEAS = 400_000
    SEED = 0
    retries = 0
    RL_PROVE = 4_000_000
    MAX_PATHS = 4000

    def __init__(self, name, max_secs=600):
        self.name = name
        self.obligations = []
        self.loops: dict = {}
        self.failed = []
        self.assumed = set()
        self.feas_checks = 0
        self.paths = 0
        self.covered = 0
        self.t_end = time.time() + max_secs
        self.solver_s = 0.0
        self.unroll = None
        self.debug = False
        self.cov = set()
        self.cases_all = set()
        self.keep = None        # which obligations are wanted (the others are used as lemmas when they hold)
        self.max_failed = 6     # a unit is given up after so many failed obligations (they are reported)
        self.stopped = False
        self.on_fail = None

    def record(self, ob):
        self.obligations.append(ob)
        if not ob.ok:
            self.failed.append(ob)
            if self.on_fail is not None:
                self.on_fail(ob)

    def run(self, body):
        for _ in range(200):
            self.obligations = []
            self.failed = []
            self.paths = 0
            self.covered = 0
            try:
                self._run_once(body)
                return
            except Restart:
                if self.on_fail is not None:
                    self.on_fail(None)      # what was reported so far belonged to a run with other loop invariants
                continue
        raise Unsupported("loop inference did not converge")

    def _run_once(self, body):
        work = [[]]
        while work:
            if time.time() > self.t_end:
                raise Unsupported("time budget of the unit exhausted")
            tr = work.pop()
            self.paths += 1
            if self.paths > self.MAX_PATHS:
                raise Unsupported("too many paths")
            ctx = Ctx(self, tr, work)
            try:
                body(ctx)
                self.covered += 1
            except PathEnd:
                pass
            if sum(not o.ok for o in self.obligations) >= self.max_failed:
                self.stopped = True
                return


class Ctx:
    def __init__(self, ex, trace, work):
        self.ex = ex
        self.trace = list(trace)
        self.work = work
        self.idx = 0
        self.solver = z3.Solver()
        if ex.SEED:
            self.solver.set("random_seed", ex.SEED)
        self.solver.set("mbqi", False)
        self.solver.set("auto_config", False)
        self.pc = []
        self.heap = {}
        self.n = 0
        self.known_lits = set()
        self.subs = []
        self.wrappers = []      # live alias boxes (DictLoc/ListLoc)
        self.log = None
        self.lit_axioms = []
        self.hooks = {}
        self.ktype = {}
        self.pre = {}
        self.assume(self.litfact(("None", None)))

    # -- assumptions / branching
    def litfact(self, key):
        if key == ("None", None):
            return LITCODE(NONE) == 0
        c, k = lit(*key)
        return LITCODE(c) == k

    def litu(self, kind, value):
        c, k = lit(kind, value)
        if (kind, value) not in self.known_lits:
            self.known_lits.add((kind, value))
            f = LITCODE(c) == k
            self.lit_axioms.append(f)
            if kind == "b":
                self.lit_axioms.append(BLEN(c) == len(value))
                f = z3.And(f, BLEN(c) == len(value))
            self.assume(f)
        return c

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if is_true(f):
            return
        self.solver.add(f)
        if self.subs:
            self.subs[-1]["facts"].append(f)
        else:
            self.pc.append(f)

    def fresh_zone(self):
        return self.idx >= len(self.trace)

    def _check(self, *fs, rl=None):
        self.ex.feas_checks += 1
        self.solver.set("rlimit", rl or self.ex.RL_FEAS)
        t = time.time()
        r = checked(self.solver, *fs)
        self.ex.solver_s += time.time() - t
        return r

    def feasible(self, f):
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if is_true(f):
            return True
        if is_false(f):
            return False
        return self._check(f) != z3.unsat

    def decide(self, cond, what=""):
        """branch on a z3 Bool"""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if is_true(c):
            return True
        if is_false(c):
            return False
        if self.subs:
            sub = self.subs[-1]
            if sub["i"] < len(sub["trace"]):
                v = sub["trace"][sub["i"]]
            else:
                ft = self.feasible(cond)
                ff = self.feasible(z3.Not(cond))
                if not ft and not ff:
                    raise PathEnd()
                v = ft
                if ft and ff:
                    sub["work"].append(sub["trace"][: sub["i"]] + [False])
                sub["trace"] = sub["trace"][: sub["i"]] + [v]
            sub["i"] += 1
            f = cond if v else z3.Not(cond)
            sub["conds"].append(f)
            self.solver.add(f)
            return v
        if self.idx < len(self.trace):
            v = self.trace[self.idx]
        else:
            ft = self.feasible(cond)
            ff = self.feasible(z3.Not(cond))
            if not ft and not ff:
                raise PathEnd()
            v = ft
            if ft and ff:
                self.work.append(self.trace + [False])
            self.trace.append(v)
        self.idx += 1
        self.assume(cond if v else z3.Not(cond))
        return v

    def choose(self, n, what=""):
        """demonic choice"""
        if self.subs:
            raise EffectInComp("choice in comprehension")
        if self.idx < len(self.trace):
            v = self.trace[self.idx]
        else:
            for k in range(n - 1, 0, -1):
                self.work.append(self.trace + [k])
            v = 0
            self.trace.append(v)
        self.idx += 1
        return v

    # -- proving
    def valid(self, f, rl=None):
        """quiet validity check under the current path (used for invariant candidates)"""
        if isinstance(f, bool):
            return f
        pass
        if is_true(f):
            return True
        return self._check(z3.Not(f), rl=rl or self.ex.RL_PROVE) == z3.unsat

    def prove(self, name, f, detail=""):
        """an obligation: the formula must follow from the path condition"""
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if not self.fresh_zone() and not self.subs:
            self.assume(f)
            return True
        if self.ex.keep is not None and not self.ex.keep(name):
            # an obligation of another property: a lemma here if it holds
            if self.valid(f):
                self.assume(f)
                return True
            return False
        t0 = time.time()
        ob = self._prove(name, f, detail)
        ob.secs = time.time() - t0
        self.ex.record(ob)
        self.assume(f)
        return ob.ok

    def prove_all(self, obs):
        """several obligations at once: one query when all hold, one query each otherwise"""
        obs = [(n, z3.BoolVal(f) if isinstance(f, bool) else f) for n, f in obs]
        if self.ex.keep is not None:
            other = [(n, f) for n, f in obs if not self.ex.keep(n)]
            obs = [(n, f) for n, f in obs if self.ex.keep(n)]
            for n, f in (other if not obs else []):
                self.prove(n, f)
        hard = [(n, f) for n, f in obs if not is_true(z3.simplify(f))]
        if len(hard) > 1 and self.fresh_zone() and not self.subs:
            t0 = time.time()
            if self._check(z3.Not(z3.And(*[f for _, f in hard])), rl=self.ex.RL_PROVE) == z3.unsat:
                dt = (time.time() - t0) / len(obs)
                hs = {n for n, _ in hard}
                self.ex.obligations += [Obligation(n, True, "z3" if n in hs else "simplifier", dt, "unsat") for n, _ in obs]
                self.assume(z3.And(*[f for _, f in hard]))
                return
        for n, f in obs:
            self.prove(n, f)

    def unknown_part(self, f):
        """f without the conjuncts that are assumptions word for word (up to the names of bound variables)"""
        have = set()
        for a in self.solver.assertions():
            for c in (a.children() if z3.is_and(a) else (a,)):
                have.add(c.get_id())
                if z3.is_quantifier(c) and c.is_forall():
                    have.add(("q", c.body().get_id(), tuple(c.var_sort(i).get_id() for i in range(c.num_vars()))))

        def go(f):
            if z3.is_and(f):
                ps = [p for c in f.children() for p in go(c)]
                return ps
            if f.get_id() in have or z3.is_quantifier(f) and f.is_forall() and ("q", f.body().get_id(), tuple(f.var_sort(i).get_id() for i in range(f.num_vars()))) in have:
                return []
            return [f]
        ps = go(f)
        return f if z3.is_and(f) and len(ps) == f.num_args() else z3.And(*ps) if len(ps) > 1 else ps[0] if ps else z3.BoolVal(True)

    def anew(self, f, rl, seed=0):
        d = z3.Solver()
        d.add(*self.solver.assertions(), z3.Not(f))
        n = z3.Solver(ctx=z3.Context())
        n.from_string(d.to_smt2())
        if seed or self.ex.SEED:
            n.set("random_seed", seed or self.ex.SEED)
        n.set("rlimit", rl)
        t = time.time()
        r = checked(n, ms=60000)
        self.ex.solver_s += time.time() - t
        return r

    def _prove(self, name, f, detail):
        if is_true(z3.simplify(f)):
            return Obligation(name, True, "simplifier", 0, "unsat", detail)
        f = self.unknown_part(f)
        r = self._check(z3.Not(f), rl=self.ex.RL_PROVE)
        if r == z3.unsat:
            return Obligation(name, True, "z3", 0, "unsat", detail)
        if len(self.ex.failed) >= 3:
            # the verdict is settled; spend no more on the rest
            return Obligation(name, False, "z3", 0, str(r), detail)
        # second chance: the parts of a conjunction one by one
        if z3.is_and(f) and f.num_args() > 1 and r == z3.unknown:
            parts = [self._prove(name, a, detail) for a in f.children()]
            if all(p.ok for p in parts):
                return Obligation(name, True, parts[-1].backend if hasattr(parts[-1], "backend") else "z3", 0, "unsat", detail)
            bad = [p for p in parts if not p.ok]
            return bad[0]
        # third chance: fresh solver with model-based instantiation
        if os.environ.get("VC_DUMP"):
            self.ex.dumped = getattr(self.ex, "dumped", 0) + 1
            d = z3.Solver()
            d.add(*self.solver.assertions(), z3.Not(f))
            open(f"{os.environ['VC_DUMP']}.{self.ex.dumped}.smt2", "w").write(d.to_smt2())
        # the same query read anew from its text: the answer no longer depends on what this process did before
        if self.anew(f, self.ex.RL_PROVE) == z3.unsat:
            return Obligation(name, True, "z3-text", 0, "unsat", detail)
        s = z3.Solver()
        s.set("rlimit", self.ex.RL_PROVE * 2)
        for a in self.solver.assertions():
            s.add(a)
        s.add(z3.Not(f))
        t = time.time()
        r = checked(s, ms=120000)
        self.ex.solver_s += time.time() - t
        if r == z3.unsat:
            return Obligation(name, True, "z3-mbqi", 0, "unsat", detail)
        if r != z3.sat:
            # same query, other search orders
            for seed in (0, 11, 23):
                s2 = z3.Solver()
                s2.set("mbqi", False)
                s2.set("auto_config", False)
                s2.set("random_seed", seed)
                s2.set("rlimit", self.ex.RL_PROVE * (1 if self.ex.retries > 40 else 3))
                for a in self.solver.assertions():
                    s2.add(a)
                s2.add(z3.Not(f))
                t = time.time()
                r2 = checked(s2, ms=60000)
                self.ex.solver_s += time.time() - t
                if r2 == z3.unsat:
                    return Obligation(name, True, "z3", 0, "unsat", detail)
                if r2 == z3.sat:
                    break
            self.ex.retries += 1
        model = None
        if r == z3.sat:
            model = s.model()
            return Obligation(name, False, "z3", 0, "sat", detail, model=str(model)[:6000])
        if self.ex.use_cvc5:
            rc = cvc5_check(s)
            if rc == "unsat":
                return Obligation(name, True, "cvc5", 0, "unsat", detail)
        return Obligation(name, False, "z3", 0, "unknown", detail + " reason: " + s.reason_unknown())

    def fail(self, name, detail=""):
        """an obligation that is false outright on this path"""
        if not self.fresh_zone() and not self.subs:
            return
        if self.ex.keep is not None and not self.ex.keep(name):
            return
        ob = self._prove(name, z3.BoolVal(False), detail)
        ob.name = name
        self.ex.record(ob)

    # -- fresh symbols
    def fresh(self, hint, sort):
        self.n += 1
        return z3.Const(f"{hint}!{self.n}", sort)

    def fresh_leaves(self, hint, ty):
        ss = ty.sorts()
        return [self.fresh(f"{hint}" if len(ss) == 1 else f"{hint}.{i}", s) for i, s in enumerate(ss)]

    # -- sub exploration (comprehension bodies)
    def sub_explore(self, fn):
        """run fn for a generic element on all its paths; no lasting effect allowed. -> [(conds, facts, kind, value)]"""
        out = []
        work = [[]]
        n0 = self.n
        while work:
            tr = work.pop()
            need = None
            self.solver.push()
            heap0 = dict(self.heap)
            sub = {"trace": tr, "i": 0, "work": work, "conds": [], "facts": [], "n0": n0}
            self.subs.append(sub)
            nw = len(self.wrappers)
            kl = set(self.known_lits)
            try:
                try:
                    v = fn()
                    res = ("ok", v)
                except PyRaise as e:
                    res = ("raise", e)
                except PathEnd:
                    res = None
                except NeedCell as e:
                    if len(self.subs) > 1:
                        raise
                    need, res = e, None
                if res is not None:
                    changed = [k for k in self.heap if k not in heap0 or not same_val(self.heap[k], heap0[k])]
                    changed = [k for k in changed if not (k[0] == "own" and k not in heap0)]
                    if changed:
                        raise EffectInComp(str(changed))
                    out.append((sub["conds"], sub["facts"], res[0], res[1], dict(self.heap)))
            finally:
                self.subs.pop()
                self.solver.pop()
                heap1 = self.heap
                self.heap = heap0
                # keep containers created in the body readable (they are only reachable from the result)
                for k in heap1:
                    if k[0] == "own" and k not in heap0:
                        self.heap[k] = heap1[k]
                self.known_lits = kl
                del self.wrappers[nw:]
            if need is not None:
                need.make()
                out, work = [], [[]]
                continue
            if len(out) > 64:
                raise Unsupported("too many paths in comprehension body")
        return out


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, (SInt, SBool, SReal, SStr, SU, SRaw)) and type(a) is type(b):
        return a.z.eq(b.z)
    if isinstance(a, (int, str, bytes, bool, float, type(None), EnumV)) and type(a) is type(b):
        return a == b
    if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls:
        return all(same_val(a.fields[k], b.fields[k]) for k in a.fields)
    return False


Explorer.use_cvc5 = True


def cvc5_check(s, secs=15):
    """second back end: the same assertions through SMT-LIB text"""
    import os
    import subprocess
    import tempfile
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-logic", ";(set-logic")
    fd, path = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={secs*1000}", path], capture_output=True, text=True,
                               timeout=secs + 10)
        except Exception:
            return "unknown"
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    finally:
        os.unlink(path)
