"""Contracts: behavioural cases over model state, used both at call sites and to check implementations."""
from __future__ import annotations
import time
import traceback

from .core import *
from .program import Program, ClassInfo
from .interp import Interp, World, Frame, TUnk, Iter, CARD, Opaque, Event, Repeat, Poison, ExcV, ReturnEx


class Case:
    """guard -> raises / result / updates of model fields; facts may constrain fresh symbols used in updates and result"""

    def __init__(self, guard=True, raises=None, result=None, upd=None, facts=(), name="", suspend=False, events=None, choose=None, check=None):
        self.check = check      # fn(it, result) -> formula: what the implementation's result must satisfy, instead of equality with `result`
        self.choose = choose    # (fresh constant, pick(it, result), allowed(z)): the implementation may pick any allowed value
        self.guard, self.raises, self.result, self.upd, self.facts, self.name = guard, raises, result, upd or {}, facts, name
        self.suspend, self.events = suspend, events


class MS:
    """model state: attribute access to the leaves of each model field"""

    def __init__(self, fields, leaves):
        k = 0
        self._f = fields
        for n, t in fields:
            m = len(t.sorts())
            setattr(self, n, leaves[k] if m == 1 else tuple(leaves[k:k + m]))
            k += m

    def leaves(self):
        out = []
        for n, t in self._f:
            v = getattr(self, n)
            out += list(v) if isinstance(v, tuple) else [v]
        return out

    def updated(self, upd):
        m = MS(self._f, self.leaves())
        for k, v in upd.items():
            setattr(m, k, v)
        return m


class Op:
    def __init__(self, name, params, cases, is_async=False, pre=None, mkargs=None):
        self.name, self.params, self.cases, self.is_async = name, params, cases, is_async
        self.pre = pre          # fn(it, m, *leaves) -> [(name, formula)]: proved at call sites, assumed for the implementation
        self.mkargs = mkargs    # fn(it, values) -> argument values handed to the implementation


def run_cases(it, cases):
    """the case that applies (branches on guards)"""
    for i, c in enumerate(cases):
        g = c.guard
        if i == len(cases) - 1 and g is True:
            return c
        if it.ctx.decide(g):
            return c
    raise PathEnd()


class AbsSpec:
    """abstract view of a class: model fields, invariant and operations"""

    def __init__(self, cls, fields, ops, inv=None, init=None, iters=None, eqs=None):
        self.eqs = eqs or (lambda it, g, e: [(n, conj([a == b for a, b in zip(as_list(getattr(g, n)), as_list(getattr(e, n)))])) for n, _ in fields])
        self.cls, self.fields, self.ops, self.inv, self.init = cls, fields, {o.name: o for o in ops}, inv, init
        self.iters = iters or {}
        self._seen = {}

    def construct(self, it, args, kwargs):
        ls = self.init(it, *args, **kwargs)
        return it.new_root(TAbs(self.cls, self.fields), ls)

    def ms(self, it, box):
        ls = list(it.read(box)) if isinstance(box, Box) else list(box.leaves)
        m = MS(self.fields, ls)
        if self.inv:
            key = ("inv", self.cls) + tuple(l.get_id() for l in ls)
            if it.ctx.subs or key not in it.cardseen:
                if not it.ctx.subs:
                    it.cardseen.add(key)
                for f in self.inv(it, m):
                    it.ctx.assume(f)
        return m

    def call(self, it, box, name, args, kwargs):
        if name not in self.ops:
            raise Unsupported(f"{self.cls}.{name} has no contract")
        op = self.ops[name]
        if op.is_async:
            return CoroV(lambda: self.apply(it, box, op, args, kwargs))
        return self.apply(it, box, op, args, kwargs)

    def bindargs(self, it, op, args, kwargs):
        vals = list(args)
        for n, t in op.params[len(args):]:
            if n in kwargs:
                vals.append(kwargs[n])
            else:
                raise PyRaise("TypeError", (f"missing {n}",))
        if len(vals) != len(op.params):
            raise PyRaise("TypeError", ("arguments",))
        return vals

    def apply(self, it, box, op, args, kwargs):
        vals = self.bindargs(it, op, args, kwargs)
        m = self.ms(it, box)
        ls = [it.to_leaves(v, t) if t is not None else v for v, (n, t) in zip(vals, op.params)]
        ls = [l[0] if isinstance(l, list) and len(l) == 1 else l for l in ls]
        for nm, f in (op.pre(it, m, *ls) if op.pre else []):
            it.ctx.prove(f"precondition of {self.cls}.{op.name}: {nm}", f)
        c = run_cases(it, op.cases(it, m, *ls))
        if c.suspend:
            if it.w.on_suspend is None:
                raise PathEnd()
            it.w.on_suspend(it, f"{self.cls}.{op.name}")
            m = self.ms(it, box)
            c = run_cases(it, op.cases(it, m, *ls))
            if c.suspend:
                raise PathEnd()
        for f in c.facts:
            it.ctx.assume(f)
        if c.raises:
            raise PyRaise(c.raises, (), where=f"{self.cls}.{op.name}")
        if c.upd:
            n = m.updated(c.upd)
            it.write(box, n.leaves())
            if self.inv:
                self.ms(it, box)
        r = c.result
        return r(it) if callable(r) else r

    def iter(self, it, box, kind):
        if kind not in self.iters:
            raise Unsupported(f"iteration over {self.cls}.{kind}")
        return self.iters[kind](it, self.ms(it, box), box)


# ----------------------------------------------------------------------------------------------- comparing values
def val_eq(it, got, exp):
    """z3 formula: the returned value equals the expected one (by value; containers by contents)"""
    if isinstance(got, View) and isinstance(exp, View) and got.kind == exp.kind and got.kind in ("keys", "values", "items"):
        return val_eq(it, got.args[0], exp.args[0])
    if isinstance(got, View) and got.kind == "keys":
        return val_eq(it, it.lib.c_set(it, [got], {}), exp)
    if isinstance(exp, (Box, Snap)) or isinstance(got, (Box, Snap)):
        if not (isinstance(exp, (Box, Snap)) and isinstance(got, (Box, Snap))):
            return z3.BoolVal(False)
        te, le = it.leaves_of(exp)
        tg, lg = it.leaves_of(got)
        return cont_eq(it, tg, lg, te, le)
    if isinstance(exp, tuple) and isinstance(got, tuple):
        return conj([val_eq(it, a, b) for a, b in zip(got, exp)]) if len(exp) == len(got) else z3.BoolVal(False)
    if isinstance(exp, Rec) and isinstance(got, Rec):
        if exp.cls != got.cls:
            return z3.BoolVal(False)
        return conj([val_eq(it, got.fields[k], exp.fields[k]) for k in exp.fields])
    if isinstance(exp, Obj) and isinstance(got, Obj):
        return z3.BoolVal(exp.root == got.root)
    if exp is None or got is None:
        e = it.is_(got, exp)
    else:
        e = it.lib.eq(it, got, exp)
    return z3.BoolVal(e) if isinstance(e, bool) else e


def arr_ext(a, b):
    """extensional equality of possibly nested arrays, stated as array equality"""
    return a == b


def cont_eq(it, tg, lg, te, le):
    if isinstance(tg, TUnk) and isinstance(te, TUnk):
        return z3.BoolVal(True)
    if isinstance(tg, TUnk):
        tg, lg = te, it.empty_leaves(te)
    if isinstance(te, TUnk):
        te, le = tg, it.empty_leaves(tg)
    if isinstance(tg, TSet) and isinstance(te, TSet):
        return lg[0] == le[0]
    if isinstance(tg, TDict) and isinstance(te, TDict):
        ks = lg[0].sort().domain()
        fs = [lg[0] == le[0]]
        for a, b in zip(lg[tg.nhead:], le[te.nhead:]):
            fs.append(forall(ks, lambda k: z3.Implies(z3.Select(lg[0], k), z3.Select(a, k) == z3.Select(b, k))))
        if tg.ordered and te.ordered:
            fs.append(forall(I, lambda i: z3.Implies(z3.And(0 <= i, i < CARD(lg[0])), z3.Select(lg[1], i) == z3.Select(le[1], i))))
        return conj(fs)
    if isinstance(tg, TList) and isinstance(te, TList):
        n = len(te.e.sorts())
        if tg.e.sorts() != te.e.sorts():
            return z3.BoolVal(False)
        fs = [lg[0] == le[0]]
        for a, b in zip(lg[1:1 + n], le[1:1 + n]):
            fs.append(forall(I, lambda i: z3.Implies(z3.And(0 <= i, i < lg[0]), z3.Select(a, i) == z3.Select(b, i))))
        return conj(fs)
    return z3.BoolVal(False)


# ----------------------------------------------------------------------------------------------- verification units
class Unit:
    """one function under contract: body(ctx) explores it and proves its obligations"""

    def __init__(self, name, body, functions=(), max_secs=300):
        self.name, self.body, self.functions, self.max_secs = name, body, list(functions), max_secs


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.obs = []
        self.error = None
        self.paths = self.covered = 0
        self.secs = self.solver_s = 0.0
        self.assumed = set()
        self.cov = set()
        self.functions = []


def ob_tuple(o):
    return (o.name, o.ok, o.backend, o.secs, o.status, o.detail, o.model)


def run_unit(u, debug=False, on_fail=None, on_restart=None):
    ex = Explorer(u.name, u.max_secs)
    ex.debug = debug
    ex.keep = getattr(u, 'keep', None)
    ex.on_fail = (lambda o: on_fail(ob_tuple(o) if o is not None else None)) if on_fail else None
    r = UnitResult(u.name)
    r.functions = u.functions
    t0 = time.time()
    try:
        ex.run(u.body)
    except Unsupported as e:
        r.error = f"outside the verifier's subset: {e}"
        if debug:
            traceback.print_exc()
    except RecursionError as e:
        r.error = f"verifier recursion: {e}"
    except Exception as e:
        r.error = f"verifier error: {type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
        if debug:
            traceback.print_exc()
    r.obs = [ob_tuple(o) for o in ex.obligations]
    r.paths, r.covered, r.assumed, r.cov = ex.paths, ex.covered, set(ex.assumed), set(ex.cov)
    r.secs, r.solver_s = time.time() - t0, ex.solver_s
    if r.error is None and not r.obs:
        r.error = "no obligation generated (vacuous)"
    if r.error is None and not ex.stopped and ex.cases_all - ex.cov:
        r.error = f"cases of the contract never reached (vacuous): {sorted(ex.cases_all - ex.cov)}"
    if r.error is None and not ex.stopped and not r.covered:
        r.error = "no path reaches the end of the function (vacuous)"
    return r


def class_units(prog, spec, module, clsname, world_fn, absf, rep, init_args=None, only=None, setup=None):
    """units checking the implementation of every operation of an abstract class against its cases"""
    out = []

    def mk(op):
        def body(ctx):
            w = world_fn(prog)
            it = Interp(ctx, w)
            ci = prog.cls(module, clsname)
            it.reg(ci)
            me = Obj(ci, "self")
            it.frames.append(Frame(FuncV(None, module)))
            if setup:
                setup(it, me)
            for f in rep(it, me):
                ctx.assume(f)
            m0 = MS(spec.fields, absf(it, me))
            for f in (spec.inv(it, m0) if spec.inv else []):
                ctx.prove(f"{clsname}: representation invariant implies the model invariant", f)
            args, ls = [], []
            for n, t in op.params:
                v = it.fresh_value("arg_" + n, t)
                args.append(v)
                l = it.to_leaves(v, t)
                ls.append(l[0] if len(l) == 1 else l)
            for nm, f in (op.pre(it, m0, *ls) if op.pre else []):
                ctx.assume(f)
            if op.mkargs:
                args = op.mkargs(it, args)
            cases = op.cases(it, m0, *ls)
            ctx.ex.cases_all |= {f"{op.name}/{x.name or f'case{j}'}" for j, x in enumerate(cases)}
            c = run_cases(it, cases)
            cname = c.name or f"case{cases.index(c)}"
            exc = None
            res = None
            if c.suspend:
                # the operation must wait: reaching the wait ends the path, anything else is a violation
                def waits(it2, why):
                    ctx.ex.cov.add(f"{op.name}/{cname}")
                    ctx.prove(f"{clsname}.{op.name} [{cname}]: waits", True)
                    raise PathEnd()
                w.on_suspend = waits
            for f in c.facts:
                pass
            try:
                res = it.run_method(me, op.name, args)
            except PyRaise as e:
                exc = e
            nm = f"{clsname}.{op.name} [{cname}]"
            ctx.ex.cov.add(f"{op.name}/{cname}")
            if c.suspend:
                ctx.fail(f"{nm}: must wait but returned")
                return
            if c.raises:
                if exc is None:
                    ctx.fail(f"{nm}: must raise {c.raises} but returned")
                    return
                from .interp import exc_sub
                if not any(exc_sub(exc.cls, x) for x in (c.raises if isinstance(c.raises, tuple) else (c.raises,))):
                    ctx.fail(f"{nm}: must raise {c.raises} but raised {exc.cls}")
                    return
            elif exc is not None:
                ctx.fail(f"{nm}: raised {exc.cls} {exc.where}", str(exc.eargs))
                return
            if c.choose:
                z = c.choose[1](it, res)
                if z is None:
                    ctx.fail(f"{nm}: result has the wrong shape")
                    return
                ctx.prove(f"{nm}: the result is an allowed choice", c.choose[2](z))
                ctx.assume(c.choose[0] == z)
            if not c.raises:
                exp = c.result(it) if callable(c.result) else c.result
                if c.check:
                    ctx.prove(f"{nm}: result", c.check(it, res))
                elif exp is not ANYRESULT:
                    ctx.prove(f"{nm}: result", val_eq(it, res, exp))
            m1 = m0.updated(c.upd)
            for n, f in spec.eqs(it, MS(spec.fields, absf(it, me)), m1):
                ctx.prove(f"{nm}: {n} after the call", f)
            for j, f in enumerate(rep(it, me)):
                ctx.prove(f"{nm}: representation invariant {j}", f)
        return Unit(f"{clsname}.{op.name}", body, [f"{module}:{clsname}.{op.name}"])

    for op in spec.ops.values():
        if only is None or op.name in only:
            out.append(mk(op))

    def ibody(ctx):
        w = world_fn(prog)
        it = Interp(ctx, w)
        it.frames.append(Frame(FuncV(None, module)))
        ci = prog.cls(module, clsname)
        it.reg(ci)
        me = it.construct(ci, init_args(it) if init_args else [], {})
        for n, f in spec.eqs(it, MS(spec.fields, absf(it, me)), MS(spec.fields, spec.init(it))):
            ctx.prove(f"{clsname}(): {n} initially", f)
        for j, f in enumerate(rep(it, me)):
            ctx.prove(f"{clsname}(): representation invariant {j}", f)
    if spec.init:
        out.append(Unit(f"{clsname}.__init__", ibody, [f"{module}:{clsname}.__init__"]))
    return out


def as_list(x):
    return list(x) if isinstance(x, tuple) else [x]


class _Any:
    pass


ANYRESULT = _Any()
