"""Entry points of a component (a class, or classes verified together): every path from any state satisfying the invariant."""
import copy
from vc.core import *
from vc.interp import Interp, Frame, Repeat
from vc.spec import *
from specs.sched import Out
from vc.ev import match_events


def by_chan(evs, ch):
    """the events on one channel"""
    out = []
    for e in evs:
        if isinstance(e, Repeat):
            c = copy.copy(e)
            c.alts = [(f, by_chan(x, ch)) for f, x in (e.alts or [])]
            out.append(c)
        elif e.chan == ch:
            out.append(e)
    return out


class Comp:
    """state(it) -> model state read off the heap; parts: {name: fn(it, s, e) -> [(name, formula)]}; inv(it, s) -> [(name, formula)]"""

    def __init__(self, world, classes, state, parts, inv, chans):
        self.world, self.classes, self.state, self.parts, self.inv, self.chans = world, classes, state, parts, inv, chans

    def start(self, ctx, prog, cls):
        w = self.world(prog)
        it = Interp(ctx, w)
        for c, (mod, root) in self.classes.items():
            it.reg(w.root_classes[root])
        it.frames.append(Frame(FuncV(None, self.classes[cls][0])))
        return w, it, Obj(w.root_classes[self.classes[cls][1]], self.classes[cls][1])

    def arbitrary(self, it):
        s = self.state(it)
        for n, f in self.inv(it, s):
            it.ctx.assume(f)
        return s

    def later(self, it, roots):
        """other handlers run meanwhile: any state satisfying the invariant"""
        for key in list(it.ctx.heap):
            if key[0] == "rf" and key[1] in roots:
                it.ctx.heap[key] = tuple(it.ctx.fresh("later", l.sort()) for l in it.ctx.heap[key])
                it.wf(it.ctx.ktype[key], it.ctx.heap[key])
        return self.arbitrary(it)

    def same(self, it, s, e, but=()):
        return [x for p, f in self.parts.items() if p not in but for x in f(it, s, e)]

    def events(self, it):
        return [e for e in it.log if isinstance(e, Repeat) or e.chan in self.chans]

    def entry(self, prog, name, cls, method, params, cases, pre=None, functions=(), before=None, call=None):
        def body(ctx):
            w, it, obj = self.start(ctx, prog, cls)
            if before:
                obj = before(it, w, obj) or obj
            s0 = self.arbitrary(it)
            args = [it.fresh_value("arg_" + n, it.class_type(it.find_class(t)) if isinstance(t, str) else t) for n, t in params]
            for f in (pre(it, s0, *args) if pre else []):
                ctx.assume(f)
            outs = cases(it, s0, *args)
            ctx.ex.cases_all |= {f"{name}/{o.name}" for o in outs}
            o = run_cases(it, outs)
            nm = f"{name} [{o.name}]"
            if o.waits:
                def waits(it2, why):
                    ctx.ex.cov.add(f"{name}/{o.name}")
                    for n, f in self.same(it, self.state(it), s0):
                        ctx.prove(f"{nm}: waits with {n} unchanged", f)
                    match_events(it, nm, self.events(it), [])
                    raise PathEnd()
                w.on_suspend = waits
            exc = res = None
            try:
                res = call(it, obj, args) if call else it.run_method(obj, method, args)
            except PyRaise as e:
                exc = e
            ctx.ex.cov.add(f"{name}/{o.name}")
            if o.waits:
                ctx.fail(f"{nm}: must wait")
                return
            if o.raises:
                from vc.interp import exc_sub
                if exc is None or not any(exc_sub(exc.cls, x) for x in ((o.raises,) if isinstance(o.raises, str) else o.raises)):
                    ctx.fail(f"{nm}: must raise {o.raises} but {'raised ' + exc.cls if exc else 'returned'}")
                    return
            elif exc is not None:
                ctx.fail(f"{nm}: raised {exc.cls} {exc.where}", str(exc.eargs))
                return
            s1 = self.state(it)
            obs = [(f"{nm}: {n} unchanged", f) for n, f in self.same(it, s1, s0, o.changes)]
            obs += [(f"{nm}: {n}", f) for n, f in (o.post(it, s1) if o.post else [])]
            if o.inv:
                obs += [(f"{nm}: invariant: {n}", f) for n, f in self.inv(it, s1)]
            ctx.prove_all(obs)
            if isinstance(o.events, dict):
                for ch in self.chans:
                    if o.events.get(ch, []) is None:
                        continue
                    match_events(it, f"{nm}: {ch}", by_chan(self.events(it), ch), o.events.get(ch, []))
            else:
                match_events(it, nm, self.events(it), o.events(it, s1) if callable(o.events) else list(o.events))
            if o.raises:
                return
            if o.check:
                for n, f in o.check(it, res, s1):
                    ctx.prove(f"{nm}: {n}", f)
            elif o.result is not ANYRESULT:
                ctx.prove(f"{nm}: result", val_eq(it, res, o.result))
        return Unit(name, body, [f"{self.classes[cls][0]}:{cls}.{method}"] + list(functions))
