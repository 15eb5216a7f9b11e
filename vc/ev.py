"""Comparing the events of a path with the expected ones."""
from .core import *
from .interp import Event, Repeat
from .spec import val_eq


class _AnyV:
    def __repr__(self):
        return "*"


ANYV = _AnyV()


def msg_eq(it, got, exp):
    """formula: the message is the expected one; exp may contain ANYV, ('task', ref) or a predicate"""
    if exp is ANYV:
        return z3.BoolVal(True)
    if callable(exp):
        return exp(it, got)
    if isinstance(exp, tuple) and len(exp) == 2 and exp[0] == "task":
        # this very task object, with the contents it had at the beginning
        if not (isinstance(got, Rec) and got.cls == "Task"):
            return z3.BoolVal(False)
        ci = it.find_class("Task")
        fs = []
        for n, t in it.fields_of(ci):
            ls = it.pre_ref_field("Task", n, exp[1])
            fs.append(val_eq(it, got.fields[n], Snap(t, ls) if isinstance(t, (TList, TSet, TDict)) else it.from_leaves(t, ls)))
        return conj(fs)
    if isinstance(exp, Rec):
        if not isinstance(got, Rec) or got.cls != exp.cls:
            return z3.BoolVal(False)
        fs = []
        for k, v in exp.fields.items():
            if v is ANYV:
                continue
            g = got.fields[k]
            fs.append(v(it, g) if callable(v) else val_eq(it, g, it.freeze(v)))
        return conj(fs)
    return val_eq(it, got, it.freeze(exp))


def ev_eq(it, e, exp):
    chan, to, msg = exp
    if not isinstance(e, Event) or e.chan != chan:
        return z3.BoolVal(False)
    return z3.And(z3.BoolVal(True) if to is ANYV else val_eq(it, e.to, to), msg_eq(it, e.msg, msg))


class Each:
    """for every element x with cond(x), exactly one event exp(x) (in any order), and none for the others"""

    def __init__(self, cond, exp):
        self.cond, self.exp = cond, exp


class Line:
    """exactly one event exp(it, at(i)) for every 0 <= i < n, in this order"""

    def __init__(self, n, at, exp):
        self.n, self.at, self.exp = n, at, exp


def match_line(it, nm, got, line):
    ctx = it.ctx
    if not got:
        ctx.prove(f"{nm}: nothing was to be sent", line.n <= 0)
        return
    if all(isinstance(g, Event) for g in got):
        ctx.prove(f"{nm}: as many messages as expected", line.n == len(got))
        for i, g in enumerate(got):
            ctx.prove(f"{nm}: message {i + 1} is the right one in the right place", ev_eq(it, g, line.exp(it, line.at(z3.IntVal(i)))))
        return
    if len(got) != 1 or not isinstance(got[0], Repeat) or got[0].it is None or got[0].it.kind != "idx":
        ctx.fail(f"{nm}: one message for each of a list expected, in its order", repr(got)[:300])
        return
    r = got[0]
    n, i = r.it.n, r.i
    ctx.prove(f"{nm}: as many messages as expected", z3.If(n > 0, n, 0) == z3.If(line.n > 0, line.n, 0))
    for facts, evs in r.alts:
        fs = list(facts) + [0 <= i, i < n]
        if len(evs) != 1 or not isinstance(evs[0], Event):
            ctx.prove(f"{nm}: one message for each", z3.Not(conj(fs)))
            continue
        ctx.prove(f"{nm}: each message is the right one in the right place", z3.Implies(conj(fs), ev_eq(it, evs[0], line.exp(it, line.at(i)))))


def match_events(it, nm, got, exp):
    ctx = it.ctx
    got = [g for g in got if not (isinstance(g, Repeat) and not any(ev for _, ev in (g.alts or [])) and not g.partial)]
    if len(exp) == 1 and isinstance(exp[0], Line):
        match_line(it, nm, got, exp[0])
        return
    if any(isinstance(e, Each) for e in exp):
        match_each(it, nm, got, exp)
        return
    if any(isinstance(g, Repeat) for g in got):
        ctx.fail(f"{nm}: messages sent in a loop, expected {len(exp)}", repr(got)[:300])
        return
    if len(got) != len(exp):
        ctx.fail(f"{nm}: {len(got)} messages sent, expected {len(exp)}", repr(got)[:300])
        return
    for i, (g, e) in enumerate(zip(got, exp)):
        ctx.prove(f"{nm}: message {i + 1} of {len(exp)} is the right one to the right peer", ev_eq(it, g, e))


def match_each(it, nm, got, exp):
    """one Each, possibly surrounded by single events"""
    k = [i for i, e in enumerate(exp) if isinstance(e, Each)]
    assert len(k) == 1
    k = k[0]
    tail = len(exp) - k - 1
    if len(got) < len(exp) - 1:
        it.ctx.fail(f"{nm}: too few messages", repr(got)[:300])
        return
    pre, mid, post = got[:k], got[k:len(got) - tail], got[len(got) - tail:]
    for g, e in list(zip(pre, exp[:k])) + list(zip(post, exp[k + 1:])):
        it.ctx.prove(f"{nm}: message is the right one to the right peer", ev_eq(it, g, e))
    one_each(it, nm, mid, exp[k], [])


def one_each(it, nm, mid, each, facts0):
    """mid: the events that must be exactly those of `each`, under the facts"""
    ctx = it.ctx
    pr = lambda n, f: ctx.prove(f"{nm}: {n}", z3.Implies(conj(facts0), f) if facts0 else f)
    mid = [g for g in mid if not (isinstance(g, Repeat) and not g.partial and not any(ev for _, ev in (g.alts or [])))]
    if not mid:
        x = ctx.fresh("any", U)
        pr("nobody was to be told", z3.Not(each.cond(x)))
        return
    if len(mid) != 1 or not isinstance(mid[0], Repeat):
        ctx.fail(f"{nm}: a message for each element expected", repr(mid)[:300])
        return
    r = mid[0]
    if r.D is None:
        ctx.fail(f"{nm}: messages sent in a loop over nothing the contract knows", repr(mid)[:300])
        return
    x0 = ctx.fresh("any", U)
    pr("everyone to be told is visited", z3.Implies(each.cond(x0), z3.Select(r.D, x0)))
    if r.it is not None and r.it.kind == "idx" and getattr(r.it, "mem", None) is not None:
        pr("everyone is visited once", z3.Implies(each.cond(x0), z3.Select(r.it.mem, x0) == 1))
    for facts, evs in r.alts:
        fs = facts + [z3.Select(r.D, r.x)]
        exp = each.exp(r.x)
        evs = [g for g in evs if not (isinstance(g, Repeat) and not g.partial and not any(ev for _, ev in (g.alts or [])))]
        if isinstance(exp, Each):
            if evs:
                pr("an element told had to be", z3.Implies(conj(fs), each.cond(r.x)))
            inner = Each(lambda y, exp=exp, x=r.x: z3.And(each.cond(x), exp.cond(y)), exp.exp)
            one_each(it, nm, evs, inner, facts0 + fs)
        elif not evs:
            pr("an element not told did not have to be", z3.Implies(conj(fs), z3.Not(each.cond(r.x))))
        elif len(evs) == 1 and isinstance(evs[0], Event):
            pr("the element told had to be, with the right message to the right peer", z3.Implies(conj(fs), z3.And(each.cond(r.x), ev_eq(it, evs[0], exp))))
        else:
            ctx.fail(f"{nm}: more than one message for an element", repr(evs)[:300])
