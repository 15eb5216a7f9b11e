"""Loops with inferred invariants, and comprehensions."""
from __future__ import annotations
import ast
import os
import time
import zlib

from .core import *
from .program import node_pos
from .interp import (Interp, Iter, Poison, TypeV, Repeat, Event, TUnk, BreakEx, ContinueEx, ReturnEx, CARD, POS, ConcSet, ConcDict, GenExp,
                     SuperV, Opaque, assigned_names)


def loop_key(it, node):
    return (tuple(it.callpath),) + node_pos(node)


def info_of(it, key):
    ex = it.ctx.ex
    if key not in ex.loops:
        li = LoopInfo()
        li.types, li.locals, li.templates, li.has_events, li.collect, li.fixed = {}, {}, {}, False, {}, {}
        li.hints = {}
        ex.loops[key] = li
    return ex.loops[key]


def ev_iter(it, e):
    """the value looped over; a loop over list(d.items()), list(d), list(s) visits the elements the dictionary or set has now, in no known order"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple") and len(e.args) == 1 and not e.keywords and not isinstance(e.args[0], ast.Starred):
        f = it.ev(e.func)
        if isinstance(f, TypeV) and f.name in ("list", "tuple"):
            v = it.ev(e.args[0])
            if isinstance(v, View) and v.kind in ("keys", "values", "items") and isinstance(v.args[0], (Box, Snap)):
                ty, ls = it.leaves_of(v.args[0])
                if isinstance(ty, TDict) and (v.kind == "keys" or not ty.v.mutable):
                    return View(v.kind, Snap(ty, ls), *v.args[1:])
            if isinstance(v, (Box, Snap)):
                ty, ls = it.leaves_of(v)
                if isinstance(ty, TSet):
                    return Snap(ty, ls)
                if isinstance(ty, TDict):
                    return View("keys", Snap(ty, ls))
            return it.call(f, [v], {})
    return it.ev(e)


def exec_for(it, node):
    v = ev_iter(it, node.iter)
    if isinstance(v, GenExp):
        v = comprehension(it, v.node, "list", v.frame)
    if isinstance(v, ConcSet):
        v = tuple(v.vals)
    if isinstance(v, ConcDict):
        v = tuple(k for k, _ in v.items)
    itr = it.make_iter(v)
    if itr.kind == "conc":
        for x in itr.vals:
            it.assign(node.target, x)
            try:
                it.block(node.body)
            except BreakEx:
                return
            except ContinueEx:
                continue
        it.block(node.orelse)
        return
    SymLoop(it, node, itr).run()


def exec_while(it, node):
    # a condition that stays concrete is simply executed
    n = 0
    while True:
        c = it.truth(it.ev(node.test)) if n < 1 or True else None
        if isinstance(c, bool) or is_true(z3.simplify(c)) or is_false(z3.simplify(c)):
            c = c if isinstance(c, bool) else is_true(z3.simplify(c))
            if not c:
                it.block(node.orelse)
                return
            if isinstance(node.test, ast.Constant) and n >= 1 or n > 40:
                break
            if isinstance(node.test, ast.Constant):
                break
            n += 1
            try:
                it.block(node.body)
            except BreakEx:
                return
            except ContinueEx:
                pass
            continue
        break
    SymLoop(it, node, None).run()


DUMP = os.environ.get("VC_DUMP")


class SymLoop:
    def __init__(self, it, node, itr):
        self.it, self.node, self.itr = it, node, itr
        self.ctx = it.ctx
        self.pooled = set()    # candidates the specification states

    def names(self):
        tmp = ast.FunctionDef(name="_", args=None, body=self.node.body, decorator_list=[])
        out = set()
        for s in self.node.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                if isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
        if self.itr is not None:
            for n in ast.walk(self.node.target):
                if isinstance(n, ast.Name):
                    out.add(n.id)
        else:
            for n in ast.walk(self.node.test):
                if isinstance(n, ast.NamedExpr):
                    out.add(n.target.id)
        return out

    def run(self):
        it, ctx, node, itr = self.it, self.ctx, self.node, self.itr
        if ctx.subs:
            raise EffectInComp("loop in comprehension")
        key = loop_key(it, node)
        info = self.info = info_of(it, key)
        vis = it.loopvis[key] = it.loopvis.get(key, 0) + 1
        self.tag = f"L{zlib.crc32(str((key, vis)).encode())}"
        fr = it.fr
        self.fr = fr
        assigned = self.names()
        # types learnt on earlier rounds
        for k, t in info.types.items():
            if k in ctx.heap:
                cur = ctx.ktype[k]
                if isinstance(cur, TUnk):
                    ctx.ktype[k] = t
                    ctx.heap[k] = tuple(it.empty_leaves(t))
                elif cur != t and cur.sorts() == t.sorts():
                    ctx.ktype[k] = t
            elif k[0] in ("rf", "fa", "g"):
                it.init_cell(k, t, info.hints.get(k, "cell"))
        self.entry = {k: ctx.heap[k] for k in ctx.heap}
        self.entry_locals = dict(fr.locals)
        us = U
        if itr is not None:
            if itr.kind == "set":
                us = itr.S.sort().domain()
        self.ksort = us
        emptyD = z3.K(us, z3.BoolVal(False))
        zero = z3.IntVal(0)
        self.kind = "while" if itr is None else itr.kind
        haskey = self.kind == "set" or (self.kind == "idx" and (itr.mem is not None or itr.keyof is not None))
        fresh = ctx.fresh_zone()
        if fresh:
            self.check(self.cands(self.entry, self.entry_locals, emptyD if haskey else None, zero), "entry")
        # an arbitrary iteration, or the end of the loop; the two states have names of their own, since what an iteration
        # does is described (events) in terms of its own state when the loop has ended
        n_head = ctx.n
        prefix = tuple(ctx.trace[:ctx.idx])
        tag = self.tag
        early = info.has_events
        c = ctx.choose(2, "loop") if early else 0
        if c == 1:
            self.tag += "x"
        head_pc = len(ctx.pc)
        i = z3.Const(f"i@{self.tag}", I)
        ctx.assume(i >= 0)
        D = doneM = None
        if haskey:
            D = z3.Const(f"done@{self.tag}", z3.ArraySort(us, B))
            if self.kind == "set":
                S = itr.S
                ctx.assume(forall(us, lambda x: z3.Implies(z3.Select(D, x), z3.Select(S, x)), lambda x: [z3.Select(D, x)]))
                ctx.assume(CARD(D) == i)
                it.setfacts(D)
                it.setfacts(S)
            elif itr.keyof is not None:
                # ordered dictionary: the first i keys
                dom = it.leaves_of(itr.guard)[1][0]
                o = it.leaves_of(itr.guard)[1][1]
                p = z3.Function(f"ordpos_{us}", z3.ArraySort(us, B), z3.ArraySort(I, us), us, I)
                ctx.assume(forall(us, lambda x: z3.Select(D, x) == z3.And(z3.Select(dom, x), p(dom, o, x) < i),
                                  lambda x: [z3.Select(D, x)]))
            else:
                doneM = z3.Const(f"doneM@{self.tag}", z3.ArraySort(U, I))
                mem = itr.mem
                ctx.assume(forall(U, lambda x: z3.And(z3.Select(doneM, x) >= 0, z3.Select(doneM, x) <= z3.Select(mem, x),
                                                      z3.Select(D, x) == (z3.Select(doneM, x) > 0)),
                                  lambda x: [z3.Select(D, x)]))
                if itr.zof is not None:
                    ctx.assume(forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < i), z3.Select(D, itr.zof(j))),
                                      lambda j: [itr.zof(j)]))
        for k in sorted(info.mods, key=str):
            if k not in ctx.heap:
                continue
            ty = ctx.ktype[k]
            ls = tuple(z3.Const(f"{str(k)}.{j}@{self.tag}", s) for j, s in enumerate(ty.sorts()))
            ctx.heap[k] = ls
            it.wf(ty, ls)
        for nm in assigned:
            if nm in info.locals:
                t = info.locals[nm]
                if t == "poison":
                    fr.locals[nm] = Poison(nm)
                else:
                    ls = [z3.Const(f"{nm}.{j}@{self.tag}", s) for j, s in enumerate(t.sorts())]
                    it.wf(t, ls)
                    fr.locals[nm] = it.from_leaves(t, ls)
            elif nm not in self.entry_locals:
                fr.locals[nm] = Poison(nm)
        self.head = {k: ctx.heap[k] for k in ctx.heap}
        self.head_types = {k: repr(ctx.ktype.get(k)) for k in ctx.heap}
        self.head_locals = dict(fr.locals)
        for name, f in self.cands(ctx.heap, fr.locals, D, i):
            if name not in info.dropped:
                ctx.assume(f)
        if itr is not None and itr.kind == "idx":
            ctx.assume(i <= itr.n)
        if not early:
            c = ctx.choose(2, "loop")
        if c == 1:
            self.exit(D, doneM, i, prefix, n_head, tag)
            return
        # one iteration
        elem = x = None
        if itr is None:
            if not it.cond(it.ev(node.test)):
                raise PathEnd()
        elif itr.kind == "set":
            x = z3.Const(f"x@{self.tag}", us)
            ctx.assume(z3.Select(itr.S, x))
            ctx.assume(z3.Not(z3.Select(D, x)))
            elem = itr.elem(x)
        else:
            ctx.assume(i < itr.n)
            elem = itr.elem(i)
            if haskey:
                x = itr.keyof(i) if itr.keyof is not None else itr.zof(i)
                if doneM is not None:
                    ctx.assume(z3.Select(doneM, x) < z3.Select(itr.mem, x))
        if itr is not None:
            it.assign(node.target, elem)
        guard0 = None
        if itr is not None and itr.guard is not None:
            guard0 = self.guard_len()
        if info.has_events:
            it.log.append(Repeat(itr, elem, D, None, partial=True))
        marker = len(it.log)
        self.x, self.elem = x, elem
        it.loopstack.append(self)
        try:
            try:
                it.block(node.body)
            except ContinueEx:
                pass
            except BreakEx:
                it.loopstack.pop()
                return
        except (PyRaise, ReturnEx):
            if it.loopstack and it.loopstack[-1] is self:
                it.loopstack.pop()
            raise
        it.loopstack.pop()
        # the container must not change size while it is iterated
        if guard0 is not None:
            g1 = self.guard_len()
            if not guard0.eq(g1):
                more = z3.Not(z3.And(*[z3.Select(itr.S, x), i + 1 >= CARD(itr.S)])) if itr.kind == "set" else z3.BoolVal(True)
                if itr.kind == "idx" and itr.keyof is None:
                    # a list may change while iterated; our element function would be wrong
                    if not ctx.valid(guard0 == g1):
                        raise Unsupported("list changes length while it is iterated")
                elif not ctx.decide(guard0 == g1):
                    raise PyRaise("RuntimeError", ("container changed size during iteration",))
        self.back_edge(D, doneM, i, x, n_head, prefix, marker, head_pc, elem)
        raise PathEnd()

    def guard_len(self):
        g = self.itr.guard
        ty, ls = self.it.leaves_of(g)
        if isinstance(ty, TList):
            return ls[0]
        if isinstance(ty, (TSet, TDict)):
            return CARD(ls[0])
        return z3.IntVal(0)

    def exit(self, D, doneM, i, prefix, n_head, tag):
        it, ctx, itr, node = self.it, self.ctx, self.itr, self.node
        if itr is None:
            if it.cond(it.ev(node.test)):
                raise PathEnd()
        elif itr.kind == "set":
            ctx.assume(D == itr.S)
        else:
            ctx.assume(i == itr.n)
            if doneM is not None:
                ctx.assume(doneM == itr.mem)
                S = itr.mem
                ctx.assume(forall(U, lambda x: z3.Select(D, x) == (z3.Select(S, x) > 0), lambda x: [z3.Select(S, x)]))
                ctx.assume(forall(U, lambda x: z3.Select(D, x) == (z3.Select(S, x) > 0), lambda x: [z3.Select(D, x)]))
            elif itr.keyof is not None:
                dom = it.leaves_of(itr.guard)[1][0]
                ctx.assume(D == dom)
        t = self.info.templates.get((prefix, tag))
        if t and any(ev for _, ev in t["alts"]):
            it.log.append(Repeat(itr, t["elem"], D, t["alts"]))
            it.log[-1].x = t["x"]
            it.log[-1].i = t["i"]
        if itr is not None:
            for nm in [n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)]:
                self.fr.locals[nm] = Poison(nm)
        it.block(node.orelse)

    def back_edge(self, D, doneM, i, x, n_head, prefix, marker, body_pc, elem):
        it, ctx, info, fr = self.it, self.ctx, self.info, self.fr
        changed = False
        for k, ls in ctx.heap.items():
            if k[0] == "raw":
                if k not in self.head or self.head[k][0] is not ls[0]:
                    raise Unsupported("untyped field assigned in a loop")
                continue
            base = self.head.get(k)
            if base is None:
                base = ctx.pre.get(k)
                if base is None:
                    continue
            if k in self.head_types and self.head_types[k] != repr(ctx.ktype.get(k)):
                info.types[k] = ctx.ktype[k]
                info.mods.add(k)
                changed = True
                continue
            if not same_val(base, ls):
                if k not in info.mods:
                    info.mods.add(k)
                    info.types[k] = ctx.ktype[k]
                    changed = True
        for nm in self.names():
            v0 = self.head_locals.get(nm)
            had = nm in self.head_locals and not isinstance(v0, Poison)
            if not had:
                continue
            if nm not in fr.locals:
                if info.locals.get(nm) != "poison":
                    info.locals[nm] = "poison"
                    changed = True
                continue
            v1 = fr.locals[nm]
            t = info.locals.get(nm)
            if t is None:
                if same_val(v0, v1) or v0 is v1:
                    continue
                if isinstance(v0, Box) and isinstance(v1, Box) and v0.root == v1.root and repr(v0.steps) == repr(v1.steps):
                    continue
                info.locals[nm] = self.join(v0, v1)
                changed = True
            elif t != "poison":
                try:
                    it.to_leaves(v1, t)
                except Unsupported:
                    info.locals[nm] = "poison"
                    changed = True
        # closures seen from here
        self.learn_collect(n_head, i, x)
        if changed:
            raise Restart()
        D2 = None
        i2 = i + 1
        if D is not None:
            D2 = z3.Store(D, x, z3.BoolVal(True))
        if ctx.fresh_zone() or True:
            self.check(self.cands(ctx.heap, fr.locals, D2, i2), "preserve")
        evs = it.log[marker:]
        if evs and not info.has_events:
            info.has_events = True
            raise Restart()
        t = info.templates.setdefault((prefix, self.tag), {"alts": [], "elem": elem, "x": x, "i": i})
        t["elem"] = elem
        t["alts"].append((list(ctx.pc[body_pc:]), evs))
        t["pc0"] = body_pc

    def join(self, v0, v1):
        it = self.it
        if isinstance(v0, (Poison,)) or isinstance(v1, Poison):
            return "poison"
        try:
            t0, t1 = it.typeof(v0), it.typeof(v1)
        except Unsupported:
            return "poison"
        if t0.mutable or t1.mutable or isinstance(v0, (Obj, FuncV, ClassV)) or isinstance(v1, (Obj, FuncV, ClassV, CoroV)):
            return "poison"
        if v0 is None and isinstance(t1, (TU, TRef, TEnum)):
            return TOpt(t1)
        if v1 is None and isinstance(t0, (TU, TRef, TEnum)):
            return TOpt(t0)
        if v0 is None or v1 is None:
            t = t1 if v0 is None else t0
            return t if isinstance(t, TOpt) else TOpt(t)
        if isinstance(t0, TOpt) and t0.t == t1:
            return t0
        if isinstance(t1, TOpt) and t1.t == t0:
            return t1
        if t0 == t1 or repr(t0) == repr(t1):
            return t0
        if isinstance(t0, (TInt, TReal)) and isinstance(t1, (TInt, TReal)):
            return TReal()
        return "poison"

    # ---- what a body adds for its element, as a function of the element
    def learn_collect(self, n_head, i, x):
        ctx, info = self.ctx, self.info
        for k in info.mods:
            if k not in ctx.heap or k not in self.head:
                continue
            for j, (h, e) in enumerate(zip(self.head[k], ctx.heap[k])):
                if not z3.is_array(e):
                    continue
                keys = []
                t = e
                val = None
                ok = True
                while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
                    keys.append((t.arg(1), t.arg(2)))
                    t = t.arg(0)
                if not t.eq(h) or not keys:
                    continue
                name = (str(k), j)
                inv = []
                for kk, vv in keys:
                    if self.loop_free(kk, n_head, None):
                        inv.append(kk)
                    else:
                        inv = None
                        break
                if inv is not None and len(inv) > 0:
                    info.fixed[name] = [q for q in inv]
                elif name in info.fixed and inv is None:
                    info.fixed[name] = None
                if len(keys) == 1:
                    kk, vv = keys[0]
                    if x is not None and kk.eq(x) and self.loop_free(vv, n_head, {"x", "i"}, x):
                        info.collect.setdefault(name, []).append(("key", vv, x, i))
                    elif self.loop_free(vv, n_head, {"x", "i"}, x):
                        info.collect.setdefault(name, []).append(("app", vv, x, i))
                if name in info.collect:
                    seen, out = set(), []
                    for c in info.collect[name]:
                        if str(c[1]) not in seen:
                            seen.add(str(c[1]))
                            out.append(c)
                    info.collect[name] = out[:3]

    def loop_free(self, t, n_head, allowed, x=None):
        for nm in consts_of(t):
            if nm.endswith("@" + self.tag):
                base = nm.split("@")[0]
                if allowed and base in allowed:
                    continue
                return False
            if "!" in nm and "@" not in nm:
                try:
                    if int(nm.rsplit("!", 1)[1]) > n_head:
                        return False
                except ValueError:
                    pass
        return True

    # ---- candidates
    def check(self, cands, when):
        ctx, info = self.ctx, self.info
        live = [(n, f) for n, f in cands if n not in info.dropped]
        if not live:
            return
        t = conj([f if not isinstance(f, bool) else z3.BoolVal(f) for _, f in live])
        if len(live) <= 12 and ctx.valid(t, rl=ctx.ex.RL_FEAS * 4):
            return
        bad = False
        for n, f in live:
            t0 = time.time()
            if when == "preserve" and n in self.pooled:
                f = ctx.unknown_part(f)
            r = ctx._check(z3.Not(f), rl=ctx.ex.RL_FEAS * 3)
            if r == z3.unknown:
                r = ctx.anew(f, ctx.ex.RL_FEAS * 3)
            if r == z3.unknown and n in self.pooled:
                # the specification's own invariant: worth another effort
                r = ctx.anew(f, ctx.ex.RL_FEAS * 10)
                if r == z3.unknown:
                    r = ctx.anew(f, ctx.ex.RL_FEAS * 10, seed=29)
            if r != z3.unsat:
                info.dropped.add(n)
                if ctx.ex.debug and n in self.pooled and DUMP:
                    d = z3.Solver()
                    d.add(*ctx.solver.assertions(), z3.Not(f))
                    open(f"{DUMP}.drop{len(info.dropped)}.smt2", "w").write(d.to_smt2())
                if ctx.ex.debug:
                    print("   drop", when, n, r, f"{time.time() - t0:.1f}s", flush=True)
                bad = True
        if bad:
            raise Restart()

    def cands(self, cur, locs, D, i):
        it, ctx, info = self.it, self.ctx, self.info
        out = []
        sets = []     # (name, s0, s1)
        mems = []
        lean = it.w.lean
        for k in sorted(info.mods, key=str):
            if k not in cur or k not in self.entry:
                continue
            ty = ctx.ktype[k]
            if lean and (isinstance(ty, (TStruct, TAbs)) or k[0] != "own" and isinstance(ty, (TDict, TArr, TInt))):
                # specifications of this world state the interesting invariants themselves
                for j, (e, c) in enumerate(zip(self.entry[k], cur[k])):
                    out.append((f"{k}.{j}=", c == e))
                    if isinstance(ty, TDict) and j >= ty.nhead and e.sort().domain() == self.entry[k][0].sort().domain():
                        out.append((f"{k}.{j}keep2", forall(e.sort().domain(), lambda x: z3.Implies(z3.And(z3.Select(self.entry[k][0], x), z3.Select(cur[k][0], x)), z3.Select(c, x) == z3.Select(e, x)), lambda x: [z3.Select(c, x)])))
                continue
            self.gen(str(k), k, 0, ty, self.entry[k], cur[k], D, i, out, sets, mems, ())
        for nm, t in info.locals.items():
            if t == "poison" or nm not in self.entry_locals:
                continue
            v0, v1 = self.entry_locals[nm], locs.get(nm)
            if isinstance(v1, Poison) or v1 is None or v0 is None:
                continue
            if isinstance(t, TInt):
                a, b = it.num(v0), it.num(v1)
                if a is None or b is None:
                    continue
                out += [(f"{nm}=", b == a), (f"{nm}+i", b == a + i), (f"{nm}-i", b == a - i), (f"{nm}>=", b >= a), (f"{nm}<=", b <= a),
                        (f"{nm}>=0", b >= 0)]
            elif isinstance(t, TReal):
                a, b = it.real(v0), it.real(v1)
                out += [(f"{nm}=", b == a), (f"{nm}>=", b >= a), (f"{nm}<=", b <= a)]
            elif isinstance(t, TBool):
                a = it.to_leaves(v0, t)[0]
                b = it.to_leaves(v1, t)[0]
                out += [(f"{nm}=", b == a), (f"{nm}imp", z3.Implies(a, b)), (f"{nm}pmi", z3.Implies(b, a))]
        q = lambda f, p: forall(U, f, p)
        for a in range(0 if lean else len(sets)):
            na, a0, a1 = sets[a]
            for b in range(a + 1, len(sets)):
                nb, b0, b1 = sets[b]
                if a0.sort() != b0.sort():
                    continue
                ks = a0.sort().domain()
                rem = lambda s0, s1, x: z3.And(z3.Select(s0, x), z3.Not(z3.Select(s1, x)))
                pt = lambda x: [z3.Select(a1, x)]
                pt2 = lambda x: [z3.Select(b1, x)]
                for nm, l, r in (("rem=rem", (a0, a1), (b0, b1)), ("rem=add", (a0, a1), (b1, b0)), ("add=rem", (a1, a0), (b0, b1)), ("add=add", (a1, a0), (b1, b0))):
                    f = z3.And(forall(ks, lambda x: rem(*l, x) == rem(*r, x), pt), forall(ks, lambda x: rem(*l, x) == rem(*r, x), pt2))
                    out.append((f"{na}|{nb}|{nm}", f))
        for nm, m0, m1 in mems:
            out.append((f"{nm}|once", forall(U, lambda x: z3.And(z3.Select(m1, x) >= z3.Select(m0, x), z3.Select(m1, x) <= z3.Select(m0, x) + 1), lambda x: [z3.Select(m1, x)])))
            gr = lambda x: z3.Select(m1, x) > z3.Select(m0, x)
            if D is not None and D.sort().domain() == U:
                out.append((f"{nm}|in done", forall(U, lambda x: z3.Implies(gr(x), z3.Select(D, x)), lambda x: [z3.Select(m1, x)])))
                out.append((f"{nm}|=done", z3.And(forall(U, lambda x: gr(x) == z3.Select(D, x), lambda x: [z3.Select(m1, x)]), forall(U, lambda x: gr(x) == z3.Select(D, x), lambda x: [z3.Select(D, x)]))))
            for nb, b0, b1 in sets:
                if b0.sort().domain() != U:
                    continue
                r = lambda x: z3.And(z3.Select(b0, x), z3.Not(z3.Select(b1, x)))
                ad = lambda x: z3.And(z3.Select(b1, x), z3.Not(z3.Select(b0, x)))
                for t, g in (("rem", r), ("add", ad)):
                    out.append((f"{nm}|{nb}|{t}", z3.And(forall(U, lambda x: gr(x) == g(x), lambda x: [z3.Select(m1, x)]),
                                                         forall(U, lambda x: gr(x) == g(x), lambda x: [z3.Select(b1, x)]))))
        for fn in it.w.loop_pool:
            for nm, f in fn(it, self, self.entry, cur, locs, D, i):
                out.append((nm, f if not isinstance(f, bool) else z3.BoolVal(f)))
                self.pooled.add(nm)
        return out

    def gen(self, name, key, off, ty, e, c, D, i, out, sets, mems, path):
        """candidates for the leaves e (entry) / c (current) of a value of type ty starting at leaf offset off"""
        info = self.info
        if all(x.eq(y) for x, y in zip(e, c)) and self.head is not None and False:
            return
        if isinstance(ty, TSet):
            self.gen_set(name, e[0], c[0], D, i, out, sets)
        elif isinstance(ty, TDict):
            self.gen_set(name + ".dom", e[0], c[0], D, i, out, sets)
            if ty.ordered:
                out.append((name + ".ord", c[1] == e[1]))
                out.append((name + ".ordpre", forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < CARD(e[0])), z3.Select(c[1], j) == z3.Select(e[1], j)), lambda j: [z3.Select(c[1], j)])))
                if self.kind == "idx":
                    nm = (str(key), off + 1)
                    for kind, t, x, i0 in info.collect.get(nm, []):
                        out.append((f"{name}.ordcollect.{t}", forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < i), z3.Select(c[1], CARD(e[0]) + j) == z3.substitute(t, (i0, j))), lambda j: [z3.Select(c[1], CARD(e[0]) + j)] if False else [z3.Select(c[1], j)] if z3.is_K(e[0]) else None) if z3.is_K(e[0]) else
                                    forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < i), z3.Select(c[1], CARD(e[0]) + j) == z3.substitute(t, (i0, j))))))
            h = ty.nhead
            for j in range(h, len(e)):
                self.gen_vals(f"{name}.v{j}", key, off + j, e[j], c[j], D, i, out, dom0=e[0], dom1=c[0], vt=ty.v, vj=j - h)
        elif isinstance(ty, TArr):
            for j in range(len(e)):
                self.gen_vals(f"{name}.a{j}", key, off + j, e[j], c[j], D, i, out)
        elif isinstance(ty, TStruct):
            k = 0
            for n, t in ty.fields:
                m = len(t.sorts())
                self.gen(f"{name}.{n}", key, off + k, t, e[k:k + m], c[k:k + m], D, i, out, sets, mems, path)
                k += m
        elif isinstance(ty, TTuple):
            k = 0
            for n, t in enumerate(ty.ts):
                m = len(t.sorts())
                self.gen(f"{name}.{n}", key, off + k, t, e[k:k + m], c[k:k + m], D, i, out, sets, mems, path)
                k += m
        elif isinstance(ty, TOpt) and not ty.uleaf():
            out.append((f"{name}.none=", c[0] == e[0]))
            self.gen(name + ".o", key, off + 1, ty.t, e[1:], c[1:], D, i, out, sets, mems, path)
        elif isinstance(ty, TList):
            n0, n1 = e[0], c[0]
            out += [(f"{name}.len=", n1 == n0), (f"{name}.len+i", n1 == n0 + i), (f"{name}.len>=", n1 >= n0), (f"{name}.len<=i", n1 <= n0 + i)]
            m = len(ty.e.sorts())
            for j in range(m):
                a0, a1 = e[1 + j], c[1 + j]
                out.append((f"{name}.pre{j}", forall(I, lambda q: z3.Implies(z3.And(0 <= q, q < n0), z3.Select(a1, q) == z3.Select(a0, q)), lambda q: [z3.Select(a1, q)])))
                out.append((f"{name}.arr{j}=", a1 == a0))
                if self.kind == "idx":
                    for kind, t, x, i0 in info.collect.get((str(key), off + 1 + j), []):
                        if z3.is_int_value(n0) and n0.as_long() == 0:
                            out.append((f"{name}.collect{j}.{t}", forall(I, lambda q: z3.Implies(z3.And(0 <= q, q < i), z3.Select(a1, q) == z3.substitute(t, (i0, q))), lambda q: [z3.Select(a1, q)])))
                        else:
                            out.append((f"{name}.collect{j}.{t}", forall(I, lambda q: z3.Implies(z3.And(n0 <= q, q < n0 + i), z3.Select(a1, q) == z3.substitute(t, (i0, q - n0))), lambda q: [z3.Select(a1, q)])))
            if ty.has_mem:
                out.append((f"{name}.mem=", c[-1] == e[-1]))
                mems.append((name, e[-1], c[-1]))
        else:
            for j, (a, b) in enumerate(zip(e, c)):
                out.append((f"{name}.{j}=", b == a))
                if a.sort() == I:
                    out += [(f"{name}.{j}+i", b == a + i), (f"{name}.{j}-i", b == a - i), (f"{name}.{j}>=", b >= a), (f"{name}.{j}<=", b <= a)]
                elif a.sort() == R:
                    out += [(f"{name}.{j}>=", b >= a), (f"{name}.{j}<=", b <= a)]
                elif a.sort() == U:
                    pass
                elif z3.is_array(a) and a.sort().range() == B:
                    self.gen_set(f"{name}.{j}", a, b, D, i, out, sets)
                elif z3.is_array(a):
                    self.gen_vals(f"{name}.{j}", key, off + j, a, b, D, i, out)

    def gen_set(self, name, s0, s1, D, i, out, sets):
        ks = s0.sort().domain()
        p = lambda x: [z3.Select(s1, x)]
        out.append((name + "=", s1 == s0))
        if D is not None and D.sort() == s0.sort():
            out.append((name + "+D", forall(ks, lambda x: z3.Select(s1, x) == z3.Or(z3.Select(s0, x), z3.Select(D, x)), p)))
            out.append((name + "-D", forall(ks, lambda x: z3.Select(s1, x) == z3.And(z3.Select(s0, x), z3.Not(z3.Select(D, x))), p)))
            out.append((name + "outD", forall(ks, lambda x: z3.Implies(z3.Not(z3.Select(D, x)), z3.Select(s1, x) == z3.Select(s0, x)), p)))
        out.append((name + "sub", forall(ks, lambda x: z3.Implies(z3.Select(s1, x), z3.Select(s0, x)), p)))
        out.append((name + "sup", forall(ks, lambda x: z3.Implies(z3.Select(s0, x), z3.Select(s1, x)), lambda x: [z3.Select(s0, x)] if not z3.is_K(s0) else p(x))))
        out.append((name + "card+i", CARD(s1) == CARD(s0) + i))
        out.append((name + "card-i", CARD(s1) == CARD(s0) - i))
        sets.append((name, s0, s1))

    def gen_vals(self, name, key, off, a0, a1, D, i, out, dom0=None, dom1=None, vt=None, vj=0):
        ks = a0.sort().domain()
        p = lambda x: [z3.Select(a1, x)]
        out.append((name + "=", a1 == a0))
        if D is not None and D.sort().domain() == ks:
            out.append((name + "outD", forall(ks, lambda x: z3.Implies(z3.Not(z3.Select(D, x)), z3.Select(a1, x) == z3.Select(a0, x)), p)))
            for kind, t, x0, i0 in self.info.collect.get((str(key), off), []):
                if kind == "key":
                    if self.kind == "set":
                        out.append((f"{name}.collect.{t}", forall(ks, lambda x: z3.Implies(z3.Select(D, x), z3.Select(a1, x) == z3.substitute(t, (x0, x))), p)))
        if dom0 is not None:
            out.append((name + "keep", forall(ks, lambda x: z3.Implies(z3.Select(dom0, x), z3.Select(a1, x) == z3.Select(a0, x)), p)))
            out.append((name + "keep2", forall(ks, lambda x: z3.Implies(z3.And(z3.Select(dom0, x), z3.Select(dom1, x)), z3.Select(a1, x) == z3.Select(a0, x)), p)))
        fx = self.info.fixed.get((str(key), off))
        if fx:
            out.append((name + "fixed", forall(ks, lambda x: z3.Or(*[x == f for f in fx], z3.Select(a1, x) == z3.Select(a0, x)), p)))
            for n, f in enumerate(fx[:2]):
                e, c = z3.Select(a0, f), z3.Select(a1, f)
                if z3.is_array(e) and e.sort().range() == B:
                    self.gen_set(f"{name}[{n}]", e, c, D, i, out, [])
                elif z3.is_array(e):
                    self.gen_vals(f"{name}[{n}]", key, ("sub", off, n), e, c, D, i, out)
                elif e.sort() == I:
                    out += [(f"{name}[{n}]+i", c == e + i), (f"{name}[{n}]-i", c == e - i)]

    head = None


# ------------------------------------------------------------------------------------------------- comprehensions
def comprehension(it, e, kind, frame=None):
    """value of a list/set/dict comprehension"""
    if frame is not None and frame is not it.frames[-1]:
        it.frames.append(frame)
        try:
            return comprehension(it, e, kind)
        finally:
            it.frames.pop()
    ctx = it.ctx
    h0, n0, l0 = dict(ctx.heap), ctx.n, len(it.log)
    save = (list(ctx.trace), ctx.idx)
    try:
        return Comp(it, e, kind).run()
    except EffectInComp:
        if ctx.subs:
            raise
        ctx.heap = h0
        return desugar(it, e, kind)


def desugar(it, e, kind):
    """comprehension with effects: the equivalent loops"""
    f = Frame_(it)
    name = f"__comp_{node_pos(e)[0]}_{node_pos(e)[1]}"
    box = it.new_root(TUnk("list" if kind == "list" else kind))
    f.locals[name] = box
    if kind == "dict":
        inner = ast.Assign(targets=[ast.Subscript(value=ast.Name(id=name, ctx=ast.Load()), slice=e.key, ctx=ast.Store())], value=e.value)
    else:
        inner = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=name, ctx=ast.Load()), attr="append" if kind == "list" else "add",
                                                     ctx=ast.Load()), args=[e.elt], keywords=[]))
    body = [inner]
    for g in reversed(e.generators):
        for c in reversed(g.ifs):
            body = [ast.If(test=c, body=body, orelse=[])]
        body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
    node = body[0]
    # position of the comprehension stands for the loop
    for j, n in enumerate(ast.walk(node)):
        if not hasattr(n, "lineno") or isinstance(n, ast.For):
            n.pos = node_pos(e) + (j,) if isinstance(n, ast.For) else node_pos(e)
            n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = e.lineno, e.col_offset + (j if isinstance(n, ast.For) else 0), e.lineno, e.col_offset
    ast.fix_missing_locations(node)
    it.frames.append(f)
    try:
        it.stmt(node)
    finally:
        it.frames.pop()
    return f.locals[name]


def Frame_(it):
    from .interp import Frame
    f = Frame(it.fr.fv)
    f.closure = it.fr
    f.module, f.cls = it.fr.module, it.fr.cls
    return f


class Comp:
    def __init__(self, it, e, kind):
        self.it, self.e, self.kind = it, e, kind

    def run(self):
        it, e = self.it, self.e
        f = Frame_(it)
        it.frames.append(f)
        try:
            return self.gens(0)
        finally:
            it.frames.pop()

    def iter_of(self, g):
        it = self.it
        v = ev_iter(it, g.iter)
        if isinstance(v, GenExp):
            v = comprehension(it, v.node, "list", v.frame)
        if isinstance(v, ConcSet):
            v = tuple(v.vals)
        if isinstance(v, ConcDict):
            v = tuple(k for k, _ in v.items)
        return it.make_iter(v)

    def gens(self, gi):
        it, e = self.it, self.e
        itr = self.iter_of(e.generators[0])
        if itr.kind == "conc":
            items = self.collect(0, itr)
            return self.build_conc(items)
        return self.symbolic(itr)

    def collect(self, gi, itr=None):
        """all items when every source has known elements"""
        it, e = self.it, self.e
        if gi == len(e.generators):
            if self.kind == "dict":
                return [(it.ev(e.key), it.ev(e.value))]
            return [it.ev(e.elt)]
        g = e.generators[gi]
        if itr is None:
            itr = self.iter_of(g)
        if itr.kind != "conc":
            raise Unsupported("nested symbolic comprehension")
        out = []
        for x in itr.vals:
            it.assign(g.target, x)
            if all(it.cond(it.ev(c)) for c in g.ifs):
                out += self.collect(gi + 1)
        return out

    def build_conc(self, items):
        it = self.it
        if self.kind == "list":
            return it.make_list(items)
        if self.kind == "set":
            if all(isinstance(x, (bytes, str, int, EnumV)) for x in items):
                return ConcSet(items)
            b = it.new_root(TUnk("set"))
            for x in items:
                it.set_add(b, x)
            return b
        if all(isinstance(k, (bytes, str, int, EnumV, ClassV)) for k, _ in items):
            return ConcDict(items)
        b = it.new_root(TUnk("dict"))
        for k, v in items:
            it.dict_set(b, k, v)
        return b

    def symbolic(self, itr):
        it, ctx, e = self.it, self.it.ctx, self.e
        g = e.generators[0]
        n0 = ctx.n
        ks = itr.S.sort().domain() if itr.kind == "set" else I
        k = ctx.fresh("ce", ks)
        inrange = z3.Select(itr.S, k) if itr.kind == "set" else z3.And(0 <= k, k < itr.n)

        def body():
            ctx.assume(inrange)
            it.assign(g.target, itr.elem(k))
            for c in g.ifs:
                if not it.cond(it.ev(c)):
                    return None
            return ("in", self.collect(1))
        nlog = len(it.log)
        outs = ctx.sub_explore(body)
        if len(it.log) != nlog:
            del it.log[nlog:]
            raise EffectInComp("events in comprehension")
        # exceptions raised by some element
        for conds, facts, res, val, hp in outs:
            if res == "raise":
                wit = conj(list(conds) + list(facts))
                if not ctx.subs and not ctx.feasible(wit):
                    continue
                if ctx.subs:
                    raise EffectInComp("raise in nested comprehension")
                if ctx.choose(2) == 1:
                    ctx.assume(wit)
                    raise PyRaise(val.cls, val.eargs, val.value, val.where)
                sk = self.skolem(k, n0, [wit])
                ctx.assume(forall(ks, lambda y: z3.Not(sk(wit, y)) if sk.pure else z3.BoolVal(True)))
        oks = [(conds, facts, val, hp) for conds, facts, res, val, hp in outs if res == "ok"]
        if self.kind == "dict":
            return self.build_dict(itr, k, n0, ks, inrange, oks)
        return self.build_seq(itr, k, n0, ks, inrange, oks)

    def skolem(self, k, n0, terms):
        """function substituting the generic element, turning constants born in the body into functions of it"""
        names = set()
        cs = {}
        for t in terms:
            for c in const_terms(t):
                nm = c.decl().name()
                if c.eq(k):
                    continue
                if "!" in nm and "@" not in nm:
                    try:
                        if int(nm.rsplit("!", 1)[1]) > n0:
                            cs[nm] = c
                    except ValueError:
                        pass
        pure = not cs
        fs = {nm: z3.Function(nm + "@f", k.sort(), c.sort()) for nm, c in cs.items()}

        def sub(t, y):
            pairs = [(c, fs[nm](y)) for nm, c in cs.items()] + [(k, y)]
            return z3.substitute(t, *pairs)
        sub.pure = pure
        return sub

    def leaves_on(self, val, ty, hp):
        it, ctx = self.it, self.it.ctx
        cur = ctx.heap
        ctx.heap = {**hp, **{q: v for q, v in cur.items() if q not in hp}}
        try:
            return it.to_leaves(val, ty)
        finally:
            ctx.heap = cur

    def type_on(self, val, hp):
        it, ctx = self.it, self.it.ctx
        cur = ctx.heap
        ctx.heap = hp
        try:
            return it.typeof(val)
        finally:
            ctx.heap = cur

    def join_types(self, vals):
        """common type of values seen on different paths"""
        ts = [self.type_on(v, hp) for v, hp in vals]
        known = [t for t in ts if not isinstance(t, TUnk)]
        if not known:
            return ts[0] if ts else ANY
        t = known[0]
        for u in known[1:]:
            if u == t or repr(u) == repr(t):
                continue
            if isinstance(u, TOpt) and not isinstance(t, TOpt):
                t = u if u.t != ANY else TOpt(t)
            elif isinstance(t, TOpt):
                if t.t == ANY and not isinstance(u, TOpt):
                    t = TOpt(u)
            elif isinstance(u, TU) and isinstance(t, TU):
                t = ANY
            else:
                raise Unsupported("comprehension of mixed types")
        return t

    def build_seq(self, itr, k, n0, ks, inrange, oks):
        it, ctx = self.it, self.it.ctx
        inc = [(c, f, v[1], hp) for c, f, v, hp in oks if v is not None]
        filtered = any(v is None for _, _, v, _ in oks)
        if not inc:
            return it.new_root(TUnk(self.kind))
        ms = {len(v) for _, _, v, _ in inc}
        if len(ms) != 1:
            raise Unsupported("comprehension with varying number of inner items")
        m = ms.pop()
        if m == 0:
            return it.new_root(TUnk(self.kind))
        et = self.join_types([(x, hp) for _, _, v, hp in inc for x in v])
        if isinstance(et, TUnk):
            raise Unsupported("comprehension of untyped containers")
        alts = [(conj(list(c)), conj(list(f)), [self.leaves_on(x, et, hp) for x in v]) for c, f, v, hp in inc]
        skips = [(conj(list(c)), conj(list(f))) for c, f, v, hp in oks if v is None]
        allterms = [t for c, f, v in alts for t in [c, f] + [l for x in v for l in x]] + [t for s in skips for t in s]
        sk = self.skolem(k, n0, allterms)
        rng = (lambda y: z3.Select(itr.S, y)) if itr.kind == "set" else (lambda y: z3.And(0 <= y, y < itr.n))
        cond = lambda y: disj([conj([sk(c, y)]) for c, f, v in alts])
        # every element falls on exactly one of the explored paths, with its facts
        def path_facts(y):
            return z3.Implies(rng(y), disj([z3.And(sk(c, y), sk(f, y)) for c, f, v in alts] + [z3.And(sk(c, y), sk(f, y)) for c, f in skips]))
        ident = len(alts) >= 1 and m == 1 and all(len(v[0]) == 1 and v[0][0].eq(k) for c, f, v in alts)
        if self.kind == "set":
            ty = TSet(et)
            S = ctx.fresh("sc", ty.sorts()[0])
            if itr.kind == "set" and ident:
                ctx.assume(forall(ks, lambda y: z3.Implies(z3.Select(itr.S, y), path_facts(y)), lambda y: [z3.Select(itr.S, y)]) if not sk.pure or True else z3.BoolVal(True))
                ctx.assume(forall(ks, lambda y: z3.Select(S, y) == z3.And(z3.Select(itr.S, y), cond(y)), lambda y: [z3.Select(S, y)]))
                ctx.assume(forall(ks, lambda y: z3.Select(S, y) == z3.And(z3.Select(itr.S, y), cond(y)), lambda y: [z3.Select(itr.S, y)]))
            else:
                es = S.sort().domain()
                w = z3.Function(f"cw!{ctx.n}", es, ks)
                for c, f, v in alts:
                    for x in v:
                        ctx.assume(forall(ks, lambda y: z3.Implies(z3.And(rng(y), sk(c, y)), z3.Select(S, sk(x[0], y)))))
                ctx.assume(forall(ks, path_facts))
                ctx.assume(forall(es, lambda z: z3.Implies(z3.Select(S, z), z3.And(rng(w(z)), disj(
                    [z3.And(sk(c, w(z)), sk(f, w(z)), sk(x[0], w(z)) == z) for c, f, v in alts for x in v]))), lambda z: [z3.Select(S, z)]))
            it.setfacts(S)
            return it.new_root(ty, [S])
        ty = TList(et)
        ne = len(et.sorts())
        if itr.kind == "set":
            # order unspecified: contents as a multiset when the elements are single terms, positions otherwise
            F = ctx.fresh("cf", z3.ArraySort(ks, B))
            ctx.assume(forall(ks, path_facts, lambda y: [z3.Select(itr.S, y)]))
            for arr in (F, itr.S):
                ctx.assume(forall(ks, lambda y: z3.Select(F, y) == z3.And(z3.Select(itr.S, y), cond(y)), lambda y: [z3.Select(arr, y)]))
            it.setfacts(F)
            if not filtered:
                ctx.assume(F == itr.S)
            ls = [CARD(F) * m] + [ctx.fresh("cl", z3.ArraySort(I, s)) for s in et.sorts()]
            if m != 1:
                raise Unsupported("nested comprehension over a set")
            pos = z3.Function(f"cpos!{ctx.n}", ks, I)
            src = z3.Function(f"csrc!{ctx.n}", I, ks)
            n = ls[0]
            ctx.assume(forall(ks, lambda y: z3.Implies(z3.Select(F, y), z3.And(0 <= pos(y), pos(y) < n, src(pos(y)) == y)), lambda y: [z3.Select(F, y)]))
            ctx.assume(forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Select(F, src(j)), pos(src(j)) == j)), lambda j: [src(j)]))
            for q in range(ne):
                ctx.assume(forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < n), conj([z3.Implies(sk(c, src(j)), z3.Select(ls[1 + q], j) == sk(v[0][q], src(j))) for c, f, v in alts])),
                                  lambda j: [z3.Select(ls[1 + q], j)]))
            if ty.has_mem:
                mem = ctx.fresh("cm", z3.ArraySort(U, I))
                if ident:
                    ctx.assume(forall(U, lambda y: z3.Select(mem, y) == z3.If(z3.Select(F, y), z3.IntVal(1), z3.IntVal(0)), lambda y: [z3.Select(mem, y)]))
                    ctx.assume(forall(U, lambda y: z3.Select(mem, y) == z3.If(z3.Select(F, y), z3.IntVal(1), z3.IntVal(0)), lambda y: [z3.Select(F, y)]))
                ls.append(mem)
                it.memfacts(ls)
            return it.new_root(ty, ls)
        # position-wise
        arrs = [ctx.fresh("cl", z3.ArraySort(I, s)) for s in et.sorts()]
        if not filtered:
            n = itr.n * m if m != 1 else itr.n
            ctx.assume(itr.n >= 0)
            for r in range(m):
                for q in range(ne):
                    ix = (lambda j: j * m + r) if m != 1 else (lambda j: j)
                    if m == 1:
                        ctx.assume(forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < n), conj(
                            [z3.Implies(sk(c, j), z3.And(sk(f, j), z3.Select(arrs[q], j) == sk(v[r][q], j))) for c, f, v in alts])),
                            lambda j: [z3.Select(arrs[q], j)]))
                    else:
                        ctx.assume(forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < n, j % m == r), conj(
                            [z3.Implies(sk(c, j / m), z3.And(sk(f, j / m), z3.Select(arrs[q], j) == sk(v[r][q], j / m))) for c, f, v in alts])),
                            lambda j: [z3.Select(arrs[q], j)]))
            ctx.assume(forall(I, path_facts))
        else:
            if m != 1:
                raise Unsupported("filtered nested comprehension")
            n = ctx.fresh("cn", I)
            ctx.assume(z3.And(n >= 0, n <= itr.n))
            src = z3.Function(f"csrc!{ctx.n}", I, I)
            pos = z3.Function(f"cpos!{ctx.n}", I, I)
            ctx.assume(forall(I, path_facts))
            ctx.assume(forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(
                0 <= src(j), src(j) < itr.n, cond(src(j)), pos(src(j)) == j,
                *[z3.Implies(sk(c, src(j)), z3.Select(arrs[q], j) == sk(v[0][q], src(j))) for q in range(ne) for c, f, v in alts])), lambda j: [src(j)] + [z3.Select(a, j) for a in arrs[:1]]))
            ctx.assume(forall([I, I], lambda a, b: z3.Implies(z3.And(0 <= a, a < b, b < n), src(a) < src(b)), lambda a, b: [z3.MultiPattern(src(a), src(b))]))
            ctx.assume(forall(I, lambda y: z3.Implies(z3.And(rng(y), cond(y)), z3.And(0 <= pos(y), pos(y) < n, src(pos(y)) == y))))
            # when exactly a prefix is kept, it is kept as it is: `first` is the first element left out, `later` one kept after it
            at_y = (lambda y: [itr.zof(y)]) if itr.zof is not None else None
            first, later = ctx.fresh("first", I), ctx.fresh("later", I)
            ctx.assume(z3.And(0 <= first, first <= itr.n, forall(I, lambda y: z3.Implies(z3.And(0 <= y, y < first), cond(y)), at_y), z3.Implies(first < itr.n, z3.Not(cond(first)))))
            for t in it.w.prefix_terms:
                ctx.assume(z3.Implies(z3.And(0 <= t, t < first), cond(t)))
            ctx.assume(z3.Or(z3.And(first < later, later < itr.n, cond(later)), z3.And(n == first, forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < n), src(j) == j), lambda j: [src(j)]))))
        ls = [n] + arrs
        if ty.has_mem:
            mem = ctx.fresh("cm", z3.ArraySort(U, I))
            ls.append(mem)
            it.memfacts(ls)
            if itr.mem is not None and not filtered and len(alts) == 1 and itr.zof is not None and z3.is_true(z3.simplify(alts[0][2][0][0] == itr.zof(k))):
                ctx.assume(mem == itr.mem)
        return it.new_root(ty, ls)

    def build_dict(self, itr, k, n0, ks, inrange, oks):
        it, ctx = self.it, self.it.ctx
        inc = [(c, f, v[1], hp) for c, f, v, hp in oks if v is not None]
        if not inc:
            return it.new_root(TUnk("dict"))
        if any(len(v) != 1 for _, _, v, _ in inc):
            raise Unsupported("nested dict comprehension")
        filtered = any(v is None for _, _, v, _ in oks)
        kt = self.join_types([(v[0][0], hp) for _, _, v, hp in inc])
        vt = self.join_types([(v[0][1], hp) for _, _, v, hp in inc])
        if isinstance(vt, TUnk):
            raise Unsupported("dict of untyped containers")
        ty = TDict(kt, vt, ordered=it.w.dict_ordered and itr.kind == "idx")
        alts = [(conj(list(c)), conj(list(f)), self.leaves_on(v[0][0], kt, hp)[0], self.leaves_on(v[0][1], vt, hp)) for c, f, v, hp in inc]
        skips = [(conj(list(c)), conj(list(f))) for c, f, v, hp in oks if v is None]
        sk = self.skolem(k, n0, [t for a in alts for t in [a[0], a[1], a[2]] + a[3]] + [t for s in skips for t in s])
        rng = (lambda y: z3.Select(itr.S, y)) if itr.kind == "set" else (lambda y: z3.And(0 <= y, y < itr.n))
        cond = lambda y: disj([sk(c, y) for c, f, kk, v in alts])
        dsort = ty.sorts()[0]
        es = dsort.domain()
        dom = ctx.fresh("dc", dsort)
        vals = [ctx.fresh("dv", z3.ArraySort(es, s)) for s in vt.sorts()]
        path_facts = lambda y: z3.Implies(rng(y), disj([z3.And(sk(c, y), sk(f, y)) for c, f, kk, v in alts] + [z3.And(sk(c, y), sk(f, y)) for c, f in skips]))
        ident = all(kk.eq(k) for c, f, kk, v in alts) and itr.kind == "set"
        if ident:
            ctx.assume(forall(ks, path_facts, lambda y: [z3.Select(itr.S, y)]))
            for arr in (dom, itr.S):
                ctx.assume(forall(ks, lambda y: z3.Select(dom, y) == z3.And(z3.Select(itr.S, y), cond(y)), lambda y: [z3.Select(arr, y)]))
            if not filtered:
                ctx.assume(dom == itr.S)
            for q, a in enumerate(vals):
                ctx.assume(forall(ks, lambda y: z3.Implies(z3.Select(dom, y), conj([z3.Implies(sk(c, y), z3.Select(a, y) == sk(v[q], y)) for c, f, kk, v in alts])), lambda y: [z3.Select(a, y)]))
            it.setfacts(dom)
            return it.new_root(ty, [dom] + vals)
        w = z3.Function(f"dw!{ctx.n}", es, ks)
        ctx.assume(forall(ks, path_facts))
        ctx.assume(forall(ks, lambda y: z3.Implies(z3.And(rng(y), cond(y)), conj([z3.Implies(sk(c, y), z3.And(
            z3.Select(dom, sk(kk, y)), *([y <= w(sk(kk, y))] if ks == I else []))) for c, f, kk, v in alts]))))
        ctx.assume(forall(es, lambda z: z3.Implies(z3.Select(dom, z), z3.And(rng(w(z)), disj(
            [z3.And(sk(c, w(z)), sk(f, w(z)), sk(kk, w(z)) == z, *[z3.Select(vals[q], z) == sk(v[q], w(z)) for q in range(len(vals))]) for c, f, kk, v in alts]))),
            lambda z: [z3.Select(dom, z)]))
        if ks == I:
            # the fact above, for use as a hint at positions no term of the goal mentions
            it.ctx.hooks.setdefault("dict_keys", []).append(lambda y: z3.Implies(z3.And(rng(y), cond(y)), conj([z3.Implies(sk(c, y), z3.And(
                z3.Select(dom, sk(kk, y)), y <= w(sk(kk, y)))) for c, f, kk, v in alts])))
        it.setfacts(dom)
        head = [dom]
        if ty.ordered:
            o = ctx.fresh("do", z3.ArraySort(I, es))
            head.append(o)
            it.ordfacts([dom, o])
            if itr.keyof is not None and not filtered and len(alts) == 1 and z3.simplify(alts[0][2]).eq(z3.simplify(itr.keyof(k))):
                # same keys in the same order as the source dictionary
                src = it.leaves_of(itr.guard)[1]
                ctx.assume(z3.And(dom == src[0], o == src[1]))
            else:
                # first occurrence order
                fst = z3.Function(f"dfst!{ctx.n}", es, I)
                ctx.assume(forall(I, lambda y: z3.Implies(z3.And(rng(y), cond(y)), conj([z3.Implies(sk(c, y), fst(sk(kk, y)) <= y) for c, f, kk, v in alts]))))
                ctx.assume(forall(es, lambda z: z3.Implies(z3.Select(dom, z), z3.And(rng(fst(z)), disj([z3.And(sk(c, fst(z)), sk(kk, fst(z)) == z) for c, f, kk, v in alts]))), lambda z: [z3.Select(dom, z)]))
                ctx.assume(forall([I, I], lambda a, b: z3.Implies(z3.And(0 <= a, a < b, b < CARD(dom)), fst(z3.Select(o, a)) < fst(z3.Select(o, b))),
                                  lambda a, b: [z3.MultiPattern(z3.Select(o, a), z3.Select(o, b))]))
        return it.new_root(ty, head + vals)


def const_terms(t):
    out, seen, stack = {}, set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.decl().name()] = x
            stack.extend(x.children())
    return list(out.values())


def quantify(it, g, is_any):
    """any()/all() over a generator, list or view -> bool / SBool"""
    ctx = it.ctx
    if isinstance(g, GenExp):
        e, frame = g.node, g.frame
        it.frames.append(frame)
        try:
            f = Frame_(it)
            it.frames.append(f)
            try:
                c = Comp(it, e, "list")
                itr = c.iter_of(e.generators[0])
                if itr.kind == "conc" or len(e.generators) > 1:
                    if itr.kind != "conc":
                        return quantify(it, comprehension(it, e, "list"), is_any)
                    for x in itr.vals:
                        it.assign(e.generators[0].target, x)
                        if all(it.cond(it.ev(q)) for q in e.generators[0].ifs):
                            b = it.cond(it.ev(e.elt))
                            if b == is_any:
                                return is_any
                    return not is_any
                g0 = e.generators[0]

                def truthof(k):
                    it.assign(g0.target, itr.elem(k))
                    for q in g0.ifs:
                        if not it.cond(it.ev(q)):
                            return not is_any
                    return it.cond(it.ev(e.elt))
                return quant_core(it, itr, truthof, is_any)
            finally:
                it.frames.pop()
        finally:
            it.frames.pop()
    if isinstance(g, ConcSet):
        g = tuple(g.vals)
    itr = it.make_iter(g)
    if itr.kind == "conc":
        for x in itr.vals:
            b = it.cond(x)
            if b == is_any:
                return is_any
        return not is_any
    return quant_core(it, itr, lambda k: it.cond(itr.elem(k)), is_any)


def quant_core(it, itr, truthof, is_any):
    ctx = it.ctx
    ks = itr.S.sort().domain() if itr.kind == "set" else I
    n0 = ctx.n
    k = ctx.fresh("qe", ks)
    rng = (lambda y: z3.Select(itr.S, y)) if itr.kind == "set" else (lambda y: z3.And(0 <= y, y < itr.n))

    def body():
        ctx.assume(rng(k))
        return truthof(k)
    outs = ctx.sub_explore(body)
    c = Comp(it, None, "list")
    hit, all_alts = [], []
    for conds, facts, res, val, hp in outs:
        if res == "raise":
            wit = conj(list(conds) + list(facts))
            if ctx.feasible(wit):
                if ctx.subs:
                    raise EffectInComp("raise")
                if ctx.choose(2) == 1:
                    ctx.assume(wit)
                    raise PyRaise(val.cls, val.eargs, val.value)
            continue
        t = conj(list(conds) + list(facts))
        all_alts.append((t, conj(list(conds)), val))
    sk = c.skolem(k, n0, [t for t, _, _ in all_alts])
    r = ctx.fresh("any" if is_any else "all", B)
    good = disj([t for t, _, v in all_alts if v == is_any])
    # r_hit: some element decides the answer
    hit = r if is_any else z3.Not(r)
    w = ctx.fresh("qw", ks)
    ctx.assume(z3.Implies(hit, z3.And(rng(w), sk(good, w))))
    bad = disj([cc for _, cc, v in all_alts if v == is_any])
    pat = (lambda y: [z3.Select(itr.S, y)]) if itr.kind == "set" and not z3.is_K(itr.S) else None
    ctx.assume(z3.Implies(z3.Not(hit), forall(ks, lambda y: z3.Implies(rng(y), z3.And(z3.Not(sk(bad, y)), disj([sk(t, y) for t, _, _ in all_alts]))), pat)))
    return SBool(r)
