"""C01: every message survives serialize/deserialize."""
from vc.core import *
from vc.interp import World, Interp, Frame, CARD, TUnk, Poison
from vc.spec import *
from specs.maps import S_, T_, F_
from specs.frames import table, message_classes, MSG
from vc.ev import *
import re

R = z3.RealSort()
F32 = z3.Function("to_single_precision", R, R)
CODES = {"I": (I, 0, 2 ** 32), "H": (I, 0, 2 ** 16), "Q": (I, 0, 2 ** 64), "B": (I, 0, 2 ** 8), "i": (I, -2 ** 31, 2 ** 31), "h": (I, -2 ** 15, 2 ** 15), "q": (I, -2 ** 63, 2 ** 63), "b": (I, -128, 128),
         "L": (I, 0, 2 ** 32), "?": (B, 0, 0), "f": (R, 0, 0), "d": (R, 0, 0)}


def codes(fmt):
    out = []
    for n, c in re.findall(r"(\d*)([A-Za-z?])", fmt.lstrip("@=<>!")):
        if c not in CODES:
            raise Unsupported(f"struct code {c}")
        out += [c] * int(n or 1)
    return out


def pack(it, a, k):
    fmt, vals = a[0], a[1:]
    if not isinstance(fmt, str):
        raise Unsupported("computed struct format")
    cs = codes(fmt)
    if len(cs) != len(vals):
        raise PyRaise("struct.error", ("number of values",))
    zs = []
    for c, v in zip(cs, vals):
        s, lo, hi = CODES[c]
        if s == I:
            n = it.num(v)
            if n is None:
                raise PyRaise("struct.error", ("required argument is not an integer",))
            n = z3.IntVal(n) if isinstance(n, int) else n
            if not it.ctx.decide(z3.And(lo <= n, n < hi)):
                raise PyRaise("struct.error", ("out of range",))
            zs.append(n)
        elif s == R:
            r = it.real(v)
            zs.append(r if z3.is_expr(r) else z3.RealVal(r))
        else:
            b = it.truth(v)
            zs.append(z3.BoolVal(b) if isinstance(b, bool) else b)
    p = z3.Function(f"pack_{fmt}", *[CODES[c][0] for c in cs], U)(*zs)
    it.ctx.assume(p != NONE)
    it.ctx.assume(VALID(fmt)(p))
    for j, (c, z) in enumerate(zip(cs, zs)):
        it.ctx.assume(part(fmt, j, c)(p) == (F32(z) if c == "f" else z))
    if cs == ["I"]:
        # the same for every number, not only this one
        pk = p.decl()
        it.ctx.assume(forall(I, lambda x: z3.Implies(z3.And(0 <= x, x < 2 ** 32), z3.And(pk(x) != NONE, VALID(fmt)(pk(x)), part(fmt, 0, "I")(pk(x)) == x)), lambda x: [pk(x)]))
    return SU(p, BYTES)


def VALID(fmt):
    return z3.Function(f"packed_{fmt}", U, B)


def part(fmt, j, c):
    return z3.Function(f"unpack_{fmt}_{j}", U, CODES[c][0])


def unpack(it, a, k):
    fmt, b = a
    if not isinstance(fmt, str):
        raise Unsupported("computed struct format")
    z = it.to_u(b)
    if not it.ctx.decide(VALID(fmt)(z)):
        raise PyRaise("struct.error", ("not packed with this format",))
    out = []
    for j, c in enumerate(codes(fmt)):
        t = part(fmt, j, c)(z)
        s, lo, hi = CODES[c]
        if s == I:
            it.ctx.assume(z3.And(lo <= t, t < hi))
        out.append({I: SInt, B: SBool, R: SReal}[s](t))
    return tuple(out)


def fits(it, cls, m):
    """the values fit the wire format"""
    n = lambda f: it.num(it.getattr(m, f))
    r = lambda f: it.real(it.getattr(m, f))
    ln = lambda f: it.num(it.length(it.getattr(m, f)))
    if cls == "BalanceRequest":
        return [z3.And(0 <= n("number_of_tasks"), n("number_of_tasks") < 2 ** 32)]
    if cls == "BalanceResponse":
        return [ln("task_ids") < 2 ** 32]
    if cls == "Heartbeat":
        return [z3.And(0 <= r(f), r(f) < 65) for f in ("agent_cpu", "worker_cpu")] + [z3.And(0 <= n(f), n(f) < 2 ** 64) for f in ("agent_rss", "worker_rss")] + \
            [z3.And(0 <= n("queued_tasks"), n("queued_tasks") < 2 ** 16), z3.And(0 <= n("latency_us"), n("latency_us") < 2 ** 32)]
    if cls == "GraphTask":
        return [ln("functions") < 2 ** 32, ln("targets") < 2 ** 32]
    return []


def field_eq(it, cls, name, got, exp):
    if cls == "Heartbeat" and name in ("agent_cpu", "worker_cpu"):
        g, e = it.real(got), it.real(exp)
        if g is None:
            return F_
        return z3.And(g <= e, e - g <= z3.RealVal("0.001"))
    if cls == "TaskResult" and name == "duration":
        g = it.real(got)
        return F_ if g is None else g == F32(it.real(exp))
    return val_eq(it, got, it.freeze(exp))


def proto_world(prog):
    w = World(prog)
    w.libs["struct.pack"] = pack
    w.libs["struct.unpack"] = unpack
    w.dict_ordered = True
    return w


FLEN = z3.Function("frames_of_task", U, I)                     # what Task.serialize returns: number of frames ...
FARR = z3.Function("frame_of_task", U, z3.ArraySort(I, U))      # ... and the frames
VAL = z3.Function("value_of_task", U, U)                        # equality of tasks by value
OFF = z3.Function("offset_of_node", I, I)                       # ghost: where the frames of the k-th graph node start


class GraphFrames:
    """GraphTask is checked against the contract of Task (itself proved by Task.round_trip): ghost offsets and loop invariants"""

    def __init__(self, it, msg):
        self.it = it
        ls = it.leaves_of(it.getattr(msg, "graph"))[1]
        self.n, self.G = ls[0], ls[1]
        ctx = it.ctx
        ctx.ex.assumed.add("a graph node has fewer than 2**32 - 2 frames")
        fmt = z3.Function("pack_I", I, U)
        self.pack = fmt
        ctx.assume(forall(U, lambda r: z3.And(1 <= FLEN(r), FLEN(r) < 2 ** 32), lambda r: [FLEN(r)]))
        ctx.assume(forall([U, I], lambda r, j: z3.Implies(z3.And(0 <= j, j < FLEN(r)), S_(FARR(r), j) != NONE), lambda r, j: [S_(FARR(r), j)]))
        ctx.assume(OFF(0) == 0)
        ctx.assume(forall(I, lambda k: z3.Implies(0 <= k, OFF(k + 1) == OFF(k) + 1 + FLEN(S_(self.G, k))), lambda k: [S_(self.G, k)]))
        # lemma: offsets grow (induction on the distance)
        a, b = ctx.fresh("a", I), ctx.fresh("b", I)
        step = lambda k: OFF(k + 1) == OFF(k) + 1 + FLEN(S_(self.G, k))
        ctx.prove("GraphTask: lemma: offsets grow", z3.Implies(z3.And(0 <= a, step(a)), OFF(a + 1) > OFF(a)))
        ctx.prove("GraphTask: lemma: offsets grow (step)", z3.Implies(z3.And(0 <= a, a < b, OFF(a) < OFF(b), step(b)), OFF(a) < OFF(b + 1)))
        ctx.assume(forall([I, I], lambda x, y: z3.Implies(z3.And(0 <= x, x < y), OFF(x) < OFF(y)), lambda x, y: [z3.MultiPattern(OFF(x), OFF(y))]))
        ctx.assume(forall([I, I], lambda x, y: z3.Implies(z3.And(0 <= x, x < y), OFF(x + 1) <= OFF(y)), lambda x, y: [z3.MultiPattern(S_(self.G, x), OFF(y))]))
        it.w.loop_pool.append(self.pool)

    def serialize(self, it, obj, args, kw):
        r = it.to_u(obj)
        mem = it.ctx.fresh("framesmem", z3.ArraySort(U, I))
        ls = [FLEN(r), FARR(r), mem]
        it.memfacts(ls)
        return Snap(TSeq(BYTES), ls)

    def deserialize(self, it, obj, args, kw):
        d = it.fresh_value("decoded", TRef("Task"))
        ls = it.leaves_of(args[0])[1]
        j = z3.Const("j_frame", I)
        if it.loopstack:
            k = z3.Const(f"i@{it.loopstack[-1].tag}", I)
            r = S_(self.G, k)
            same = z3.And(0 <= k, k < self.n, ls[0] == FLEN(r), forall(I, lambda j: z3.Implies(z3.And(0 <= j, j < FLEN(r)), S_(ls[1], j) == S_(FARR(r), j)), lambda j: [S_(FARR(r), j)]))
            it.ctx.assume(z3.Implies(same, VAL(it.to_u(d)) == VAL(r)))
        return d

    def pool(self, it, loop, entry, cur, locs, D, i):
        out = []
        G, n = self.G, self.n
        upto = z3.And
        for k in sorted(loop.info.mods, key=str):
            ty = it.ctx.ktype.get(k)
            if k not in cur or k not in entry or not isinstance(ty, TList):
                continue
            c, e = cur[k], entry[k]
            if repr(ty.e) == repr(BYTES):
                base = e[0]
                out += [(f"{k}|frames so far", c[0] == base + OFF(i)),
                        (f"{k}|frame counts", forall(I, lambda x: z3.Implies(z3.And(0 <= x, x < i), S_(c[1], base + OFF(x)) == self.pack(FLEN(S_(G, x)))), lambda x: [S_(G, x)])),
                        (f"{k}|node frames", forall([I, I], lambda x, j: z3.Implies(z3.And(0 <= x, x < i, 0 <= j, j < FLEN(S_(G, x))), S_(c[1], base + OFF(x) + 1 + j) == S_(FARR(S_(G, x)), j)),
                                                    lambda x, j: [S_(FARR(S_(G, x)), j)]))]
            elif isinstance(ty.e, TRef):
                out += [(f"{k}|decoded so far", c[0] == e[0] + i),
                        (f"{k}|decoded nodes", forall(I, lambda x: z3.Implies(z3.And(0 <= x, x < i), VAL(S_(c[1], e[0] + x)) == VAL(S_(G, x))), lambda x: [S_(G, x)])),
                        (f"{k}|decoded nodes'", forall(I, lambda x: z3.Implies(z3.And(0 <= x, x < i), VAL(S_(c[1], e[0] + x)) == VAL(S_(G, x))), lambda x: [S_(c[1], x)]))]
        out.append(("not past the last node", i <= n))
        for nm, t in loop.info.locals.items():
            if t != "poison" and isinstance(t, TInt) and nm in loop.entry_locals:
                a, b = it.num(loop.entry_locals[nm]), it.num(locs.get(nm)) if not isinstance(locs.get(nm), Poison) else None
                if a is not None and b is not None:
                    out.append((f"{nm}=+offset", b == a + OFF(i)))
        return out


def arrives(it, t, a, z):
    """the frame z carries the value a (an enumeration member travels as its value)"""
    if isinstance(t, TEnum):
        ms = list(dict.fromkeys(it.prog.enum_members(it.find_class(t.cls)).values()))
        return conj([(z == it.to_u(m.value)) == (a == it.to_u(m)) for m in ms])
    return z == a


def pairs_pool(items, types):
    """loop invariants: a list of frames that grows by the two frames of each argument"""
    def pool(it, loop, entry, cur, locs, D, i):
        out = []
        n, arrs = items[0], items[1:]
        m = len(arrs)
        for k in sorted(loop.info.mods, key=str):
            ty = it.ctx.ktype.get(k)
            if k in cur and k in entry and isinstance(ty, TList) and repr(ty.e) == repr(BYTES):
                c, e = cur[k], entry[k]
                out.append((f"{k}|frames so far", c[0] == e[0] + m * i))
                for r, a in enumerate(arrs):
                    out.append((f"{k}|frame {r}", forall(I, lambda x: z3.Implies(z3.And(0 <= x, x < i), arrives(it, types[r], S_(a, x), S_(c[1], e[0] + m * x + r))), lambda x: [S_(a, x)])))
            elif k in cur and k in entry and isinstance(ty, TList) and len(ty.e.sorts()) == m:
                c, e = cur[k], entry[k]
                out.append((f"{k}|one per step", c[0] == e[0] + i))
                for r, a in enumerate(arrs):
                    for p in (lambda x: [S_(c[1 + r], x)], lambda x: [S_(a, x)]):
                        out.append((f"{k}|item {r}", z3.And(e[0] == 0, forall(I, lambda x: z3.Implies(z3.And(0 <= x, x < i), S_(c[1 + r], x) == S_(a, x)), p))))
        return out
    return pool


def round_trip(prog, k, cls):
    def body(ctx):
        w = proto_world(prog)
        it = Interp(ctx, w)
        it.frames.append(Frame(FuncV(None, MSG)))
        ci = prog.cls(MSG, cls)
        it.reg(ci)
        ctx.ex.assumed.add("struct.pack and struct.unpack are inverse on values that fit the format (single precision for 'f')")
        if cls == "GraphTask":
            w.refs.add("Task")
            w.no_mem = w.tidy_slices = True
        msg = it.fresh_value("message", it.class_type(ci))
        if cls == "Task":
            al, ats = it.leaves_of(it.getattr(msg, "function_args"))[1], [t for _, t in it.field_types("Argument", MSG)]
            for a, t in zip(al[1:], ats):
                if isinstance(t, TEnum):
                    ms = list(dict.fromkeys(prog.enum_members(it.find_class(t.cls)).values()))
                    ctx.assume(forall(I, lambda x: z3.Implies(z3.And(0 <= x, x < al[0]), disj([S_(a, x) == it.to_u(m) for m in ms])), lambda x: [S_(a, x)]))
            w.loop_pool.append(pairs_pool(al, ats))
        if cls == "GraphTask":
            g = GraphFrames(it, msg)
            w.contracts["Task.serialize"] = g.serialize
            w.contracts["Task.deserialize"] = g.deserialize
        for f in fits(it, cls, msg):
            ctx.assume(f)
        nm = cls
        try:
            frames = it.run_method(msg, "serialize", [])
            data = it.lib.call(it, "list", [frames], {}) if not isinstance(frames, tuple) else it.make_list(list(frames))
            back = it.call(it.getattr(ClassV(ci.name, ci.module, ci), "deserialize"), [data], {})
        except PyRaise as e:
            ctx.fail(f"{nm}: raised {e.cls} {e.where}", str(e.eargs))
            return
        ctx.prove(f"{nm}: decodes as the kind sent", isinstance(back, Rec) and back.cls == cls)
        n = it.length(frames) if not isinstance(frames, tuple) else len(frames)
        ctx.prove(f"{nm}: has a payload frame, so the receiver accepts it", it.num(n) >= 1)
        if isinstance(back, Rec) and back.cls == cls:
            for f in msg.fields:
                if cls == "GraphTask" and f == "graph":
                    b = it.leaves_of(it.freeze(back.fields[f]))[1] if isinstance(back.fields[f], (Box, Snap)) and not isinstance(back.fields[f].ty if isinstance(back.fields[f], Snap) else it.leaves_of(back.fields[f])[0], TUnk) else None
                    ctx.prove(f"{nm}: as many graph nodes arrive", g.n == 0 if b is None else b[0] == g.n)
                    if b is not None:
                        ctx.prove(f"{nm}: every graph node arrives unchanged, in order", forall(I, lambda x: z3.Implies(z3.And(0 <= x, x < g.n), VAL(S_(b[1], x)) == VAL(S_(g.G, x))), lambda x: [S_(g.G, x)]))
                    continue
                ty, ls = it.leaves_of(msg.fields[f]) if isinstance(msg.fields[f], (Box, Snap)) else (None, None)
                if isinstance(ty, TDict) and ty.ordered:
                    pos = z3.Function(f"ordpos_{U}", z3.ArraySort(U, B), z3.ArraySort(I, U), U, I)
                    for h in ctx.hooks.get("dict_keys", []):
                        ctx.assume(forall(U, lambda x: z3.Implies(S_(ls[0], x), h(pos(ls[0], ls[1], x))), lambda x: [S_(ls[0], x)]))
                    # dictionaries are equal when keys and values are (their order does not count)
                    b = back.fields[f]
                    tb, lb = it.leaves_of(b) if isinstance(b, (Box, Snap)) else (None, None)
                    if isinstance(tb, TUnk):
                        ctx.prove(f"{nm}: {f}: nothing lost", CARD(ls[0]) == 0)
                    elif not isinstance(tb, TDict) or len(tb.v.sorts()) != len(ty.v.sorts()):
                        ctx.fail(f"{nm}: {f} arrives unchanged", repr(b)[:200])
                    else:
                        ctx.prove(f"{nm}: {f}: the same keys arrive", lb[0] == ls[0])
                        for q, (x, y) in enumerate(zip(lb[tb.nhead:], ls[ty.nhead:])):
                            ctx.prove(f"{nm}: {f}: every value arrives unchanged ({q})", forall(U, lambda k: z3.Implies(S_(ls[0], k), S_(x, k) == S_(y, k))))
                    continue
                ctx.prove(f"{nm}: {f} arrives unchanged", field_eq(it, cls, f, back.fields[f], msg.fields[f]))
    return Unit(f"{cls}.round_trip", body, [f"{MSG}:{cls}.serialize", f"{MSG}:{cls}.deserialize"])


def tags(prog):
    def body(ctx):
        w = proto_world(prog)
        it = Interp(ctx, w)
        it.frames.append(Frame(FuncV(None, MSG)))
        items = table(it)
        names = [c.name for _, c in items]
        for c in message_classes(prog):
            ctx.prove(f"tags: {c.name} has exactly one tag", names.count(c.name) == 1)
        ctx.prove("tags: every tag belongs to one kind", len({k.value for k, _ in items}) == len(items))
    return Unit("PROTOCOL.tags", body, [f"{MSG}:PROTOCOL"])


def units(prog):
    return [tags(prog)] + [round_trip(prog, None, c.name) for c in message_classes(prog)]
