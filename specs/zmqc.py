"""C22: addresses parse to what they print, and malformed ones are rejected (ZMQConfig)."""
from vc.core import *
from vc.interp import World, Interp, Frame
from vc.spec import *

MOD, CLS = "scaled.utility.zmq_config", "ZMQConfig"
S = z3.StringSort()
INT_OK, INT = z3.Function("int_accepts", S, B), z3.Function("int_of_text", S, I)
SUPPORTED = ["inproc", "ipc", "tcp"]


TEXT = z3.Function("decimal_text", I, S)


def int_to_str(it, n):
    """contract of str(int): a decimal numeral, which int() reads back"""
    it.ctx.ex.assumed.add("str(n) of an integer is a decimal numeral (no ':' or '/'), and int() reads it back as n")
    t = TEXT(n)
    it.ctx.assume(z3.And(INT_OK(t), INT(t) == n))
    accepted(it, t)
    return SStr(t)


def accepted(it, s):
    # a text int() accepts is not empty and holds no character of the address syntax
    it.ctx.assume(z3.Implies(INT_OK(s), z3.And(z3.Length(s) >= 1, z3.Not(z3.Contains(s, ":")), z3.Not(z3.Contains(s, "/")))))


def str_to_int(it, s):
    """contract of int(str): some texts are refused with ValueError, the others mean a number"""
    it.ctx.ex.assumed.add("int(text) raises ValueError or returns the number the text stands for; it accepts no text with ':' or '/'")
    accepted(it, s)
    if not it.ctx.decide(INT_OK(s)):
        raise PyRaise("ValueError", ("invalid literal for int()",))
    return SInt(INT(s))


def world(prog):
    w = World(prog)
    w.str_mode = "S"
    w.str_to_int = str_to_int
    w.int_to_str = int_to_str
    return w


def unit(prog, name, body):
    def run(ctx):
        w = world(prog)
        it = Interp(ctx, w)
        it.frames.append(Frame(FuncV(None, MOD)))
        ci = it.reg(prog.cls(MOD, CLS))
        en = it.reg(prog.cls(MOD, "ZMQType"))
        ms = {m.value: m for m in prog.enum_members(en).values()}
        body(it, ctx, ClassV(ci.name, ci.module, ci), ms)
    return Unit(f"{CLS}.{name}", run, [f"{MOD}:{CLS}.to_address", f"{MOD}:{CLS}.from_string", f"{MOD}:{CLS}.__post_init__", f"{MOD}:ZMQType.allowed_types"], max_secs=150)


def tystr(it, cfg):
    return it.zs(it.getattr(it.getattr(cfg, "type"), "value"))


def port_is(it, p, want):
    """want: None or an int term"""
    if want is None:
        e = it.eq(p, None)
    else:
        n = None if p is None else it.num(p) if not (isinstance(p, SU)) else None
        if n is None and isinstance(p, SU) and isinstance(p.ty, TOpt):
            return z3.BoolVal(False)
        e = False if n is None else n == want
    return z3.BoolVal(e) if isinstance(e, bool) else e


def print_parse(prog, kind):
    def body(it, ctx, C, ms):
        ctx.ex.cases_all.add(f"print and parse a {kind} address")
        ctx.prove(f"{kind}: the type exists", kind in ms)
        host = SStr(z3.Const("host", S))
        args = [ms[kind], host]
        port = None
        if kind == "tcp":
            port = z3.Int("port")
            ctx.assume(z3.Not(z3.Contains(host.z, ":")))
            ctx.ex.assumed.add("C22: host names of tcp addresses hold no ':' (literal IPv6 addresses are not supported by scaled)")
            args.append(SInt(port))
        try:
            cfg = it.call(C, args, {})
        except PyRaise as e:
            ctx.fail(f"{kind}: a valid address is accepted", f"{e.cls} {e.where}")
            return
        try:
            text = it.call(it.getattr(cfg, "to_address"), [], {})
        except PyRaise as e:
            ctx.fail(f"{kind}: a valid address can be printed", f"{e.cls} {e.where}")
            return
        zt = it.zs(text)
        if kind == "tcp":
            want = z3.Concat(z3.StringVal("tcp://"), host.z, z3.StringVal(":"), it.zs(it.lib.to_str(it, SInt(port))))
        else:
            want = z3.Concat(z3.StringVal(kind + "://"), host.z)
        ctx.prove(f"{kind}: prints scheme, host and port", zt == want)
        try:
            back = it.call(it.getattr(C, "from_string"), [SStr(want)], {})
        except PyRaise as e:
            ctx.fail(f"{kind}: the printed text is accepted", f"{e.cls} {e.where}")
            return
        ctx.ex.cov.add(f"print and parse a {kind} address")
        ctx.prove(f"{kind}: type survives", tystr(it, back) == z3.StringVal(kind))
        ctx.prove(f"{kind}: host survives", it.zs(it.getattr(back, "host")) == host.z)
        ctx.prove(f"{kind}: port survives", port_is(it, it.getattr(back, "port"), port))
    return unit(prog, f"print_parse.{kind}", body)


def parse(prog):
    def body(it, ctx, C, ms):
        text = z3.Const("text", S)
        # the text either has no "://", or is scheme :// rest with the first one in the middle, and so on for host : port
        kinds = ["no separator", "unsupported scheme", "inproc", "ipc", "tcp without colon", "tcp with one colon", "tcp with more colons"]
        scheme, rest, h, p1 = [z3.Const(n, S) for n in ("scheme", "rest", "host", "port_text")]
        kind = kinds[ctx.choose(len(kinds))]
        ctx.ex.cases_all.update(f"from_string/{k}" for k in kinds)
        ctx.ex.cov.add(f"from_string/{kind}")
        if kind == "no separator":
            ctx.assume(z3.Not(z3.Contains(text, "://")))
        else:
            if kind == "unsupported scheme":
                ctx.assume(z3.And(*[scheme != z3.StringVal(m) for m in SUPPORTED]))
                ctx.assume(z3.Not(z3.Contains(z3.Concat(scheme, z3.StringVal(":/")), "://")))
            else:
                scheme = z3.StringVal(kind.split()[0])
            if kind == "tcp without colon":
                ctx.assume(z3.Not(z3.Contains(rest, ":")))
            if kind.endswith("colon") and "one" in kind or kind.endswith("colons"):
                ctx.assume(z3.Not(z3.Contains(h, ":")))
                ctx.assume(z3.Contains(p1, ":") if kind.endswith("colons") else z3.Not(z3.Contains(p1, ":")))
                rest = z3.Concat(h, z3.StringVal(":"), p1)
            text = z3.Concat(scheme, z3.StringVal("://"), rest)
        accepted(it, p1)
        sup = z3.BoolVal(kind not in kinds[:2])
        good = z3.BoolVal(kind in ("inproc", "ipc")) if kind != "tcp with one colon" else INT_OK(p1)
        try:
            cfg = it.call(it.getattr(C, "from_string"), [SStr(text)], {})
        except PyRaise as e:
            ctx.prove("a valid text is accepted", z3.Not(good))
            return
        if not isinstance(cfg, Rec) and not isinstance(cfg, Box):
            ctx.fail("a text is parsed to an address", repr(cfg))
            return
        ctx.prove("a text without a supported scheme is rejected", sup)
        ctx.assume(sup)
        t, h, p = tystr(it, cfg), it.zs(it.getattr(cfg, "host")), it.getattr(cfg, "port")
        ctx.prove("the type is the scheme of the text", t == scheme)
        if kind.startswith("tcp"):
            n = None if p is None or isinstance(p, (str, SStr)) else it.num(p)
            ctx.prove("a tcp address has an integer port", n is not None)
            if n is None:
                return
            # the port is the number written after the last colon, the host everything before it
            k = z3.Length(h)
            pt = z3.SubString(rest, k + 1, z3.Length(rest))
            accepted(it, pt)
            ctx.prove("the host is what stands before the port", z3.And(z3.PrefixOf(h, rest), z3.SubString(rest, k, 1) == z3.StringVal(":"), z3.Not(z3.Contains(pt, ":"))))
            ctx.prove("a text whose port is not an integer is rejected", INT_OK(pt))
            ctx.prove("the port is the number in the text", INT(pt) == n)
        else:
            ctx.prove("the host is the rest of the text", h == rest)
            ctx.prove("an ipc or inproc address has no port", port_is(it, p, None))
    return unit(prog, "from_string", body)


def refuse(prog, name, mk):
    def body(it, ctx, C, ms):
        args, ok = mk(it, ms)
        try:
            it.call(C, args, {})
        except PyRaise as e:
            ctx.prove(f"{name}: refused", True)
            return
        ctx.prove(f"{name}: refused", False)
    return unit(prog, f"refuse.{name}", body)


def units(prog):
    us = [print_parse(prog, k) for k in SUPPORTED] + [parse(prog)]
    H = lambda: SStr(z3.Const("host", S))
    P = lambda: SInt(z3.Int("port"))
    us.append(refuse(prog, "tcp without a port", lambda it, ms: ([ms["tcp"], H()], 0)))
    us.append(refuse(prog, "tcp with port None", lambda it, ms: ([ms["tcp"], H(), None], 0)))
    us.append(refuse(prog, "tcp with a textual port", lambda it, ms: ([ms["tcp"], H(), SStr(z3.Const("port_text", S))], 0)))
    us.append(refuse(prog, "tcp with a fractional port", lambda it, ms: ([ms["tcp"], H(), SReal(z3.Real("port"))], 0)))
    for k in ("ipc", "inproc"):
        us.append(refuse(prog, f"{k} with a port", lambda it, ms, k=k: ([ms[k], H(), P()], 0)))
        us.append(refuse(prog, f"{k} with a textual port", lambda it, ms, k=k: ([ms[k], H(), SStr(z3.Const("port_text", S))], 0)))
    us.append(refuse(prog, "a type that is text", lambda it, ms: ([SStr(z3.Const("type_text", S)), H(), P()], 0)))
    us.append(refuse(prog, "a numeric host", lambda it, ms: ([ms["tcp"], SInt(z3.Int("host")), P()], 0)))
    us.append(refuse(prog, "a host of bytes", lambda it, ms: ([ms["ipc"], SU(z3.Const("host_bytes", U), BYTES)], 0)))
    us.append(refuse(prog, "no host", lambda it, ms: ([ms["tcp"], None, P()], 0)))
    return us
