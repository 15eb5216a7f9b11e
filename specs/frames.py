"""C23 (framing and dispatch) and the message counters of C25: AsyncBinder, AsyncConnector, SyncConnector, Scheduler.on_receive_message, Worker."""
from vc.core import *
from vc.interp import World, Interp, Frame, CARD, Event, Repeat, TUnk, ConcDict
from vc.spec import *
from specs.maps import S_, T_, F_
from vc.ev import *

STR = TU("str")
COUNTS = TDict(STR, TDict(STR, TInt(), default="int"))
MSG = "scaled.protocol.python.message"


def frames_world(prog, cls):
    w = World(prog)
    w.schemas[cls] = {"_statistics": COUNTS}
    w.attrs[(cls, "_socket")] = lambda it, o: SU(z3.Const("the_socket", U), TU("socket"))
    w.attrs[("socket", "send_multipart")] = lambda it, o: BuiltinF("send_multipart", lambda a, k: wire(it, a[0] if a else k["msg_parts"]))
    w.attrs[("socket", "recv_multipart")] = lambda it, o: BuiltinF("recv_multipart", lambda a, k: CoroV(lambda: it.ctx.hooks["frames"]))
    w.opaque_call = callback
    names = [c.name for c in message_classes(prog)]
    for n in names:
        w.contracts[f"{n}.deserialize"] = decode(n)
        w.contracts[f"{n}.serialize"] = encode(n)
    return w


def message_classes(prog):
    out = []
    for n in prog.module(MSG).names:
        r = prog.resolve(MSG, n)
        if r and r[0] == "class" and r[1].module == MSG and prog.find_method(r[1], "serialize") and n not in ("_Message", "Argument"):
            out.append(r[1])
    return out


def wire(it, frames):
    def go():
        it.emit("wire", None, frames)
    return CoroV(go)


def decode(cls):
    """contract of a message's deserialize (C01): a message of this kind with exactly this payload"""
    def f(it, obj, args, kw):
        p = args[0]
        it.log.append(Event("decode", cls, it.freeze(p)))
        ci = it.find_class(cls)
        return it.fresh_value("decoded_" + cls, it.class_type(ci))
    return f


def encode(cls):
    """contract of a message's serialize (C01): some frames"""
    def f(it, obj, args, kw):
        return it.ctx.hooks["payload"]
    return f


def callback(it, f, args, kw):
    if isinstance(f.ty, TOpt) or f.ty == ANY:
        if not it.ctx.decide(f.z != NONE):
            raise PyRaise("TypeError", ("'NoneType' object is not callable",))
    it.log.append(Event("callback", None, tuple(it.freeze(a) for a in args)))
    return CoroV(lambda: None)


def stats(it, me):
    return list(it.read(it.getattr(me, "_statistics")))


def counted(it, s0, s1, kind, name):
    """exactly the counter of this kind of message grew by one"""
    K = it.to_u(kind)
    other = forall([U, U], lambda a, b: z3.Implies(z3.And(S_(s0[0], a), z3.Or(a != K, b != name)), z3.And(S_(S_(s1[1], a), b) == S_(S_(s0[1], a), b), S_(S_(s1[2], a), b) == S_(S_(s0[2], a), b))))
    old = z3.If(S_(S_(s0[1], K), name), S_(S_(s0[2], K), name), 0)
    return [("only this counter changes", other), ("the counter of this kind grows by one", z3.And(S_(S_(s1[1], K), name), S_(S_(s1[2], K), name) == old + 1)), ("counter tables", s1[0] == s0[0])]


def sub_list_eq(it, got, ls, off):
    """the list got is ls[off:]"""
    v = it.freeze(got)
    gl = it.leaves_of(v)[1] if isinstance(v, Snap) and not isinstance(v.ty, TUnk) else None
    if gl is None:
        return ls[0] == off
    return z3.And(gl[0] == ls[0] - off, forall(I, lambda i: z3.Implies(z3.And(0 <= i, i < gl[0]), S_(gl[1], i) == S_(ls[1], i + off))))


def table(it):
    t = it.resolve_global(MSG, "PROTOCOL")
    if not isinstance(t, ConcDict):
        raise Unsupported("protocol table")
    return t.items


def recv_unit(prog, mod, cls, head):
    """routine(): head = 1 if the sender comes first"""
    def body(ctx):
        w = frames_world(prog, cls)
        it = Interp(ctx, w)
        ci = prog.cls(mod, cls)
        it.reg(ci)
        it.frames.append(Frame(FuncV(None, mod)))
        me = Obj(ci, "me")
        ctx.hooks["me"] = me
        st0 = stats(it, me)
        ctx.assume(z3.And(S_(st0[0], it.to_u("received")), S_(st0[0], it.to_u("sent"))))
        fr = it.fresh_value("frames", TList(BYTES))
        ctx.hooks["frames"] = fr
        ls = [l for l in it.leaves_of(fr)[1]]
        cb = it.getattr(me, "_callback")
        if head:
            ctx.assume(it.to_u(cb) != NONE)
            ctx.ex.assumed.add("a callback is registered before the routine runs")
        items = table(it)
        tag = S_(ls[1], head)
        known = z3.And(ls[0] >= head + 2, disj([tag == it.to_u(k.value) for k, _ in items]))
        cases = [("malformed or unknown", z3.Not(known), None)] + [(k.name, tag == it.to_u(k.value), (k, c)) for k, c in items]
        ctx.ex.cases_all |= {c[0] for c in cases}
        pick = None
        for c in cases[:-1]:
            if ctx.decide(c[1]):
                pick = c
                break
        pick = pick or cases[-1]
        ctx.ex.cov.add(pick[0])
        nm = f"{cls}.routine [{pick[0]}]"
        try:
            it.run_method(me, "routine", [])
        except PyRaise as e:
            ctx.fail(f"{nm}: raised {e.cls} {e.where}", str(e.eargs))
            return
        st1 = stats(it, me)
        ev = [e for e in it.log if e.chan in ("callback", "wire", "decode")]
        if pick[2] is None:
            if ev:
                ctx.fail(f"{nm}: a frame list that is no message is handed on", repr(ev)[:300])
            else:
                ctx.prove(f"{nm}: dropped", True)
            ctx.prove(f"{nm}: counters unchanged", conj([a == b for a, b in zip(st0, st1)]))
            return
        k, c = pick[2]
        if not head and ctx.decide(it.to_u(cb) == NONE):
            ctx.prove(f"{nm}: nobody to hand it to", not any(e.chan == "callback" for e in ev))
            return
        dec = [e for e in ev if e.chan == "decode"]
        cbs = [e for e in ev if e.chan == "callback"]
        if len(dec) != 1 or len(cbs) != 1 or len(ev) != 2:
            ctx.fail(f"{nm}: decoded once and handed on once", repr(ev)[:300])
            return
        ctx.prove(f"{nm}: decoded as the kind its tag names", dec[0].to == c.name)
        ctx.prove(f"{nm}: decoded from exactly its payload", sub_list_eq(it, dec[0].msg, ls, head + 1))
        a = cbs[0].msg
        if len(a) != head + 1 or not isinstance(a[-1], Rec):
            ctx.fail(f"{nm}: handed to the callback with its sender", repr(a)[:300])
            return
        ctx.prove(f"{nm}: the decoded message is handed on", a[-1].cls == c.name)
        if head:
            ctx.prove(f"{nm}: with its true sender", val_eq(it, a[0], SU(S_(ls[1], 0), BYTES)))
        ctx.prove(f"{nm}: the tag names its kind", k.name == c.name)
        for n, f in counted(it, st0, st1, "received", it.to_u(k.name)):
            ctx.prove(f"{nm}: {n}", f)
    return Unit(f"{cls}.routine", body, [f"{mod}:{cls}.routine"])


def send_unit(prog, mod, cls, head):
    def body(ctx):
        w = frames_world(prog, cls)
        it = Interp(ctx, w)
        ci = prog.cls(mod, cls)
        it.reg(ci)
        it.frames.append(Frame(FuncV(None, mod)))
        me = Obj(ci, "me")
        ctx.hooks["me"] = me
        st0 = stats(it, me)
        ctx.assume(z3.And(S_(st0[0], it.to_u("received")), S_(st0[0], it.to_u("sent"))))
        items = table(it)
        ctx.ex.cases_all |= {k.name for k, _ in items}
        which = ctx.fresh("kind", I)
        for j, (k, c) in enumerate(items):
            if j == len(items) - 1 or ctx.decide(which == j):
                break
        ctx.ex.cov.add(k.name)
        nm = f"{cls}.send [{k.name}]"
        msg = it.fresh_value("message", it.class_type(c.node))
        pl = it.fresh_value("payload", TList(BYTES))
        ctx.hooks["payload"] = pl
        ls = it.leaves_of(pl)[1]
        to = it.fresh_value("to", BYTES)
        try:
            it.run_method(me, "send", [to, msg] if head else [msg])
        except PyRaise as e:
            ctx.fail(f"{nm}: raised {e.cls} {e.where}", str(e.eargs))
            return
        ev = [e for e in it.log if e.chan == "wire"]
        if len(ev) != 1 or len(it.log) != 1:
            ctx.fail(f"{nm}: exactly one message is sent", repr(it.log)[:300])
            return
        v = ev[0].msg
        if not isinstance(v, Snap):
            ctx.fail(f"{nm}: frames", repr(v)[:200])
            return
        g = it.leaves_of(v)[1]
        ctx.prove(f"{nm}: as many frames as the payload and the header", g[0] == ls[0] + head + 1)
        if head:
            ctx.prove(f"{nm}: the receiver comes first", S_(g[1], 0) == it.to_u(to))
        ctx.prove(f"{nm}: its own tag", S_(g[1], head) == it.to_u(k.value))
        ctx.prove(f"{nm}: then the payload in order", forall(I, lambda i: z3.Implies(z3.And(0 <= i, i < ls[0]), S_(g[1], i + head + 1) == S_(ls[1], i))))
        for n, f in counted(it, st0, stats(it, me), "sent", it.to_u(k.name)):
            ctx.prove(f"{nm}: {n}", f)
    return Unit(f"{cls}.send", body, [f"{mod}:{cls}.send"])


def units(prog):
    B, C = ("scaled.io.async_binder", "AsyncBinder"), ("scaled.io.async_connector", "AsyncConnector")
    return [recv_unit(prog, *B, 1), send_unit(prog, *B, 1), recv_unit(prog, *C, 0), send_unit(prog, *C, 0)]


# ------------------------------------------------------------------------------------------------ the blocking connector (client, processor)
SC = ("scaled.io.sync_connector", "SyncConnector")


def sync_world(prog):
    w = frames_world(prog, "SyncConnector")
    native = lambda name, fn: lambda it, o: BuiltinF(name, lambda a, k: fn(it, a, k))
    w.attrs[("SyncConnector", "_stop_event")] = lambda it, o: SU(z3.Const("stop_event", U), TU("stopev"))
    w.attrs[("stopev", "is_set")] = native("is_set", lambda it, a, k: SBool(it.ctx.fresh("stop", B)))
    w.attrs[("SyncConnector", "_send_queue")] = lambda it, o: SU(z3.Const("send_queue", U), TU("sendq"))
    w.attrs[("sendq", "empty")] = native("empty", lambda it, a, k: SBool(it.ctx.fresh("queue_empty", B)))
    w.attrs[("sendq", "put")] = native("put", lambda it, a, k: it.emit("queued", None, a[0]))
    w.attrs[("sendq", "get")] = native("get", take)
    w.attrs[("SyncConnector", "_statistics_mutex")] = lambda it, o: SU(z3.Const("stat_mutex", U), TU("mutex"))
    w.attrs[("mutex", "__enter__")] = native("__enter__", lambda it, a, k: None)
    w.attrs[("mutex", "__exit__")] = native("__exit__", lambda it, a, k: None)
    w.attrs[("socket", "poll")] = native("poll", lambda it, a, k: SInt(nonneg(it, "ready")))
    w.attrs[("socket", "close")] = native("close", lambda it, a, k: None)
    w.attrs[("socket", "recv_multipart")] = native("recv_multipart", receive)
    w.attrs[("socket", "send_multipart")] = native("send_multipart", lambda it, a, k: it.emit("wire", None, a[0] if a else k["msg_parts"]))
    cell = lambda it, n: it.to_u(it.getattr(it.ctx.hooks["me"], n))
    w.opaque_call = lambda it, f, a, k: it.log.append(Event("exit" if f.z.eq(cell(it, "_exit_callback")) else "callback", None, tuple(it.freeze(x) for x in a)))
    return w


def nonneg(it, n):
    z = it.ctx.fresh(n, I)
    it.ctx.assume(z >= 0)
    return z


def receive(it, a, k):
    fr = it.fresh_value("frames", TList(BYTES))
    it.log.append(Event("recv", None, it.freeze(fr)))
    return fr


def take(it, a, k):
    items = table(it)
    which = it.ctx.fresh("kind", I)
    for j, (kk, c) in enumerate(items):
        if j == len(items) - 1 or it.ctx.decide(which == j):
            break
    msg = it.fresh_value("message", it.class_type(c.node))
    pl = it.fresh_value("payload", TList(BYTES))
    it.log.append(Event("taken", kk, it.freeze(msg), it.freeze(pl)))
    it.ctx.hooks["payload"] = pl
    return msg


def walk(it, nm, log, facts, items, seen):
    """every frame list received is dropped exactly if it is no message, and otherwise decoded and handed on once; every message taken from the queue is sent once"""
    pr = lambda n, f: it.ctx.prove(f"{nm}: {n}", z3.Implies(conj(facts), f if not isinstance(f, bool) else z3.BoolVal(f)))
    log = [e for e in log if not (isinstance(e, Event) and e.chan not in ("recv", "decode", "callback", "taken", "wire"))]
    i = 0
    while i < len(log):
        e = log[i]
        nxt = [x.chan if isinstance(x, Event) else "loop" for x in log[i + 1:i + 3]]
        if isinstance(e, Repeat):
            for fs, evs in e.alts or []:
                walk(it, nm, evs, facts + list(fs), items, seen)
            i += 1
        elif e.chan == "taken":
            seen.add("sent")
            if nxt[:1] != ["wire"]:
                it.ctx.fail(f"{nm}: a message taken from the queue is sent", repr(log)[:300])
                return
            ls = it.leaves_of(e.extra)[1]
            v = log[i + 1].msg
            if not isinstance(v, Snap):
                it.ctx.fail(f"{nm}: frames", repr(v)[:200])
                return
            g = it.leaves_of(v)[1]
            pr(f"sent as tag and payload [{e.to.name}]", z3.And(g[0] == ls[0] + 1, S_(g[1], 0) == it.to_u(e.to.value), forall(I, lambda k: z3.Implies(z3.And(0 <= k, k < ls[0]), S_(g[1], k + 1) == S_(ls[1], k)))))
            i += 2
        elif e.chan == "recv":
            ls = it.leaves_of(e.msg)[1]
            known = z3.And(ls[0] >= 2, disj([S_(ls[1], 0) == it.to_u(k.value) for k, _ in items]))
            if nxt[:2] == ["decode", "callback"]:
                d, c = log[i + 1], log[i + 2]
                seen.add(d.to)
                pr("only a message is handed on", known)
                pr(f"decoded as the kind its tag names [{d.to}]", conj([S_(ls[1], 0) != it.to_u(k.value) for k, x in items if x.name != d.to]))
                pr(f"decoded from exactly its payload [{d.to}]", sub_list_eq(it, d.msg, ls, 1))
                pr(f"the decoded message is handed on [{d.to}]", len(c.msg) == 1 and isinstance(c.msg[0], Rec) and c.msg[0].cls == d.to)
                i += 3
            else:
                seen.add("dropped")
                pr("only what is no message is dropped", z3.Not(known))
                i += 1
        else:
            it.ctx.fail(f"{nm}: {e.chan} without a message received or taken", repr(log)[:300])
            return


def sync_run(prog):
    def body(ctx):
        w = sync_world(prog)
        w.contracts["SyncConnector.__count_one"] = lambda it, o, a, k: None
        it = Interp(ctx, w)
        ci = prog.cls(*SC)
        it.reg(ci)
        it.frames.append(Frame(FuncV(None, SC[0])))
        me = Obj(ci, "me")
        ctx.hooks["me"] = me
        st0 = stats(it, me)
        ctx.assume(z3.And(S_(st0[0], it.to_u("received")), S_(st0[0], it.to_u("sent"))))
        items = table(it)
        need = ctx.ex.cases_all
        need |= {f"run/{c.name}" for _, c in items} | {"run/sent", "run/dropped"}
        nm = "SyncConnector.run"
        try:
            it.run_method(me, "run", [])
        except PyRaise as e:
            ctx.fail(f"{nm}: raised {e.cls} {e.where}", str(e.eargs))
            return
        seen = set()
        walk(it, nm, it.log, [], items, seen)
        ctx.ex.cov |= {"run/" + x for x in seen}
    return Unit("SyncConnector.run", body, ["scaled.io.sync_connector:SyncConnector.run"])


def sync_send(prog):
    def body(ctx):
        w = sync_world(prog)
        it = Interp(ctx, w)
        ci = prog.cls(*SC)
        it.reg(ci)
        it.frames.append(Frame(FuncV(None, SC[0])))
        me = Obj(ci, "me")
        ctx.hooks["me"] = me
        msg = it.fresh_value("message", BYTES)
        it.run_method(me, "send", [msg])
        ev = it.log
        ctx.prove("SyncConnector.send: the message is queued once", len(ev) == 1 and isinstance(ev[0], Event) and ev[0].chan == "queued")
        if len(ev) == 1:
            ctx.prove("SyncConnector.send: unchanged", val_eq(it, ev[0].msg, msg))
    return Unit("SyncConnector.send", body, ["scaled.io.sync_connector:SyncConnector.send"])


_units0 = units


def units(prog):
    return _units0(prog) + [sync_run(prog), sync_send(prog)]


# ------------------------------------------------------------------------------------------------ routing to the responsible component
def components(w, prog, cls, comps):
    """the fields of cls become components whose method calls are recorded"""
    import ast
    for field, (mod, ccls) in comps.items():
        ci = prog.cls(mod, ccls)
        tag = "component" + field
        w.attrs[(cls, field)] = lambda it, o, tag=tag: SU(z3.Const(tag, U), TU(tag))
        for c in reversed(prog.mro(ci)):
            for n, node in c.methods.items():
                def call(it, a, k, field=field, n=n, node=node):
                    names = [x.arg for x in node.args.args[1:]]
                    args = list(a) + [k[x] for x in names[len(a):] if x in k]

                    def go():
                        it.log.append(Event("call", (field, n), tuple(it.freeze(x) for x in args)))
                        h = it.ctx.hooks.get(("returns", n))
                        return h(it) if h else None
                    return CoroV(go) if isinstance(node, ast.AsyncFunctionDef) else go()
                w.attrs[(tag, n)] = lambda it, o, n=n, call=call: BuiltinF(n, lambda a, k: call(it, a, k))


def route_unit(prog, name, mod, cls, method, comps, routes, source, extra=None):
    """routes: message class -> (field, method); everything else must reach nobody (or be refused)"""
    def body(ctx):
        w = World(prog)
        components(w, prog, cls, comps)
        it = Interp(ctx, w)
        ci = prog.cls(mod, cls)
        it.reg(ci)
        it.frames.append(Frame(FuncV(None, mod)))
        me = Obj(ci, "me")
        items = [c for _, c in table(it)]
        ctx.ex.cases_all |= {c.name for c in items}
        which = ctx.fresh("kind", I)
        for j, c in enumerate(items):
            if j == len(items) - 1 or ctx.decide(which == j):
                break
        ctx.ex.cov.add(c.name)
        nm = f"{name} [{c.name}]"
        msg = it.fresh_value("message", it.class_type(c.node))
        src = it.fresh_value("source", BYTES)
        if extra:
            extra(it, c.name)
        m = method(ci) if callable(method) else method
        exp = routes.get(c.name)
        try:
            it.run_method(me, m, [src, msg] if source else [msg])
        except PyRaise as e:
            if exp:
                ctx.fail(f"{nm}: raised {e.cls} {e.where}", str(e.eargs))
            else:
                ctx.prove(f"{nm}: a kind not meant for this receiver reaches nobody", not it.log)
            return
        if exp is None:
            ctx.prove(f"{nm}: a kind not meant for this receiver reaches nobody", not it.log)
            return
        exp = [e(it, src, msg) for e in exp]
        if len(it.log) != len(exp):
            ctx.fail(f"{nm}: handed to exactly the component responsible", repr(it.log)[:300])
            return
        for e, (to, args) in zip(it.log, exp):
            ctx.prove(f"{nm}: handed to {to[0]}.{to[1]}", e.to == to)
            ctx.prove(f"{nm}: unchanged", len(e.msg) == len(args) and conj([msg_eq(it, x, it.freeze(y)) for x, y in zip(e.msg, args)]))
    return Unit(name, body, [f"{mod}:{cls}.{method if isinstance(method, str) else '<message callback>'}"])


def sched_routes():
    to = lambda f, m, src=True: [lambda it, s, x: ((f, m), (s, x) if src else (x,))]
    W, T, G, F = "_worker_manager", "_task_manager", "_graph_manager", "_function_manager"
    return {"Heartbeat": to(W, "on_heartbeat"), "BalanceResponse": to(W, "on_balance_response", False), "GraphTask": to(G, "on_graph_task"), "GraphTaskCancel": to(G, "on_graph_task_cancel", False),
            "Task": to(T, "on_task_new"), "TaskCancel": to(T, "on_task_cancel"), "TaskResult": to(W, "on_task_done", False), "FunctionRequest": to(F, "on_function"), "DisconnectRequest": to(W, "on_disconnect")}


def agent_routes():
    to = lambda f, m: [lambda it, s, x: ((f, m), (x,))]
    H, T, P = "_heartbeat", "_task_manager", "_processor_manager"
    return {"HeartbeatEcho": to(H, "on_heartbeat_echo"), "Task": to(T, "on_task_new"), "TaskCancel": to(T, "on_cancel_task"), "FunctionRequest": to(P, "on_function_request"), "FunctionResponse": to(P, "on_function_response"),
            "BalanceRequest": to(T, "on_balance_request") + [lambda it, s, x: (("_connector_external", "send"), (Rec("BalanceResponse", {"task_ids": it.ctx.hooks["given_back"]}),))]}


def agent_extra(it, kind):
    ids = it.fresh_value("given_back", TList(BYTES))
    it.ctx.hooks["given_back"] = it.freeze(ids)
    it.ctx.hooks[("returns", "on_balance_request")] = lambda it: ids


def agent_callback(ci):
    """the method given to the external connector as its callback"""
    import ast
    for n, node in ci.methods.items():
        for x in ast.walk(node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "AsyncConnector":
                for k in x.keywords:
                    if k.arg == "callback" and isinstance(k.value, ast.Attribute):
                        return ci.mangle(k.value.attr)
    raise Unsupported("callback of the external connector")


_units1 = units


def units(prog):
    A = "scaled.worker.agent."
    S = "scaled.scheduler."
    return _units1(prog) + [
        route_unit(prog, "Scheduler.on_receive_message", "scaled.scheduler.main", "Scheduler", "on_receive_message",
                   {"_worker_manager": (S + "worker_manager", "VanillaWorkerManager"), "_task_manager": (S + "task_manager", "VanillaTaskManager"), "_graph_manager": (S + "graph_manager", "GraphManager"),
                    "_function_manager": (S + "function_manager", "VanillaFunctionManager"), "_client_manager": (S + "client_manager", "VanillaClientManager"), "_binder": ("scaled.io.async_binder", "AsyncBinder")}, sched_routes(), True),
        route_unit(prog, "Worker.on_receive", "scaled.worker.worker", "Worker", agent_callback,
                   {"_heartbeat": (A + "heartbeat_manager", "VanillaHeartbeatManager"), "_task_manager": (A + "task_manager", "VanillaTaskManager"), "_processor_manager": (A + "processor_manager", "VanillaProcessorManager"),
                    "_connector_external": ("scaled.io.async_connector", "AsyncConnector")}, agent_routes(), False, extra=agent_extra)]


# ------------------------------------------------------------------------------------------------ construction: unbounded sockets, empty counters
def init_unit(prog, mod, cls, args):
    def body(ctx):
        w = World(prog)
        native = lambda name, fn: lambda it, o: BuiltinF(name, lambda a, k: fn(it, a, k))
        mk = lambda it, a, k: SU(z3.Const("the_context", U), TU("zctx"))
        w.libs["zmq.asyncio.Context"] = mk
        w.libs["os.getpid"] = lambda it, a, k: it.fresh_value("pid", TInt())
        w.libs["socket.gethostname"] = lambda it, a, k: it.fresh_value("host", STR)
        w.libs["uuid.uuid4"] = lambda it, a, k: it.fresh_value("uuid", TU("UUID"))
        w.attrs[("UUID", "bytes")] = lambda it, o: it.fresh_value("uuid_bytes", BYTES)
        w.attrs[("zctx", "socket")] = w.attrs[("Context", "socket")] = native("socket", lambda it, a, k: SU(z3.Const("the_socket", U), TU("socket")))
        for n in ("setsockopt", "bind", "connect"):
            w.attrs[("socket", n)] = native(n, lambda it, a, k, n=n: it.log.append(Event(n, None, tuple(it.freeze(x) for x in a))))
        w.contracts["ZMQConfig.to_address"] = lambda it, o, a, k: it.fresh_value("address_text", STR)
        w.str_mode = "U"
        it = Interp(ctx, w)
        ci = prog.cls(mod, cls)
        it.reg(ci)
        it.frames.append(Frame(FuncV(None, mod)))
        addr = it.fresh_value("address", it.class_type(prog.cls("scaled.utility.zmq_config", "ZMQConfig")))
        fin = it.fresh_value("callback", ANY)
        n = it.fresh_value("io_threads", TInt())
        val = {"address": addr, "callback": fin, "io_threads": n, "context": mk(it, [], {}), "socket_type": it.fresh_value("socket_type", TU("int")), "bind_or_connect": "bind" if ctx.decide(ctx.fresh("bind", B)) else "connect"}
        nm = f"{cls}()"
        try:
            me = it.construct(ci, [], {k: val[k] for k in args})
        except PyRaise as e:
            ctx.fail(f"{nm}: raised {e.cls} {e.where}", str(e.eargs))
            return
        opts = [e.msg for e in it.log if e.chan == "setsockopt"]
        for o in ("SNDHWM", "RCVHWM"):
            from vc.lib import module_attr
            c = module_attr(it, "zmq", o)
            mine = [m for m in opts if len(m) == 2 and it.to_u(m[0]).eq(it.to_u(c))]
            ctx.prove(f"{nm}: no limit on waiting messages ({o})", bool(mine) and isinstance(mine[-1][1], int) and mine[-1][1] == 0)
        ctx.prove(f"{nm}: bound or connected once", len([e for e in it.log if e.chan in ("bind", "connect")]) == 1)
        st = it.getattr(me, "_statistics")
        for kind in ("received", "sent"):
            t = it.getitem(st, kind)
            ctx.prove(f"{nm}: {kind} counters start empty", val_eq(it, it.length(t), 0))
        if "callback" in args:
            ctx.prove(f"{nm}: keeps its callback", val_eq(it, it.getattr(me, "_callback"), fin))
    return Unit(f"{cls}.__init__", body, [f"{mod}:{cls}.__init__"])


_units2 = units


def units(prog):
    return _units2(prog) + [init_unit(prog, "scaled.io.async_binder", "AsyncBinder", ["address", "io_threads"]),
                            init_unit(prog, "scaled.io.async_connector", "AsyncConnector", ["context", "socket_type", "address", "bind_or_connect", "callback"])]


# ------------------------------------------------------------------------------------------------ the binder's part of the status report
def stat_unit(prog):
    def body(ctx):
        from specs.sched import get
        w = frames_world(prog, "AsyncBinder")
        it = Interp(ctx, w)
        ci = prog.cls("scaled.io.async_binder", "AsyncBinder")
        it.reg(ci)
        it.frames.append(Frame(FuncV(None, ci.module)))
        me = Obj(ci, "me")
        st0 = stats(it, me)
        ctx.assume(z3.And(S_(st0[0], it.to_u("received")), S_(st0[0], it.to_u("sent"))))
        nm = "AsyncBinder.statistics"
        try:
            res = it.run_method(me, "statistics", [])
        except PyRaise as e:
            ctx.fail(f"{nm}: raised {e.cls} {e.where}", str(e.eargs))
            return
        for kind in ("received", "sent"):
            g = get(it, res, "binder", kind)
            if not isinstance(g, (Snap, Box)):
                ctx.fail(f"{nm}: counter report: {kind}", repr(g)[:200])
                continue
            gl = it.leaves_of(g)[1]
            K = it.to_u(kind)
            ctx.prove(f"{nm}: counter report: {kind}", z3.And(forall(U, lambda n: S_(gl[0], n) == S_(S_(st0[1], K), n)), forall(U, lambda n: z3.Implies(S_(gl[0], n), S_(gl[1], n) == S_(S_(st0[2], K), n)))))
        st1 = stats(it, me)
        ctx.prove(f"{nm}: counters unchanged", conj([a == b for a, b in zip(st0, st1)]))
        ctx.prove(f"{nm}: counter report: nothing sent", not it.log)
    return Unit("AsyncBinder.statistics", body, ["scaled.io.async_binder:AsyncBinder.statistics"])


_units3 = units


def units(prog):
    return _units3(prog) + [stat_unit(prog)]
