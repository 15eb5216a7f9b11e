"""C24: the worker's function cache (CacheCleaner)."""
from vc.core import *
from vc.interp import World, Interp, Frame, Opaque
from vc.spec import *
from specs.maps import S_, T_, F_, EMPTY, SETU
from specs.sched import now, NOW

MOD, CLS = "scaled.worker.agent.processor.cache_cleaner", "CacheCleaner"
FIELDS = [("dom", TRaw(SETU)), ("fn", TRaw(z3.ArraySort(U, U))), ("since", TRaw(z3.ArraySort(U, z3.RealSort())))]


def world(prog):
    w = World(prog)
    w.libs["time.time"] = now
    w.schemas[CLS] = {"_process": TU("psutil.Process"), "_libc": TU("libc"), "_previous_garbage_collect_time": TReal()}
    return w


def absf(it, me):
    f, s = it.read(it.getattr(me, "_cached_functions")), it.read(it.getattr(me, "_cached_functions_alive_since"))
    return [f[0], f[1], s[1]]


def rep(it, me):
    f, s = it.read(it.getattr(me, "_cached_functions")), it.read(it.getattr(me, "_cached_functions_alive_since"))
    # the ages cover exactly the cached functions, and None is not a function
    return [f[0] == s[0], forall(U, lambda x: z3.Implies(S_(f[0], x), S_(f[1], x) != NONE), lambda x: [S_(f[0], x)])]


def eqs(it, g, e):
    return [("cached functions", g.dom == e.dom),
            ("functions stored under the ids", forall(U, lambda x: z3.Implies(S_(e.dom, x), S_(g.fn, x) == S_(e.fn, x)))),
            ("times of last use", forall(U, lambda x: z3.Implies(S_(e.dom, x), S_(g.since, x) == S_(e.since, x))))]


def retention(it):
    return it.num(it.getattr(Obj(it.find_class(CLS), "self"), "_function_retention_seconds"))


def clean(it, m):
    nd = it.ctx.fresh("kept", SETU)
    it.ctx.assume(forall(U, lambda x: S_(nd, x) == z3.And(S_(m.dom, x), NOW - S_(m.since, x) <= retention_r(it)), lambda x: [S_(nd, x)]))
    it.ctx.assume(forall(U, lambda x: S_(nd, x) == z3.And(S_(m.dom, x), NOW - S_(m.since, x) <= retention_r(it)), lambda x: [S_(m.dom, x)]))
    return [Case(upd={"dom": nd}, name="exactly the functions past the retention time go", result=ANYRESULT)]


def retention_r(it):
    r = retention(it)
    return z3.ToReal(r) if r.sort() == z3.IntSort() else r


FID = ("function_id", BYTES)
CACHE = AbsSpec(CLS, FIELDS, [
    Op("add_function", [FID, ("function", ANY)], lambda it, m, f, fn: [Case(upd={"dom": z3.Store(m.dom, f, T_), "fn": z3.Store(m.fn, f, fn), "since": z3.Store(m.since, f, NOW)}, name="stored", result=ANYRESULT)],
       pre=lambda it, m, f, fn: [("a function is not None", fn != NONE)]),
    Op("del_function", [FID], lambda it, m, f: [Case(upd={"dom": z3.Store(m.dom, f, F_)}, name="deleted", result=ANYRESULT)]),
    Op("get_function", [FID], lambda it, m, f: [Case(z3.Not(S_(m.dom, f)), result=None, name="absent"),
                                                Case(result=lambda it: SU(S_(m.fn, f), ANY), upd={"since": z3.Store(m.since, f, NOW)}, name="present")]),
], eqs=eqs)


def run_unit_(prog):
    """the clean-up thread: one round from start to the pause, from any state"""
    def body(ctx):
        w = world(prog)
        for n in ("gc.collect", "psutil.Process", "ctypes.cdll.LoadLibrary"):
            w.libs[n] = lambda it, a, k: Opaque("library")
        it = Interp(ctx, w)
        ci = it.reg(prog.cls(MOD, CLS))
        me = Obj(ci, "self")
        it.frames.append(Frame(FuncV(None, MOD)))
        for f in rep(it, me):
            ctx.assume(f)
        m0 = MS(FIELDS, absf(it, me))
        w.attrs[("psutil.Process", "memory_info")] = lambda it, o: BuiltinF("memory_info", lambda a, k: SU(it.ctx.fresh("meminfo", U), TU("meminfo")))
        w.attrs[("meminfo", "rss")] = lambda it, o: SInt(it.ctx.fresh("rss", z3.IntSort()))
        w.attrs[("libc", "malloc_trim")] = lambda it, o: BuiltinF("malloc_trim", lambda a, k: None)
        ctx.ex.cases_all.add("run/one round")

        def sleep(it, a, k):
            ctx.ex.cov.add("run/one round")
            c = clean(it, m0)[0]
            for n, f in eqs(it, MS(FIELDS, absf(it, me)), m0.updated(c.upd)):
                ctx.prove(f"{CLS}.run [clean-up]: {n} before the pause: exactly the functions past the retention time are gone", f)
            for j, f in enumerate(rep(it, me)):
                ctx.prove(f"{CLS}.run [clean-up]: representation invariant {j}", f)
            ctx.ex.covered += 1
            raise PathEnd()
        w.libs["time.sleep"] = sleep
        try:
            it.run_method(me, "run", [])
        except PyRaise as e:
            ctx.fail(f"{CLS}.run: raised {e.cls} {e.where} {e.eargs}")
            return
        ctx.fail(f"{CLS}.run: returned")
    return Unit(f"{CLS}.run", body, [f"{MOD}:{CLS}.run", f"{MOD}:{CLS}._CacheCleaner__clean_function"])


def units(prog):
    return class_units(prog, CACHE, MOD, CLS, world, absf, rep) + [run_unit_(prog)]
