"""M02 execution affinity, M03 truthful acceptance, M04 stop, M05 weak references, M06 registry, M07 dispatch."""
from .util import *
from .m01_binding import tls_var, PROC

TSQ = "maf::threading::ThreadSafeQueue"
NS = "maf::messaging::"
THISP = "maf::messaging::this_processor"
LEAVES = ("execute", "executeAsync", "waitableExecute", "post", "waitablePost")
FUTURE = re.compile(r"^std::(future|__basic_future|shared_future)::(get|wait)$")
FUTERR = "_ZTISt12future_error"
RUNTASK = "std::packaged_task::operator()"


def is_lambda(f):
    return "$_" in f.dem or "{lambda" in f.dem or "'lambda" in f.dem


def named(ck, cls, pred=None, public=True):
    return [f for f in ck.P.fns.values() if f.blocks and ck.P.is_repo(f) and f.q.startswith(cls + "::") and not is_lambda(f)
            and (not public or f.acc == "public") and (pred is None or pred(f))]


def queue_op(E, site, q, args):
    co = cont_op(E, site, q, args)
    if co and any(c == TSQ for c, _ in E.member(co[2])):
        return co[1]
    return None


class Jobs(R):
    """counts what happens to a job: added to a queue, or run on the calling thread"""
    throws = ("user", "throw", "std")

    def __init__(self, ck, f, g):
        self.ck, self.f, self.g = ck, f, g
        self.seen = set()

    def own(self, E):
        """innermost processor operation on the call stack, and its receiver"""
        for fn, a in zip(reversed(E.stack), reversed(E.sargs)):
            if fn.q.startswith(PROC + "::") and fn.q.split("::")[-1] in LEAVES and not is_lambda(fn):
                return fn, a[1] if fn.args and fn.args[0][3] else a[0]
        return None, None

    def ran(self, E, st, site, what):
        fn, this = self.own(E)
        st.cl["ran"] = sat(st.cl.get("ran", 0) + 1)
        if fn is None:
            return
        self.seen.add("ran")
        cur = E.load(st, self.g, 8, "p")
        ok = cur is this or st.known(icmp("eq", cur, this)) is True
        self.inline(E, st, site, fn, ok, what)

    def inline(self, E, st, site, fn, ok, what):
        pass

    def on_indirect(self, E, st, site, cv, args):
        self.ran(E, st, site, "a callback")
        return None

    def on_call(self, E, st, site, q, args):
        if q == RUNTASK:
            self.ran(E, st, site, "a task")
            return [("ret", None, st)]  # exceptions of the job go to the future
        if q == "std::packaged_task::get_future":
            st.cl["task"] = 1
        m = FUTURE.match(q)
        if m:
            return self.future(E, st, site, m.group(2), args)
        return None

    def future(self, E, st, site, op, args):
        """waiting for a job: it ran, it threw, or it was dropped unexecuted (its promise is broken)"""
        done = st.cl.get("queued", 0) + st.cl.get("ran", 0)
        out = []
        if done:
            out.append(("ret", None, st.copy()))
            if op == "get":
                out.append(("throw", mk("exc", "user", "_ZTI4User"), st.copy()))
        if not done or not st.cl.get("ran"):
            # never executed
            s = st.copy()
            s.cl["queued"] = 0
            if op == "get" or not (done or st.cl.get("task")):
                out.append(("throw", mk("exc", "std:future_error", FUTERR), s))
            else:
                s.cl["dropped"] = 1
                out.append(("ret", None, s))
        return out

    def on_after(self, E, st, site, q, args, v):
        op = queue_op(E, site, q, args)
        if op in ("push", "emplace", "push_back", "emplace_back"):
            self.seen.add("queued")
            st.cl["queued"] = sat(st.cl.get("queued", 0) + 1)


class Affinity(Jobs):
    def inline(self, E, st, site, fn, ok, what):
        n = fn.q.split("::")[-1]
        self.ck.ob("jobs run on the calling thread only if it runs this very processor", "%s called from %s" % (fn.q, self.f.q),
                   ok and n not in ("executeAsync", "post"),
                   "%s runs %s on the calling thread without its current processor being this one (entry %s, path %s)" % (
                       fn.q, what, self.f.q, E.path()), where(site.fn if E.p.is_repo(site.fn) else self.f, site.line))


@prop("M02", "path-sensitive dataflow of the thread's current processor to every inline execution of a job",
      "Every path of every processor operation, of the wrapping lambdas and of the executors; the identity test is decided on pointer values.")
def affinity(ck):
    g = tls_var(ck)
    for f in job_roots(ck):
        r = Affinity(ck, f, g)
        E, out = ck.run(f, r)
        n = f.q.split("::")[-1]
        if f.q.startswith(PROC + "::") and not is_lambda(f) and n in ("execute", "waitableExecute", "waitablePost"):
            # and it does run there: on the processor's own thread a job is not queued behind itself
            for kind, val, st, line in out:
                cl = st.cl
                if cl.get("queued"):
                    this = mk("arg", 1, "this") if f.args[0][3] else mk("arg", 0, "this")
                    cur = E.load(st, g, 8, "p")
                    own = cur is this or st.known(icmp("eq", cur, this)) is True
                    ck.ob("on the processor's own thread the job runs at once", f.q, not own,
                          "%s queues the job although the calling thread runs this processor (line %s)" % (f.q, line), where(f, line))
    ck.need("jobs run on the calling thread only if it runs this very processor", 3)


def job_roots(ck):
    P = ck.P
    r = named(ck, PROC, lambda f: f.q.split("::")[-1] in LEAVES)
    r += named(ck, THISP, lambda f: f.q.split("::")[-1] in LEAVES and f.args and len(f.blocks), public=False)
    ex = ck.cls("maf::util::ExecutorIF")
    src = {f.file for f in r if f.file.endswith(".cpp")}
    for f in P.fns.values():
        if not f.blocks or not P.is_repo(f):
            continue
        if f.virt and f.cls is not None and f.cls >= 0 and any(P.isa(f.cls, i) for i in ex) and f.q.endswith("::execute") and f.file in src:
            r.append(f)
        if is_lambda(f) and f.q.endswith("operator()") and f.file in src and "will" in f.dem:
            r.append(f)
    return r


@prop("M03", "path-sensitive effect counting: reported result against enqueue and inline-run effects",
      "Each exit of each submission operation is matched against the effects on its path; failing container operations are followed through "
      "their handlers. Allocation failure in the middle of a library call is one outcome.")
def acceptance(ck):
    g = tls_var(ck)
    P = ck.P
    K = "a submission reports what happened to the job"
    roots = job_roots(ck)
    roots += [f for f in P.fns.values() if f.blocks and P.is_repo(f) and f.q == NS + "routing::post" and not is_lambda(f)]
    for f in roots:
        r = Jobs(ck, f, g)
        E, out = ck.run(f, r)
        boolean = f.j["dty"] and f.j["dty"][0] >= 0 and P.types[P.rt(f.j["dty"][0])].get("n") == "bool"
        hdl = f.args and f.args[0][3]
        for kind, val, st, line in out:
            q, n = st.cl.get("queued", 0), st.cl.get("ran", 0)
            tot = q + n
            if kind == "throw":
                if not n:
                    ck.ob("a failed submission leaves nothing behind", f.q, q == 0,
                          "%s can throw after the job was queued" % f.q, where(f, line))
                continue
            ck.ob("a job is executed or queued at most once", f.q, tot <= 1,
                  "%s can reach line %s with the job queued %d and run %d times" % (f.q, line, q, n), where(f, line))
            if boolean:
                tv = st.known(val)
                if tv is not False:
                    ck.ob(K, f.q + " true", tot == 1 and not st.cl.get("dropped"),
                          "%s can report success at line %s with the job neither queued nor run" % (f.q, line), where(f, line))
                if tv is not True:
                    ck.ob(K, f.q + " false", tot == 0,
                          "%s can report refusal at line %s although the job was %s" % (f.q, line, "queued" if q else "run"), where(f, line))
    ck.need(K, 6)


# ---------------------------------------------------------------- M04 run and stop
TAKES = ("wait", "waitFor", "waitUntil", "tryPop")


class Stop(Jobs):
    """forks on the open/closed state a path observed, and records closing, clearing, leaving and the outcome of takes"""

    def __init__(self, ck, f, g, mf):
        Jobs.__init__(self, ck, f, g)
        self.mf = mf

    def flag(self, E, a):
        return E.in_member(a, TSQ, self.mf)

    def on_call(self, E, st, site, q, args):
        if FLAGLOAD.match(q) and self.flag(E, args[0]) and not st.locks:
            out = []
            for v in (0, 1):
                s = st.copy()
                if s.cl.get("saw") is None:
                    s.cl["saw"] = v
                out.append(("ret", C(v), s))
            return out
        if FLAGSTORE.match(q) and self.flag(E, args[0]):
            v = args[2] if "compare_exchange" in q else args[1]
            st.cl["closed"] = 1 if v.k == "c" and v.a[0] else 0
            st.cl.pop("cleared", None)
        return Jobs.on_call(self, E, st, site, q, args)

    def on_after(self, E, st, site, q, args, v):
        op = queue_op(E, site, q, args)
        if op in ("operator=", "swap", "clear") or q == "std::swap" and any(c == TSQ for a in args for c, _ in E.member(a)):
            st.cl["cleared"] = 1
        if op == "pop" and any(x.q == TSQ + "::clear" for x in E.stack):
            st.cl["cleared"] = 1
        Jobs.on_after(self, E, st, site, q, args, v)

    def on_enter(self, E, st, site, fn, args):
        if fn.q == NS + "details::Router::removeProcessor":
            st.cl["left"] = 1

    def on_branch(self, E, st, site, cond, truth):
        t = truth
        while cond.k == "not":
            cond, t = cond.a[0], not t
        # the id compares equal to a constant: the anonymity test
        if t and cond.k == "res" and any(x.k == "g" for x in leaves(cond)):
            st.cl["anon"] = 1

    def on_return(self, E, st, site, fn, val):
        if fn.q.startswith(TSQ + "::") and fn.q.split("::")[-1] in TAKES and not is_lambda(fn):
            tv = st.known(val) if val is not None else None
            st.cl["take"] = {True: "ok", False: "failed"}.get(tv, "?")

    def on_indirect(self, E, st, site, cv, args):
        if st.cl.get("take") == "ok" or any(x.k == "elem" for x in leaves(cv)):
            st.cl["jobs"] = sat(st.cl.get("jobs", 0) + 1)
            self.ck.ob("each job taken from the queue is executed once", self.f.q, st.cl.get("take") == "ok",
                       "%s invokes a job without having taken it from the queue (path %s)" % (self.f.q, E.path()),
                       where(site.fn if E.p.is_repo(site.fn) else self.f, site.line))
            st.cl["take"] = "done"
        return Jobs.on_indirect(self, E, st, site, cv, args)


class Running(Stop):
    def on_enter(self, E, st, site, fn, args):
        if fn.q.startswith(TSQ + "::") and fn.q.split("::")[-1] in TAKES and len(E.stack) == 2:
            t = st.cl.get("take")
            self.ck.ob("each job taken from the queue is executed once", self.f.q + " takes", t in (None, "done"),
                       "%s takes another job %s (path %s)" % (self.f.q, "after the queue ended" if t == "failed" else "without executing the one it took", E.path()),
                       where(self.f, site.line if site else None))


def qflag(ck):
    return role(ck, TSQ, lambda q, t: q.startswith("std::atomic"), "an atomic flag")


@prop("M04", "typestate over the job queue on every path of the run, stop and submission operations",
      "Paths fork on the open/closed state they observe. The wait itself is decided by T01 and T02; that another thread stops the processor "
      "at any moment is covered because every observation is independent.")
def stopping(ck):
    g, mf = tls_var(ck), qflag(ck)
    K1, K2 = "stopping closes and clears the queue and leaves the routing", "a stopped processor accepts and runs nothing"
    K3 = "a run call ends only when its queue does"
    stop, = ck.fn(PROC + "::stop")
    r = Stop(ck, stop, g, mf)
    E, out = ck.run(stop, r)
    for kind, val, st, line in out:
        cl = st.cl
        if kind != "ret":
            continue
        ok = cl.get("saw") == 1 and not cl.get("closed") or cl.get("closed") == 1 and cl.get("cleared")
        ck.ob(K1, "queue closed, then cleared", ok, "stop() can return at line %s with the queue %s" % (
            line, "not closed" if not cl.get("closed") else "not cleared after it was closed"), where(stop, line))
        ck.ob(K1, "a named processor leaves the routing", cl.get("left") or cl.get("saw") == 1 or cl.get("anon"),
              "stop() can return at line %s without leaving the routing" % line, where(stop, line))
    ck.ob(K1, "the routing is left", any(o[2].cl.get("left") for o in out), "stop() never leaves the routing", where(stop))
    for f in named(ck, PROC, lambda f: f.q.split("::")[-1] in LEAVES):
        if any(f.dem.startswith(x) for x in ()) or "<" in f.dem.split("(")[0]:
            continue
        r = Stop(ck, f, g, mf)
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            if st.cl.get("saw") == 1:
                tot = st.cl.get("queued", 0) + st.cl.get("ran", 0)
                ck.ob(K2, f.q, tot == 0, "%s %s a job although it saw the processor stopped" % (f.q, "queues" if st.cl.get("queued") else "runs"),
                      where(f, line))
            elif st.cl.get("ran"):
                ck.ob(K2, f.q + " looks", st.cl.get("saw") == 0, "%s runs a job without looking whether the processor is stopped" % f.q, where(f, line))
    for n in ("run", "runUntil", "runOnceUntil"):
        for f in ck.fn(PROC + "::" + n):
            r = Running(ck, f, g, mf)
            E, out = ck.run(f, r)
            for kind, val, st, line in out:
                if kind != "ret":
                    continue
                t, j = st.cl.get("take"), st.cl.get("jobs", 0)
                if val is None:
                    ck.ob(K3, f.q, t == "failed", "%s can return at line %s without the queue having ended" % (f.q, line), where(f, line))
                else:
                    tv = st.known(val)
                    ck.ob("run-once executes at most one job and tells whether it did", f.q, (j == 1) if tv is True else (j == 0) if tv is False else False,
                          "%s returns %s after executing %d jobs" % (f.q, tv, j), where(f, line))
    ck.need(K2, 4)
    ck.need(K3, 2)
    ck.need("run-once executes at most one job and tells whether it did", 1)


# ---------------------------------------------------------------- M05 lifetime
def ptr_to(P, t, q):
    """does a value of type t keep, or point to, an object of class q?"""
    t = P.rt(t)
    if t < 0:
        return None
    ty = P.types[t]
    if ty["k"] == "ptr":
        x = P.rt(ty["to"])
        return "a plain pointer" if x >= 0 and P.types[x].get("q") == q else None
    if ty.get("q") in ("std::shared_ptr", "std::__shared_ptr", "std::unique_ptr"):
        a = ty.get("ta") or []
        x = P.rt(a[0]) if a else -1
        return "a strong reference" if x >= 0 and P.types[x].get("q") == q else None
    return None


def captured(P, t, q, d=0):
    r = []
    if t < 0 or d > 3:
        return r
    for m in P.types[t].get("m", []):
        k = ptr_to(P, m[2], q)
        if k:
            r.append((m[0], k))
        mt = P.rt(m[2])
        if mt >= 0 and P.types[mt]["k"] == "class" and P.types[mt].get("q", "").startswith("maf::") and P.types[mt].get("q") != q:
            r += captured(P, mt, q, d + 1)
    return r


class Locked(R):
    throws = ()

    def __init__(self, ck, f):
        self.ck, self.f = ck, f

    def on_enter(self, E, st, site, fn, args):
        if not fn.q.startswith(PROC + "::") or is_lambda(fn) or len(E.stack) < 2 or E.p.is_repo(E.stack[-2]) is False:
            return
        this = args[1] if fn.args and fn.args[0][3] and len(args) > 1 else args[0] if args else None
        if isinstance(this, V) and any(x.k == "res" and "weak_lock" in x.a for x in leaves(this)):
            self.ck.ob("a processor is used only after it was found alive", "%s in %s" % (fn.q, self.f.q), st.known(this) is True,
                       "%s calls %s on a processor that may be gone (path %s)" % (self.f.q, fn.q, E.path()),
                       where(site.fn if E.p.is_repo(site.fn) else self.f, site.line))


@prop("M05", "ownership analysis of the captured state of executors and wrapped jobs, and null-state dataflow on the upgraded reference",
      "Every class that implements the executor interface or is created as a job wrapper by a processor; the types captured decide ownership.")
def lifetime(ck):
    P = ck.P
    K = "what a processor hands out does not keep or point to it"
    fns = named(ck, PROC)
    src = {f.file for f in fns if f.file.endswith(".cpp")}
    ex = ck.cls("maf::util::ExecutorIF")
    hosts = {f.q for f in fns if f.j["dty"] and f.j["dty"][0] >= 0 and (
        P.types[P.rt(f.j["dty"][0])].get("q") in ("std::function",) or "ExecutorIF" in P.types[P.rt(f.j["dty"][0])].get("n", ""))}
    if len(hosts) < 4:
        raise AnalysisError("only %d functions hand out executors or jobs" % len(hosts))
    for q, ids in sorted(P.classes.items()):
        for t in ids:
            ty = P.types[t]
            clo = "(anon:" in q and any(q.startswith(h + "::") for h in hosts)
            if not clo and not (any(P.isa(t, i) for i in ex) and ty.get("file", "") in src):
                continue
            bad = captured(P, t, PROC)
            n = q.split("(anon")[0].rstrip(":")
            ck.ob(K, n, not bad, "%s holds %s to the processor it belongs to (%s)" % (
                n, bad[0][1] if bad else "", bad[0][0] if bad else ""), "%s:%s" % (ty.get("file", "").replace("/repo/", ""), ty.get("line")))
    for f in job_roots(ck):
        if is_lambda(f) or "Executor" in f.q:
            ck.run(f, Locked(ck, f))
    ck.need(K, 4)
    ck.need("a processor is used only after it was found alive", 4)


# ---------------------------------------------------------------- M06 registry
ROUTER = NS + "details::Router"


class Each(R):
    """follows loops over a container: what was done with the current element when the loop goes on"""

    def cont(self, E, c):
        return False

    def on_call(self, E, st, site, q, args):
        m = ITER.match(q)
        if m and args:
            op = m.group(3)
            it = E.load(st, args[0], 8, "p")
            c = E.iter_cont(it)
            if isinstance(c, V) and self.cont(E, c):
                if op in ("operator*", "operator->"):
                    st.cl["elem"] = 1
                elif op.startswith("operator++"):
                    self.advance(E, st, site, c)
                    for k in ("elem", "sent", "skip"):
                        st.cl.pop(k, None)
        return None

    def advance(self, E, st, site, c):
        pass


from maf.engine import ITER_CLS as ITER


class Registry(Each):
    throws = ()

    def __init__(self, ck, f):
        self.ck, self.f = ck, f

    def reg(self, E, a):
        return isinstance(a, V) and any(c == ROUTER for c, _ in E.member(a))

    def cont(self, E, c):
        return self.reg(E, c) or split(c)[0].k == "al" and E.typeof(split(c)[0]) >= 0 and "Processor" in E.p.types[E.typeof(split(c)[0])].get("n", "") \
            and "set<" in E.p.types[E.typeof(split(c)[0])].get("n", "")

    def on_enter(self, E, st, site, fn, args):
        if fn.q == PROC + "::connected" and "type_index" in fn.dem:
            st.cl["asked"] = 1
            if st.cl.get("loop"):
                st.cl["loop"] = (st.cl["loop"][0], 1)
        if fn.q in (PROC + "::post", PROC + "::waitablePost"):
            st.cl["sent"] = 1
            if st.cl.get("loop"):
                st.cl["loop"] = (st.cl["loop"][0], 1)
        if fn.q == ROUTER + "::addProcessor":
            st.cl["asked_join"] = 1

    def on_return(self, E, st, site, fn, val):
        lp = st.cl.get("loop")
        if lp and len(E.stack) <= lp[0]:
            self.ck.ob("every listening processor is reached", "%s ends in %s" % (E.stack_repo(), self.f.q), not lp[1],
                       "%s stops announcing before every processor had its turn (path %s)" % (E.stack_repo(), E.path()),
                       where(fn if E.p.is_repo(fn) else self.f, site.line))
            st.cl.pop("loop")
        if fn.q == PROC + "::connected" and val is not None:
            if st.known(val) is False:
                st.cl["skip"] = 1
            elif st.known(val) is None:
                self.pending = val
        if fn.q == ROUTER + "::addProcessor" and val is not None:
            st.cl["added"] = {True: 1, False: 0}.get(st.known(val), 2)

    pending = None

    def on_branch(self, E, st, site, cond, truth):
        t = truth
        while cond.k == "not":
            cond, t = cond.a[0], not t
        if self.pending is not None:
            p = self.pending
            n = False
            while p.k == "not":
                p, n = p.a[0], not n
            if cond is p and t == n:
                st.cl["skip"] = 1
        if cond.k == "icmp" and cond.a[0] == "eq" and t:
            x, y = cond.a[1:]
            if any(v.k == "res" and v.a[2] in ("std::set::count", "std::map::count") and self.reg(E, v.a[3][0]) for v in (x, y)) and NULL in (x, y):
                st.cl["absent"] = 1
            if x.k == "iter" and y.k == "iter" and self.reg(E, x.a[0]) and {x.a[2], y.a[2]} == {"find", "end"}:
                st.cl["absent"] = 1
            if x.k == "iter" and y.k == "iter" and self.cont(E, x.a[0]) and "end" in (x.a[2], y.a[2]) and "find" not in (x.a[2], y.a[2]):
                st.cl.pop("loop", None)
            ld = [v for v in (x, y) if v.k == "init" and split(v.a[0])[0].k == "elem" and self.reg(E, split(v.a[0])[0].a[0])]
            if ld and any(v in (x, y) and v is not ld[0] for v in self.params(E, st)):
                st.cl["own"] = 1

    def on_unlock(self, E, st, site, m):
        if self.reg(E, m):
            st.cl.pop("absent", None)
            st.cl.pop("own", None)

    def advance(self, E, st, site, c):
        if st.cl.get("elem"):
            self.ck.ob("every listening processor is reached", "%s in %s" % (E.stack_repo(), self.f.q), st.cl.get("sent") or st.cl.get("skip"),
                       "%s goes on to the next processor without having posted to the current one, which may listen (path %s)" % (
                           E.stack_repo(), E.path()), where(site.fn if E.p.is_repo(site.fn) else self.f, site.line))

    def on_call(self, E, st, site, q, args):
        co = cont_op(E, site, q, args)
        if co and co[1] in ("begin", "cbegin") and self.cont(E, co[2]):
            st.cl["loop"] = (len(E.stack), 0)
        if co and self.reg(E, co[2]):
            c, op, a = co
            loc = where(site.fn if E.p.is_repo(site.fn) else self.f, site.line)
            if op in ("begin", "cbegin"):
                st.cl["looped"] = 1
            if op in ("insert", "emplace", "emplace_hint"):
                self.ck.ob("an id is registered once", "%s in %s" % (op, E.stack_repo()), True, "", loc)
                st.cl["inserted"] = 1 if st.cl.get("absent") else 2
            elif op == "erase":
                ok = st.cl.get("own")
                self.ck.ob("only the leaving instance is removed", E.stack_repo(), ok,
                           "%s removes a registered processor without having found it to be the leaving instance (path %s)" % (E.stack_repo(), E.path()), loc)
                st.cl["erased"] = 1
            elif op in ("clear", "operator=", "swap", "extract", "merge") and not E.stack[0].q.endswith("~Router"):
                self.ck.ob("only the leaving instance is removed", "%s in %s" % (op, E.stack_repo()), False,
                           "%s changes the whole registry (%s)" % (E.stack_repo(), op), loc)
        return Each.on_call(self, E, st, site, q, args)

    def params(self, E, st):
        """processors passed to the operations on the call stack"""
        for fn, args in zip(E.stack, E.sargs):
            for a in args:
                if isinstance(a, V) and a.k != "c":
                    yield E.load(st, a, 8, "p")


@prop("M06", "path-sensitive effect analysis of every operation on the processor registry",
      "Every function that touches the registry, including the announcement loops; uniqueness within the container is the comparator's, whose "
      "definition as the order of ids is part of the analysis. Critical sections are those of T03.")
def registry(ck):
    P = ck.P
    K = "membership operations report what they did"
    add, = ck.fn(ROUTER + "::addProcessor")
    rem, = ck.fn(ROUTER + "::removeProcessor")
    for f, ev in ((add, "inserted"), (rem, "erased")):
        r = Registry(ck, f)
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            if kind != "ret" or val is None:
                continue
            tv = st.known(val)
            did = st.cl.get(ev)
            if did == 2:
                # reported through the container's own answer
                ok = any(x.k == "res" and "insert" in str(x.a[2]) or x.k == "res" and "emplace" in str(x.a[2]) for x in leaves(val))
                ck.ob("an id is registered once", "reported by " + f.q, ok,
                      "%s inserts a processor without having checked, in the same critical section, that its id is free" % f.q, where(f, line))
                continue
            ck.ob(K, "%s %s" % (f.q, tv), bool(did) == tv if tv is not None else False,
                  "%s reports %s although the processor was %s" % (f.q, tv, ev if did else "not " + ev), where(f, line))
            if ev == "erased" and did or ev == "inserted" and did:
                ck.ob("membership changes are announced", f.q, st.cl.get("looped"), "%s returns at line %s without announcing the change" % (f.q, line), where(f, line))
    for f in named(ck, ROUTER) + [x for x in P.fns.values() if x.blocks and x.file == add.file and P.is_repo(x) and not is_lambda(x)]:
        if f not in (add, rem):
            ck.run(f, Registry(ck, f))
    find, = ck.fn(ROUTER + "::findProcessor")
    E, out = ck.run(find, Registry(ck, find))
    for kind, val, st, line in out:
        if kind != "ret":
            continue
        v = E.load(st, mk("arg", 0, "sret"), 8, "p")
        e = [x for x in leaves(v) if x.k == "elem"]
        if e:
            it = e[0].a[1]
            ok = it.k == "iter" and it.a[2] == "find" and it.a[3] is mk("arg", 2, find.args[2][2] or "") and st.known(
                icmp("eq", it, mk("iter", it.a[0], None, "end"))) is False
            ck.ob("a lookup returns the processor registered under that id", "found", ok,
                  "findProcessor returns %s, not the element found for the id asked for" % E.name(v), where(find, line))
        else:
            ck.ob("a lookup returns the processor registered under that id", "nothing", v is NULL,
                  "findProcessor returns %s" % show(v), where(find, line))
    cr, = ck.fn(PROC + "::create")
    E, out = ck.run(cr, Registry(ck, cr))
    for kind, val, st, line in out:
        if kind != "ret":
            continue
        v = E.load(st, mk("arg", 0, "sret"), 8, "p")
        j = st.cl.get("added")
        if j is None and st.cl.get("inserted") is None:
            continue
        ck.ob("a named processor is created exactly if its id was free", "joined %s" % j, st.known(v) is bool(j) if j in (0, 1) else False,
              "create() returns %s although the id was %s" % ("a processor" if st.known(v) is not False else "nothing", "free" if j else "taken"), where(cr, line))
    for k, n in ((K, 3), ("every listening processor is reached", 2), ("only the leaving instance is removed", 1),
                 ("a lookup returns the processor registered under that id", 2), ("a named processor is created exactly if its id was free", 2)):
        ck.need(k, n)


# ---------------------------------------------------------------- M07 dispatch
PRV = NS + "ProcessorDataPrv"
SIGNAL = "maf::signal_slots::details::BasicSignal_"


class Dispatch(R):
    throws = ()

    def __init__(self, ck, f, hm, msg):
        self.ck, self.f, self.hm, self.msg = ck, f, hm, msg

    def table(self, E, a):
        return isinstance(a, V) and E.in_member(a, PRV, self.hm)

    def elem(self, E, v):
        """the element of the handler table v was reached through"""
        for x in leaves(v):
            if x.k == "elem" and self.table(E, x.a[0]):
                return x

    def at(self, E, site):
        return where(site.fn if E.p.is_repo(site.fn) else self.f, site.line)

    def typekey(self, E, st, a):
        v = E.load(st, a, 8, "p")
        return v.k == "res" and v.a[2] == "std::any::type" and self.msg in v.a[3] and not st.cl.get("stale")

    def on_call(self, E, st, site, q, args):
        if q in (SIGNAL + "::connected", SIGNAL + "::connectionCount"):  # what these say is decided by the signal properties
            return [("ret", mk("qry", "connected" if q.endswith("connected") else "size", args[0]), st)]
        if q == "std::any::any" and len(args) > 1 and args[1] is self.msg:
            st.cl["moved"] = 1
        if q == "std::any::type" and self.msg is not None and args[0] is self.msg and st.cl.get("moved"):
            st.cl["stale"] = 1
        co = cont_op(E, site, q, args)
        if co and self.table(E, co[2]) and split(co[2])[0].k != "elem":
            self.op(E, st, site, co[1], co[2], args)
        return None

    def op(self, E, st, site, op, cont, args):
        pass


class Deliver(Dispatch):
    """processing, posting: the type looked up is the type of the message"""
    K = "the handlers looked up are those of the message's own type"

    def op(self, E, st, site, op, cont, args):
        if op in ("find", "count", "contains", "operator[]", "at", "lower_bound", "equal_range"):
            self.ck.ob(self.K, "%s by %s" % (op, self.f.q), self.typekey(E, st, args[1]),
                       "%s looks up the handlers of %s, not those of the type of its message" % (self.f.q, E.name(E.load(st, args[1], 8, "p"))), self.at(E, site))
        self.ck.ob("delivering changes no handlers", "%s by %s" % (op, self.f.q),
                   op not in ("operator[]", "erase", "insert", "emplace", "clear", "operator=", "swap", "insert_or_assign", "try_emplace", "extract"),
                   "%s changes the handler table (%s)" % (self.f.q, op), self.at(E, site))

    def on_branch(self, E, st, site, cond, truth):
        t = truth
        while cond.k == "not":
            cond, t = cond.a[0], not t
        if cond.k == "icmp" and cond.a[0] == "eq":
            x, y = cond.a[1:]
            if x.k == "iter" and y.k == "iter" and self.table(E, x.a[0]) and {x.a[2], y.a[2]} == {"find", "end"}:
                st.cl["found"] = not t
            for v in (x, y):
                if v.k == "qry" and v.a[0] == "size" and self.elem(E, v.a[1]) is not None and NULL in (x, y):
                    st.cl["some"] = not t
                if v.k == "init" and self.elem(E, v) is not None and NULL in (x, y):
                    st.cl["none"] = t
        if cond.k == "init" and self.elem(E, cond) is not None:
            st.cl["none"] = not t
        if cond.k == "qry" and cond.a[0] == "connected" and self.elem(E, cond.a[1]) is not None:
            st.cl["some"] = t
        if cond.k == "icmp" and cond.a[0] in ("ult", "slt") and cond.a[1] is NULL and cond.a[2].k == "qry" and self.elem(E, cond.a[2].a[1]) is not None:
            st.cl["some"] = t

    def on_enter(self, E, st, site, fn, args):
        if fn.q == SIGNAL + "::notify":
            self.ck.ob("a message goes once to the handlers found for it", "notified in " + self.f.q, self.elem(E, args[0]) is not None and args[1] is self.msg
                       and not st.cl.get("notified"),
                       "%s notifies %s with %s" % (self.f.q, E.name(args[0]), E.name(args[1])) + (" a second time" if st.cl.get("notified") else ""), self.at(E, site))
            st.cl["notified"] = 1


class Post(Deliver):
    def on_call(self, E, st, site, q, args):
        if q == RUNTASK:
            self.go(E, st, site)
            return [("ret", None, st)]
        return Deliver.on_call(self, E, st, site, q, args)

    def on_after(self, E, st, site, q, args, v):
        if queue_op(E, site, q, args) in ("push", "emplace", "push_back", "emplace_back"):
            self.go(E, st, site)

    def go(self, E, st, site):
        K = "a message is accepted only for a type with a connected handler"
        self.ck.ob(K, self.f.q, (st.cl.get("some") or st.cl.get("some_r")) and st.cl.get("found") is not False,
                   "%s queues or processes the message without having found a connected handler for its type" % self.f.q, self.at(E, site))
        self.ck.ob("the message accepted is the one processed", self.f.q, st.cl.get("moved"),
                   "%s queues or processes something else than its message" % self.f.q, self.at(E, site))


class Inner(Dispatch):
    def on_call(self, E, st, site, q, args):
        if q == RUNTASK:
            st.cl["task"] = sat(st.cl.get("task", 0) + 1)
            return [("ret", None, st)]
        return None

    def on_enter(self, E, st, site, fn, args):
        if fn.q == PRV + "::processMessage":
            st.cl["processed"] = sat(st.cl.get("processed", 0) + 1)
            self.ck.ob("the message accepted is the one processed", self.f.q.split("(anon")[0], split(args[1])[0] in (mk("arg", 0, self.f.args[0][2] or ""), ) or
                       any(x.k == "arg" and x.a[0] == 0 for x in leaves(args[1])),
                       "%s processes %s, not the message it carries" % (self.f.q, E.name(args[1])), self.at(E, site))


class Register(Dispatch):
    def on_branch(self, E, st, site, cond, truth):
        t = truth
        while cond.k == "not":
            cond, t = cond.a[0], not t
        x = cond
        if cond.k == "icmp" and cond.a[0] == "eq" and NULL in cond.a[1:]:
            x = [v for v in cond.a[1:] if v is not NULL]
            x, t = (x[0], not t) if x else (cond, t)
        e = self.elem(E, x)
        if e is not None:
            if x.k == "init":
                st.cl["null"] = not t
            if x.k == "qry" and x.a[0] in ("size", "connected"):
                st.cl["dead"] = None if t else e.a[1]

    def op(self, E, st, site, op, cont, args):
        if op in ("operator[]", "at", "find", "try_emplace", "emplace", "insert", "count", "insert_or_assign"):
            if self.msg is None:
                return
            k = args[1]
            ok = k is self.msg or E.load(st, k, 8, "p") is E.load(st, self.msg, 8, "p")
            if op in ("emplace", "insert", "insert_or_assign"):
                return
            self.ck.ob("handlers are kept under the type asked for", "%s by %s" % (op, self.f.q), ok,
                       "%s uses the handlers of %s, not those of the type asked for" % (self.f.q, E.name(k)), self.at(E, site))
        elif op == "erase":
            k = args[1] if len(args) > 1 else None
            v = E.load(st, k, 8, "p") if k is not None and split(k)[0].k == "al" else k
            if isinstance(v, V) and v.k == "iter":
                ok = st.cl.get("dead") is v or self.msg is not None and v.a[2] == "find" and (
                    v.a[3] is self.msg or E.load(st, v.a[3], 8, "p") is E.load(st, self.msg, 8, "p"))
            else:
                ok = k is self.msg and self.msg is not None
            self.ck.ob("only the type disconnected and types without handler are removed", self.f.q, ok,
                       "%s removes handlers of another type that may be connected" % self.f.q, self.at(E, site))
        elif op in ("clear", "operator=", "swap", "extract", "merge"):
            self.ck.ob("only the type disconnected and types without handler are removed", self.f.q, False,
                       "%s removes the handlers of all types" % self.f.q, self.at(E, site))

    def on_call(self, E, st, site, q, args):
        if q in ("std::shared_ptr::operator=", "std::shared_ptr::reset", "std::shared_ptr::swap"):
            e = split(args[0])[0]
            if e.k == "elem" and self.table(E, e.a[0]):
                self.ck.ob("connecting keeps the handlers already connected", self.f.q, st.cl.get("null") is True,
                           "%s replaces the handlers of a type that may have some" % self.f.q, self.at(E, site))
        return Dispatch.on_call(self, E, st, site, q, args)

    def on_enter(self, E, st, site, fn, args):
        if fn.q == SIGNAL + "::connect":
            this = args[1] if fn.args[0][3] else args[0]
            st.cl["connected"] = sat(st.cl.get("connected", 0) + 1)
            ok = self.elem(E, this) is not None or split(this)[0].k == "heap" or any(x.k == "heap" for x in leaves(this))
            self.ck.ob("handlers are kept under the type asked for", "connected by " + self.f.q, ok,
                       "%s connects the callback to %s, which is not in the handler table" % (self.f.q, E.name(this)), self.at(E, site))


@prop("M07", "dataflow of the message type to the handler lookup, and typestate of the handler table",
      "Every function that reads or changes the handler table. Types are identified by std::any::type of the very message. How a signal invokes its "
      "slots is decided by the signal properties.")
def dispatch(ck):
    P = ck.P
    hm = role(ck, PRV, lambda q, t: "Lockable" in q and "map" in t.get("n", ""), "a locked map of handlers")
    pm, = ck.fn(PRV + "::processMessage")
    E, out = ck.run(pm, Deliver(ck, pm, hm, mk("arg", 1, pm.args[1][2] or "")))
    for kind, val, st, line in out:
        if kind == "ret":
            ok = bool(st.cl.get("notified")) or st.cl.get("found") is False or st.cl.get("none") is True
            ck.ob("a message goes once to the handlers found for it", "%s ends" % pm.q, ok, "%s can end at line %s without notifying the handlers" % (pm.q, line), where(pm, line))
    done = {pm}
    for f in named(ck, PROC, lambda f: f.q.split("::")[-1] in ("post", "waitablePost") and f.file.endswith(".cpp")):
        i = 2 if f.args[0][3] else 1
        ck.run(f, Post(ck, f, hm, mk("arg", i, f.args[i][2] or "")))
        done.add(f)
    for f in P.fns.values():
        if f.blocks and is_lambda(f) and f.q.endswith("operator()") and re.match(re.escape(PROC) + r"::(post|waitablePost)::", f.q) and f.file == pm.file:
            E, out = ck.run(f, Inner(ck, f, hm, None))
            for kind, val, st, line in out:
                if kind == "ret":
                    ck.ob("the message accepted is the one processed", f.q.split("::$")[0] + " job", st.cl.get("processed") == 1 or st.cl.get("task") == 1,
                          "the job queued by %s does not process its message exactly once" % f.q, where(f, line))
    con, = ck.fn(PROC + "::connect", pred=lambda f: f.file == pm.file)
    E, out = ck.run(con, Register(ck, con, hm, mk("arg", 2, con.args[2][2] or "")))
    for kind, val, st, line in out:
        if kind == "ret":
            ck.ob("connecting keeps the handlers already connected", "connected", st.cl.get("connected") == 1,
                  "connect() can return with the callback connected %d times" % st.cl.get("connected", 0), where(con, line))
    dis, = ck.fn(PROC + "::disconnect", pred=lambda f: f.file == pm.file)
    ck.run(dis, Register(ck, dis, hm, mk("arg", 1, dis.args[1][2] or "")))
    done |= {con, dis}
    for f in named(ck, PROC, public=False) + named(ck, PRV, public=False):
        if f not in done and f.file == pm.file and not f.q.split("::")[-1].startswith("~") and not re.search(r"::(msgConnected|connected|cleanup\w*)$", f.q):
            ck.run(f, Register(ck, f, hm, None))
