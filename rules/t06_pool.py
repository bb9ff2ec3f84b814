"""T06 thread pools: life of a task, of the worker threads and of the pool"""
from .util import *
from .processor import TSQ, TAKES, is_lambda

POOL = "maf::threading::ThreadPoolImplBase"


class Pool(R):
    throws = ()

    def __init__(self, ck, f, hooks, lst, thr, mx):
        self.narrow = set()
        self.ck, self.f, self.hooks, self.lst, self.thr, self.mx = ck, f, hooks, lst, thr, mx

    def on_load(self, E, st, site, addr, val, size, atomic):
        if 0 < size < 8 and isinstance(val, V):
            self.narrow.add(val)

    def is_list(self, E, a):
        return isinstance(a, V) and E.in_member(a, POOL, self.lst)

    def at(self, E, site):
        return where(site.fn if E.p.is_repo(site.fn) else self.f, site.line)

    def hook(self, E, args):
        for h, n in self.hooks.items():
            if E.in_member(args[0], POOL, n):
                return h
        # a copy of the hook, as handed to clear()
        return None

    def guarded(self, E, st, what):
        """the lock of the running list is the one held while it is touched"""
        return any(E.in_member(m, POOL, self.mx[what]) for m, _ in st.locks) if what in self.mx else bool(st.locks)

    def on_indirect(self, E, st, site, cv, args):
        h = None
        for n, m in self.hooks.items():
            if any(E.in_member(x, POOL, m) for x in leaves_addr(cv)):
                h = n
        ck, t = self.ck, st.cl.get("t")
        K = "a task is run once, while registered, and finished exactly once after that"
        if h == "run":
            ck.ob(K, "run in " + self.f.q, t == "listed", "%s runs a task that is %s (path %s)" % (
                self.f.q, "not registered as running" if t in (None, "taken") else t, E.path()), self.at(E, site))
            ck.ob("no hook but stop runs under a lock of the pool", "run", not st.locks, "%s runs a task holding %s" % (self.f.q, locks(E, st)), self.at(E, site))
            st.cl["t"] = "ran"
        elif h == "done":
            inclear = any(x.q == TSQ + "::clear" for x in E.stack)
            ok = t == "unlisted" or t == "taken" and st.cl.get("shut") or t == "refused" or inclear
            ck.ob(K, "done in " + self.f.q, ok, "%s finishes a task that is %s (path %s)" % (
                self.f.q, "still registered as running" if t in ("ran", "listed") else "not to be finished here", E.path()), self.at(E, site))
            ck.ob("no hook but stop runs under a lock of the pool", "done", not st.locks, "%s finishes a task holding %s" % (self.f.q, locks(E, st)), self.at(E, site))
            if not inclear:
                st.cl["t"] = "done"
            else:
                st.cl["dropped"] = 1
        elif h == "stop":
            e = [x for x in leaves(args[-1]) if x.k == "elem" and self.is_list(E, x.a[0])]
            ck.ob("only registered tasks are stopped, under the lock of the registration", self.f.q, e and self.held(E, st) and st.cl.get("closed"),
                  "%s stops a task %s" % (self.f.q, "that is not registered as running" if not e else "before the queue was closed" if not st.cl.get("closed")
                                          else "without holding the lock it is registered under: it may be finished and deleted"), self.at(E, site))
            st.cl["stop"] = 1
        return [("ret", None, st)] if h else None

    def held(self, E, st):
        return any(any(c == POOL for c, _ in E.member(m)) and not any(c == TSQ for c, _ in E.member(m)) and any(E.in_member(m, POOL, x) for x in self.mx)
                   for m, _ in st.locks)

    def on_lock(self, E, st, site, m, mode):
        st.cl.pop("open", None)

    def on_unlock(self, E, st, site, m):
        if not any(c == TSQ for c, _ in E.member(m)):
            st.cl.pop("open", None)

    def on_call(self, E, st, site, q, args):
        if FLAGLOAD.match(q) and any(c == TSQ for c, _ in E.member(args[0])) and not any(x.q.split("::")[-1] in TAKES + ("push", "clear", "close") for x in E.stack):
            out = []
            for v in (0, 1):
                s = st.copy()
                if v:
                    s.cl["shut"] = 1
                    s.cl.pop("open", None)
                elif s.locks:
                    s.cl["open"] = 1
                out.append(("ret", C(v), s))
            return out
        if FLAGSTORE.match(q) and any(c == TSQ for c, _ in E.member(args[0])):
            v = args[2] if "compare_exchange" in q else args[1]
            if v.k == "c" and v.a[0]:
                st.cl["closed"] = 1
            if "compare_exchange" in q:
                return None
        if q == "std::call_once":
            st.cl["once"] = 1
        if q == "std::thread::thread" and len(args) > 1 or q in ("std::jthread::jthread",):
            st.cl["thread"] = 1
        if q in ("std::thread::join", "std::thread::detach"):
            self.ck.ob("threads are joined after the queue was closed and holding no lock", self.f.q, q.endswith("join") and st.cl.get("closed") and not st.locks,
                       "%s %s a worker %s" % (self.f.q, q.split("::")[-1] + "s", "holding " + locks(E, st) if st.locks else "before the queue was closed"), self.at(E, site))
            st.cl["joined"] = 1
            return [("ret", None, st)]
        co = cont_op(E, site, q, args)
        if co and self.is_list(E, co[2]):
            op, loc = co[1], self.at(E, site)
            if op in ("push_back", "push_front", "emplace_back", "insert", "emplace", "emplace_front"):
                self.ck.ob("a task is registered only while the pool is open", self.f.q, st.cl.get("t") == "taken" and st.cl.get("open") and self.held(E, st),
                           "%s registers a task %s" % (self.f.q, "it did not take from the queue" if st.cl.get("t") != "taken" else
                                                       "without having seen, under the same lock, that the pool is open: nobody would stop it"), loc)
                st.cl["t"] = "listed"
            elif op in ("erase", "remove"):
                ok = st.cl.get("t") == "ran" and (op == "remove" or st.cl.get("same"))
                self.ck.ob("a task unregisters only itself", self.f.q, ok, "%s unregisters %s" % (
                    self.f.q, "a task that may be another one" if st.cl.get("t") == "ran" else "a task that did not run"), loc)
                st.cl["t"] = "unlisted"
                st.cl.pop("same", None)
            elif op in ("clear", "operator=", "swap", "pop_front", "pop_back", "splice"):
                self.ck.ob("a task unregisters only itself", self.f.q, False, "%s removes tasks from the registration that may be running" % self.f.q, loc)
            elif op in ("begin", "cbegin") and st.cl.get("closed"):
                st.cl["walk"] = 1
        if co and E.in_member(co[2], POOL, self.thr) and co[1] in ("push_back", "emplace_back"):
            self.ck.ob("threads are launched only under the lock, while the pool is open and not full", self.f.q,
                       st.cl.get("open") and st.locks and st.cl.get("room"),
                       "%s launches a thread %s" % (self.f.q, "without the lock" if not st.locks else "without having seen the pool open under the lock: nobody would join it"
                                                    if not st.cl.get("open") else "although the pool may be full"), self.at(E, site))
            st.cl["launched"] = 1
        return None

    def on_after(self, E, st, site, q, args, v):
        if q == "std::swap" and any(any(c == TSQ for c, _ in E.member(a)) for a in args if isinstance(a, V)) and any(x.q == TSQ + "::clear" for x in E.stack):
            st.cl["cleared"] = 1 if st.cl.get("closed") else 2
        if q == "std::list::remove_if":
            st.cl["t"] = "unlisted"

    def on_return(self, E, st, site, fn, val):
        n = fn.q.split("::")[-1]
        if fn.q.startswith(TSQ + "::") and not is_lambda(fn) and val is not None:
            tv = st.known(val)
            if n in TAKES:
                self.ck.ob("each task taken is finished before the next is taken", self.f.q, st.cl.get("t") in (None, "done"),
                           "%s takes another task while the one it took is %s" % (self.f.q, st.cl.get("t")), self.at(E, site))
                for k in ("shut", "open"):
                    st.cl.pop(k, None)
                st.cl["t"] = "taken" if tv is not False else "end"
            if n == "push":
                st.cl["t"] = "queued" if tv else "refused"
        if n == "clear" and fn.q.startswith(TSQ):
            st.cl.setdefault("cleared", 1 if st.cl.get("closed") else 2)

    def on_branch(self, E, st, site, cond, truth):
        t = truth
        while cond.k == "not":
            cond, t = cond.a[0], not t
        if cond.k != "icmp":
            return
        op, x, y = cond.a
        if op == "eq":
            if x.k == "iter" and y.k == "iter" and self.is_list(E, x.a[0]) and "end" in (x.a[2], y.a[2]) and t:
                if st.cl.get("t") == "ran":
                    st.cl["t"] = "unlisted"  # it was found there
                if st.cl.get("walk"):
                    st.cl["walked"] = 1
            if any(z.k == "elem" and self.is_list(E, z.a[0]) for z in leaves(cond)) and x.k != "iter":
                if t and not any(z in self.narrow for z in leaves(cond)):
                    st.cl["same"] = 1  # the same task: its address, not something several may share
                elif not t:
                    st.cl.pop("same", None)
        if op in ("ult", "ule", "slt", "sle"):
            sz = lambda v: any(z.k == "qry" and E.in_member(z.a[1], POOL, self.thr) for z in leaves(v))
            strict = op in ("ult", "slt")
            if sz(x) and not sz(y):
                st.cl["room"] = t and strict
            elif sz(y) and not sz(x):
                st.cl["room"] = not t and not strict


def leaves_addr(v):
    """addresses the value was loaded from"""
    for x in leaves(v):
        if x.k == "init":
            yield x.a[0]
        yield x


def locks(E, st):
    return ", ".join(E.name(m) for m, _ in st.locks)


@prop("T06", "typestate of each task and of the pool on every path of the worker, submission and shutdown functions",
      "Both instantiations used by the three pools. Hooks are identified by the constructor parameter they come from. That a woken worker takes each "
      "task once is T01 and T02; locks are T03 and T04.")
def pools(ck):
    P = ck.P
    hooks, lst, thr = {}, None, None
    lay = layout(ck, POOL)
    for c in [f for f in ck.fn(POOL + "::ThreadPoolImplBase")]:
        E, out = ck.run(c, R())
        this = mk("arg", 0, "this")
        for kind, val, st, line in out:
            for off in range(0, 1024, 8):
                v = E.load(st, ptr(this, off + 24), 8, "p")
                if v.k == "init" and split(v.a[0])[0].k == "arg" and split(v.a[0])[1] == 24 and split(v.a[0])[0].a[0]:
                    m = [x for c, x in E.member(ptr(this, off)) if c == POOL]
                    hooks[{2: "run", 3: "stop", 4: "done"}.get(split(v.a[0])[0].a[0], "?")] = m[0] if m else None
    for n, off, t, q in lay:
        if q in ("std::list", "std::__cxx11::list", "std::vector", "std::deque", "std::set", "std::forward_list"):
            if re.match(r"std::j?thread$", P.types[t].get("n", "").split("<", 1)[1].split(",")[0].strip()):
                thr = n
            else:
                lst = n
    if set(hooks) != {"run", "stop", "done"} or not lst or not thr:
        raise AnalysisError("cannot identify the parts of the pool: %s %s %s" % (hooks, lst, thr))
    mx = {n: 1 for n, off, t, q in lay if q == "std::mutex" or "mutex" in q}
    K1 = "a task is run once, while registered, and finished exactly once after that"
    fns = [f for f in P.fns.values() if f.blocks and f.q.startswith(POOL + "::") and not is_lambda(f) and not f.q.endswith("::ThreadPoolImplBase")]
    for f in fns:
        n = f.q.split("::")[-1]
        r = Pool(ck, f, hooks, lst, thr, mx)
        # only whole operations: helpers are analysed where they are called
        if n in helpers(ck, fns):
            continue
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            t = st.cl.get("t")
            if n == "run":
                ck.ob(K1, "submitted", t in ("queued", "done"), "%s can return at line %s with the task neither queued nor finished" % (f.q, line), where(f, line))
            else:
                ck.ob(K1, f.q + " ends", t in (None, "done", "end"), "%s can return at line %s with a task %s" % (f.q, line, t), where(f, line))
            if (st.cl.get("closed") or st.cl.get("joined")) and not st.cl.get("once"):
                ok = st.cl.get("closed") and st.cl.get("walked") and st.cl.get("cleared") == 1
                ck.ob("shutdown closes, stops the running, drops the pending and joins", f.q, ok,
                      "%s can return at line %s %s" % (f.q, line, "without closing the queue" if not st.cl.get("closed") else
                                                       "without having stopped every registered task after closing" if not st.cl.get("walked") else
                                                       "without dropping the pending tasks after closing"), where(f, line))
            if n.startswith("~") or n == "shutdown":
                ck.ob("destroying a pool shuts it down", n, st.cl.get("once") or st.cl.get("joined"), "%s can return without having shut down" % f.q, where(f, line))
        if any(o[2].cl.get("closed") and not o[2].cl.get("once") for o in out):
            ck.ob("shutdown closes, stops the running, drops the pending and joins", f.q + " joins", any(o[2].cl.get("joined") for o in out),
                  "%s joins no thread" % f.q, where(f))
            ck.ob("shutdown closes, stops the running, drops the pending and joins", f.q + " finishes the dropped", any(o[2].cl.get("dropped") for o in out),
                  "%s does not finish the tasks it drops" % f.q, where(f))
    for k, n in ((K1, 4), ("a task is registered only while the pool is open", 1), ("a task unregisters only itself", 1),
                 ("only registered tasks are stopped, under the lock of the registration", 1), ("threads are launched only under the lock, while the pool is open and not full", 1),
                 ("threads are joined after the queue was closed and holding no lock", 1), ("shutdown closes, stops the running, drops the pending and joins", 1),
                 ("destroying a pool shuts it down", 1)):
        ck.need(k, n)
    # the pools hand every task on, once
    it = ck.cls("maf::threading::IThreadPool")
    K = "every task given to a pool reaches its queue"
    for f in P.fns.values():
        if f.blocks and P.is_repo(f) and f.virt and f.cls is not None and f.cls >= 0 and any(P.isa(f.cls, i) for i in it) and f.q.endswith("::run") and not f.q.startswith("maf::threading::IThreadPool"):
            r = Give(ck, f, thr)
            E, out = ck.run(f, r)
            for kind, val, st, line in out:
                task = mk("arg", 1, f.args[1][2] or "")
                if kind == "ret":
                    ck.ob(K, f.q, st.cl.get("given") == 1 or st.known(task) is False and not st.cl.get("given"),
                          "%s can return at line %s having handed the task on %d times" % (f.q, line, st.cl.get("given", 0)), where(f, line))
    ck.need(K, 3)


def helpers(ck, fns):
    """names of member functions called by other member functions of the pool: analysed where they are called"""
    s = set()
    for f in fns:
        for b in f.blocks:
            for i in b:
                if i[0] == "call" and isinstance(i[2], str):
                    g = ck.P.fns.get(i[2])
                    if g in fns and g.q != f.q:
                        s.add(g.q.split("::")[-1])
    return s - {"run", "shutdown"}


class Give(R):
    throws = ()

    def __init__(self, ck, f, thr):
        self.ck, self.f, self.thr = ck, f, thr

    def on_enter(self, E, st, site, fn, args):
        if fn.q == POOL + "::run":
            a = E.load(st, args[1], 8, "p") if split(args[1])[0].k in ("al", "heap") else args[1]
            task = mk("arg", 1, self.f.args[1][2] or "")
            self.ck.ob("every task given to a pool reaches its queue", self.f.q + " task", task in leaves(a) or any(task in leaves(x) for x in args),
                       "%s queues %s instead of the task it was given" % (self.f.q, E.name(a)), where(self.f, site.line))
            st.cl["given"] = sat(st.cl.get("given", 0) + 1)
