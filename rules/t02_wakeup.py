"""T02: no lost wake-ups on the condition variables of the library."""
from .util import *

QCLS = "maf::threading::ThreadSafeQueue"
ADD = {"push", "emplace", "push_back", "emplace_back", "insert", "operator=", "swap"}


class Wake(Flags):
    throws = ("user",)

    def __init__(self, ck, f, cls, cv, state):
        """state: {member: values that can end a wait (None: any)}"""
        self.ck, self.f, self.cls, self.cv, self.state = ck, f, cls, cv, state
        self.waits = 0
        self.m = None

    def mem(self, E, a):
        for c, m in E.member(a):
            if c == self.cls:
                return m
        return None

    def flag_of(self, E, addr):
        if self.mem(E, addr) in self.state:
            for m, _ in self._locks:
                if self.mem(E, m):
                    return m
        return None

    _locks = ()

    def lock_ok(self, E, st):
        return any(self.mem(E, m) is not None for m, _ in st.locks)

    def change(self, E, st, site, mem, v):
        en = self.state[mem]
        if en is not None and v is not None and v.k == "c" and v.a[0] not in en:
            return
        self.ck.ob("state a waiter checks is changed under the waiters' lock", "%s changes %s" % (self.f.q, mem), self.lock_ok(E, st),
                   "%s changes '%s' without holding the lock that waiters check it under: a wake-up can be lost (path %s)" %
                   (self.f.q, mem, E.path()), where(site.fn, site.line))
        st.cl["pend"] = mem

    def on_store(self, E, st, site, a, v, size, atomic):
        m = self.mem(E, a)
        if m in self.state and split(a)[0].k != "al":
            self.change(E, st, site, m, v)

    def on_load(self, E, st, site, a, v, size, atomic):
        if self.mem(E, a) in self.state:
            st.cl.pop("woken", None)

    def flag_written(self, E, st, site, addr, v):
        self.change(E, st, site, self.mem(E, addr), v)

    def flag_unlocked(self, E, st, site, addr):
        pass

    def on_call(self, E, st, site, q, args):
        self._locks = st.locks
        if CVWAIT.match(q) and self.mem(E, args[0]) == self.cv:
            n, op = len(args), q.rsplit("::", 1)[1]
            if op == "wait" and n == 2 or op != "wait" and n == 3:
                self.waits += 1
                self.ck.ob("waiting releases the lock the state is checked under", self.f.q, self.lock_ok(E, st),
                           "%s waits without holding the lock of the state it waits for" % self.f.q, where(site.fn, site.line))
                st.cl["woken"] = 1
        elif CVNOTIFY.match(q) and self.mem(E, args[0]) == self.cv:
            if q.endswith("notify_all") or st.cl.get("pend") in (None,) or self.single(st.cl.get("pend")):
                st.cl.pop("pend", None)
            return None
        co = cont_op(E, site, q, args)
        if co is not None:
            m = self.mem(E, co[2])
            if m in self.state:
                if co[1] in ("empty", "size"):
                    st.cl.pop("woken", None)
                elif co[1] in ADD and co[0] in ("queue", "priority_queue", "vector", "deque", "list"):
                    if not (co[1] == "operator=" or co[1] == "swap"):
                        self.change(E, st, site, m, None)
        if FLAGLOAD.match(q) and self.mem(E, args[0]) in self.state:
            st.cl.pop("woken", None)
        if FLAGSTORE.match(q) and self.mem(E, args[0]) in self.state and self.flag_of(E, args[0]) is None:
            v = args[2] if "compare" in q else args[1]
            self.change(E, st, site, self.mem(E, args[0]), v)
        return Flags.on_call(self, E, st, site, q, args)

    def single(self, mem):
        """state of which one change satisfies one waiter only: waking one is enough"""
        return mem in self.one

    one = ()

    def on_unlock(self, E, st, site, m):
        if self.mem(E, m) is not None and st.cl.get("woken"):
            self.ck.ob("a woken waiter re-checks the state before acting on it", self.f.q, False,
                       "%s leaves its wait without re-checking the state it waited for (path %s)" % (self.f.q, E.path()),
                       where(site.fn, site.line))


def cv_of(ck, cls):
    return role(ck, cls, lambda q, t: q.startswith("std::condition_variable"), "a condition variable")


@prop("T02", "must-follow dataflow (enabling change under the waiters' lock, then notify) on every path",
      "For each condition variable of the library the state its waiters check is identified by role; every function that can make a wait "
      "end is followed on all paths. A single added element may wake a single waiter; every other change must wake all.")
def check(ck):
    P = ck.P
    # every condition variable of the library must be covered
    known = {QCLS, "maf::messaging::SyncTimerDataPrv", "maf::messaging::ServiceStatusSignal"}
    for q, ids in P.classes.items():
        if not q.startswith("maf::"):
            continue
        for i in ids:
            for m in P.types[i]["m"]:
                mt = P.rt(m[2])
                if mt >= 0 and P.types[mt].get("q", "").startswith("std::condition_variable") and q not in known:
                    raise AnalysisError("condition variable %s::%s has no wait specification" % (q, m[0]))
    spec = []
    spec.append((QCLS, QCLS, {role(ck, QCLS, lambda q, t: q == "maf::threading::Lockable", "container"): None,
                              role(ck, QCLS, lambda q, t: q.startswith("std::atomic"), "flag"): (1,)}))
    st = "maf::messaging::SyncTimerDataPrv"
    names = [m[0] for m in layout(ck, st)]
    if "running" not in names:
        raise AnalysisError("SyncTimer state 'running' not found")
    spec.append((st, "maf::messaging::SyncTimer", {"running": (0,)}))
    ss = "maf::messaging::ServiceStatusSignal"
    lay = layout(ck, ss)
    spec.append((ss, ss, {m[0]: ((1,) if P.types[m[2]].get("n") == "bool" else None) for m in lay
                          if m[2] >= 0 and (P.types[m[2]]["k"] == "enum" or P.types[m[2]].get("n") == "bool")}))
    for cls, prefix, state in spec:
        cv = cv_of(ck, cls)
        w = 0
        for f in P.fns.values():
            if not f.blocks or not f.q.startswith(prefix + "::") or "lambda" in f.dem or "$_" in f.dem:
                continue
            n = f.q.split("::")[-1]
            if n == prefix.split("::")[-1]:
                continue
            r = Wake(ck, f, cls, cv, state)
            r.one = tuple(state)[:1] if cls == QCLS and "push<" not in f.dem else ()
            if cls == "maf::messaging::SyncTimerDataPrv":
                r.one = ("running",)  # one thread runs a blocking timer
            E, out = ck.run(f, r)
            w += r.waits
            if r.waits:
                ck.ob("a woken waiter re-checks the state before acting on it", f.q)
            for kind, val, s, line in out:
                p = s.cl.get("pend")
                if p is not None and kind == "ret" and not r.waits:
                    ck.ob("a change that can end a wait is followed by a wake-up", "%s changes %s" % (f.q, p), False,
                          "%s can return at line %s after changing '%s' without waking %s" %
                          (f.q, line, p, "a waiter" if p in r.one else "all waiters"), where(f, line))
            ck.ob("a change that can end a wait is followed by a wake-up", f.q)
        ck.ob("the condition variable is waited on", cls, w > 0) if w else None
        if not w:
            raise AnalysisError("no wait on %s::%s found" % (cls, cv))
    ck.need("a woken waiter re-checks the state before acting on it", 3)
    ck.need("state a waiter checks is changed under the waiters' lock", 4)
