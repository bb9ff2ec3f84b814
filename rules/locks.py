"""T03 guarded data is only accessed under its lock; T04 lock discipline; T05 no user code under a library lock."""
from .util import *
from maf.engine import WRAP, guard_region, SPTR, ITER_CLS, INLINE_STD, SKIP

# classes that guard their own members with plain mutex members: found by layout, see raw_specs
REALMUTEX = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex", "std::recursive_timed_mutex")


def is_lambda(f):
    return "$_" in f.dem or "{lambda" in f.dem or "'lambda" in f.dem


def entry_points(ck):
    """functions a thread can enter from outside the library, and those nothing calls directly"""
    P = ck.P
    called = set()
    for f in P.fns.values():
        for b in f.blocks or ():
            for ins in b:
                if ins[0] == "call" and isinstance(ins[2], str):
                    called.add(ins[2])
    roots, lambdas = [], []
    for f in P.fns.values():
        if not f.blocks or not P.is_repo(f) or "3rdparty" in f.file or SKIP.match(f.q) or "/logging/" in f.file:
            continue
        if is_lambda(f):
            if f.q.endswith("operator()") or "::operator()" in f.q:
                lambdas.append(f)
            continue
        home = P.types[f.cls].get("file", "") if f.cls is not None and f.cls >= 0 else f.file
        api = f.acc == "public" and ("/include/" in f.file or "/include/" in home)
        if f.name not in called or api or f.virt:
            roots.append(f)
        elif "/include/" not in f.file and f.acc == "public" and not f.j["internal"]:
            # exported members of implementation classes are entered from other units through pointers
            if P.types[f.cls].get("q", "") in EXPORTED if f.cls is not None and f.cls >= 0 else False:
                roots.append(f)
    return roots, lambdas


EXPORTED = {"maf::messaging::details::Router"}


def constructs(f):
    """class whose constructor or destructor f is"""
    n = f.q.rsplit("::", 2)
    if len(n) > 1 and (strip_targs(n[-1]) == strip_targs(n[-2]) or n[-1].startswith("~")):
        return f.q.rsplit("::", 1)[0]
    return None


class Guarded(R):
    throws = ("user",)

    def __init__(self, ck, f, raws):
        self.ck, self.f, self.raws = ck, f, raws
        self.ctor = None
        if f.cls is not None and f.cls >= 0:
            n = f.q.split("::")
            if len(n) > 1 and (n[-1] == n[-2] or n[-1].startswith("~")):
                self.ctor = mk("arg", 0, f.args[0][2] or "") if f.args else None

    def region(self, E, a):
        """(name, lock test) if the address lies in data guarded by a lock"""
        root, off = split(a)
        if root.k in ("al", "heap", "fn", "c", "zero"):
            return None
        if root.k == "elem":
            return self.region(E, root.a[0]) if isinstance(root.a[0], V) and root.a[0].k != "contof" else None
        r = root
        while r.k == "init":
            r = split(r.a[0])[0]
        if self.ctor is not None and root is self.ctor:
            return None
        ch = E.chain(a)
        inside = {x[0] for x in ch}
        if any(constructs(x) in inside for x in E.stack):
            return None  # not shared yet, or no longer
        found = None
        for i, (c, m, o, mt, ct) in enumerate(ch):
            if c in WRAP and m == WRAP[c][1]:
                mm = [x for x in E.p.types[ct]["m"] if x[0] == WRAP[c][0]]
                if mm:
                    q = E.p.types[E.p.rt(mm[0][2])].get("q", "")
                    if q in REALMUTEX:
                        owner = [(x[0], x[1]) for x in ch[:i]]
                        nm = "%s.%s" % owner[-1] if owner else c
                        found = nm, root, off - self.inner(ch, i, a, E) + mm[0][1]
            mu = self.raws.get(c, {}).get(m)
            if mu:
                mm = [x for x in E.p.types[ct]["m"] if x[0] == mu]
                found = "%s.%s" % (c, m), root, off - self.inner(ch, i, a, E) + mm[0][1]
        return found

    def inner(self, ch, i, a, E):
        """offset of address a inside the class object of step i"""
        root, off = split(a)
        # walk down from the root type
        pos = 0
        for c in ch[:i]:
            pos += c[2]
        # arrays / elements are reduced modulo inside chain; approximate with plain nesting
        return off - pos

    def check(self, E, st, site, a, what):
        r = self.region(E, a)
        if r is None:
            return
        nm, root, mo = r
        ok = any(split(m) == (root, mo) for m, _ in st.locks)
        self.ck.ob("guarded data is accessed under its lock", "%s in %s" % (nm, site.fn.q if E.p.is_repo(site.fn) else E.stack_repo()), ok,
                   "%s is %s without holding its lock (entry %s, path %s)" % (nm, what, self.f.q, E.path()),
                   where(site.fn if E.p.is_repo(site.fn) else self.f, site.line))

    def on_store(self, E, st, site, a, v, size, atomic):
        if not atomic:
            self.check(E, st, site, a, "written")

    def on_load(self, E, st, site, a, v, size, atomic):
        if not atomic:
            self.check(E, st, site, a, "read")

    def on_call(self, E, st, site, q, args):
        if q == "virtual" or not args:
            return None
        if (CONT.match(q) or SPTR.match(q) or ITER_CLS.match(q) or q.startswith("std::function::") or q.startswith("std::any::")):
            op = q.rsplit("::", 1)[1]
            if op.startswith("~") or op == q.split("::")[-2] and q.startswith("std::") and False:
                return None
            for a in args:
                if isinstance(a, V):
                    self.check(E, st, site, a, "used (%s)" % q)
        return None


def own_lock(q):
    return q.startswith(("std::atomic", "std::condition_variable", "std::once_flag")) or q in REALMUTEX or q in WRAP


def raw_specs(ck):
    """class -> (mutex members, other members) for the classes that hold a plain mutex next to their data"""
    P = ck.P
    out = {}
    for q, ids in P.classes.items():
        if not q.startswith("maf::") or q in WRAP or q in SELFLOCK:
            continue
        mus, mem = set(), set()
        for i in ids:
            for m in P.types[i]["m"]:
                mt = P.rt(m[2])
                tq = P.types[mt].get("q", "") if mt >= 0 else ""
                if tq in REALMUTEX:
                    mus.add(m[0])
                elif not (m[0] == "<base>" or own_lock(tq) or "ThreadSafeQueue" in tq):
                    mem.add(m[0])
        if mus:
            out[q] = (mus, mem)
    return out


# its lock guards the flag and the wrapped container, see T01 and T02
SELFLOCK = {"maf::threading::ThreadSafeQueue"}


class Written(R):
    """which members of the raw classes are written outside construction, and which are used under their mutex"""

    def __init__(self, raws, out, under, f):
        self.raws, self.out, self.under, self.f = raws, out, under, f

    def see(self, E, st, a, write):
        if not isinstance(a, V) or split(a)[0].k in ("al", "heap", "c"):
            return
        for c, m in E.member(a):
            if c in self.raws and m in self.raws[c][1]:
                if write and not any(constructs(x) == c for x in E.stack):
                    self.out.add((c, m))
                for mu, _ in st.locks:
                    for cc, mm in E.member(mu):
                        if cc == c and mm in self.raws[c][0]:
                            self.under.add((c, m, mm))

    def on_store(self, E, st, site, a, v, size, atomic):
        self.see(E, st, a, True)

    def on_load(self, E, st, site, a, v, size, atomic):
        self.see(E, st, a, False)

    def on_call(self, E, st, site, q, args):
        from maf.engine import MUTATORS
        op = strip_targs(q.rsplit("::", 1)[-1])
        for a in args[:2]:
            self.see(E, st, a, op in MUTATORS or op in ("swap", "operator=", "reset", "exchange"))
        return None


def guarded_members(ck):
    """class -> {member: mutex}: written after construction and used under that mutex somewhere"""
    raws = raw_specs(ck)
    P = ck.P
    wr, under = set(), set()
    cls = {i for q in raws for i in ck.cls(q)}
    for f in P.fns.values():
        if f.blocks and P.is_repo(f) and not is_lambda(f) and (f.cls in cls or any(
                f.q.startswith(q + "::") for q in raws) or f.q.startswith("maf::messaging::SyncTimer::")):
            ck.run(f, Written(raws, wr, under, f))
    out = {}
    for c, m, mu in sorted(under):
        if (c, m) in wr:
            out.setdefault(c, {})[m] = mu
    return out


@prop("T03", "interprocedural lockset dataflow over every entry point",
      "The lockset at every access to lock-guarded data is computed on all paths from every entry point; data is guarded when it sits in a "
      "lock wrapper or in a class with its own mutex and is written after construction.")
def check_guarded(ck):
    P = ck.P
    raws = guarded_members(ck)
    roots, lambdas = entry_points(ck)
    for c in ("maf::messaging::Request", "maf::messaging::SyncTimerDataPrv", "maf::messaging::ServiceStatusSignal"):
        if c not in raws:
            raise AnalysisError("no member of %s is used under its mutex" % c)
    for f in roots:
        if not of_handle(P, f):  # runs with the lock its object holds: followed where the object is used
            ck.run(f, Guarded(ck, f, raws))
    for f in lambdas:
        if f.name not in ck.fns:
            ck.run(f, Guarded(ck, f, raws))
    ck.need("guarded data is accessed under its lock", 40)


# ------------------------------------------------------------------ T04 / T05
# implemented by users of the library: a call through one of these runs user code
USERIF = ("maf::util::ExecutorIF", "maf::messaging::ServiceStatusObserverIF", "maf::messaging::ServerStatusObserverIF", "maf::threading::Runnable")
# value types: copied, compared and encoded wherever values are
VALUEIF = ("maf::messaging::CSMsgPayloadIF",)
JOIN = re.compile(r"^std::(thread::join|(__basic_future|future|shared_future)::(wait|wait_for|wait_until|get)|_State_baseV2::wait)$")
# lock handles: their job is to leave a lock held, or to release one they were given
HANDLES = ("maf::threading::Lockable", "maf::threading::AtomicObject")


def lockname(E, m):
    ch = [(c, x) for c, x in E.member(m) if c not in WRAP and c.startswith("maf::") and x != "<base>"]
    if ch:
        return "%s.%s" % ch[-1]
    root = split(m)[0]
    if root.k == "g":
        return E.p.globals.get(root.a[0], {}).get("n") or root.a[0]
    return "%s(%s)" % (E.rootclass(m) or "mutex", E.stack[0].q if E.stack else "")


class Held(R):
    """follows every path and, while a lock is held, every call, through virtual calls too"""
    throws = ()

    def __init__(self, ck, f, edges=None, user=None):
        self.ck, self.f, self.edges, self.user = ck, f, edges, user
        self.locked = set()

    def vpolicy(self, E, tid, slot, targets, args):
        obj = E.vobj
        if not E.vst.locks or not isinstance(obj, V):
            return None
        if split(obj)[0].k == "heap" or self.boundary(E, obj, targets, tid):
            return None
        return [x for x in targets if E.p.fns[x].blocks] or None

    def boundary(self, E, a, targets, tid):
        """interface the call goes through, if it is one implemented outside the library"""
        q = self.tq(E, tid)
        t = E.typeof(split(a)[0])
        sq = E.p.types[t].get("q", "") if t >= 0 else q
        for u in VALUEIF:
            if any(E.p.isa(t, i) for i in E.p.classes.get(u, ())) or q == u:
                return "value"
        if q in USERIF and (sq in USERIF or t < 0):
            return "user"
        if not any(E.p.fns[x].blocks for x in targets):
            return "user"
        return None

    def tq(self, E, tid):
        g = self.cache.get(tid)
        if g is None:
            g = self.cache[tid] = demangle_type(tid)
        return g

    cache = {}

    def excluded(self, E, st):
        """locks under which user code may not run: those the user's code could not take again"""
        return [m for m, mode in st.locks if not mode.startswith("recursive")]

    def where(self, E, site):
        return where(site.fn if E.p.is_repo(site.fn) else self.f, site.line)

    def saw_user(self, E, st, site, what):
        if self.user is None or not st.locks:
            return
        bad = self.excluded(E, st)
        fnq = E.stack_repo()
        self.ck.ob("no user code runs under a non-reentrant lock", "%s in %s" % (what, fnq), not bad,
                   "%s runs %s while holding %s (path %s)" % (fnq, what, ", ".join(lockname(E, m) for m in bad), E.path()), self.where(E, site))

    def on_indirect(self, E, st, site, cv, args):
        if self.user is not None and st.locks:
            # the stop hook of a running pool task: the lock keeps the task alive, and no call a task can make takes it
            if all(lockname(E, m) == "maf::threading::ThreadPoolImplBase._runningTaskMutex" for m, _ in st.locks):
                return None
            self.saw_user(E, st, site, "a callback (%s)" % E.name(cv))
        return None

    def on_call(self, E, st, site, q, args):
        if q == "virtual":
            obj = E.vobj
            if st.locks and isinstance(obj, V) and split(obj)[0].k != "heap":
                b = self.boundary(E, obj, args[2], args[0])
                if b == "user":
                    self.saw_user(E, st, site, "%s::%s" % (self.tq(E, args[0]), E.p.fns[args[2][0]].q.split("::")[-1] if args[2] else "?"))
        elif self.user is not None and st.locks and JOIN.match(q):
            self.ck.ob("no thread or result is waited for under a lock", "%s in %s" % (q, E.stack_repo()), False,
                       "%s calls %s while holding %s (path %s)" % (E.stack_repo(), q, ", ".join(lockname(E, m) for m, _ in st.locks), E.path()),
                       self.where(E, site))
        if self.user is not None and st.locks and self.f.q.startswith("maf::messaging::Processor::") and (
                q in ("std::unique_ptr::operator=", "std::shared_ptr::operator=", "std::function::operator=")) and self.excluded(E, st):
            dst = args[0]
            if split(dst)[0].k == "al":
                old = E.load(st, ptr(dst, 16) if "function" in q else dst, 8, "p")
                self.ck.ob("no finished job is destroyed under the queue lock", E.stack[0].q, old is NULL or st.known(old) is False,
                           "%s overwrites the previous job while holding %s: its destructor is user code (path %s)" % (
                               E.stack[0].q, ", ".join(lockname(E, m) for m in self.excluded(E, st)), E.path()), self.where(E, site))
        return None

    def on_lock(self, E, st, site, m, mode):
        self.locked.add(lockname(E, m))
        if self.edges is None:
            return
        again = [x for x, mo in st.locks if x is m]
        if again:
            ok = mode.startswith("recursive") or False
            self.ck.ob("a lock is not taken again by the thread that holds it", "%s in %s" % (lockname(E, m), E.stack_repo()), ok,
                       "%s takes the non-recursive lock %s it already holds: it blocks for ever (path %s)" % (E.stack_repo(), lockname(E, m), E.path()),
                       self.where(E, site))
        for x, _ in st.locks:
            if x is not m:
                a, b = lockname(E, x), lockname(E, m)
                self.edges.setdefault((a, b), (E.path(), self.where(E, site)))

    def on_unlock(self, E, st, site, m):
        if self.edges is None:
            return
        if not any(x is m for x, _ in st.locks) and not handle(E.p, self.f) and split(m)[0].k != "al":
            self.ck.ob("only a held lock is released", "%s in %s" % (lockname(E, m), E.stack_repo()), False,
                       "%s releases %s which is not held here (path %s)" % (E.stack_repo(), lockname(E, m), E.path()), self.where(E, site))


def handle_types(P):
    """classes that keep an atomic reference, whose construction takes a lock and whose destruction releases it"""
    r = getattr(P, "_handles", None)
    if r is None:
        r = {i for q, ids in P.classes.items() if "AtomicRef" in q or q == "maf::threading::MutexReference" for i in ids}
        hold = {i for q, ids in P.classes.items() if "AtomicRef" in q for i in ids}
        while True:
            n = {i for q, ids in P.classes.items() if q.startswith("maf::") for i in ids
                 if i not in hold and any(P.rt(m[2]) in hold for m in P.types[i].get("m", ()))}
            if not n:
                break
            hold |= n
        # and what they inherit of themselves: the functions of such a base run on the handle
        r |= hold
        for i in list(r):
            own = strip_targs(P.types[i].get("q") or P.types[i]["n"]).rsplit("::", 1)[-1]
            r |= {P.rt(m[2]) for m in P.types[i].get("m", ()) if m[0] == "<base>" and re.search(r"[<:, ]%s\b" % re.escape(own), P.types[P.rt(m[2])].get("n", ""))}
        P._handles = r
    return r


def of_handle(P, f):
    return f.cls is not None and f.cls >= 0 and P.rt(f.cls) in handle_types(P)


def handle(P, f):
    t = P.rt(f.j["dty"][0]) if f.j.get("dty") and f.j["dty"][0] >= 0 else -1
    return any(f.q.startswith(h + "::") for h in HANDLES) or of_handle(P, f) or t in handle_types(P)


def demangle_type(tid):
    """qualified name of a mangled class name (_ZTS...)"""
    s = tid[4:] if tid.startswith("_ZTS") else tid
    out = []
    if s.startswith("N"):
        s = s[1:]
    while s and s[0].isdigit():
        m = re.match(r"\d+", s)
        n = int(m.group(0))
        out.append(s[len(m.group(0)):len(m.group(0)) + n])
        s = s[len(m.group(0)) + n:]
    return "::".join(out)


def run_held(ck, edges, user):
    roots, lambdas = entry_points(ck)
    acq = set()
    for f in roots + lambdas:
        if f in lambdas and f.name in ck.fns:
            continue
        r = Held(ck, f, edges, user)
        E, out = ck.run(f, r, budget=3000000)
        acq |= r.locked
        if edges is not None and r.locked:
            for kind, val, st, line in out:
                left = [m for m, _ in st.locks if split(m)[0].k != "al"]
                if not handle(ck.P, f):
                    ck.ob("every lock is released on every exit", f.q, not left,
                          "%s exits at line %s still holding %s" % (f.q, line, ", ".join(lockname(E, m) for m in left)), where(f, line))
    return acq


@prop("T04", "interprocedural lockset and lock-order analysis (class-hierarchy closure under held locks)",
      "Locks are identified by owning class and member, so one order is required for all instances. Exceptions are not followed here: every "
      "lock in the library is held by a guard object, which is what the release clause checks on the normal paths.")
def check_order(ck):
    edges = {}
    acq = run_held(ck, edges, None)
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)

    def reach(x, y, seen):
        return y in succ.get(x, ()) or any(z not in seen and reach(z, y, seen | {z}) for z in succ.get(x, ()))

    for (a, b), (p, w) in sorted(edges.items()):
        cyc = a != b and reach(b, a, {b})
        ck.ob("locks are taken in one order", "%s then %s" % (a, b), not cyc,
              "%s is taken while holding %s (path %s), and elsewhere in the opposite order (%s)" % (
                  b, a, p, "; ".join("%s then %s: %s" % (x, y, edges[x, y][0]) for x, y in sorted(edges) if y == a and (x == b or reach(b, x, {b})))), w)
    for a in sorted(acq):
        ck.ob("locks of the library", a)
    ck.need("every lock is released on every exit", 60)
    ck.need("locks of the library", 15)


@prop("T05", "call-graph reachability of user code from program points with a lock held (class-hierarchy resolved, path-sensitive locksets)",
      "Calls made while a lock is held are followed through every virtual target. User code is a call through a std::function or function "
      "pointer the library does not create itself, or through an interface users implement. Destructors of user objects are covered for "
      "queued jobs only. Signals notify under their own re-entrant lock, which the rule permits.")
def check_user(ck):
    run_held(ck, None, True)
    ck.need("no finished job is destroyed under the queue lock", 3)
    ck.need("no user code runs under a non-reentrant lock", 3)
