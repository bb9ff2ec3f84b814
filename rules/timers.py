"""M08 timers: the list of pending timers of a thread, its heap order, expiry and the posted check"""
from .util import *
from .clientserver import *
from .processor import is_lambda, LEAVES
from .m01_binding import tls_var, PROC

NS = "maf::messaging::"
TD, TM, TI = NS + "TimerData", NS + "TimerMgr", NS + "Timer"
K1 = "a timer is in the list of its thread if and only if it runs"
K2 = "the list is a heap by deadline whenever its front is used"
K3 = "only a running timer that is the first of the list and due expires, once"
K4 = "the callback of the timer runs, from a copy"
K5 = "a timer that was started is due after its duration, with the callback given"
K6 = "whatever starts a timer makes its thread check the timers"
K7 = "the thread waits for the first timer, and looks again after every wait"
K8 = "the order of the list is that of the deadlines"
CMP = re.compile(r"^std::chrono::operator(<=|>=|<|>)$")
HEAP = re.compile(r"^std::(ranges::)?(push_heap|pop_heap|make_heap|sort_heap)$")
NOW = re.compile(r"(^|::)(system_clock|steady_clock|_V2::system_clock)::now$")
FIRST = mk("at", mk("str", "now"), "front")
OLD = mk("at", mk("str", "before"), "front")


class Tm(R):
    throws = ()

    def __init__(self, ck, f, entry):
        self.ck, self.f, self.entry = ck, f, entry
        self.tls = tls_var(ck)
        self.CBK = role_off(ck, TD, lambda q, t: q == "std::function", "the callback")
        self.DL = role_off(ck, TD, lambda q, t: q == "std::chrono::time_point", "the deadline")
        self.DUR = role_off(ck, TD, lambda q, t: q == "std::chrono::duration", "the duration")
        self.RUN, self.CYC = entry["flags"]
        self.LIST = role(ck, TM, lambda q, t: CONT.match(q + "::x") is not None, "the list of timers")
        st = [m for m in layout(ck, TM) if ck.P.types[m[2]]["k"] == "enum"]
        self.STATE = st[0][1] if len(st) == 1 else None
        self.WAITING = enum(ck, st[0][3])["Waiting"] if st else None
        self.cmps = set()
        self.extra = set()

    def at(self, E, site):
        fn = next((x for x in reversed(E.stack) if E.p.is_repo(x)), self.f)
        return where(fn, site.line if site is not None and E.p.is_repo(site.fn) else None)

    def list(self, E, a):
        return isinstance(a, V) and E.in_member(a, TM, self.LIST)

    def record(self, E, a, off):
        """the timer whose field at `off` the address is"""
        r, o = split(a)
        if o == off and E.rootclass(r) == TD:
            return r
        return None

    # ---- per timer facts: kept in the typestate so that histories are never mixed
    def rep(self, st, x):
        """the name under which this timer is known"""
        ks = {k[1] for k in st.cl if isinstance(k, tuple)}
        if x in ks:
            return x
        return next((y for y in ks if self.same(st, x, y)), x)

    def same(self, st, a, b):
        return a is b or a is not None and b is not None and st.known(icmp("eq", a, b)) is True

    def get(self, st, k, x, d=None):
        return st.cl.get((k, self.rep(st, x)), d)

    def set(self, st, k, x, v):
        st.cl[(k, self.rep(st, x))] = v

    def on_branch(self, E, st, site, cond, truth):
        c, t = cond, truth
        while c.k in ("not", "cast"):
            c, t = (c.a[0], not t) if c.k == "not" else (c.a[1], t)
        e = eqs(cond, truth)
        if e and e[1].k == "c" and e[1].a[0] in (0, 1):
            c, t = e[0], e[2] == (e[1].a[0] == 1)
        while c.k == "cast":
            c = c.a[1]
        r = None
        if c.k == "qry" and c.a[0] == "size" and self.list(E, c.a[1]):
            self.listmem(st, c.a[1])
            st.cl.pop("empty", None)
            if st.known(c) is False:
                st.cl["empty"] = True
        if c.k == "init":
            r = c.a[0]
        elif c.k == "hav" and c.a[0] is st.cl.get("hv"):
            r = ptr(c.a[2], c.a[1])
        if r is not None:
            x = self.record(E, r, self.RUN)
            if x is not None:
                self.set(st, "was", x, t)
            x = self.record(E, r, self.CYC)
            if x is not None:
                self.set(st, "cyc", x, t)
        if c is st.cl.get("stopv"):
            st.cl["stopped"] = t
        if c.k == "due?":
            # a comparison of a deadline with the time
            x, sense = c.a
            if t == sense:
                self.set(st, "due", x, 1)
        if e and e[2] and all(E.rootclass(v) == TD and v.k != "c" for v in e[:2]) and e[0] is not e[1]:
            self.unify(E, st, e[0], e[1])
        if e and not e[2] and any(v.k == "init" and v.a[0] is st.cl.get("front") for v in e[:2]) and not any(v.k == "c" for v in e[:2]):
            st.cl["other"] = 1

    # ---- memory of timers another piece of code may have changed
    def unknown(self, E, st, site):
        """jobs or a callback ran: any timer of this thread may have been started, stopped or have expired"""
        key = mk("site", site.ctx, site.idx)
        st.cl["hv"] = key
        self.changed(E, st)
        rec = {r for r, o in st.mem if E.rootclass(r) == TD}
        for k in list(st.cl):
            if isinstance(k, tuple):
                rec.add(k[1])
                del st.cl[k]
        for a in ("heap", "mod", "empty"):
            st.cl.pop(a, None)
        for r in rec:
            for off, n in ((self.DL, 8), (self.DUR, 8), (self.CYC, 1), (self.RUN, 1)):
                v = mk("hav", key, off, r)
                E.kill_defs(st, None, v)
                st.mem[(r, off)] = (v, n)
        a = st.cl.get("cont")
        if a is not None:
            E.forget_queries(st, lambda c: c is a)
            r, o = split(a)
            if self.STATE is not None:
                v = mk("hav", key, o + self.STATE, r)
                E.kill_defs(st, None, v)
                st.mem[(r, o + self.STATE)] = (v, 1)
        E.kill_defs(st, None, mk("now"))
        st.forget(lambda y: y.k == "due?")

    def listmem(self, st, a):
        st.cl["cont"] = a

    # ---- obligations when others may look
    def settled(self, E, st, site, where_):
        loc = self.at(E, site)
        n = E.stack_repo() if E.stack else self.f.q
        h = st.cl.get("heap")
        if st.cl.get("cont") is not None and st.known(mk("qry", "size", st.cl["cont"])) is False:
            h = None
        self.ck.ob(K2, "%s in %s" % (where_, self.f.q), h is None, "%s: the list is not in order of the deadlines %s (%s)" % (n, where_, {
            "back": "a timer was added without sifting it up", "popped": "the first timer was moved to the end and neither removed nor put back",
            "any": "a timer was taken out of the middle without rebuilding the heap"}.get(h, h)), loc)
        for k, x in [k for k in st.cl if isinstance(k, tuple)]:
            if k == "mod":
                lst = self.get(st, "was", x)
                self.ck.ob(K2, "deadline %s in %s" % (where_, self.f.q), lst is False or x.k in ("heap", "al") and not self.get(st, "in", x), "%s: the deadline of a pending timer changed without rebuilding the heap" % n, loc)
        for x in {k[1] for k in st.cl if isinstance(k, tuple)}:
            self.balance(E, st, loc, x, where_)

    def balance(self, E, st, loc, x, where_):
        """a timer is listed if and only if it runs"""
        if not any((k, x) in st.cl for k in ("in", "out", "wrote")):
            return
        n = E.stack_repo() if E.stack else self.f.q
        was, now = self.get(st, "was", x), self.get(st, "wrote", x)
        if was is None and x.k == "heap":
            was = False
        net = self.get(st, "in", x, 0) - self.get(st, "out", x, 0)
        if now is None:
            now = was
        if was is None:
            # the change did not depend on whether it ran: fine only if nothing changed in the list
            ok = net == 0 and now is False and self.absent(E, st, x)
            self.ck.ob(K1, "asked %s in %s" % (where_, self.f.q), ok, "%s: a timer is %s without looking whether it is running" % (n, "added" if net > 0 else "removed" if net < 0 else "marked"), loc)
            return
        want = int(bool(now)) - (1 if self.get(st, "first", x) else int(bool(was)))
        ok = net == want or want == -1 and net == 0 and self.absent(E, st, x)
        self.ck.ob(K1, "kept %s in %s" % (where_, self.f.q), ok, "%s: a timer that %s is %s" % (n,
                   "now runs" if now else "no longer runs" if was else "does not run", "not in the list" if net < want and now else "in the list twice" if now and net > want else "still in the list" if net > want else "taken out of the list"), loc)

    def absent(self, E, st, x):
        a = st.cl.get("cont")
        if a is not None and st.known(mk("qry", "size", a)) is False:
            return True
        return bool(self.get(st, "gone", x))

    # ---- events
    def on_store(self, E, st, site, addr, val, size, atomic):
        x = self.record(E, addr, self.RUN)
        if x is not None:
            v = st.known(val)
            self.ck.ob(K1, "flag in " + E.stack_repo(), v is not None or x.k == "heap", "%s sets the running flag to something unknown" % E.stack_repo(), self.at(E, site))
            if E.stack and E.stack[-1].q == TD + "::TimerData":
                return
            if v is not None and self.get(st, "was", x) is None:
                k = st.known(E.load(st, addr, 1))
                if k is not None:
                    self.set(st, "was", x, k)
            self.set(st, "wrote", x, v)
        x = self.record(E, addr, self.CYC)
        if x is not None and not (E.stack and E.stack[-1].q == TD + "::TimerData"):
            old = E.load(st, addr, 1)
            same = bare(old) is bare(val) or st.known(val) is not None and st.known(val) == st.known(old)
            self.ck.ob(K5, "cyclic in " + E.stack_repo(), same, "%s changes whether the timer is cyclic" % E.stack_repo(), self.at(E, site))
        x = self.record(E, addr, self.DL)
        if x is not None and val is not UNDEF:
            self.deadline(E, st, site, x, val)


    def deadline(self, E, st, site, x, val):
        self.set(st, "dl", x, (val, self.val(E, st, ptr(x, self.DL))))
        if x.k == "heap" and not self.get(st, "in", x):
            return
        f = self.front(E, st)
        if f is not None and self.same(st, f, x):
            st.cl["heap"] = "front"
            self.set(st, "first", x, 1)
            return
        if st.cl.get("heap") == "popped" and self.same(st, st.cl.get("last"), x):
            # it is sifted up from the end
            return
        self.set(st, "mod", x, 1)

    def next(self, E, st, x):
        """the new deadline is the duration of the timer after the old one (or after now)"""
        d = self.get(st, "dl", x)
        return d is not None and d[0].k == "sum" and self.field(E, st, d[0].a[1], x, self.DUR) and (d[0].a[0].k == "now" or d[0].a[0] is d[1])

    def field(self, E, st, v, x, off):
        """v is the value of that field of x"""
        if v is E.load(st, ptr(x, off), 8):
            return True
        if v.k == "init":
            y = self.record(E, v.a[0], off)
        elif v.k == "hav" and v.a[1] == off:
            y = v.a[2]
        else:
            y = None
        return self.same(st, x, y)

    def front(self, E, st):
        a = st.cl.get("front")
        return E.load(st, a, 8, "p") if a is not None else None

    def readfront(self, E, st, site, cont):
        self.listmem(st, cont)
        h = st.cl.get("heap")
        self.ck.ob(K2, "first in " + E.stack_repo(), h in (None, "front"), "%s uses the first timer while the list is not in order" % E.stack_repo(), self.at(E, site))
        a = mk("elem", cont, FIRST)
        st.cl["front"] = a
        st.cl.pop("other", None)
        # the list holds timers only
        st.assume(icmp("eq", mk("init", a), NULL), False)
        return a

    def rename(self, st, v, w, drop=None):
        """v is called w from now on; what is called `drop` is forgotten"""
        def ren(x):
            if drop is not None and isinstance(x, V) and drop in leaves(x):
                return None
            return subst(x, v, w)
        if drop is not None:
            for k in [k for k in st.mem if drop in leaves(k[0])]:
                del st.mem[k]
            for k in [k for k in st.cl if isinstance(k, tuple) and drop in leaves(k[1])]:
                del st.cl[k]
        mem = {}
        for (r, o), (x, n) in st.mem.items():
            nr, nx = ren(r), ren(x)
            if nx is None:
                nx = mk("hav", "old", o, r)
            if nr is r or (nr, o) not in st.mem:
                mem[(nr, o)] = (nx, n)
        st.mem.clear()
        st.mem.update(mem)
        cl = {}
        for k, x in st.cl.items():
            if isinstance(k, tuple):
                nk = ren(k[1])
                if nk is not k[1] and (k[0], nk) in st.cl:
                    continue
                k = (k[0], nk)
            if isinstance(x, tuple):
                x = tuple(ren(y) if isinstance(y, V) else y for y in x)
                if None in x and k == "copy":
                    continue
            elif isinstance(x, V):
                x = ren(x)
            cl[k] = x
        st.cl.clear()
        st.cl.update(cl)
        st.forget(lambda y: y is drop)
        for d in (st.eq, st.facts):
            for k in [k for k in d if v in leaves(k)]:
                x = d.pop(k)
                n = subst(k, v, w)
                if n.k == "icmp":
                    n = icmp(*n.a)
                if n.k != "c":
                    d.setdefault(n, x)
        if any(v in leaves(t[0]) for t in st.ne):
            st.ne = frozenset((subst(t[0], v, w), t[1]) for t in st.ne)

    def changed(self, E, st):
        """what was the first timer is not known to be the first any more"""
        a = st.cl.pop("front", None)
        st.cl.pop("other", None)
        if a is None:
            return
        v = mk("init", a)
        old = mk("init", mk("elem", a.a[0], OLD))
        st.mem.pop((a, 0), None)
        self.balance(E, st, self.at(E, None), old, "before the next one")
        self.rename(st, v, old, old)

    def unify(self, E, st, x, y):
        """x and y turned out to be the same timer"""
        a = st.cl.get("front")
        v = mk("init", a) if a is not None else None
        if y is v:
            x, y = y, x
        if x is not v:
            return
        if y.k == "init" and y.a[0].k == "elem" and y.a[0].a[1] is OLD:
            self.rename(st, y, v)
        else:
            self.rename(st, v, y)
            st.cl["front"] = a
            st.mem[(a, 0)] = (y, 8)

    def val(self, E, st, a):
        """the timer a shared pointer holds"""
        return E.load(st, a, 8, "p") if isinstance(a, V) else None

    def removed(self, E, st, site, x, what):
        loc = self.at(E, site)
        self.ck.ob(K1, "removed in " + E.stack_repo(), x is not None, "%s removes %s" % (E.stack_repo(), what), loc)
        if x is not None:
            self.set(st, "out", x, sat(self.get(st, "out", x, 0) + 1))
        st.cl["took"] = 1

    def on_call(self, E, st, site, q, args):
        loc = self.at(E, site)
        if q.startswith("llvm.memcpy") and self.record(E, args[0], self.DL) is not None:
            self.deadline(E, st, site, self.record(E, args[0], self.DL), E.load(st, args[1], 8))
        m = HEAP.match(q)
        if m and args and args[0].k == "iter" and self.list(E, args[0].a[0]):
            return self.heapop(E, st, site, m.group(2), args, loc)
        if q in ("std::remove", "std::find", "std::remove_if", "std::find_if") and len(args) == 3 and args[0].k == "iter" and self.list(E, args[0].a[0]):
            if q.endswith("_if"):
                ok = self.equals(self.comparer(E, site, args))
                self.ck.ob(K1, "looked for in " + E.stack_repo(), ok, "%s looks for something else than a timer" % E.stack_repo(), loc)
                q = q[:-3]
            cont = args[0].a[0]
            self.listmem(st, cont)
            x = self.val(E, st, args[2])
            whole = args[0].a[2] in ("begin", "cbegin") and args[1].k == "iter" and args[1].a[2] in ("end", "cend")
            self.ck.ob(K1, "searched in " + E.stack_repo(), whole, "%s searches only part of the list" % E.stack_repo(), loc)
            it = mk("iter", cont, mk("site", site.ctx, site.idx), q.split("::")[1], x)
            end = mk("iter", cont, None, "end")
            s2 = st.copy()
            out = []
            st.cl["at"] = (it, x)
            st.assume(icmp("eq", it, end), False)
            if q == "std::remove":
                st.cl["heap"] = "any"
                self.changed(E, st)
            out.append(("ret", it, st))
            self.set(s2, "gone", x, 1)
            out.append(("ret", end, s2))
            return out
        if CMP.match(q) and len(args) == 2:
            r = self.compare(E, st, site, CMP.match(q).group(1), args)
            if r is not None:
                return [("ret", r, st)]
        if NOW.search(q):
            return [("ret", mk("now"), st)]
        if q in ("std::chrono::operator+",) and len(args) == 2:
            a, b = (E.load(st, x, 8) if split(x)[0].k in ("al", "arg", "init", "heap", "elem", "field") else x for x in args)
            return [("ret", mk("sum", a, b), st)]
        if q == "std::chrono::time_point::operator+=" and len(args) == 2:
            v = mk("sum", E.load(st, args[0], 8), E.load(st, args[1], 8))
            x = self.record(E, args[0], self.DL)
            if x is not None:
                self.deadline(E, st, site, x, v)
            E.store(st, args[0], v, 8)
            return [("ret", args[0], st)]
        if q in ("std::chrono::time_point::time_point", "std::chrono::duration::duration") and len(args) == 2 and split(args[0])[0].k == "al":
            f = callee(E, site)
            v = E.load(st, args[1], 8) if isinstance(args[1], V) and split(args[1])[0].k != "c" else args[1]
            E.store(st, args[0], v, 8)
            return [("ret", None, st)]
        if q == "std::chrono::time_point_cast" or q == "std::chrono::duration_cast":
            v = E.load(st, args[-1], 8)
            return [("ret", v, st)]
        if q.startswith(PROC + "::"):
            r = self.processor(E, st, site, q.split("::")[-1], args, loc)
            if r is not None:
                return r
        co = cont_op(E, site, q, args)
        if co and self.list(E, co[2]):
            return self.listop(E, st, site, co[1], co[2], args, loc)
        if q == "std::function::operator=" and len(args) == 2 and self.record(E, args[0], self.CBK) is not None:
            self.set(st, "cb", self.record(E, args[0], self.CBK), args[1])
        if q == "std::function::function" and len(args) == 2 and isinstance(args[1], V):
            x = self.record(E, args[1], self.CBK)
            if x is not None:
                st.cl["copy"] = (args[0], x)
                f = callee(E, site)
                if rvalue(E, f, 1):
                    self.ck.ob(K4, "kept in " + E.stack_repo(), False, "%s moves the callback out of the timer: it cannot be started again" % E.stack_repo(), loc)
            x = self.record(E, args[0], self.CBK)
            if x is not None:
                self.set(st, "cb", x, args[1])
        return None

    def heapop(self, E, st, site, op, args, loc):
        cont = args[0].a[0]
        self.listmem(st, cont)
        n = E.stack_repo()
        whole = args[0].a[2] in ("begin", "cbegin") and args[1].k == "iter" and args[1].a[2] in ("end", "cend")
        self.ck.ob(K2, "whole in " + n, whole, "%s orders only part of the list" % n, loc)
        c = self.comparer(E, site, args)
        self.ck.ob(K8, "given in " + n, c is not None, "%s orders the list by something else than the deadlines" % n, loc)
        if c is not None:
            self.cmps.add(c)
        h = st.cl.get("heap")
        mod = [k for k in st.cl if isinstance(k, tuple) and k[0] == "mod" and self.get(st, "was", k[1]) is not False]
        if op == "make_heap":
            st.cl.pop("heap", None)
            for k in [k for k in st.cl if isinstance(k, tuple) and k[0] == "mod"]:
                del st.cl[k]
        elif op == "push_heap":
            ok = h in (None, "back", "popped") and not mod
            self.ck.ob(K2, "sifted in " + n, ok, "%s sifts up the last timer while the rest is not in order" % n, loc)
            if h in ("back", "popped"):
                st.cl.pop("heap", None)
        elif op == "pop_heap":
            ok = h in (None, "front") and not mod
            self.ck.ob(K2, "moved in " + n, ok, "%s takes the first timer while the list is not in order" % n, loc)
            f = self.front(E, st)
            if f is None:
                f = E.load(st, self.readfront(E, st, site, cont), 8, "p")
            st.cl["heap"] = "popped"
            st.cl["last"] = f
            self.set(st, "first", f, 1)
        self.changed(E, st)
        return [("ret", None, st)]

    def equals(self, name):
        """a predicate that holds for the timer it captured"""
        if name is None:
            return False
        f = self.ck.P.fns[name]
        E, out = self.ck.run(f, Flag())
        for k, v, st, l in out:
            if v is None or v.k != "icmp" or v.a[0] != "eq":
                return False
            if {max([z.a[0] for z in leaves(y) if z.k == "arg"], default=None) for y in v.a[1:]} != {0, 1}:
                return False
        return True

    def comparer(self, E, site, args):
        """the function that compares two timers for this algorithm"""
        if len(args) > 2 and isinstance(args[2], V) and args[2].k == "fn":
            return args[2].a[0]
        # an object: its class has one way to be called, found below the algorithm
        f = callee(E, site)
        if f is None:
            return None
        c = [n for n in reach(E.p, f.name) if n in E.p.fns and E.p.is_repo(E.p.fns[n]) and E.p.fns[n].q.endswith("operator()")]
        return c[0] if len(c) == 1 else None

    def listop(self, E, st, site, op, cont, args, loc):
        n = E.stack_repo()
        self.listmem(st, cont)
        if op in ("front",) or op in ("operator[]", "at") and args[1] is NULL:
            return [("ret", self.readfront(E, st, site, cont), st)]
        if op == "back":
            l = st.cl.get("last")
            if l is not None and st.cl.get("heap") == "popped":
                a = mk("elem", cont, mk("at", mk("site", site.ctx, site.idx), "back"))
                for k in [k for k in st.mem if k[0] is a]:
                    del st.mem[k]
                E.store(st, a, l, 8)
                return [("ret", a, st)]
            return None
        if op in ("push_back", "emplace_back"):
            x = self.val(E, st, args[1])
            h = st.cl.get("heap")
            self.ck.ob(K2, "appended in " + n, h is None, "%s adds a timer while the list is not in order" % n, loc)
            st.cl["heap"] = "back"
            st.cl.pop("empty", None)
            self.set(st, "in", x, sat(self.get(st, "in", x, 0) + 1))
            self.set(st, "mod", x, None) if self.get(st, "mod", x) else None
            for k in [k for k in st.cl if isinstance(k, tuple) and k[0] == "mod" and (st.cl[k] is None or self.same(st, k[1], x))]:
                del st.cl[k]
            self.changed(E, st)
            E.forget_queries(st, lambda c: c is cont)
            st.assume(mk("qry", "size", cont), True)
            return [("ret", None, st)]
        if op == "pop_back":
            h = st.cl.get("heap")
            x = st.cl.pop("last", None) if h == "popped" else None
            self.removed(E, st, site, x, "a timer that is not the first of the list")
            st.cl.pop("heap", None)
            self.changed(E, st)
            E.forget_queries(st, lambda c: c is cont)
            return [("ret", None, st)]
        if op == "erase":
            it = args[1] if args[1].k == "iter" else E.load(st, args[1], 8, "p")
            a = st.cl.get("at")
            x = a[1] if a and it is a[0] else None
            if x is None and it.k == "iter" and it.a[2] in ("begin", "cbegin") and len(args) == 2:
                f = self.front(E, st)
                x = f if f is not None else E.load(st, self.readfront(E, st, site, cont), 8, "p")
            if len(args) > 2:
                # up to the end is fine only after a remove
                e = args[2] if args[2].k == "iter" else E.load(st, args[2], 8, "p")
                if not (it.k == "iter" and it.a[2] in ("remove", "end") and e.k == "iter" and e.a[2] in ("end", "cend")):
                    x = None
                elif it.a[2] == "end":
                    return [("ret", it, st)]
            self.removed(E, st, site, x, "a timer other than the one found" if it.k != "iter" or it.a[2] != "end" else "the end of the list")
            st.cl["heap"] = "any"
            st.cl.pop("at", None)
            self.changed(E, st)
            E.forget_queries(st, lambda c: c is cont)
            return [("ret", it, st)]
        if op in ("clear", "operator=", "swap", "resize", "assign"):
            self.ck.ob(K1, "cleared in " + n, False, "%s drops timers that are running" % n, loc)
            return None
        if op in ("insert", "emplace"):
            self.ck.ob(K2, "inserted in " + n, False, "%s inserts into the middle of the heap" % n, loc)
        if op in ("begin", "cbegin", "end", "cend", "empty", "size", "reserve", "capacity", "vector", "~vector", "data"):
            return None
        return None

    def compare(self, E, st, site, op, args):
        v = [E.load(st, a, 8) for a in args]
        x = [self.record(E, a, self.DL) for a in args]
        for i in (0, 1):
            if x[i] is None:
                y = v[i]
                for z in leaves(y):
                    if z.k == "init" and self.record(E, z.a[0], self.DL) is not None and y is z:
                        x[i] = self.record(E, z.a[0], self.DL)
        for i in (0, 1):
            if x[i] is not None and v[1 - i].k == "now":
                o = op if i == 0 else {"<=": ">=", ">=": "<=", "<": ">", ">": "<"}[op]
                return mk("due?", x[i], o in ("<=", "<"))
        return None

    def processor(self, E, st, site, n, args, loc):
        if n == "stopped":
            v = mk("res", site.ctx, site.idx, n, tuple(args))
            E.kill_defs(st, None, v)
            st.cl["stopv"] = v
            st.cl.pop("stopped", None)
            return [("ret", v, st)]
        if n.startswith("run"):
            self.waits(E, st, site, n, args, loc)
            self.unknown(E, st, site)
            return [("ret", mk("res", site.ctx, site.idx, "run", tuple(args)), st)]
        if n in LEAVES:
            f = callee(E, site)
            i = 1 if not (f is not None and f.args and f.args[0][3]) else 2
            tgt = args[i - 1]
            fn = E.load(st, ptr(args[i], 24), 8, "p") if isinstance(args[i], V) else NULL
            own = E.load(st, self.tls, 8, "p")
            clo = E.load(st, args[i], 8, "p") if isinstance(args[i], V) else None
            fns = []
            if clo is not None and split(clo)[0].k == "heap" or isinstance(args[i], V):
                rs = {split(args[i])[0]} | ({split(clo)[0]} if isinstance(clo, V) else set())
                mem = [x[0] for k, x in st.mem.items() if k[0] in rs]
                st.cl["held"] = frozenset(x for x in mem if x.k == "init")
                fns = [x.a[0] for x in mem if x.k == "fn" and x.a[0] in E.p.fns and E.p.is_repo(E.p.fns[x.a[0]])]
                self.extra.update(fns)
            job = self.job(E, fn, fns)
            st.cl["posted"] = st.cl.get("posted", ()) + (("own" if tgt is own else tgt, n, job),) if len(st.cl.get("posted", ())) < 3 else st.cl["posted"]
            v = mk("res", site.ctx, site.idx, n, tuple(args))
            E.kill_defs(st, None, v)
            return [("ret", v if site.ins[1] >= 0 else None, st)]
        return None

    def job(self, E, fn, more=()):
        if fn.k != "fn":
            return None
        r = set().union(*(reach(E.p, n) for n in [fn.a[0], *more]))
        return frozenset(k for k, fs in self.entry["jobs"].items() if r & fs)

    def waits(self, E, st, site, n, args, loc):
        x = self.front(E, st)
        self.settled(E, st, site, "before a wait")
        d = args[-1]
        v = E.load(st, d, 8) if split(d)[0].k == "al" else d
        ok = x is not None and self.field(E, st, v, x, self.DL)
        self.ck.ob(K7, "until in " + E.stack_repo(), n == "runOnceUntil" and ok, "%s waits for something else than the deadline of the first timer" % E.stack_repo(), loc)
        if self.STATE is not None and st.cl.get("cont") is not None:
            s = E.load(st, ptr(st.cl["cont"], self.STATE), 1)
            self.ck.ob(K7, "marked in " + E.stack_repo(), s.k == "c" and s.a[0] == self.WAITING, "%s waits without saying so: every check that comes in waits again inside the wait" % E.stack_repo(), loc)

    def on_after(self, E, st, site, q, args, v):
        pass

    def on_indirect(self, E, st, site, cv, args):
        """a callback"""
        if not any(f.q.startswith("std::function") for f in E.stack[-2:]) and not args:
            return None
        loc = self.at(E, site)
        n = E.stack_repo()
        a = args[0]
        x = st.cl.get("copy")
        x = x[1] if x is not None and x[0] is a else None
        y = self.record(E, a, self.CBK)
        if x is None and y is None:
            return None
        self.ck.ob(K4, "copy in " + n, y is None, "%s runs the callback inside the timer, which may start it again with another one or drop it" % n, loc)
        x = x if x is not None else y
        self.ck.ob(K4, "which in " + n, True)
        cyc = self.get(st, "cyc", x)
        due, was = self.get(st, "due", x), self.get(st, "was", x)
        self.ck.ob(K3, "due in " + n, bool(due), "%s runs the callback of a timer that may not be due" % n, loc)
        self.ck.ob(K3, "running in " + n, was is True, "%s runs the callback of a timer that may have been stopped" % n, loc)
        self.ck.ob(K3, "first in " + n, bool(self.get(st, "first", x)) or self.same(st, self.front(E, st), x) or bool(self.get(st, "out", x)), "%s runs the callback of a timer that may not be the first one" % n, loc)
        self.settled(E, st, site, "before a callback")
        now = self.get(st, "wrote", x)
        if cyc is True:
            ok = now is not False
            self.ck.ob(K3, "cyclic in " + n, ok, "%s ends a cyclic timer" % n, loc)
            ok = self.next(E, st, x)
            self.ck.ob(K3, "next in " + n, ok, "%s runs the callback of a cyclic timer without giving it its next deadline" % n, loc)
        elif cyc is False:
            self.ck.ob(K3, "single in " + n, now is False, "%s runs the callback of a timer that is not cyclic and leaves it running" % n, loc)
        else:
            self.ck.ob(K3, "kind in " + n, False, "%s does not look whether the timer is cyclic" % n, loc)
        self.unknown(E, st, site)
        return [("ret", None, st)]


def bare(v):
    while isinstance(v, V) and v.k == "cast":
        v = v.a[1]
    return v


def role_off(ck, q, pred, what):
    r = [m for m in layout(ck, q) if pred(m[3], ck.P.types[m[2]] if m[2] >= 0 else {})]
    if len(r) != 1:
        raise AnalysisError("%s: expected one member that is %s" % (q, what))
    return r[0][1]


def subst(x, v, w):
    """x with every v in it replaced"""
    if x is v:
        return w
    if not isinstance(x, V) or v not in leaves(x):
        return x
    return mk(x.k, *[subst(y, v, w) if isinstance(y, V) else tuple(subst(z, v, w) if isinstance(z, V) else z for z in y) if isinstance(y, tuple) else y for y in x.a])


_reach = {}


def reach(P, name):
    """functions reachable by direct calls"""
    if name in _reach:
        return _reach[name]
    seen, todo = set(), [name]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        f = P.fns.get(n)
        if f is None:
            continue
        for b in f.blocks or ():
            for i in b:
                if i[0] == "call" and isinstance(i[2], str):
                    todo.append(i[2])
    _reach[name] = seen
    return seen


class Flag(R):
    throws = ()


def flags(ck):
    """(offset of the running flag, offset of the cyclic flag): what Timer::running answers is the first"""
    b = [m[1] for m in layout(ck, TD) if ck.P.types[m[2]].get("n") == "bool"]
    f = ck.fn(TI + "::running")[0]
    E, out = ck.run(f, Flag())
    r = {split(z.a[0])[1] for k, v, st, l in out if v is not None for z in leaves(v) if z.k == "init" and E.rootclass(split(z.a[0])[0]) == TD}
    if len(r) != 1 or len(b) != 2 or not r <= set(b):
        raise AnalysisError("the flags of a timer are not those known")
    return r.pop(), next(x for x in b if x not in r)


def is_method(f):
    return f.q.endswith("operator()")


def comparator(ck, name, off):
    f = ck.P.fns[name]
    E, out = ck.run(f, Flag())
    for kind, v, st, line in out:
        ok = False
        if v is not None and v.k == "res" and CMP.match(str(v.a[2])):
            op = CMP.match(v.a[2]).group(1)
            x = []
            for a in v.a[3]:
                r, o = split(a)
                i = {z.a[0] - (1 if is_method(f) else 0) for z in leaves(r) if z.k == "arg"}
                x.append(i.pop() if o == off and len(i) == 1 else None)
            ok = (op == ">" and x == [0, 1]) or (op == "<" and x == [1, 0])
        ck.ob(K8, "compare " + f.q, ok, "%s does not put the earliest deadline first" % f.q, where(f, line))


PUB = {"start": 1, "restart": 1, "stop": 0, "~Timer": 0, "timeoutAfter": 1}


@prop("M08", "typestate of each timer (running, listed, due, first) and of the heap across every path of the timer operations",
      "Every public operation of a timer, every job it posts and the loop that waits; what jobs and callbacks change is unknown after each wait and each callback. "
      "Heap algorithms and the clock are trusted to their contracts; how late a timer is, is not decided.")
def timers(ck):
    P = ck.P
    src = {f.file for f in ck.fn(TI + "::start")}
    roots = [f for f in P.fns.values() if f.blocks and f.file in src and (f.cls is not None and f.q.startswith(TI + "::") and f.q.split("::")[-1] in PUB or is_lambda(f) and f.q.endswith("operator()"))]
    roots = [f for f in roots if not (f.q.endswith("~Timer") and "D0" in f.name)]
    entry = {"flags": None, "jobs": {}}
    entry["flags"] = flags(ck)
    entry["jobs"] = {"check": {n for n, f in P.fns.items() if f.q.startswith(PROC + "::runOnce")}}
    for f in roots:
        if is_lambda(f):
            entry["jobs"].setdefault(parent(f), set()).add(f.name)
    cmps = set()
    for f in roots:
        r = Tm(ck, f, entry)
        r.lam = is_lambda(f) or not f.q.startswith(TI + "::")
        r.check = r.lam and bool(reach(P, f.name) & entry["jobs"]["check"])
        r.name = f.q.split("::")[-1] if not r.lam else parent(f)
        E, out = ck.run(f, r)
        cmps |= r.cmps
        roots.extend(P.fns[n] for n in sorted(r.extra) if P.fns[n].blocks and P.fns[n] not in roots)
        for kind, v, st, line in out:
            if kind != "ret":
                continue
            final(ck, E, r, st, line)
    for c in sorted(cmps):
        comparator(ck, c, Tm(ck, roots[0], entry).DL)
    ck.need(K3, 4)
    ck.need(K6, 3)
    ck.need(K5, 3)


def parent(f):
    m = re.search(r"Timer(?:Mgr)?::(\w+)\(", f.dem)
    return m.group(1) if m else ""


def final(ck, E, r, st, line):
    f = r.f
    loc = where(f, line)
    r.settled(E, st, None, "at the end")
    posted = st.cl.get("posted", ())
    comp = [mk("arg", i, a[2] or "") for i, a in enumerate(f.args) if E.argtype(f, i) >= 0 and "shared_ptr<maf::messaging::Processor>" in f.dem and i == len(f.args) - 1] if not r.lam else []
    this = mk("arg", 0, f.args[0][2] or "this") if f.args else None
    if comp:
        tgt = mk("init", comp[0])
        js = [j for t, n, j in posted if t is tgt]
        ck.ob(K6, "posted by %s to another thread" % f.q, len(js) == 1 and len(posted) == 1 and js[0] is not None and r.name in js[0],
              "%s does not have the processor given %s the timer" % (f.q, r.name), loc)
        if r.name != "timeoutAfter":
            ck.ob(K6, "timer of %s" % f.q, mk("init", this) in st.cl.get("held", ()), "%s does not pass its own timer to the processor" % f.q, loc)
        return
    if r.name in ("start", "timeoutAfter", "restart"):
        xs = [x for x in {k[1] for k in st.cl if isinstance(k, tuple)}]
        own = [x for x in xs if r.name == "timeoutAfter" and x.k == "heap" or x.k == "init" and any(y.k == "arg" and y.a[0] == 0 for y in leaves(x))]
        if r.name == "restart":
            x = mk("init", this)
            man = E.load(st, ptr(x, r.CBK + 16), 8, "p")
            if st.known(man) is False:
                ck.ob(K5, "nothing to restart in " + f.q, not own and not posted, "%s starts a timer that has no callback" % f.q, loc)
                return
        ok = len(own) == 1
        ck.ob(K5, "one in " + f.q, ok, "%s does not start its timer" % f.q, loc)
        if not ok:
            return
        x = own[0]
        w = r.get(st, "wrote", x)
        run = w if w is not None else r.get(st, "was", x)
        ck.ob(K1, "runs after " + f.q, run is True, "%s leaves its timer stopped" % f.q, loc)
        d = r.get(st, "dl", x)
        v = E.load(st, ptr(x, r.DL), 8)
        v = v if v.k == "sum" else d[0] if d is not None else v
        du = E.load(st, ptr(x, r.DUR), 8)
        ok = v.k == "sum" and v.a[0].k == "now" and (v.a[1] is du or r.field(E, st, v.a[1], x, r.DUR) and du is v.a[1])
        ck.ob(K5, "deadline in " + f.q, ok, "%s gives the timer another deadline than its duration from now" % f.q, loc)
        if r.name != "restart":
            ck.ob(K5, "duration in " + f.q, any(y.k == "arg" for y in leaves(du)) and not (du.k == "init" and r.record(E, du.a[0], r.DUR) is not None), "%s does not use the duration given" % f.q, loc)
            ck.ob(K5, "callback in " + f.q, r.get(st, "cb", x) is not None, "%s does not take the callback given" % f.q, loc)
        ck.ob(K6, "posted in " + f.q, any(t == "own" and n in ("executeAsync", "post") and j is not None and "check" in j for t, n, j in posted),
              "%s does not have its thread check the timers" % f.q, loc)
    elif r.name in ("stop", "~Timer"):
        x = mk("init", this)
        w = r.get(st, "wrote", x)
        ck.ob(K1, "stopped after " + f.q, w is False or w is None and r.get(st, "was", x) is False, "%s leaves its timer running" % f.q, loc)
    elif r.check:
        c = st.cl.get("cont")
        a = ptr(c, r.STATE) if c is not None else None
        if r.STATE is not None and a is not None:
            s = E.load(st, a, 1)
            ck.ob(K7, "left in " + f.q, not (s.k == "c" and s.a[0] == r.WAITING), "%s goes away and still says it waits: no timer is looked at again" % f.q, loc)
        empty = bool(st.cl.get("empty")) or c is not None and st.known(mk("qry", "size", c)) is False
        busy = not any(k in st.cl for k in ("front", "took", "hv"))
        ck.ob(K7, "ends in " + f.q, empty or st.cl.get("stopped") is True or busy and c is None, "%s ends though there are timers to wait for" % f.q, loc)
