"""C03 service loss, C04 registrations and the property cache of a requester"""
from .util import *
from .clientserver import *
from .clientserver import NS, REQ


def only(ck, keep):
    """drop the clauses another property reports"""
    for k in list(ck.obl):
        if k not in keep:
            del ck.obl[k]
            for v in [v for v in ck.viol if v.startswith(k + ":")]:
                del ck.viol[v]


def sizecmp(cond, truth):
    """(size value, set of small sizes the branch admits) of a branch on a container's size"""
    t = truth
    while cond.k == "not":
        cond, t = cond.a[0], not t
    if cond.k == "qry" and cond.a[0] == "size":
        return cond, {n for n in range(4) if (n != 0) == t}
    if cond.k != "icmp":
        return None
    p, a, b = cond.a
    for x, y, sw in ((a, b, False), (b, a, True)):
        while x.k == "cast":
            x = x.a[1]
        if x.k in ("qry", "stale") and y.k == "c" or x.k == "phi" and y.k == "c":
            q = [z for z in leaves(x) if z.k == "qry" and z.a[0] == "size"]
            if not q and x.k != "stale":
                return None
            f = {"eq": lambda u, v: u == v, "slt": lambda u, v: u < v, "ult": lambda u, v: u < v}.get(p)
            if f is None:
                return None
            c = y.a[0]
            return (q[0] if q else x), {n for n in range(4) if (f(c, n) if sw else f(n, c)) == t}
    return None


def flag(ck):
    return role(ck, REQ, lambda q, t: q == "std::atomic" or q == NS + "Availability", "the status of the service")


class Regs(Outgoing):
    """registrations: announced when first, withdrawn when last; the cache lives with them"""

    def __init__(self, ck, f):
        Outgoing.__init__(self, ck, f)
        self.flag = flag(ck)
        self.AV = enum(ck, NS + "Availability")

    def on_branch(self, E, st, site, cond, truth):
        Outgoing.on_branch(self, E, st, site, cond, truth)
        s = sizecmp(cond, truth)
        if s is not None:
            q, ns = s
            if q.k == "qry":
                r = split(q.a[1])[0]
                if r.k == "elem" and self.top(E, r.a[0]) and not st.cl.get("sent"):
                    w = "size2" if st.cl.get("removed") == "removed" else "size"
                    if w == "size" and "subscribed" in st.cl:
                        return
                    st.cl[w] = frozenset(st.cl.get(w, frozenset(range(4))) & ns)
        e = eqs(cond, truth)
        if not e:
            return
        for a, b in (e[:2], e[1::-1]):
            if b.k == "c" and any(z.k == "res" and ATOMICRES.match(str(z.a[2])) and E.in_member(z.a[3][0], REQ, self.flag) for z in leaves(a)):
                if (b.a[0] == self.AV["Available"]) != e[2]:
                    st.cl["down"] = 1
            if a.k == "iter" and b.k == "iter" and {a.a[2], b.a[2]} == {"find", "end"}:
                w = self.mem(E, a.a[0])
                k = a.a[3] if a.a[2] == "find" else b.a[3]
                if w == "registers" and self.asked(E, st, k):
                    st.cl["subscribed"] = not e[2]
                if w == "cache" and self.asked(E, st, k):
                    st.cl["incache"] = not e[2]
            if b is NULL and e[2] and self.cloned(E, a):
                st.cl["nullcached"] = True
            if b is NULL and a.k == "init":
                x = split(a.a[0])[0]
                if x.k == "elem" and self.mem(E, x.a[0]) == "cache":
                    st.cl["nullcached"] = e[2]

    def cloned(self, E, v):
        """v is a copy of the cached status"""
        for x in leaves(v):
            if x.k == "res" and "clone" in str(x.a[2]):
                for a in x.a[3]:
                    for y in leaves(a) if isinstance(a, V) else ():
                        if y.k == "elem" and self.mem(E, y.a[0]) == "cache":
                            return True
        return False

    def on_indirect(self, E, st, site, cv, args):
        v = E.load(st, args[1], 8, "p") if len(args) > 1 and isinstance(args[1], V) else None
        n = self.f.q.split("::")[-1]
        if v is None:
            return None
        if n == "getStatus":
            self.value(E, st, v, self.at(E, site))
        else:
            K = "a later follower of a property gets the cached status"
            self.ck.ob(K, "value in " + self.f.q, self.cloned(E, v), "%s gives the new follower %s, not a copy of the cached status" % (self.f.q, E.name(v)), self.at(E, site))
            self.ck.ob(K, "only then in " + self.f.q, n == "registerStatus", "%s gives the new listener of a signal a cached status" % self.f.q, self.at(E, site))
        st.cl["told"] = 1
        return [("ret", None, st)]

    def value(self, E, st, v, loc):
        ok = self.cloned(E, v) or (v is NULL or v.k == "c" and v.a[0] == 0) and (st.cl.get("incache") is False or st.cl.get("nullcached") is True
                                                               or st.cl.get("down") and st.cl.get("subscribed") is False)
        self.ck.ob("a status asked for is answered from the cache only while it is followed or the service is away", "value in " + self.f.q, ok,
                   "%s answers %s instead of a copy of the cached status" % (self.f.q, E.name(v)), loc)


OWN04 = ("an update reaches every registration of its operation", "every registration gets its own copy of the update",
         "a status update is cached, if its property is followed, before it is announced",
         "the first registration of an operation is announced to the service, further ones are not",
         "a later follower of a property gets the cached status",
         "the last registration of an operation takes it back at the service and drops its cached status",
         "a status asked for is answered from the cache only while it is followed or the service is away",
         "a cached status is the one of the property asked for")


@prop("C04", "path-sensitive typestate of the registrations of an operation and its cached status",
      "Incoming updates and the five operations on registrations and statuses, with their helpers inlined. "
      "Operations of other threads that fall between two critical sections of one operation (a registration while the last one is withdrawn) are not ordered against the service's messages.")
def registrations(ck):
    AS = enum(ck, NS + "ActionCallStatus")
    # incoming updates
    f, = ck.fn(REQ + "::onIncomingMessage")
    r = Incoming(ck, f)
    E, out = ck.run(f, r)
    K = "an update reaches every registration of its operation"
    for kind, val, st, line in out:
        if kind != "ret" or st.cl.get("sid") is False:
            continue
        for n in ("SignalRegister", "StatusRegister"):
            if r.opcode(st, n):
                w = st.cl.get("w:box") == "done" if "w:box" in st.cl else st.cl.get("w:regs") == "done"
                ck.ob(K, n, w or st.cl.get("noregs"), "%s can end without having notified the registrations (%s)" % (f.q, n), where(f, line))
        if r.opcode(st, "StatusRegister"):
            ck.ob(OWN04[2], "cached", st.cl.get("cached") or st.cl.get("sub") is False, "%s can end without having cached the status of a property that is followed" % f.q, where(f, line))
            ck.ob(OWN04[2], "only followed", not st.cl.get("cached") or st.cl.get("sub") is True, "%s caches the status of a property nobody follows: it stays when it is out of date" % f.q, where(f, line))
    # operations
    for f in [g for g in ck.P.fns.values() if g.blocks and g.cls is not None and g.q in [REQ + "::" + n for n in ("registerStatus", "registerSignal", "unregister", "unregisterAll", "getStatus")]]:
        n = f.q.split("::")[-1]
        r = Regs(ck, f)
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            cl, loc = st.cl, where(f, line)
            rep = cl.get("rep")
            if rep is None and r.rets == NS + "ActionCallStatus":
                rep = val
            c = const(st, rep) if rep is not None else None
            if n.startswith("register") and cl.get("stored"):
                K = OWN04[3]
                s = cl.get("size")
                ck.ob(K, f.q + " counted", s is not None, "%s does not look at how many registrations of the operation there are" % f.q, loc)
                if not s:
                    continue
                if cl.get("sent"):
                    ck.ob(K, f.q + " sent", 1 in s and 2 not in s, "%s announces a registration that is not the first of its operation" % f.q, loc)
                elif 1 in s:
                    ck.ob(K, f.q + " first", cl.get("removed") and (c is None or c != AS["Success"]), "%s can return at line %s without having announced the first registration" % (f.q, line), loc)
                elif n == "registerStatus":
                    ck.ob(OWN04[4], f.q, cl.get("told") or cl.get("incache") is False or cl.get("nullcached") is True,
                          "%s can return at line %s without having given a later follower the cached status" % (f.q, line), loc)
            if n == "unregister" and cl.get("removed") == "removed":
                K = OWN04[5]
                s = cl.get("size2")
                ck.ob(K, f.q + " counted", s is not None, "%s does not look whether registrations remain" % f.q, loc)
                if not s:
                    continue
                if 0 in s and 1 not in s:
                    ck.ob(K, f.q + " entry", cl.get("last"), "%s keeps an empty list of registrations: the operation counts as followed" % f.q, loc)
                    ck.ob(K, f.q + " cache", cl.get("uncached"), "%s keeps the cached status of a property nobody follows any more" % f.q, loc)
                    ck.ob(K, f.q + " sent", cl.get("sent") or c is not None and c != AS["Success"], "%s does not take the last registration back at the service" % f.q, loc)
                elif 0 not in s:
                    ck.ob(K, f.q + " others", not cl.get("sent") and not cl.get("uncached") and not cl.get("last"),
                          "%s takes an operation back at the service, or drops its cached status, though registrations remain" % f.q, loc)
            if n == "unregisterAll" and not (cl.get("down") and c == AS["ServiceUnavailable"]):
                K = OWN04[5]
                ck.ob(K, f.q + " entry", cl.get("last"), "%s keeps registrations" % f.q, loc)
                ck.ob(K, f.q + " cache", cl.get("uncached"), "%s keeps the cached status" % f.q, loc)
                ck.ob(K, f.q + " sent", cl.get("sent") or c is not None and c != AS["Success"], "%s does not take the registrations back at the service" % f.q, loc)
            if n == "getStatus" and not cl.get("stored"):
                K = OWN04[6]
                ck.ob(K, f.q, cl.get("subscribed") is True or cl.get("down"),
                      "%s answers at line %s without asking the service, though nobody follows the property" % (f.q, line), loc)
                if r.payret:
                    r.value(E, st, E.load(st, mk("arg", 0, f.args[0][2] or "sret"), 8, "p"), loc)
                else:
                    ck.ob(K, f.q + " told", cl.get("told"), "%s returns at line %s without having answered" % (f.q, line), loc)
    only(ck, OWN04)
    for k, m in ((OWN04[0], 2), (OWN04[1], 1), (OWN04[2], 2), (OWN04[3], 4), (OWN04[4], 2), (OWN04[5], 6), (OWN04[6], 3)):
        ck.need(k, m)


# ---------------------------------------------------------------- C03 service loss
class Loss(CS):
    """what becomes of requests, registrations and observers when the status changes"""
    throws = ()

    def __init__(self, ck, f):
        CS.__init__(self, ck, f)
        self.rr = roles(ck)
        self.AV = enum(ck, NS + "Availability")
        self.flag = flag(ck)
        self.sid = mk("arg", 1, f.args[1][2] or "") if len(f.args) > 1 else None
        self.new = mk("arg", 3, f.args[3][2] or "") if len(f.args) > 3 else None

    def obs(self, E, st, a):
        return isinstance(a, V) and E.in_member(E.origin(st, a), REQ, self.rr["observers"])

    def walked(self, E, st, cont):
        if any(f.q == REQ + "::unregisterServiceStatusObserver" for f in E.stack):
            return None
        return "obs" if self.obs(E, st, cont) else None

    def left(self, E, st, site, w, how):
        st.cl["missed"] = 1
        self.ck.ob("every observer is told of a change", E.stack_repo(), False, "%s %s of its observers" % (E.stack_repo(), how), self.at(E, site))

    def on_call(self, E, st, site, q, args):
        self.walk_call(E, st, site, q, args)
        if q == "virtual" and vname(E, args[2]) == "onServiceStatusChanged":
            o = args[3]
            e = [x for x in leaves(o) if x.k == "elem" and self.obs(E, st, x.a[0])]
            K = "every observer is told of a change"
            self.ck.ob(K, "in " + self.f.q, bool(e) and self.current(E, st, e), "%s tells %s" % (self.f.q, E.name(o)), self.at(E, site))
            if self.new is not None:
                self.ck.ob(K, "status in " + self.f.q, args[-1] is self.new or st.known(icmp("eq", args[-1], self.new)) is True, "%s tells its observers %s instead of the new status" % (self.f.q, E.name(args[-1])), self.at(E, site))
                self.ck.ob("the new status is stored before requests are dropped and observers told", "told in " + self.f.q, st.cl.get("set"),
                           "%s tells its observers before it stored the new status" % self.f.q, self.at(E, site))
            self.turn(st, "obs")
            st.cl["told"] = 1
            s = st.copy()
            return [("ret", None, st), ("throw", mk("exc", "observer gone", "_ZTIN3maf9messaging20UnavailableExceptionE"), s)]
        a = emptied(E, st, site, q, args)
        if a is not None:
            for w in ("requests", "registers"):
                if E.in_member(a, REQ, self.rr[w]):
                    self.ck.ob("the new status is stored before requests are dropped and observers told", "%s in %s" % (w, self.f.q), st.cl.get("set") or self.new is None,
                               "%s drops the %s before it stored the new status: one stored in between stays" % (self.f.q, w), self.at(E, site))
                    if self.new is not None:
                        self.ck.ob("only the loss of the service drops requests and registrations", w, self.isnew(st, "Unavailable") or self.notnew(st, "Available"),
                                   "%s drops the %s though the service may be available" % (self.f.q, w), self.at(E, site))
                    st.cl["clr" + w] = 1
        if FLAGSTORE.match(q) and E.in_member(args[0], REQ, self.flag):
            K = "the new status is stored before requests are dropped and observers told"
            ok = self.new is None or args[1] is self.new or st.known(icmp("eq", args[1], self.new)) is True
            self.ck.ob(K, "value in " + self.f.q, ok, "%s stores status %s" % (self.f.q, E.name(args[1])), self.at(E, site))
            st.cl["set"] = 1
        return None

    def current(self, E, st, e):
        return True

    def isnew(self, st, n):
        return st.known(icmp("eq", self.new, C(self.AV[n]))) is True

    def notnew(self, st, n):
        return st.known(icmp("eq", self.new, C(self.AV[n]))) is False

    def on_branch(self, E, st, site, cond, truth):
        self.walk_branch(E, st, site, cond, truth)
        e = eqs(cond, truth)
        if e and self.new is not None:
            x, y, t = e
            for a, b in ((x, y), (y, x)):
                if a is E.load(st, self.sid, 8, "p") and b.k == "init" and split(b.a[0])[0].k == "arg":
                    st.cl["own"] = t
                if a is self.new and any(z.k == "res" and ATOMICRES.match(str(z.a[2])) for z in leaves(b)):
                    st.cl["same"] = t


class Observe(CS):
    """registering an observer"""
    throws = ()

    def __init__(self, ck, f):
        CS.__init__(self, ck, f)
        self.rr = roles(ck)
        self.flag = flag(ck)
        self.AV = enum(ck, NS + "Availability")

    def on_lock(self, E, st, site, m, mode):
        st.cl["cs"] = sat(st.cl.get("cs", 0) + 1, 3)

    def on_after(self, E, st, site, q, args, val):
        if FLAGLOAD.match(q) and E.in_member(args[0], REQ, self.flag):
            st.cl["read"] = (st.cl.get("cs", 0), bool(st.locks), val)

    def on_call(self, E, st, site, q, args):
        co = cont_op(E, site, q, args)
        if FLAGLOAD.match(q) and E.in_member(args[0], REQ, self.flag):
            v = mk("res", site.ctx, site.idx, q, (args[0],))
            E.kill_defs(st, None, v)
            st.cl["read"] = (st.cl.get("cs", 0), bool(st.locks), v)
            return [("ret", v, st)]
        if co and E.in_member(co[2], REQ, self.rr["observers"]) and co[1] in ("push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace"):
            st.cl["pushed"] = (st.cl.get("cs", 0), bool(st.locks))
            v = E.load(st, args[-1], 8, "p")
            self.ck.ob("a new observer learns the status, now or by the next change", "observer", any(x.k == "arg" and x.a[0] == 1 for x in leaves(v)) or args[-1].k == "arg",
                       "%s adds %s to its observers" % (self.f.q, E.name(v)), self.at(E, site))
        if q == "virtual" and vname(E, args[2]) == "onServiceStatusChanged":
            r = st.cl.get("read")
            K = "a new observer learns the status, now or by the next change"
            self.ck.ob(K, "status told", r and (args[-1] is r[2] or const(st, args[-1]) is not None and st.known(icmp("eq", r[2], args[-1])) is True),
                       "%s tells the new observer %s, which is not the status read" % (self.f.q, E.name(args[-1])), self.at(E, site))
            st.cl["told"] = 1
            return [("ret", None, st)]
        return None


@prop("C03", "path-sensitive typestate of a status change through the client and its requesters",
      "ServiceRequester's status change, observer and teardown operations and ClientBase's status propagation, helpers inlined; observers are interface boundaries. "
      "Two status changes processed by different threads at once may be announced in either order.")
def loss(ck):
    P = ck.P
    AV = enum(ck, NS + "Availability")
    K1 = "the loss of the service drops every pending request and registration"
    K2 = "every observer is told of a change"
    K3 = "what is no change of this service's status changes nothing"
    f, = ck.fn(REQ + "::onServiceStatusChanged")
    r = Loss(ck, f)
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind != "ret":
            ck.ob(K2, "gone observer", False, "%s lets the exception of an observer that is gone escape: the others are not told" % f.q, where(f, line))
            continue
        cl, loc = st.cl, where(f, line)
        if cl.get("own") is True and cl.get("same") is False:
            ck.ob("the new status is stored before requests are dropped and observers told", "stored", cl.get("set"), "%s can end without having stored the new status" % f.q, loc)
            ck.ob(K2, "reached", cl.get("w:obs") == "done", "%s can end without having told its observers of a change" % f.q, loc)
            if not r.notnew(st, "Unavailable"):
                for w in ("requests", "registers"):
                    ck.ob(K1, w, cl.get("clr" + w), "%s can end with the service unavailable and its %s still kept: who waits for them waits forever" % (f.q, w), loc)
        acted = cl.get("told") or cl.get("clrrequests") or cl.get("clrregisters")
        ck.ob(K3, f.q + " own", not (acted or cl.get("set")) or cl.get("own") is True, "%s acts on the status of another service" % f.q, loc)
        ck.ob(K3, f.q + " changed", not acted or cl.get("same") is False, "%s acts on a status that may not have changed" % f.q, loc)
    for n in ("deinit",):
        f, = ck.fn(REQ + "::" + n)
        E, out = ck.run(f, Loss(ck, f))
        for kind, val, st, line in out:
            if kind == "ret":
                ck.ob(K1, f.q, st.cl.get("clrrequests"), "%s can end with requests still pending: who waits for them waits forever" % f.q, where(f, line))
    f, = ck.fn(REQ + "::registerServiceStatusObserver")
    E, out = ck.run(f, Observe(ck, f))
    K4 = "a new observer learns the status, now or by the next change"
    for kind, val, st, line in out:
        cl, loc = st.cl, where(f, line)
        if kind != "ret" or not cl.get("pushed"):
            continue
        rd = cl.get("read")
        ck.ob(K4, "atomic", rd and rd[1] and cl["pushed"][1] and rd[0] == cl["pushed"][0], "%s reads the status and adds the observer in different critical sections: a change in between is missed" % f.q, loc)
        if rd and st.known(icmp("eq", rd[2], C(AV["Available"]))) is not False:
            ck.ob(K4, "told", cl.get("told"), "%s can end without having told the new observer that the service is available" % f.q, loc)
    client(ck)
    for k, n in ((K1, 3), (K2, 2), (K3, 1), (K4, 3), ("the new status is stored before requests are dropped and observers told", 3),
                 ("only the loss of the service drops requests and registrations", 2), ("a change reaches the requesters it concerns", 3)):
        ck.need(k, n)


CB = NS + "ClientBase"


def tables(ck):
    """ClientBase's requesters and stored statuses"""
    req = role(ck, CB, lambda q, t: "Lockable" in q and "ServiceRequesterIF" in ck.P.types[ck.P.rt(t["ta"][0])].get("n", ""), "the table of requesters")
    sta = role(ck, CB, lambda q, t: "Lockable" in q and "ServiceRequesterIF" not in ck.P.types[ck.P.rt(t["ta"][0])].get("n", "") and "Availability" in ck.P.types[ck.P.rt(t["ta"][0])].get("n", ""),
               "the table of service statuses")
    return req, sta


class Spread(CS):
    """the client passes status changes on"""
    throws = ()

    def __init__(self, ck, f, sid=None, new=None):
        CS.__init__(self, ck, f)
        self.req, self.sta = tables(ck)
        self.sid, self.new = sid, new
        self.AV = enum(ck, NS + "Availability")

    def isreq(self, E, st, a):
        return isinstance(a, V) and E.in_member(E.origin(st, a), CB, self.req)

    def walked(self, E, st, cont):
        return "req" if self.isreq(E, st, cont) else None

    def left(self, E, st, site, w, how):
        self.ck.ob("a change reaches the requesters it concerns", E.stack_repo(), False, "%s %s of the requesters" % (E.stack_repo(), how), self.at(E, site))

    def on_store(self, E, st, site, addr, v, size, atomic):
        r = split(addr)[0]
        if r.k == "elem" and E.in_member(r.a[0], CB, self.sta):
            k = self.key(r)
            self.stored(E, st, site, k, v)

    def stored(self, E, st, site, k, v):
        K = "the status of a service is stored before its requester is looked up"
        self.ck.ob(K, "key in " + self.f.q, k is not None and self.sid is not None and (k is self.sid or E.load(st, k, 8, "p") is E.load(st, self.sid, 8, "p")),
                   "%s stores the status of another service" % self.f.q, self.at(E, site))
        self.ck.ob(K, "value in " + self.f.q, self.new is not None and (v is self.new or st.known(icmp("eq", v, self.new)) is True),
                   "%s stores %s instead of the new status" % (self.f.q, E.name(v)), self.at(E, site))
        st.cl["stored"] = 1

    def on_call(self, E, st, site, q, args):
        self.walk_call(E, st, site, q, args)
        a = emptied(E, st, site, q, args)
        if a is not None and E.in_member(a, CB, self.sta):
            st.cl["forgot"] = 1
        co = cont_op(E, site, q, args)
        if co:
            c, op, a = co
            if E.in_member(a, CB, self.sta):
                if op in ("insert_or_assign",):
                    self.stored(E, st, site, args[1], E.load(st, args[2], 1))
                if op in ("emplace", "insert", "try_emplace"):
                    self.ck.ob("the status of a service is stored before its requester is looked up", "replaces in " + self.f.q, False, "%s keeps the old status if there is one" % self.f.q, self.at(E, site))
                if op == "erase":
                    st.cl["stored"] = 1
            elif E.in_member(a, CB, self.req) and op == "find":
                self.ck.ob("the status of a service is stored before its requester is looked up", "order in " + self.f.q, st.cl.get("stored"),
                           "%s looks up the requester before it stored the status: one created in between gets neither" % self.f.q, self.at(E, site))
                st.cl["k"] = self.sid is not None and E.load(st, args[1], 8, "p") is E.load(st, self.sid, 8, "p")
        if q == "virtual" and vname(E, args[2]) == "onServiceStatusChanged":
            o = args[3]
            K = "a change reaches the requesters it concerns"
            new = self.new if self.new is not None else self.loss
            self.ck.ob(K, "status in " + self.f.q, args[-1] is new or st.known(icmp("eq", args[-1], new)) is True, "%s passes on %s instead of the new status" % (self.f.q, E.name(args[-1])), self.at(E, site))
            e = [x for x in leaves(o) if x.k == "elem" and self.isreq(E, st, x.a[0])]
            if self.sid is not None:
                ok = e and st.cl.get("k") or o.k == "phi"
                self.ck.ob(K, "requester in " + self.f.q, ok, "%s passes a change on to %s, not the requester of the service" % (self.f.q, E.name(o)), self.at(E, site))
                self.ck.ob(K, "service in " + self.f.q, E.load(st, args[4], 8, "p") is E.load(st, self.sid, 8, "p"), "%s passes a change on for another service" % self.f.q, self.at(E, site))
            else:
                for x in e:
                    s = E.load(st, args[4], 8, "p")
                    ok = any(y.k == "init" and split(y.a[0])[0] is x for y in leaves(s)) or x in leaves(args[4]) or any(y.k == "res" and "serviceID" in str(y.a[2]) for y in leaves(s))
                    self.ck.ob(K, "service in " + self.f.q, ok, "%s passes a change on for another service" % self.f.q, self.at(E, site))
            self.turn(st, "req")
            st.cl["told"] = 1
            return [("ret", None, st)]
        return None

    def on_branch(self, E, st, site, cond, truth):
        self.walk_branch(E, st, site, cond, truth)
        e = eqs(cond, truth)
        if e:
            for a, b in (e[:2], e[1::-1]):
                if a.k == "iter" and b.k == "iter" and {a.a[2], b.a[2]} == {"find", "end"} and E.in_member(a.a[0], CB, self.req):
                    st.cl["found"] = not e[2]
                if b is NULL and e[2] and st.cl.get("found") and "told" not in st.cl and a.k in ("init", "phi"):
                    st.cl["nullreq"] = 1


def client(ck):
    AV = enum(ck, NS + "Availability")
    K = "a change reaches the requesters it concerns"
    f, = ck.fn(CB + "::onServerStatusChanged")
    r = Spread(ck, f)
    r.loss = mk("arg", 2, f.args[2][2] or "")
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind != "ret":
            continue
        if st.known(icmp("eq", r.loss, C(AV["Available"]))) is not True:
            ck.ob(K, f.q + ": all", st.cl.get("w:req") == "done", "%s can end without having told every requester of the loss of the server" % f.q, where(f, line))
            ck.ob(K, f.q + ": stored", st.cl.get("forgot"), "%s keeps the statuses of the services of a server that is gone" % f.q, where(f, line))
        else:
            ck.ob(K, f.q + ": available", not st.cl.get("told"), "%s reports a loss though the server is available" % f.q, where(f, line))
    f, = ck.fn(CB + "::onServiceStatusChanged")
    r = Spread(ck, f, mk("arg", 1, f.args[1][2] or ""), mk("arg", 3, f.args[3][2] or ""))
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind == "ret":
            ck.ob("the status of a service is stored before its requester is looked up", f.q, st.cl.get("stored"), "%s can end without having stored the status" % f.q, where(f, line))
            ck.ob(K, f.q, st.cl.get("told") or st.cl.get("found") is False or st.cl.get("nullreq"), "%s can end without having told the requester of the service" % f.q, where(f, line))
