"""S04 announcing which services are there, I03 lifetime of inter-process connections"""
from .util import *
from .clientserver import *
from .clientserver import NS, REQ
from .registrations import CB
from .service import PRV, tname, ptrto
from .routing import SB, ltable
from .processor import is_lambda

IPC = NS + "ipc::local::"
SRV, CLI = IPC + "LocalIPCServer", IPC + "LocalIPCClient"
A1 = "a service that starts or stops is stored as such before its server is told"
A2 = "a server announces each change of a service it knows, once, and nothing else"
A3 = "a server that goes down announces the end of each of its services while they are still known"
A4 = "a client that asks for announcements is registered before it is told what is there, and is told all of it"
A5 = "each registered client is told of a change, and leaves only if it cannot be reached"
A6 = "what is announced says which service became available or unavailable"
A7 = "a message is sent as it is to the one it is meant for, and the result of sending is what is reported"
A8 = "a client keeps watching its server, and reports exactly the changes"
A9 = "a client registers with a server that comes up, and takes it as up only if that could be sent"
A10 = "a client takes over the status it is told, of the service named, and passes it on"
A11 = "a client that leaves is taken off, and every service learns it"


class Base(CS):
    def __init__(self, ck, f):
        CS.__init__(self, ck, f)
        self.AV, self.AS = enum(ck, NS + "Availability"), enum(ck, NS + "ActionCallStatus")
        self.sr = 1 if f.args[0][3] else 0
        self.a = [mk("arg", i, x[2] or "") for i, x in enumerate(f.args)][self.sr:]
        self.this = self.a[0] if len(self.a) and f.cls is not None else None
        self.M = None
        for i, x in enumerate(f.args):
            if i > self.sr and ptrto(ck.P, x[0], "std::shared_ptr"):
                self.M = mk("init", mk("arg", i, x[2] or ""))
        self.tab = {}

    def vpolicy(self, E, tid, slot, targets, args):
        if selfvirt(E, args):
            t = [x for x in targets if E.p.fns[x].cls is not None and self.f.cls is not None]
            return t if len(t) == 1 else None
        return None

    def ob(self, clause, what, ok, msg, E, site):
        self.ck.ob(clause, "%s in %s" % (what, E.stack_repo() or self.f.q), ok, "%s %s" % (E.stack_repo() or self.f.q, msg), self.at(E, site))

    def fresh(self, E, st, site, what):
        v = mk("res", site.ctx, site.idx, what, ())
        E.kill_defs(st, None, v)
        return v

    def intable(self, E, a, what):
        c, m = self.tab[what]
        return isinstance(a, V) and E.in_member(a, c, m)

    def elem(self, E, st, v, what):
        """the element of the table (or of a copy of it) an object or address belongs to"""
        for _ in range(4):
            r = split(v)[0]
            if r.k == "elem":
                o = E.origin(st, r.a[0])
                return r if self.intable(E, o, what) or (what in st.cl and split(r.a[0])[0] is st.cl[what]) else None
            if r.k == "init":
                v = r.a[0]
                continue
            return None
        return None

    def same(self, E, st, a, b):
        return a is b or isinstance(a, V) and isinstance(b, V) and E.load(st, a, 8, "p") is E.load(st, b, 8, "p")

    def sameaddr(self, E, st, a, b):
        return a is b or all(any(E.load(st, ptr(a, o), n, t) is E.load(st, ptr(b, o), n, t) for n, t in ((8, "p"), (4, None)))
                             for o in (m[1] for m in layout(self.ck, NS + "Address")))

    def piece(self, E, st, m, n):
        return E.load(st, ptr(m, self.F[n]), 8 if n != "operationCode" else 1, "p")

    def text(self, E, v):
        """literal a string was made from"""
        for x in leaves(v):
            if x.k == "g" and x.a[0] in E.p.strings:
                return E.p.strings[x.a[0]]
        return None

    def walked(self, E, st, cont):
        for w in self.tab:
            if self.intable(E, E.origin(st, cont), w) or split(cont)[0].k == "al" and st.cl.get(w) is split(cont)[0]:
                return w
        return None


# ---------------------------------------------------------------- the service
class Serving(Base):
    def on_store(self, E, st, site, addr, v, size, atomic):
        if E.in_member(addr, PRV, self.flag):
            st.cl["stored"] = const(st, v)

    def on_call(self, E, st, site, q, args):
        if FLAGSTORE.match(q) and E.in_member(args[0], PRV, self.flag):
            v = const(st, args[1])
            self.ob(A1, "value", v is not None, "stores an availability that is not a constant", E, site)
            self.ob(A1, "order", not st.cl.get("told"), "stores the availability after it told its server", E, site)
            st.cl["stored"] = v
            if q.endswith("exchange"):
                r = self.fresh(E, st, site, "availability before")
                return [("ret", r, st)]
        if q == "virtual" and vname(E, args[2]) == "onServiceStatusChanged":
            o, a = args[3], args[4:]
            self.ob(A1, "whom", any(x.k == "res" and x.a[2] == "weak_lock" for x in leaves(o)), "tells another one than its server", E, site)
            self.ob(A1, "service", self.same(E, st, a[0], self.sid), "announces another service", E, site)
            self.ob(A1, "status", const(st, a[2]) == self.new, "announces %s" % E.name(a[2]), E, site)
            self.ob(A1, "change", const(st, a[1]) != self.new, "announces a change that is none", E, site)
            self.ob(A1, "stored", st.cl.get("stored") == self.new, "announces a status that is not stored yet", E, site)
            self.ob(A1, "once", not st.cl.get("told"), "announces the change twice", E, site)
            st.cl["told"] = 1
            return [("ret", None, st)]
        return None

    def on_branch(self, E, st, site, cond, truth):
        e = eqs(cond, truth)
        c, t = cond, truth
        while c.k == "not":
            c, t = c.a[0], not t
        if e:
            for a, b in (e[:2], e[1::-1]):
                if b.k == "c" and any(x.k == "res" and (x.a[2] == "availability before" or ATOMICRES.match(str(x.a[2]))) for x in leaves(a)):
                    if (b.a[0] == self.new) == e[2] and (e[2] or b.a[0] == 1 - self.new):
                        st.cl["unchanged"] = 1
                if b is NULL and e[2] and any(x.k == "res" and x.a[2] == "weak_lock" for x in leaves(a)):
                    st.cl["noserver"] = 1
        elif c.k == "res" and c.a[2] == "weak_lock" and not t:
            st.cl["noserver"] = 1


# ---------------------------------------------------------------- the server
class Server(Base):
    """the server learns of a change"""
    throws = ()

    def on_call(self, E, st, site, q, args):
        self.walk_call(E, st, site, q, args)
        co = cont_op(E, site, q, args)
        if co and self.intable(E, co[2], "providers") and co[1] in ("count", "find", "contains"):
            k = args[1]
            self.ob(A2, "which", self.same(E, st, k, self.a[1]), "looks for another service than the one that changed", E, site)
        if q == "virtual":
            n, o, a = vname(E, args[2]), args[3], args[4:]
            if n == "notifyServiceStatusToClient":
                self.ob(A2, "service", self.same(E, st, a[0], self.a[1]), "announces another service", E, site)
                self.ob(A2, "old", a[1] is self.a[2], "announces %s as the old status" % E.name(a[1]), E, site)
                self.ob(A2, "new", a[2] is self.a[3], "announces %s as the new status" % E.name(a[2]), E, site)
                self.ob(A2, "change", st.known(icmp("eq", self.a[2], self.a[3])) is False, "announces a change that is none", E, site)
                self.ob(A2, "once", not st.cl.get("told"), "announces a change twice", E, site)
                st.cl["told"] = 1
                return [("ret", None, st)]
        return None

    def on_branch(self, E, st, site, cond, truth):
        c, t = cond, truth
        while c.k == "not":
            c, t = c.a[0], not t
        z = None
        e = eqs(cond, truth)
        if e:
            for a, b in (e[:2], e[1::-1]):
                if b is NULL and any(x.k in ("qry", "res") and self.cnt(E, x) for x in leaves(a)):
                    z = e[2]
                if a.k == "iter" and b.k == "iter" and {a.a[2], b.a[2]} == {"find", "end"} and self.intable(E, a.a[0], "providers"):
                    z = e[2]
        elif any(x.k in ("qry", "res") and self.cnt(E, x) for x in leaves(c)):
            z = not t
        elif c.k == "icmp" and any(self.cnt(E, x) for x in leaves(c) if x.k in ("qry", "res")):
            z = not t
        if z is not None:
            st.cl["unknown"] = z

    def cnt(self, E, x):
        return any(isinstance(y, V) and self.intable(E, y, "providers") for y in leaves(x)) and ("count" in show(x) or "contains" in show(x))


class Down(Base):
    """the server goes down"""

    def left(self, E, st, site, w, how):
        self.ob(A3, "all", False, "%s of the services" % how, E, site)

    def on_call(self, E, st, site, q, args):
        self.walk_call(E, st, site, q, args)
        c = emptied(E, st, site, q, args)
        if c is not None and self.intable(E, c, "providers"):
            st.cl["emptied"] = 1
            self.ob(A3, "stopped first", self.done(st, "providers") and st.cl.get("last") in (None, "stopServing"), "forgets its services before all of them have stopped: the end of one that is not known is not announced", E, site)
            x = [a for a in args if isinstance(a, V) and split(a)[0].k == "al"]
            if x:
                st.cl["providers"] = split(x[0])[0]
        if q == "virtual":
            n, o, a = vname(E, args[2]), args[3], args[4:]
            if n in ("stopServing", "deinit"):
                e = self.elem(E, st, o, "providers")
                self.ob(A3, "whose", e is not None, "ends something that is none of its services", E, site)
                if n == "stopServing":
                    self.ob(A3, "known", not st.cl.get("emptied"), "stops a service it has forgotten already: nobody is told", E, site)
                self.ob(A3, "unlocked", not st.locks, "ends a service holding a lock", E, site)
                self.turn(st, "providers")
                st.cl["last"] = n
                return [("ret", None, st)]
        return None


# ---------------------------------------------------------------- the inter-process server
class Ipc(Base):
    """an operation of the inter-process server or client: sending is a boundary"""
    oob = None

    def __init__(self, ck, f):
        Base.__init__(self, ck, f)
        self.tab = {"providers": (SB, ltable(ck, SB, "ServiceProviderIF")),
                    "addresses": (SRV, role(ck, SRV, lambda q, t: "Lockable" in q and "set<" in tname(ck, ck.P.rt(t["ta"][0])) and "Address" in t.get("n", ""), "the registered clients"))}

    def sid(self, E, st):
        return None

    def message(self, E, st, site, m, sid, new):
        self.ob(A6, "service", self.piece(E, st, m, "serviceID") is E.load(st, sid, 8, "p") if isinstance(sid, V) else False, "announces another service than the one that changed (%s)" % E.name(self.piece(E, st, m, "serviceID")), E, site)
        self.ob(A6, "kind", const(st, self.piece(E, st, m, "operationCode")) == self.op["ServiceStatusUpdate"], "announces a status by a message of another kind", E, site)
        o = self.piece(E, st, m, "operationID")
        t = self.text(E, o)
        if new is None:
            self.ob(A6, "status", False, "announces a status without having looked which", E, site)
        else:
            self.ob(A6, "status", t == ("service_available.property" if new else "service_unavailable.property"),
                    "announces %s for a service that became %s" % (t or E.name(o), "available" if new else "unavailable"), E, site)

    new = None

    def isnew(self, st, v):
        """the status v is Available: True, False, or not known here"""
        k = st.known(icmp("eq", v, C(self.AV["Available"])))
        return st.cl.get("isnew") if k is None else k

    def on_branch(self, E, st, site, cond, truth):
        self.walk_branch(E, st, site, cond, truth)
        if self.new is not None and self.isnew(st, self.new) is not None:
            st.cl["isnew"] = self.isnew(st, self.new)
        e = eqs(cond, truth)
        if e and st.cl.get("res"):
            for a, b in (e[:2], e[1::-1]):
                v = st.cl["res"][0]
                if b.k == "c" and (a is v or a.k == "cast" and a.a[1] is v):
                    good = b.a[0] in (self.AS["Success"], self.AS["ReceiverBusy"])
                    if e[2]:
                        st.cl["is"] = "good" if good else "bad"
                    elif good:
                        s = frozenset(st.cl.get("isnot", ())) | {b.a[0]}
                        st.cl["isnot"] = s
                        if len(s) == 2:
                            st.cl["is"] = "bad"


class Notify(Ipc):
    """all registered clients are told of a change"""

    def left(self, E, st, site, w, how):
        if w == "addresses":
            self.ob(A5, "all", False, "%s of the registered clients" % how, E, site)

    def walk_call(self, E, st, site, q, args):
        m = ITER_CLS.match(q)
        if m and args and m.group(3).startswith("operator++"):
            st.cl["past"] = (st.cl.pop("res", None), st.cl.pop("is", None))
            st.cl.pop("isnot", None)
        Walk.walk_call(self, E, st, site, q, args)

    def on_call(self, E, st, site, q, args):
        self.walk_call(E, st, site, q, args)
        co = cont_op(E, site, q, args)
        if co and self.intable(E, co[2], "addresses"):
            op = co[1]
            if op == "erase":
                k = args[1] if args[0] is co[2] else args[2]
                it = E.load(st, k, 8, "p") if split(k)[0].k == "al" else k
                c = [(r, i) for r, i in ((st.cl.get("res"), st.cl.get("is")), st.cl.get("past", (None, None)))
                     if r is not None and (it is r[1].a[1] or it is r[1] or self.elem(E, st, k, "addresses") is r[1])]
                self.ob(A5, "who leaves", c, "takes off another client than the one that could not be reached", E, site)
                self.ob(A5, "leaves", c and c[0][1] == "bad", "takes off a client that may have been reached, or is only busy", E, site)
            elif op in ("clear", "operator=", "swap", "extract", "merge"):
                self.ob(A5, op, False, "takes off clients that may be reached", E, site)
        if q == "virtual" and vname(E, args[2]) == "sendMessageToClient":
            m = E.load(st, args[4], 8, "p")
            e = self.elem(E, st, args[5], "addresses")
            self.ob(A5, "whom", e is not None, "sends the change to %s, not to a registered client" % E.name(args[5]), E, site)
            self.ob(A5, "change", st.known(icmp("eq", self.a[2], self.a[3])) is False, "announces a change that is none", E, site)
            self.message(E, st, site, m, self.a[1], self.isnew(st, self.a[3]))
            self.turn(st, "addresses")
            v = self.fresh(E, st, site, "status of the send")
            for k in ("res", "is", "isnot", "past"):
                st.cl.pop(k, None)
            if e is not None:
                st.cl["res"] = (v, e)
            return [("ret", v, st)]
        return None


class NotifyOne(Ipc):
    """one client is told"""

    def on_call(self, E, st, site, q, args):
        if q == "virtual" and vname(E, args[2]) == "sendMessageToClient":
            m = E.load(st, args[4], 8, "p")
            self.ob(A5, "whom", self.sameaddr(E, st, args[5], self.a[1]), "sends the status to another client", E, site)
            self.message(E, st, site, m, self.a[2], self.isnew(st, self.a[4]))
            self.ob(A5, "once", not st.cl.get("told"), "tells a client twice", E, site)
            st.cl["told"] = 1
            v = self.fresh(E, st, site, "status of the send")
            return [("ret", v, st)]
        return None


class Incoming2(Ipc):
    """the server gets a message"""

    def __init__(self, ck, f):
        Ipc.__init__(self, ck, f)
        self.code = mk("init", ptr(self.M, self.F["operationCode"]))
        self.src = ptr(self.M, self.F["sourceAddress"])

    def isop(self, st, n):
        return st.known(icmp("eq", self.code, C(self.op[n])))

    def left(self, E, st, site, w, how):
        if w == "providers":
            self.ob(A4 if self.isop(st, "RegisterServiceStatus") else A11, "all", False, "%s of the services" % how, E, site)

    def on_branch(self, E, st, site, cond, truth):
        self.walk_branch(E, st, site, cond, truth)
        c, t = cond, truth
        while c.k == "not":
            c, t = c.a[0], not t
        e = eqs(cond, truth)
        if e:
            for a, b in (e[:2], e[1::-1]):
                s = self.avail(a)
                if s is not None and b.k == "c" and s is st.cl.get("asked", (None,))[0]:
                    if (b.a[0] == self.AV["Available"]) != e[2]:
                        if b.a[0] == self.AV["Available"]:
                            self.turn(st, "providers")
                    elif not e[2] or b.a[0] != self.AV["Available"]:
                        pass
                    if b.a[0] == self.AV["Available"]:
                        st.cl["isav"] = e[2]
        if "nosid" not in st.cl:
            z = st.known(mk("qry", "size", ptr(self.M, self.F["serviceID"])))
            if z is not None:
                st.cl["nosid"] = not z

    def avail(self, v):
        for x in leaves(v):
            if x.k == "res" and x.a[2] == "availability":
                return x
        return None

    def invalid(self, E, st):
        """the message names no service"""
        s = ptr(self.M, self.F["serviceID"])
        for v, t in list(st.facts.items()):
            if any(x is s or x is E.load(st, s, 8, "p") for x in leaves(v)):
                return True
        return st.cl.get("nosid") or False

    def on_call(self, E, st, site, q, args):
        self.walk_call(E, st, site, q, args)
        co = cont_op(E, site, q, args)
        if co and self.intable(E, co[2], "addresses"):
            op = co[1]
            k = args[1] if args[0] is co[2] else args[2] if len(args) > 2 else None
            if op in ("insert", "emplace"):
                self.ob(A4, "who", k is not None and self.sameaddr(E, st, k, self.src), "registers another client", E, site)
                self.ob(A4, "when", self.isop(st, "RegisterServiceStatus") is True, "registers a client that did not ask for it", E, site)
                self.ob(A4, "order", "w:providers" not in st.cl, "registers a client after having looked what is there: a change in between is lost", E, site)
                st.cl["registered"] = 1
            elif op == "erase":
                self.ob(A11, "who", k is not None and self.sameaddr(E, st, k, self.src), "takes off another client", E, site)
                self.ob(A11, "when", self.isop(st, "UnregisterServiceStatus") is True and st.cl.get("nosid") is True, "takes off a client that did not leave", E, site)
                st.cl["erased"] = 1
            elif op in ("clear", "operator=", "swap", "extract", "merge"):
                self.ob(A5, op, False, "takes off clients that may be reached", E, site)
        if q in ("std::operator==", "std::operator!=") and len(args) == 2:
            s = ptr(self.M, self.F["serviceID"])
            a, b = args
            if a is s or b is s:
                o = b if a is s else a
                if self.text(E, o) == "":
                    out = []
                    for t in (True, False):
                        s2 = st.copy()
                        if "nosid" in s2.cl and s2.cl["nosid"] is not t:
                            continue
                        s2.cl["nosid"] = t
                        out.append(("ret", TRUE if t == (q == "std::operator==") else NULL, s2))
                    return out
        if q == SB + "::onIncomingMessage" and args and args[0] is self.this or q == SB + "::onIncomingMessage":
            self.ob(A11, "base", self.isop(st, "RegisterServiceStatus") is not True and not st.cl.get("erased"), "passes a message on as well", E, site)
            self.ob(A11, "message", E.load(st, args[1], 8, "p") is self.M, "passes on another message", E, site)
            v = self.fresh(E, st, site, "passed on")
            st.cl["base"] = v
            return [("ret", v, st)]
        if q == "virtual":
            n, o, a = vname(E, args[2]), args[3], args[4:]
            if n == "availability":
                e = self.elem(E, st, o, "providers")
                self.ob(A4, "of", e is not None, "asks the availability of something else", E, site)
                v = self.fresh(E, st, site, "availability")
                st.cl["asked"] = (v, e)
                st.cl.pop("isav", None)
                return [("ret", v, st)]
            if n == "sendMessageToClient":
                m = E.load(st, a[0], 8, "p")
                s, e = st.cl.get("asked", (None, None))
                self.ob(A4, "told", self.sameaddr(E, st, a[1], self.src), "tells another client what is there", E, site)
                self.ob(A4, "available", s is not None and st.cl.get("isav") is True, "announces a service to a new client without having found it available", E, site)
                if e is not None:
                    self.message(E, st, site, m, e, True)
                self.turn(st, "providers")
                self.ob(A4, "registered first", st.cl.get("registered"), "tells a client that is not registered", E, site)
                return [("ret", self.fresh(E, st, site, "status of the send"), st)]
            if n == "onIncomingMessage":
                e = self.elem(E, st, o, "providers")
                self.ob(A11, "whom", e is not None, "passes the message to %s" % E.name(o), E, site)
                self.ob(A11, "what", E.load(st, a[0], 8, "p") is self.M, "passes on another message", E, site)
                if e is not None:
                    self.ob(A11, "addressed", self.piece(E, st, self.M, "serviceID") is E.load(st, e, 8, "p"), "passes the message to a service without addressing it to that service", E, site)
                self.turn(st, "providers")
                return [("ret", self.fresh(E, st, site, "handled"), st)]
        return None


# ---------------------------------------------------------------- sending
class Send(Ipc):
    def __init__(self, ck, f, cls, to, source):
        Ipc.__init__(self, ck, f)
        self.cls, self.to, self.source = cls, to, source

    def on_enter(self, E, st, site, fn, args):
        pass

    def on_call(self, E, st, site, q, args):
        if q == "std::static_pointer_cast":
            E.store(st, args[0], E.load(st, args[1], 8, "p"), 8)
            return [("ret", None, st)]
        if q.split("::")[-1] == "toBytes":
            self.ob(A7, "message", E.load(st, args[1], 8, "p") is self.M or args[1] is self.M, "sends another message", E, site)
            if self.source:
                self.ob(A7, "source", st.cl.get("source") == "own", "sends a message that does not say where it comes from", E, site)
            b = mk("res", site.ctx, site.idx, "bytes", ())
            E.store(st, args[0], b, 8)
            st.cl["bytes"] = 1
            s2 = st.copy()
            s2.cl["failed"] = 1
            return [("ret", None, st), ("throw", mk("exc", "bad_alloc", "_ZTISt9bad_alloc"), s2)]
        if q == MSG + "::setSourceAddress":
            v = args[1]
            r = E.load(st, v, 8, "p")
            st.cl["source"] = "own" if any(x.k == "res" and x.a[2] == "own address" for x in leaves(r)) else "other"
            self.ob(A7, "own address", st.cl["source"] == "own", "sends a message that names another source than the client's own receiver", E, site)
            return [("ret", None, st)]
        if q == "virtual":
            n, o, a = vname(E, args[2]), args[3], args[4:]
            if n == "address":
                return [("ret", mk("res", site.ctx, site.idx, "own address", ()), st)]
            if n == "send":
                b = E.load(st, a[0], 8, "p")
                self.ob(A7, "bytes", b.k == "res" and b.a[2] == "bytes", "sends something else than the message", E, site)
                self.ob(A7, "whom", self.to(E, st, a[1]), "sends the message to %s" % E.name(a[1]), E, site)
                self.ob(A7, "once", not st.cl.get("sent"), "sends a message twice", E, site)
                v = self.fresh(E, st, site, "status of the send")
                st.cl["sent"] = v
                return [("ret", v, st)]
        return None


# ---------------------------------------------------------------- the client
class Watch(Ipc):
    def __init__(self, ck, f):
        Ipc.__init__(self, ck, f)
        self.cur = role(ck, CLI, lambda q, t: t.get("k") == "enum" and q == NS + "Availability", "the status of the server")
        self.cura = ptr(self.this, dict((m[0], m[1]) for m in layout(ck, CLI))[self.cur])

    def on_store(self, E, st, site, addr, v, size, atomic):
        if addr is self.cura:
            st.cl["cur"] = v
            self.wrote(E, st, site, v)

    def wrote(self, E, st, site, v):
        pass


class Monitor(Watch):
    def wrote(self, E, st, site, v):
        self.ob(A8, "status", False, "changes the status of the server without it having been reported", E, site)

    def on_call(self, E, st, site, q, args):
        if q == "virtual":
            n, o, a = vname(E, args[2]), args[3], args[4:]
            if n == "checkReceiverStatus":
                self.ob(A8, "server", E.member(a[0])[:1] != [] and (CLI, self.srvaddr) in E.member(a[0]), "looks whether another one than its server is there", E, site)
                v = self.fresh(E, st, site, "status of the server")
                st.cl["seen"] = v
                return [("ret", v, st)]
            if n == "onServerStatusChanged":
                old = mk("init", self.cura)
                s = st.cl.get("seen")
                self.ob(A8, "old", a[0] is old, "reports %s as the old status" % E.name(a[0]), E, site)
                self.ob(A8, "new", s is not None and a[1] is s, "reports %s as the new status" % E.name(a[1]), E, site)
                self.ob(A8, "change", s is not None and st.known(icmp("eq", old, s)) is False, "reports a change that is none", E, site)
                self.ob(A8, "once", not st.cl.get("told"), "reports a change twice", E, site)
                st.cl["told"] = 1
                return [("ret", None, st)]
        if q == NS + "Timer::start":
            self.ob(A8, "watches", any(c == CLI for c, m in E.member(args[0])), "starts another timer than its own", E, site)
            st.cl["armed"] = 1
            return [("ret", None, st)]
        return None


class Changed(Watch):
    def on_call(self, E, st, site, q, args):
        if q == CB + "::onServerStatusChanged":
            self.ob(A9, "base", args[1] is self.a[1] and args[2] is self.a[2], "passes on another change", E, site)
            self.ob(A9, "order", not st.cl.get("sent"), "tells its requesters after having registered: what the server announces in between is forgotten", E, site)
            st.cl["base"] = 1
            return [("ret", None, st)]
        if q == "virtual" and vname(E, args[2]) == "sendMessageToServer":
            m = E.load(st, args[4], 8, "p")
            self.ob(A9, "kind", const(st, self.piece(E, st, m, "operationCode")) == self.op["RegisterServiceStatus"], "sends another message than a registration", E, site)
            self.ob(A9, "up", self.isnew(st, self.a[2]) is True, "registers with a server that is not up", E, site)
            v = self.fresh(E, st, site, "status of the send")
            st.cl["sent"] = v
            return [("ret", v, st)]
        return None

    def wrote(self, E, st, site, v):
        up = self.isnew(st, self.a[2])
        s = st.cl.get("sent")
        self.ob(A9, "value", v is self.a[2] or const(st, v) is not None and const(st, v) == const(st, self.a[2]), "stores %s as the status of the server" % E.name(v), E, site)
        self.ob(A9, "sent", up is False or s is not None and st.known(icmp("eq", s, C(self.AS["Success"]))) is True, "takes the server as up although the registration may not have been sent: it is never tried again", E, site)


class Told(Ipc):
    """the client is told a status"""

    def __init__(self, ck, f):
        Ipc.__init__(self, ck, f)
        self.code = mk("init", ptr(self.M, self.F["operationCode"]))

    def on_call(self, E, st, site, q, args):
        if q in ("std::operator==", "std::operator!=") and len(args) == 2:
            for n in ("serviceID", "operationID"):
                s = ptr(self.M, self.F[n])
                if s in args:
                    t = self.text(E, args[1] if args[0] is s else args[0])
                    if t is None:
                        return None
                    out = []
                    for v in (True, False):
                        s2 = st.copy()
                        k = (n, t)
                        if k in s2.cl and s2.cl[k] is not v or v and any(x is True and y[0] == n and y[1] != t for y, x in s2.cl.items() if isinstance(y, tuple)):
                            continue
                        s2.cl[k] = v
                        out.append(("ret", TRUE if v == (q == "std::operator==") else NULL, s2))
                    return out
        if q == "virtual" and vname(E, args[2]) == "onServiceStatusChanged" or q == CB + "::onServiceStatusChanged":
            a = args[4:] if q == "virtual" else args[1:]
            up = st.cl.get(("operationID", "service_available.property"))
            down = st.cl.get(("operationID", "service_unavailable.property"))
            self.ob(A10, "service", self.same(E, st, a[0], ptr(self.M, self.F["serviceID"])), "reports a change of another service", E, site)
            self.ob(A10, "kind", st.known(icmp("eq", self.code, C(self.op["ServiceStatusUpdate"]))) is True, "takes a message of another kind as a status", E, site)
            n = const(st, a[2])
            want = self.AV["Available"] if up else self.AV["Unavailable"] if down else None
            self.ob(A10, "status", want is not None and n == want, "reports %s when the service became %s" % (E.name(a[2]), "available" if up else "unavailable" if down else "something else"), E, site)
            self.ob(A10, "change", const(st, a[1]) != n, "reports a change that is none", E, site)
            self.ob(A10, "once", not st.cl.get("told"), "reports a change twice", E, site)
            st.cl["told"] = 1
            return [("ret", None, st)]
        return None


@prop("S04", "path-sensitive typestate of an availability change from the service through the server and the connection to the client's table",
      "Each hop is analysed on all its paths with the next hop as a boundary: service, server, inter-process server, inter-process and in-process client. "
      "Two changes of one service made by different threads at once may be announced in either order; how soon a server's end is noticed is not decided.")
def announcing(ck):
    AV = enum(ck, NS + "Availability")
    fl = role(ck, PRV, lambda q, t: "Availability" in t.get("n", ""), "the availability")
    prov = ltable(ck, SB, "ServiceProviderIF")
    off = {m[0]: m[1] for m in layout(ck, PRV)}
    for n, new in (("startServing", AV["Available"]), ("stopServing", AV["Unavailable"])):
        f, = ck.fn(PRV + "::" + n)
        r = Serving(ck, f)
        r.flag, r.new = fl, new
        r.sid = ptr(r.this, [m[1] for m in layout(ck, PRV) if m[3] in STR or "basic_string" in m[3]][0])
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            if kind == "ret":
                cl = st.cl
                ck.ob(A1, "stored by " + f.q, cl.get("stored") == new or cl.get("unchanged"), "%s returns at line %s without having stored the availability" % (f.q, line), where(f, line))
                ck.ob(A1, "told by " + f.q, cl.get("told") or cl.get("noserver") or cl.get("unchanged"), "%s returns at line %s without having told its server" % (f.q, line), where(f, line))
    f, = ck.fn(SB + "::onServiceStatusChanged")
    r = Server(ck, f)
    r.tab = {"providers": (SB, prov)}
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind == "ret":
            ok = st.cl.get("told") or st.known(icmp("eq", r.a[2], r.a[3])) is True or st.cl.get("unknown")
            ck.ob(A2, "told by " + f.q, ok, "%s returns at line %s without having announced the change of a service it knows" % (f.q, line), where(f, line))
            ck.ob(A2, "known to " + f.q, not (st.cl.get("told") and st.cl.get("unknown")), "%s announces a service it does not know" % f.q, where(f, line))
    f, = ck.fn(SB + "::deinit")
    r = Down(ck, f)
    r.tab = {"providers": (SB, prov)}
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind == "ret":
            ck.ob(A3, "forgotten by " + f.q, st.cl.get("emptied"), "%s keeps its services" % f.q, where(f, line))
            ck.ob(A3, "ended by " + f.q, r.done(st, "providers") and st.cl.get("last") in ("deinit", None, "stopServing"), "%s does not end each of its services" % f.q, where(f, line))
    seen = 0
    for f in ck.fn(SRV + "::notifyServiceStatusToClient"):
        one = len(f.args) == 5
        r = (NotifyOne if one else Notify)(ck, f)
        r.new = r.a[4 if one else 3]
        E, out = ck.run(f, r)
        new = r.a[4 if one else 3]
        old = r.a[3 if one else 2]
        for kind, val, st, line in out:
            if kind == "ret" and st.known(icmp("eq", old, new)) is not True:
                seen += 1
                ok = st.cl.get("told") if one else r.done(st, "addresses")
                ck.ob(A5, "told by %s/%d" % (f.q, len(f.args)), ok, "%s returns at line %s without having told %s" % (f.q, line, "the client" if one else "each registered client"), where(f, line))
    f, = ck.fn(SRV + "::onIncomingMessage")
    r = Incoming2(ck, f)
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind != "ret":
            continue
        cl, loc, v = st.cl, where(f, line), const(st, val)
        if r.isop(st, "RegisterServiceStatus") is True:
            ck.ob(A4, "registered by " + f.q, cl.get("registered"), "%s returns at line %s without having registered the client" % (f.q, line), loc)
            ck.ob(A4, "told by " + f.q, r.done(st, "providers"), "%s returns at line %s without having told the client what is there" % (f.q, line), loc)
            ck.ob(A4, "handled by " + f.q, v == 1, "%s reports a registration as not handled" % f.q, loc)
        elif cl.get("erased"):
            ck.ob(A11, "told by " + f.q, r.done(st, "providers"), "%s returns at line %s without having told every service" % (f.q, line), loc)
            ck.ob(A11, "handled by " + f.q, v == 1, "%s reports an end as not handled" % f.q, loc)
        else:
            ck.ob(A11, "taken off by " + f.q, r.isop(st, "UnregisterServiceStatus") is False or cl.get("nosid") is False, "%s returns at line %s without having taken off a client that left" % (f.q, line), loc)
            ck.ob(A11, "passed on by " + f.q, cl.get("base") is not None and val is cl["base"], "%s does not pass on a message for one of its services" % f.q, loc)
    # sending
    f, = ck.fn(SRV + "::sendMessageToClient")
    r = Send(ck, f, SRV, None, False)
    r.to = lambda E, st, a, r=r: r.sameaddr(E, st, a, r.a[2])
    f2, = ck.fn(CLI + "::sendMessageToServer")
    r2 = Send(ck, f2, CLI, None, True)
    sa = role(ck, CLI, lambda q, t: q == NS + "Address", "the address of the server")
    r2.to = lambda E, st, a: (CLI, sa) in E.member(a)
    for x in (r, r2):
        E, out = ck.run(x.f, x)
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            v = const(st, val)
            s = st.cl.get("sent")
            ok = val is s if s is not None else v is not None and v != x.AS["Success"]
            ck.ob(A7, "result of " + x.f.q, ok, "%s reports %s at line %s" % (x.f.q, E.name(val), line), where(x.f, line))
    f, = ck.fn(CLI + "::monitorServerStatus")
    r = Monitor(ck, f)
    r.srvaddr = sa
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind == "ret":
            ck.ob(A8, "armed by " + f.q, st.cl.get("armed"), "%s returns at line %s without looking again later" % (f.q, line), where(f, line))
            s = st.cl.get("seen")
            ck.ob(A8, "told by " + f.q, st.cl.get("told") or s is not None and st.known(icmp("eq", mk("init", r.cura), s)) is True, "%s returns at line %s without having reported a change" % (f.q, line), where(f, line))
    f, = ck.fn(CLI + "::onServerStatusChanged")
    r = Changed(ck, f)
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind == "ret":
            up = r.isnew(st, r.a[2])
            s = st.cl.get("sent")
            ck.ob(A9, "told by " + f.q, st.cl.get("base"), "%s returns at line %s without telling its requesters" % (f.q, line), where(f, line))
            ck.ob(A9, "registered by " + f.q, up is False or s is not None, "%s returns at line %s without having registered with the server" % (f.q, line), where(f, line))
            ok = st.cl.get("cur") is not None or s is not None and st.known(icmp("eq", s, C(r.AS["Success"]))) is False
            ck.ob(A9, "stored by " + f.q, ok, "%s returns at line %s without having stored the status of the server" % (f.q, line), where(f, line))
    f, = ck.fn(CB + "::onIncomingMessage")
    r = Told(ck, f)
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind == "ret":
            up = st.cl.get(("operationID", "service_available.property")) or st.cl.get(("operationID", "service_unavailable.property"))
            if up:
                ck.ob(A10, "told by " + f.q, st.cl.get("told"), "%s does not report the status it was told" % f.q, where(f, line))
    for k, m in ((A1, 10), (A2, 5), (A3, 5), (A4, 6), (A5, 5), (A6, 3), (A7, 5), (A8, 6), (A9, 5), (A10, 5), (A11, 5)):
        ck.need(k, m)


# ---------------------------------------------------------------- I03 lifetime of connections
B1 = "what is queued or timed for a connection neither keeps nor points to it"
B2 = "queued and timed work touches a connection only after finding it alive"
B3 = "a received buffer is handed on as it is, once"
B4 = "a well-formed message is delivered once, and a malformed one dropped"
B5 = "a thread that points to a connection is kept by it"
B6 = "a connection that ends stops its receiver, then waits for its threads"
SUBMIT = NS + "single_threadpool::submit"


def refs(P, t, own, d=0):
    """members of a class, or of the library's and the standard's value types in it, that point to or own a connection or something in it"""
    r = []
    t = P.rt(t)
    if t < 0 or d > 6 or P.types[t]["k"] != "class":
        return r
    for m in P.types[t].get("m", []):
        x = P.rt(m[2])
        if x < 0:
            continue
        ty = P.types[x]
        q = ty.get("q", "")
        if ty["k"] == "ptr":
            r.append((m[0], "a plain pointer or reference"))
        elif q in ("std::shared_ptr", "std::__shared_ptr"):
            a = ty.get("ta") or []
            y = P.rt(a[0]) if a else -1
            if y >= 0 and any(y == o or P.isa(o, y) for o in own):
                r.append((m[0], "a strong reference"))
        elif ty["k"] == "class" and not q.startswith(("std::weak_ptr", "std::__weak_ptr", "std::function", "std::__cxx11", "std::basic_string", "std::vector", "std::unique_ptr")):
            r += refs(P, x, own, d + 1)
    return r


def isbuf(P, t):
    t = P.rt(t)
    return t >= 0 and P.types[t].get("q", "").endswith("::basic_string")


class Threads(Base):
    """threads of a connection"""

    def thread(self, E, a):
        for c, m in E.member(a):
            if c in (SRV, CLI) and (c, m) in self.members:
                return (c, m)
        return None

    def on_call(self, E, st, site, q, args):
        if q == SUBMIT or q == NS + "Timer::start":
            return [("ret", TRUE if q == SUBMIT else None, st)]
        if q == "std::thread::thread" and len(args) > 1:
            t = self.thread(E, args[0])
            if t is None:
                st.cl["loose"] = args[0]
            return [("ret", None, st)]
        if q in ("std::thread::operator=", "std::thread::swap", "std::swap") and len(args) > 1:
            if self.thread(E, args[0]) and st.cl.get("loose") is args[1]:
                st.cl.pop("loose")
            return [("ret", args[0], st)]
        if q == "std::thread::detach":
            self.ob(B5, "kept", False, "lets a thread that may point to the connection go", E, site)
            return [("ret", None, st)]
        return None


class Ending(Base):
    """the destructor, or stop"""

    def on_call(self, E, st, site, q, args):
        if q == "virtual" and vname(E, args[2]) == "stop" and any(m == self.receiver for c, m in E.member(split(args[3])[0].a[0]) if split(args[3])[0].k == "init"):
            st.cl["stopped"] = 1
            return [("ret", None, st)]
        if q in ("std::thread::joinable", "std::thread::join", "std::thread::detach"):
            m = [x for c, x in E.member(args[0]) if (c, x) in self.members]
            if not m:
                return None
            if q.endswith("joinable"):
                return [("ret", mk("res", None, None, "joinable " + m[0], ()), st)]
            if q.endswith("join"):
                self.ob(B6, "order", st.cl.get("stopped"), "waits for a thread that was not told to stop", E, site)
                self.ob(B6, "joinable", st.cl.get(m[0]) == "joinable", "waits for a thread that may never have been started", E, site)
                st.cl[m[0]] = "over"
            return [("ret", None, st)]
        if q == NS + "Timer::stop":
            st.cl["timer"] = 1
            return [("ret", None, st)]
        if q == CB + "::deinit":
            self.ob(B6, "last", st.cl.get("stopped"), "takes its requesters down while its receiver may still deliver", E, site)
            return [("ret", None, st)]
        return None

    def on_branch(self, E, st, site, cond, truth):
        c, t = cond, truth
        while c.k == "not":
            c, t = c.a[0], not t
        e = eqs(cond, truth)
        if e and NULL in e[:2]:
            c, t = (e[0] if e[1] is NULL else e[1]), not e[2]
        if not t and c.k == "init" and any(m == self.receiver for _, m in E.member(c.a[0])):
            st.cl["stopped"] = 1
        if c.k == "res" and str(c.a[2]).startswith("joinable "):
            n = c.a[2][9:]
            if st.cl.get(n) is None:
                st.cl[n] = "joinable" if t else "over"


class Come(Base):
    """a buffer has come"""

    def on_call(self, E, st, site, q, args):
        if q == SUBMIT:
            self.ob(B3, "once", not st.cl.get("sent"), "hands a buffer on twice", E, site)
            st.cl["sent"] = 1
            fo = E.load(st, args[0], 8, "p")
            want = mk("init", self.a[1])
            ok = False
            for t in self.closures:
                o = [m[1] for m in E.p.types[t].get("m", []) if isbuf(E.p, m[2])]
                ok |= any(E.load(st, ptr(fo, x), 8, "p") is want for x in o)
                ok |= any(E.load(st, ptr(args[0], x), 8, "p") is want for x in o)
            self.ob(B3, "buffer", ok, "hands on something else than the buffer that came", E, site)
            return [("ret", TRUE, st)]
        return None


class Body(Base):
    """queued and timed work"""
    shared = False

    def alive(self, E, st, o):
        return self.locked(o) and st.cl.get("alive") is True

    def use(self, E, st, site, o, what):
        self.ob(B2, what, self.alive(E, st, o), "uses a connection that may be gone", E, site)
        st.cl["used"] = 1

    def locked(self, o):
        return any(x.k == "res" and "weak_lock" in x.a for x in leaves(o))

    def on_enter(self, E, st, site, fn, args):
        if fn.q.startswith((SRV + "::", CLI + "::")) and not is_lambda(fn) and args:
            sr = 1 if fn.args and fn.args[0][3] else 0
            if self.locked(args[sr]):
                self.use(E, st, site, args[sr], fn.q)

    def on_call(self, E, st, site, q, args):
        n = vname(E, args[2]) if q == "virtual" else q.split("::")[-1]
        if q.startswith("maf::") and n == "fromBytes":
            b = args[1]
            r = split(b)[0]
            self.ob(B4, "bytes", self.carries and E.load(st, b, 8, "p") in self.buffers(E), "reads a message from something else than the buffer that came", E, site)
            self.ob(B4, "read once", not st.cl.get("read"), "reads a message twice", E, site)
            out = []
            for v in (True, False):
                s2 = st.copy()
                for n2, o2 in self.F.items():
                    E.store(s2, ptr(args[0], o2), self.fresh(E, s2, site, "read " + n2), 1 if n2 == "operationCode" else 8)
                s2.cl["read"] = "good" if v else "bad"
                s2.cl["message"] = args[0]
                out.append(("ret", TRUE if v else NULL, s2))
            return out
        if n == "onIncomingMessage" and (q == "virtual" or q.startswith((SRV, CLI, SB, CB))):
            o, a = (args[3], args[4:]) if q == "virtual" else (args[0], args[1:])
            if not self.carries:
                return None
            self.use(E, st, site, o, "onIncomingMessage")
            self.ob(B4, "wellformed", st.cl.get("read") == "good", "delivers a message that is not well-formed", E, site)
            m = E.load(st, a[0], 8, "p")
            self.ob(B4, "message", st.cl.get("message") is not None and split(m)[0] is split(st.cl["message"])[0], "delivers another message", E, site)
            self.ob(B4, "once", not st.cl.get("told"), "delivers a message twice", E, site)
            st.cl["told"] = 1
            return [("ret", self.fresh(E, st, site, "handled"), st)]
        if q == "virtual":
            if self.locked(args[3]):
                self.use(E, st, site, args[3], "a member function")
            return [("ret", self.fresh(E, st, site, "result"), st)]
        if q == NS + "Timer::start":
            return [("ret", None, st)]
        return None

    def buffers(self, E):
        c = mk("arg", 0, self.f.args[0][2] or "")
        return {mk("init", ptr(c, o)) for o in self.carries}

    def on_branch(self, E, st, site, cond, truth):
        c, t = cond, truth
        while c.k == "not":
            c, t = c.a[0], not t
        e = eqs(cond, truth)
        if e and NULL in e[:2]:
            c, t = (e[0] if e[1] is NULL else e[1]), not e[2]
        if c.k == "res" and "weak_lock" in c.a:
            st.cl["alive"] = t


@prop("I03", "ownership analysis of the captured state of queued and timed work, and path-sensitive typestate of receiver, threads and messages",
      "Every closure queued, timed or run by a thread of an inter-process server or client, and every path of its destructor, of its start and of the delivery of a buffer.")
def connections(ck):
    P = ck.P
    own = [t for c in (SRV, CLI) for t in P.classes.get(c, [])]
    clos, raw = {}, {}
    for f in P.fns.values():
        if f.q in ("std::function::function", "std::thread::thread", "std::function::operator=") and len(f.args) > 1 and f.blocks:
            for x in f.args[1:]:
                y = P.rt(x[0])
                t = P.rt(P.types[y]["to"]) if y >= 0 and P.types[y]["k"] == "ptr" else y
                if t < 0 or P.types[t]["k"] != "class":
                    continue
                n = P.types[t].get("n", "")
                host = [c for c in (SRV, CLI) if c in (P.types[t].get("q", "") or "") or c in f.dem.split("function(")[0]]
                if not host or P.types[t].get("q") in ("std::function", "std::thread"):
                    continue
                (raw if f.q.startswith("std::thread") else clos)[t] = host[0]
    if len(clos) < 3 or not raw:
        raise AnalysisError("only %d pieces of queued and %d of threaded work found" % (len(clos), len(raw)))
    for t, host in sorted(clos.items()):
        bad = refs(P, t, own)
        ty = P.types[t]
        ck.ob(B1, ty.get("q", "").split("(anon")[0].rstrip(":"), not bad, "work that %s queues or times holds %s (%s)" % (host, bad[0][1] if bad else "", bad[0][0] if bad else ""),
              "%s:%s" % (ty.get("file", "").replace("/repo/", ""), ty.get("line")))
    members = {}
    for c in (SRV, CLI):
        for m, o, t, q in layout(ck, c):
            if q == "std::thread":
                members[(c, m)] = o
    # starting
    for f in sorted(P.fns.values(), key=lambda f: f.name):
        if not (f.blocks and P.is_repo(f) and f.q.startswith((SRV + "::", CLI + "::")) and not is_lambda(f)):
            continue
        if not any(i[0] == "call" and i[2] and str(i[2]) in P.fns and P.fns[str(i[2])].q == "std::thread::thread" for b in f.blocks for i in b):
            continue
        r = Threads(ck, f)
        r.members = members
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            if kind == "ret":
                ck.ob(B5, "kept by " + f.q, st.cl.get("loose") is None, "%s starts a thread at line %s that it does not keep" % (f.q, line), where(f, line))
    # ending
    for c, deep in ((SRV, False), (CLI, True)):
        recv = role(ck, c, lambda q, t: q == "std::unique_ptr" and "BufferReceiverIF" in t.get("n", ""), "the receiver")
        for f in ck.fn(c + "::~" + c.split("::")[-1]) + ck.fn(c + "::stop"):
            if "D0" in f.name or "thunk" in f.dem or not f.blocks:
                continue
            r = Ending(ck, f)
            r.members, r.receiver = members, recv
            E, out = ck.run(f, r)
            for kind, val, st, line in out:
                if kind != "ret":
                    continue
                ck.ob(B6, "receiver stopped by " + f.q, st.cl.get("stopped"), "%s ends without stopping its receiver" % f.q, where(f, line))
                for x in members:
                    if x[0] == c:
                        ck.ob(B6, "thread ended by " + f.q, st.cl.get(x[1]) == "over", "%s ends at line %s while its thread may still run" % (f.q, line), where(f, line))
                if c == CLI:
                    ck.ob(B6, "timer stopped by " + f.q, st.cl.get("timer"), "%s ends without stopping its timer" % f.q, where(f, line))
    # delivering
    for c in (SRV, CLI):
        f, = [x for x in ck.fn(c + "::onBytesCome") if "thunk" not in x.dem and x.blocks and not x.name.startswith("_ZThn")]
        r = Come(ck, f)
        r.closures = clos
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            if kind == "ret":
                ck.ob(B3, "handed on by " + f.q, st.cl.get("sent"), "%s drops a buffer" % f.q, where(f, line))
    for t, host in sorted(clos.items()):
        for f in [x for x in P.fns.values() if x.cls == t and x.blocks and x.q.endswith("operator()")]:
            r = Body(ck, f)
            r.carries = [m[1] for m in P.types[t].get("m", []) if isbuf(P, m[2])]
            E, out = ck.run(f, r)
            for kind, val, st, line in out:
                if kind != "ret":
                    continue
                cl = st.cl
                n = f.q.split("::$_")[0]
                if cl.get("alive") is False:
                    ck.ob(B2, "nothing for " + n, not cl.get("used"), "%s goes on for a connection that is gone" % n, where(f, line))
                    continue
                ck.ob(B2, "done for " + n, cl.get("used") or r.carries and cl.get("read") == "bad", "%s does nothing for a connection that is there" % n, where(f, line))
                if r.carries:
                    ck.ob(B4, "read by " + n, cl.get("read"), "%s drops a buffer" % n, where(f, line))
                    ck.ob(B4, "delivered by " + n, bool(cl.get("told")) == (cl.get("read") == "good"), "%s does not deliver a well-formed message" % n, where(f, line))
    for k, m in ((B1, 3), (B2, 4), (B3, 4), (B4, 8), (B5, 2), (B6, 6)):
        ck.need(k, m)
