"""S02 statuses and registrations on the service"""
from .util import *
from .clientserver import *
from .clientserver import NS
from .service import *
from .service import PRV

KS = "a status is stored and announced if it changed, and only then"
KA = "every client registered for an operation, and every listener, gets what is announced"
KB = "a busy client is tried again, an unreachable one's registrations are dropped"
KT = "the status of an announcement tells whether it reached someone it had to"
KM = "what is announced names its service, operation and kind and carries the status"
KR = "a registration is stored under its client and operation before the status is answered"
KU = "only the registrations meant are taken back"
KG = "a client is answered with the status stored for the operation it asked for"
KL = "a listener is connected to its own operation"
PUT = ("push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace")
SPWRITE = re.compile(r"^std::(shared_ptr|__shared_ptr)::(operator=|reset|swap)")


class Stat(Prov):
    """statuses, registrations and announcements of a service"""

    def __init__(self, ck, f):
        Prov.__init__(self, ck, f)
        self.n = f.q.split("::")[-1]
        ar = [mk("arg", i, a[2] or "") for i, a in enumerate(f.args) if i > self.sr]
        self.opa = ar[0] if ar and self.M is None else ptr(self.M, self.F["operationID"]) if self.M is not None else None
        # the status given
        self.pay = None
        for i, a in enumerate(f.args):
            if i > self.sr + 1 and self.pointsto(a[0], "std::shared_ptr"):
                self.pay = mk("init", mk("arg", i, a[2] or ""))
        if self.n == "removeProperty":
            self.pay = NULL

    opcode = Incoming.opcode
    notop = Incoming.notop

    def same(self, E, st, a, b):
        return a is b or E.load(st, a, 8, "p") is E.load(st, b, 8, "p")

    def own(self, E, st, k):
        """k is the operation the call is about"""
        return k is not None and self.opa is not None and self.same(E, st, k, self.opa)

    def client(self, E, st, k):
        """k is the address of the client the message came from"""
        if k is None or self.M is None:
            return False
        return all(self.same(E, st, ptr(k, o - self.F["sourceAddress"]), ptr(self.M, o)) for o in self.addr)

    def iterkey(self, E, st, a):
        """the element an erase removes: by iterator or by key"""
        v = E.load(st, a, 8, "p") if split(a)[0].k == "al" else a
        if v.k == "iter":
            return v
        return None

    # ---- loops: the table of clients (or a copy), lists of addresses
    def walked(self, E, st, cont):
        o = E.origin(st, cont)
        if self.mem(E, o) == "clients":
            return "clients"
        r = split(cont)[0]
        b = dict(st.cl.get("boxes", ()))
        if r in b:
            return b[r]
        if o is not cont and split(o)[0] in b:
            return b[split(o)[0]]
        return None

    def left(self, E, st, site, w, how):
        if w == "clients":
            self.ck.ob(KA, "registered in " + E.stack_repo(), False, "%s %s of the table of clients though it may be registered" % (E.stack_repo(), how), self.at(E, site))
        elif w == "busy":
            self.ck.ob(KB, "again in " + E.stack_repo(), False, "%s %s of the busy clients" % (E.stack_repo(), how), self.at(E, site))
        else:
            self.ck.ob(KA, "sent in " + E.stack_repo(), False, "%s %s of the clients to tell" % (E.stack_repo(), how), self.at(E, site))

    def walk_call(self, E, st, site, q, args):
        m = ITER_CLS.match(q)
        if m and args and m.group(3).startswith("operator++"):
            it = E.load(st, args[0], 8, "p")
            c = E.iter_cont(it)
            w = self.walked(E, st, c) if isinstance(c, V) else None
            if w in ("all", "busy", "clients") and st.cl.get("res"):
                self.settle(E, st, site)
            if w == "clients":
                st.cl.pop("reg", None)
        co = cont_op(E, site, q, args)
        if co and co[1] in ("begin", "cbegin") and self.walked(E, st, co[2]) == "busy":
            st.cl.pop("pend", None)
        Walk.walk_call(self, E, st, site, q, args)

    def settle(self, E, st, site):
        """the client a message was sent to had its turn: what became of it?"""
        v, who, busy = st.cl.pop("res")
        r = st.cl.pop("is", "unknown")
        did = st.cl.pop("did", None)
        loc = self.at(E, site)
        if r == "busy" and not busy:
            self.ck.ob(KB, "kept in " + self.f.q, did == "again", "%s does not keep a busy client to try it again%s" % (self.f.q, ": its registrations are dropped" if did == "drop" else ""), loc)
        elif r == "ok":
            self.ck.ob(KB, "reached in " + self.f.q, did is None, "%s %s a client it has reached" % (self.f.q, "sends twice to" if did == "again" else "drops the registrations of"), loc)
        elif r == "bad":
            self.ck.ob(KB, "dropped in " + self.f.q, did == "drop", "%s keeps the registrations of a client that cannot be reached" % self.f.q, loc)
        elif r == "unknown":
            self.ck.ob(KB, "looked in " + self.f.q, False, "%s does not look what became of a message it sent" % self.f.q, loc)

    def on_branch(self, E, st, site, cond, truth):
        Prov.walk_branch(self, E, st, site, cond, truth)
        c, t = cond, truth
        while c.k == "not":
            c, t = c.a[0], not t
        if c.k == "res" and "equal" in str(c.a[2]):
            st.cl["equal"] = t
        r = sizeof(cond, truth)
        if r is not None:
            w = dict(st.cl.get("boxes", ())).get(split(r[0])[0])
            if w:
                st.cl["empty:" + w] = r[1]
            elif r[0].k == "al" or split(r[0])[0].k == "al":
                st.cl["empty:?"] = r[1]
        e = eqs(cond, truth)
        if not e:
            return
        x, y, t = e
        for a, b in ((x, y), (y, x)):
            if b.k == "c" and any(z.k == "res" and "equal" in str(z.a[2]) for z in leaves(a)):
                st.cl["equal"] = (b.a[0] != 0) == t
            if b.k == "c" and st.cl.get("res") and (a is st.cl["res"][0] or a.k == "cast" and a.a[1] is st.cl["res"][0]):
                for n, k in (("Success", "ok"), ("ReceiverBusy", "busy")):
                    if b.a[0] == self.AS[n]:
                        if t:
                            st.cl["is"] = k
                            if k == "ok":
                                st.cl["reached"] = 1
                        else:
                            s = set(st.cl.get("isnot", ())) | {k}
                            st.cl["isnot"] = frozenset(s)
                            if s >= {"ok", "busy"}:
                                st.cl["is"] = "bad"
                            elif s == {"busy"} or s == {"ok"}:
                                st.cl.setdefault("is", "unknown")
            if a.k == "iter" and b.k == "iter" and {a.a[2], b.a[2]} == {"find", "end"}:
                w = self.mem(E, a.a[0])
                k = a.a[3] if a.a[2] == "find" else b.a[3]
                if w == "listeners" and self.own(E, st, k):
                    if t:
                        st.cl["nolisteners"] = 1
                if w == "props" and self.own(E, st, k):
                    st.cl["noprop"] = t
                if w == "clients" and t and self.client(E, st, k):
                    st.cl["absent"] = 1
                r = split(a.a[0])[0]
                if r.k == "elem" and self.mem(E, r.a[0]) == "clients" and t and self.own(E, st, k) and self.client(E, st, self.key(r)):
                    st.cl["absent"] = 1
                r = split(a.a[0])[0]
                if r.k == "elem" and self.walked(E, st, r.a[0]) == "clients" and self.own(E, st, k):
                    st.cl["reg"] = not t
                    if t:
                        self.turn(st, "clients")
            if b is NULL and t and any(z.k == "res" and z.a[2] == "weak_lock" for z in leaves(a)):
                st.cl["noserver"] = 1
                for w in ("all", "busy"):
                    if "w:" + w in st.cl:
                        # nobody to send for: as good as sent
                        self.turn(st, w)
                        st.cl["res"] = (None, None, w == "busy")
                        st.cl["is"] = "gone"
                        st.cl.pop("did", None)
            elif b is NULL and t:
                for z in leaves(a):
                    if z.k == "elem" and self.mem(E, z.a[0]) == "props" and self.own(E, st, self.key(z)):
                        st.cl["noprop"] = True
                    if z.k == "elem" and self.mem(E, z.a[0]) == "listeners":
                        st.cl["nolisteners"] = 1

    def prop_of(self, E, st, v):
        """v was read from the status stored for the operation"""
        if v.k == "init":
            r = split(v.a[0])[0]
            return r.k == "elem" and self.mem(E, r.a[0]) == "props" and self.own(E, st, self.key(r))
        return False

    def on_unlock(self, E, st, site, m):
        if E.in_member(m, PRV, self.rr["props"]):
            st.cl.pop("fresh", None)

    def wrote(self, E, st, site, k, v):
        loc = self.at(E, site)
        self.ck.ob(KS, "writes in " + self.f.q, self.n == "setStatus", "%s changes a status" % self.f.q, loc)
        self.ck.ob(KS, "operation in " + self.f.q, self.own(E, st, k), "%s stores the status under another operation" % self.f.q, loc)
        self.ck.ob(KS, "value in " + self.f.q, v is self.pay, "%s stores %s" % (self.f.q, E.name(v)), loc)
        self.ck.ob(KS, "compared in " + self.f.q, st.cl.get("fresh") is not None or st.cl.get("noprop") is True, "%s stores a status without having compared it, in the same critical section, with the one stored" % self.f.q, loc)
        self.ck.ob(KS, "order in " + self.f.q, not st.cl.get("heard") and not st.cl.get("sent"), "%s announces a status before it is stored: who registers in between misses it" % self.f.q, loc)
        st.cl["stored"] = 1

    def on_call(self, E, st, site, q, args):
        self.walk_call(E, st, site, q, args)
        loc = self.at(E, site)
        if q == "virtual":
            n = vname(E, args[2])
            if n == "sendMessageToClient":
                return self.send(E, st, site, args)
            if n == "equal":
                K = KS
                a, b = args[3], args[4] if len(args) > 4 else None
                ok = b is not None and ({a, b} >= {self.pay} and any(self.prop_of(E, st, z) for z in (a, b)))
                self.ck.ob(K, "compares in " + self.f.q, ok, "%s compares %s with %s" % (self.f.q, E.name(a), E.name(b) if b is not None else "nothing"), loc)
                v = mk("res", site.ctx, site.idx, "equal", ())
                E.kill_defs(st, None, v)
                st.cl["fresh"] = 1
                return [("ret", v, st)]
            return None
        if q.startswith("maf::signal_slots::") and q.split("::")[-1] in ("notify", "operator()"):
            l = [z for z in leaves(args[0]) if z.k == "elem" and self.mem(E, z.a[0]) == "listeners"]
            K = KA
            self.ck.ob(K, "listeners' operation in " + self.f.q, bool(l) and all(self.own(E, st, self.key(z)) for z in l) or not l and args[0].k == "phi", "%s tells the listeners of another operation" % self.f.q, loc)
            self.ck.ob(K, "listeners' status in " + self.f.q, len(args) > 1 and E.load(st, args[1], 8, "p") is self.pay, "%s tells the listeners something else" % self.f.q, loc)
            self.ck.ob(K, "listeners unlocked in " + self.f.q, not st.locks, "%s runs the listeners holding a lock" % self.f.q, loc)
            self.ck.ob(K, "listeners once in " + self.f.q, not st.cl.get("heard"), "%s tells the listeners twice" % self.f.q, loc)
            st.cl["heard"] = 1
            return [("ret", None, st)]
        if q.startswith("maf::signal_slots::") and q.split("::")[-1].startswith("connect"):
            l = [z for z in leaves(args[1] if callee(E, site) is not None and callee(E, site).args[0][3] else args[0]) if z.k == "elem" and self.mem(E, z.a[0]) == "listeners"]
            lost = [z for x in args if isinstance(x, V) for z in leaves(x) if z.k in ("contof", "phi")]
            ok = (st.cl.get("newlist") or bool(lost) and not st.cl.get("otherlist")) if not l else all(self.own(E, st, self.key(z)) if self.key(z) is not None else not st.cl.get("otherlist") for z in l)
            self.ck.ob(KL, "operation", ok, "%s connects the listener to another operation" % self.f.q, loc)
            st.cl["connected"] = 1
            return None
        if SPWRITE.match(q) and isinstance(args[0], V):
            r = split(args[0])[0]
            if r.k == "elem" and self.mem(E, r.a[0]) == "props":
                v = E.load(st, args[1], 8, "p") if len(args) > 1 and isinstance(args[1], V) else NULL
                self.wrote(E, st, site, self.key(r), v)
            if r.k == "elem" and self.mem(E, r.a[0]) == "listeners":
                self.ck.ob(KL, "kept", st.cl.get("nolisteners"), "%s can replace the listeners already connected" % self.f.q, loc)
                st.cl["newlist"] = self.own(E, st, self.key(r))
        a = emptied(E, st, site, q, args)
        if a is not None and self.mem(E, a) in ("props", "clients"):
            w = self.mem(E, a)
            if self.n in ("deinit", "~ServiceProvider"):
                st.cl["cleared:" + w] = 1
            else:
                self.ck.ob(KU if w == "clients" else KS, "cleared in " + self.f.q, False, "%s drops all %s" % (self.f.q, "registrations" if w == "clients" else "statuses"), loc)
            return None
        co = cont_op(E, site, q, args)
        if not co:
            return None
        c, op, a = co
        w = self.mem(E, a)
        r = split(a)[0]
        if w == "listeners" and op in ("find", "operator[]", "at", "emplace", "try_emplace", "insert", "lower_bound", "emplace_hint") and self.n == "registerNotification":
            if not any(self.own(E, st, x) for x in args[1:] if isinstance(x, V)) and op != "insert":
                st.cl["otherlist"] = 1
        if w == "props":
            if op in ("insert_or_assign",):
                self.wrote(E, st, site, args[1] if args[0] is a else args[2], E.load(st, args[-1], 8, "p"))
            elif op in ("emplace", "try_emplace", "insert"):
                self.ck.ob(KS, "%s in %s" % (op, self.f.q), st.cl.get("noprop") is True, "%s keeps the old status if there is one" % self.f.q, loc)
                if len(args) > 2:
                    self.wrote(E, st, site, args[-2], E.load(st, args[-1], 8, "p"))
            elif op in ("erase", "extract"):
                it = self.iterkey(E, st, args[1])
                self.ck.ob(KS, "erases in " + self.f.q, self.n == "removeProperty" and (self.own(E, st, args[1]) if it is None else it.a[2] == "find" and self.own(E, st, it.a[3])),
                           "%s removes the status of another operation" % self.f.q, loc)
                self.ck.ob(KS, "order in " + self.f.q, not st.cl.get("heard") and not st.cl.get("sent"), "%s announces the removal before it removes: who registers in between gets the old status" % self.f.q, loc)
                st.cl["removed"] = 1
        elif w == "clients":
            if op in ("erase", "extract"):
                it = self.iterkey(E, st, args[1])
                k = args[1] if it is None else it.a[3] if it.a[2] == "find" else None
                res = st.cl.get("res")
                if res:
                    ok = st.cl.get("is") == "gone" or k is not None and (k is res[1] or self.same(E, st, k, res[1]))
                    self.ck.ob(KB, "whose in " + self.f.q, ok, "%s drops the registrations of another client than the one it could not reach" % self.f.q, loc)
                    st.cl["did"] = "drop"
                else:
                    e = mk("elem", a, it) if it is not None else None
                    unused = e is not None and any(x.k == "qry" and split(x.a[1])[0] is e and st.known(icmp("eq", x, NULL)) is True for d in (st.facts, st.eq) for v in d for x in leaves(v))
                    ok = self.M is not None and self.client(E, st, k) and self.opcode(st, "UnregisterServiceStatus")
                    self.ck.ob(KU, "all in " + self.f.q, ok or unused, "%s drops all registrations of a client that %s" % (
                        self.f.q, "did not ask for it" if self.M is not None and self.client(E, st, k) else "is not the one that asked"), loc)
                    if ok:
                        st.cl["gone"] = 1
        elif r.k == "elem" and self.mem(E, r.a[0]) == "clients":
            k = self.key(r)
            if op in ("insert", "emplace"):
                self.ck.ob(KR, "client in " + self.f.q, self.client(E, st, k), "%s registers another client than the one that asked" % self.f.q, loc)
                self.ck.ob(KR, "operation in " + self.f.q, self.own(E, st, args[-1]), "%s registers the client for another operation" % self.f.q, loc)
                self.ck.ob(KR, "asked in " + self.f.q, self.M is not None and self.opcode(st, "StatusRegister", "SignalRegister"), "%s registers a client that did not ask for it" % self.f.q, loc)
                self.ck.ob(KR, "before in " + self.f.q, not st.cl.get("read"), "%s reads the status to answer before the client is registered: a change in between is missed" % self.f.q, loc)
                st.cl["saved"] = 1
            elif op in ("erase", "extract"):
                it = self.iterkey(E, st, args[1])
                self.ck.ob(KU, "client in " + self.f.q, self.client(E, st, k), "%s takes back a registration of another client" % self.f.q, loc)
                self.ck.ob(KU, "operation in " + self.f.q, self.own(E, st, args[1]) if it is None else it.a[2] == "find" and self.own(E, st, it.a[3]), "%s takes back the registration of another operation" % self.f.q, loc)
                self.ck.ob(KU, "asked in " + self.f.q, self.M is not None and self.opcode(st, "Unregister"), "%s takes back a registration on a message that does not ask for it" % self.f.q, loc)
                st.cl["unreg"] = 1
            elif op in ("clear", "swap", "operator=", "merge"):
                self.ck.ob(KU, "set in " + self.f.q, False, "%s takes back all registrations of a client (%s)" % (self.f.q, op), loc)
        elif r.k == "al" and op in PUT and len(args) > 1 and isinstance(args[-1], V) and "Address" in tname(self.ck, self.elemtype(E, site)):
            self.boxed(E, st, site, r, args[-1])
        if w == "props" and op in ("find", "operator[]", "at", "count", "contains") and self.M is not None:
            st.cl["read"] = 1
        return None

    def elemtype(self, E, site):
        f = callee(E, site)
        t = E.argtype(f, 1 if f is not None and f.args and f.args[0][3] else 0) if f is not None else -1
        while t >= 0 and E.p.types[t]["k"] == "ptr":
            t = E.p.rt(E.p.types[t]["to"])
        return t

    def boxed(self, E, st, site, root, a):
        """an address is put into a local list"""
        r = split(a)[0]
        v = E.load(st, a, 8, "p")
        src = [z for z in [r] + list(leaves(v)) if z.k == "elem"]
        b = dict(st.cl.get("boxes", ()))
        for e in src:
            w = self.walked(E, st, e.a[0])
            if w == "clients":
                b[root] = "all"
                self.ck.ob(KA, "only registered in " + self.f.q, st.cl.get("reg"), "%s tells a client that is not registered for the operation" % self.f.q, self.at(E, site))
                st.cl["any"] = 1
                self.turn(st, "clients")
            elif w in ("all", "busy"):
                b[root] = "busy"
                st.cl["did"] = "again"
                if w == "all":
                    st.cl["pend"] = 1
                self.ck.ob(KB, "again in " + self.f.q, st.cl.get("is") == "busy", "%s keeps a client that is not busy to try it again" % self.f.q, self.at(E, site))
        st.cl["boxes"] = tuple(b.items())

    def send(self, E, st, site, args):
        m = E.load(st, args[4], 8, "p")
        to = args[5] if len(args) > 5 else None
        loc = self.at(E, site)
        v = mk("res", site.ctx, site.idx, "status of the send", ())
        E.kill_defs(st, None, v)
        g = lambda n, w=8: E.load(st, ptr(m, self.F[n]), w, "p")
        if self.M is not None:
            K = KG
            self.ck.ob(K, "client in " + self.f.q, to is not None and self.client(E, st, to), "%s answers another client" % self.f.q, loc)
            self.ck.ob(K, "operation in " + self.f.q, m is self.M or self.same(E, st, ptr(m, self.F["operationID"]), self.opa), "%s answers for another operation" % self.f.q, loc)
            if m is not self.M:
                for n in ("requestID", "operationCode"):
                    self.ck.ob(K, n + " in " + self.f.q, g(n) is E.load(st, ptr(self.M, self.F[n]), 8, "p"), "%s answers with another %s" % (self.f.q, n), loc)
            p = g("payload")
            if self.opcode(st, "StatusGet", "StatusRegister") or not self.notop(st, "StatusGet", "StatusRegister"):
                self.ck.ob(K, "status in " + self.f.q, self.prop_of(E, st, p) or p is NULL and st.cl.get("noprop"), "%s answers with %s" % (self.f.q, E.name(p)), loc)
            self.ck.ob(K, "unlocked in " + self.f.q, not st.locks, "%s answers holding a lock" % self.f.q, loc)
            st.cl["sent"] = sat(st.cl.get("sent", 0) + 1)
            return [("ret", v, st)]
        e = [z for z in leaves(to) if z.k == "elem"] if to is not None else []
        w = [x for x in (self.walked(E, st, z.a[0]) for z in e) if x]
        self.ck.ob(KA, "to whom in " + self.f.q, bool(w), "%s sends to %s" % (self.f.q, E.name(to) if to is not None else "nobody"), loc)
        if "clients" in w:
            self.ck.ob(KA, "only registered in " + self.f.q, st.cl.get("reg"), "%s tells a client that is not registered for the operation" % self.f.q, loc)
        self.ck.ob(KA, "unlocked in " + self.f.q, not st.locks, "%s sends holding a lock" % self.f.q, loc)
        x = g("payload")
        self.ck.ob(KM, "status in " + self.f.q, x is self.pay, "%s announces %s" % (self.f.q, E.name(x)), loc)
        self.ck.ob(KM, "operation in " + self.f.q, self.same(E, st, ptr(m, self.F["operationID"]), self.opa), "%s announces another operation" % self.f.q, loc)
        sid = mk("init", ptr(self.this, self.sid()))
        self.ck.ob(KM, "service in " + self.f.q, g("serviceID") is sid, "%s announces for service %s" % (self.f.q, E.name(g("serviceID"))), loc)
        want = {"setStatus": "StatusRegister", "removeProperty": "StatusRegister", "broadcastSignal": "SignalRegister"}.get(self.n)
        c = E.load(st, ptr(m, self.F["operationCode"]), 1, "p")
        if want:
            self.ck.ob(KM, "kind in " + self.f.q, const(st, c) == self.op[want], "%s announces with code %s" % (self.f.q, E.name(c)), loc)
        else:
            self.ck.ob(KM, "kind in " + self.f.q, any(z.k == "arg" for z in leaves(c)), "%s announces with code %s" % (self.f.q, E.name(c)), loc)
        if st.cl.get("res"):
            self.settle(E, st, site)
        busy = "busy" in w
        for x in w:
            self.turn(st, x)
        st.cl["res"] = (v, to, busy)
        st.cl["sent"] = 1
        st.cl["any"] = 1
        for k in ("is", "isnot", "did"):
            st.cl.pop(k, None)
        return [("ret", v, st)]

    def sid(self):
        return [m[1] for m in layout(self.ck, PRV) if m[0] == role(self.ck, PRV, lambda q, t: q in STR, "the service's id")][0]


def sizeof(cond, truth):
    """(container, is it empty) of a branch on a container's size"""
    from .registrations import sizecmp
    s = sizecmp(cond, truth)
    if s is None or s[0].k != "qry":
        return None
    if s[1] == {0}:
        return s[0].a[1], True
    if 0 not in s[1]:
        return s[0].a[1], False
    return None


@prop("S02", "path-sensitive typestate of an announcement and of a registration",
      "The operations on statuses, registrations and announcements of a service, with their helpers inlined; listeners, payload comparison and the server's send are boundaries. "
      "The order in which concurrent changes of one status reach a client is not covered.")
def statuses(ck):
    AS = enum(ck, NS + "ActionCallStatus")
    for n in ("setStatus", "removeProperty", "broadcastSignal", "broadcast"):
        f, = ck.fn(PRV + "::" + n)
        r = Stat(ck, f)
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            cl, loc = st.cl, where(f, line)
            c = const(st, val)
            said = cl.get("heard") or cl.get("nolisteners")
            todo = True
            if n == "setStatus":
                todo = bool(cl.get("stored"))
                if not todo:
                    ck.ob(KS, "unchanged", cl.get("equal") is True, "%s can leave a changed status unstored" % f.q, loc)
                    ck.ob(KS, "no action", c == AS["NoAction"], "%s reports %s for a status that did not change" % (f.q, E.name(val)), loc)
                    ck.ob(KS, "unchanged announced", not cl.get("heard") and not cl.get("sent"), "%s announces a status that did not change" % f.q, loc)
                else:
                    ck.ob(KS, "changed", cl.get("equal") is not True, "%s stores and announces a status that did not change" % f.q, loc)
            if n == "removeProperty":
                ck.ob(KS, "removed", cl.get("removed") or cl.get("noprop"), "%s does not remove the status" % f.q, loc)
                asked = [v for v, t in st.facts.items() if any(z.k == "arg" and z.a[0] == r.sr + 2 for z in leaves(v))]
                flag = mk("arg", r.sr + 2, f.args[r.sr + 2][2] or "")
                t = st.known(flag)
                if t is None:
                    t = next((st.facts[v] for v in asked if v.k in ("cast", "trunc", "bit")), None)
                todo = t is not False
                if t is False:
                    ck.ob(KS, "quiet", not cl.get("heard") and not cl.get("sent"), "%s announces a removal though it shall not" % f.q, loc)
            if not todo:
                continue
            ck.ob(KA, "listeners of " + n, said, "%s can return at line %s without having told the listeners" % (f.q, line), loc)
            done = cl.get("w:clients") == "done"
            ck.ob(KA, "clients of " + n, done, "%s can return at line %s without having looked at every client" % (f.q, line), loc)
            if cl.get("any"):
                ck.ob(KA, "sent by " + n, cl.get("w:all") == "done" or cl.get("w:clients") == "done" and not any(w == "all" for _, w in cl.get("boxes", ())) or cl.get("empty:all") or cl.get("noserver") and cl.get("sent"),
                      "%s can return at line %s without having sent to the clients registered" % (f.q, line), loc)
            if cl.get("pend"):
                ck.ob(KB, "tried by " + n, cl.get("empty:busy"), "%s does not try the busy clients again" % f.q, loc)
            # the status
            if cl.get("reached"):
                ck.ob(KT, "reached in " + n, c == AS["Success"], "%s reports %s though a client was reached" % (f.q, E.name(val)), loc)
            elif cl.get("any"):
                if not cl.get("empty:all"):
                    ck.ob(KT, "missed in " + n, c is not None and c != AS["Success"], "%s reports %s though none of the registered clients was reached" % (f.q, E.name(val)), loc)
            elif cl.get("empty:all") is not False and cl.get("empty:?") is not False:
                ck.ob(KT, "nobody in " + n, c == AS["Success"], "%s reports %s though nobody is registered" % (f.q, E.name(val)), loc)
    f, = ck.fn(PRV + "::onIncomingMessage")
    r = Stat(ck, f)
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind != "ret":
            continue
        cl, loc = st.cl, where(f, line)
        if r.opcode(st, "StatusRegister"):
            ck.ob(KR, "status", cl.get("saved"), "%s does not store the registration for a status" % f.q, loc)
            ck.ob(KG, "latest", cl.get("sent") == 1 or cl.get("noprop") or cl.get("noserver"), "%s does not send the current status to a client that registers for it" % f.q, loc)
        elif r.opcode(st, "SignalRegister"):
            ck.ob(KR, "signal", cl.get("saved"), "%s does not store the registration for a signal" % f.q, loc)
            ck.ob(KG, "no status", not cl.get("sent"), "%s answers a registration for a signal" % f.q, loc)
        elif r.opcode(st, "Unregister"):
            ck.ob(KU, "one", cl.get("unreg") or cl.get("absent"), "%s does not take the registration back" % f.q, loc)
        elif r.opcode(st, "UnregisterServiceStatus"):
            ck.ob(KU, "all", cl.get("gone") or cl.get("absent"), "%s keeps registrations of a client that goes off" % f.q, loc)
        elif r.opcode(st, "StatusGet"):
            ck.ob(KG, "asked", cl.get("sent") == 1 or cl.get("noserver"), "%s does not answer a client that asks for a status" % f.q, loc)
    f, = ck.fn(PRV + "::getStatus")
    r = Stat(ck, f)
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind == "ret":
            v = E.load(st, mk("arg", 0, f.args[0][2] or "sret"), 8, "p")
            ck.ob(KG, "value", r.prop_of(E, st, v) or v is NULL and st.cl.get("noprop"), "%s returns %s instead of the status stored" % (f.q, E.name(v)), where(f, line))
    f, = ck.fn(PRV + "::deinit")
    r = Stat(ck, f)
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind == "ret":
            for w, t in (("clients", "registrations"), ("props", "statuses")):
                ck.ob("a service that goes down keeps neither registrations nor statuses", t, st.cl.get("cleared:" + w), "%s keeps its %s" % (f.q, t), where(f, line))
    f, = ck.fn(PRV + "::registerNotification")
    r = Stat(ck, f)
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind == "ret":
            ck.ob(KL, "connected", st.cl.get("connected"), "%s does not connect the listener" % f.q, where(f, line))
    for k, n in ((KS, 6), (KA, 8), (KB, 3), (KT, 4), (KM, 8), (KR, 4), (KU, 3), (KG, 4), (KL, 2)):
        ck.need(k, n)
