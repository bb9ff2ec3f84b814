"""S01-S03 the service side: requests, statuses and registrations, routing"""
from .util import *
from .clientserver import *
from .clientserver import NS, MSG
from .registrations import only

PRV = NS + "ServiceProvider"
RQ = NS + "Request"


def tname(ck, t):
    return ck.P.types[t].get("n", "") if t >= 0 else ""


def ptable(ck, q, pred, what):
    """the lock-guarded map of class q whose mapped type satisfies pred"""
    def p(n, t):
        if "Lockable" not in n or not t.get("ta"):
            return False
        m = ck.P.types[ck.P.rt(t["ta"][0])]
        ta = [ck.P.rt(x) for x in m.get("ta", [])]
        return m.get("q") in ("std::map", "std::unordered_map") and len(ta) > 1 and pred(tname(ck, ta[0]), tname(ck, ta[1]))
    return role(ck, q, p, what)


def proles(ck):
    if getattr(ck, "prv", None):
        return ck.prv
    r = {}
    for w, pred, what in (("requests", lambda k, v: "messaging::Request>" in v, "the table of pending requests"),
                          ("handlers", lambda k, v: v.startswith("std::function<") and "RequestIF" in v, "the table of request handlers"),
                          ("props", lambda k, v: v.startswith("std::shared_ptr<maf::messaging::CSMsgPayloadIF"), "the table of statuses"),
                          ("listeners", lambda k, v: "signal_slots" in v, "the table of listeners"),
                          ("clients", lambda k, v: "Address" in k and "set<" in v, "the table of registered clients")):
        r[w] = ptable(ck, PRV, pred, what)
    ck.prv = r
    return r


def qroles(ck):
    """members of a request"""
    if getattr(ck, "rqr", None):
        return ck.rqr
    ck.rqr = {
        "msg": role(ck, RQ, lambda q, t: q == "std::shared_ptr", "the message"),
        "stub": role(ck, RQ, lambda q, t: q == "std::weak_ptr", "the link to the service"),
        "abort": role(ck, RQ, lambda q, t: q == "std::function", "the abort callback"),
        "valid": role(ck, RQ, lambda q, t: q in ("bool", "int") or q == "std::atomic" or t.get("n") == "bool", "the validity"),
    }
    return ck.rqr


class Prov(CS):
    """an operation of a service provider"""
    throws = ()

    def __init__(self, ck, f):
        CS.__init__(self, ck, f)
        self.rr, self.qr = proles(ck), qroles(ck)
        self.AS = enum(ck, NS + "ActionCallStatus")
        self.off = {m[0]: m[1] for m in layout(ck, RQ)}
        self.addr = {self.F["sourceAddress"] + m[1] for m in layout(ck, NS + "Address")}
        self.sr = 1 if f.args[0][3] else 0
        self.this = mk("arg", self.sr, f.args[self.sr][2] or "this")
        self.M = None
        for i, a in enumerate(f.args):
            if i > self.sr and self.pointsto(a[0], "std::shared_ptr") and "CSMessage>" in tname(ck, ck.P.rt(ck.P.types[a[0]]["to"])):
                self.M = mk("init", mk("arg", i, a[2] or ""))

    def pointsto(self, t, q):
        return ptrto(self.ck.P, t, q)

    def vpolicy(self, E, tid, slot, targets, args):
        if len(targets) != 1:
            return None
        c = E.p.fns[targets[0]].cls
        # requests are the service's own objects
        if E.p.fns[targets[0]].q.startswith(RQ + "::"):
            return targets
        return targets if selfvirt(E, args) else None

    def mem(self, E, a):
        for w, m in self.rr.items():
            if isinstance(a, V) and E.in_member(a, PRV, m):
                return w
        return None

    def req(self, E, a):
        return self.mem(E, a) == "requests"

    def field2(self, v, src):
        """which part of a message the value was read from, the message being reached from v's root"""
        if v.k != "init":
            return None, None
        r, o = split(v.a[0])
        for n, x in self.F.items():
            if o == x and r.k == "init":
                return n, r
        return None, None

    def reqmsg(self, E, st, v):
        """(element of the pending list, part of the message) for a value read from the message of a pending request"""
        n, m = self.field2(v, None)
        if n is None:
            return None
        r, o = split(m.a[0])
        if o != self.off[self.qr["msg"]] or r.k != "init":
            return None
        x = self.nested(E, st, r.a[0], self.req)
        return (x, n) if x is not None else None

    def msgaddr(self, E, st, a):
        """(element of the pending list, part) for an address in the message of a pending request"""
        r, o = split(a)
        return self.reqmsg(E, st, mk("init", a)) if r.k == "init" else None

    def walked(self, E, st, cont):
        r = split(E.origin(st, cont))[0]
        return "find" if r.k == "elem" and self.req(E, r.a[0]) else None

    def walk_call(self, E, st, site, q, args):
        Walk.walk_call(self, E, st, site, q, args)
        if "parts" in st.cl and ITER_CLS.match(q) and "operator++" in q:
            st.cl.pop("parts")

    def left(self, E, st, site, w, how):
        if w == "find":
            self.ck.ob("every pending request is considered", E.stack_repo(), bool(st.cl.get("m")) or st.cl.get("cmp") is None, "%s %s of the pending requests of the operation" % (E.stack_repo(), how), self.at(E, site))

    def on_unlock(self, E, st, site, m):
        if self.req(E, m) or E.in_member(m, PRV, self.rr["requests"]):
            st.cl.pop("mcs", None)

    def matchpart(self, E, st, e, part):
        """the pending request e agrees with the message in that part"""
        k = self.key(e[0])
        if k is None or not self.is_field(E, st, k, self.M, "operationID"):
            return
        d = dict(st.cl.get("parts", ()))
        s = set(d.get(e[1], ())) | {part}
        st.cl["parts"] = ((e[1], frozenset(s)),)
        if s >= {"requestID"} | self.addr:
            st.cl["m"] = e[1]
            st.cl.pop("parts")
            st.cl["mcs"] = bool(st.locks)

    def on_branch(self, E, st, site, cond, truth):
        self.walk_branch(E, st, site, cond, truth)
        e = eqs(cond, truth)
        if not e:
            if self.M is None:
                return
            # comparison operators of library types
            c, t = cond, truth
            while c.k == "not":
                c, t = c.a[0], not t
            if c.k == "res" and re.search(r"operator(==|!=)$", str(c.a[2])) and len(c.a[3]) == 2:
                if str(c.a[2]).endswith("!="):
                    t = not t
                self.equal(E, st, c.a[3][0], c.a[3][1], t)
            return
        x, y, t = e
        for a, b in ((x, y), (y, x)):
            if self.M is not None:
                self.compared(E, st, a, b, t)
            if a.k == "iter" and b.k == "iter" and {a.a[2], b.a[2]} == {"find", "end"} and self.mem(E, a.a[0]) == "handlers" and t:
                st.cl["nohandler"] = 1
            if b is NULL and t and any(z.k == "res" and z.a[2] == "weak_lock" for z in leaves(a)):
                st.cl["noserver"] = 1
            elif b is NULL and t and a.k in ("init", "phi", "heap", "res"):
                if a.k == "init" and any(z.k == "elem" and self.mem(E, z.a[0]) == "handlers" for z in leaves(a)):
                    st.cl["nohandler"] = 1
                elif st.cl.get("h") and not st.cl.get("handled"):
                    st.cl["nohandler"] = 1
                if E.in_member(a.a[0], RQ, self.qr["abort"]) if a.k == "init" else st.cl.get("acb"):
                    st.cl["noacb"] = 1

    def compared(self, E, st, a, b, t):
        """a part of the message of a pending request is compared with the same part of the message"""
        while a.k == "cast":
            a = a.a[1]
        while b.k == "cast":
            b = b.a[1]
        if a.k != "init" or b.k != "init" or split(b.a[0])[0] is not self.M:
            return
        r, o = split(a.a[0])
        if o != split(b.a[0])[1] or r.k != "init":
            return
        q, d = split(r.a[0])
        if d != self.off[self.qr["msg"]] or q.k != "init":
            return
        n = self.nested(E, st, q.a[0], self.req)
        part = "requestID" if o == self.F["requestID"] else o if o in self.addr else None
        if n is None or part is None:
            return
        self.turn(st, "find")
        st.cl["cmp"] = 1
        if t:
            self.matchpart(E, st, n, part)

    def equal(self, E, st, a, b, t):
        for x, y in ((a, b), (b, a)):
            if y is ptr(self.M, self.F["sourceAddress"]) or self.is_field(E, st, y, self.M, "sourceAddress"):
                m = self.msgaddr(E, st, x)
                if m is not None and m[1] == "sourceAddress":
                    self.turn(st, "find")
                    st.cl["cmp"] = 1
                    if t:
                        for o in self.addr:
                            self.matchpart(E, st, m[0], o)

    def req_of(self, E, st, a):
        """which request object an address lies in: 'm' the matched one, 'new', or its element"""
        r, o = split(a)
        if r.k == "heap":
            return "new"
        if r.k == "init":
            n = self.nested(E, st, r.a[0], self.req)
            if n is not None:
                return "m" if n[1] is st.cl.get("m") else n[1]
            x = [z for z in leaves(r) if z.k == "elem"]
            if x:
                return x[0]
        if r.k == "phi" and st.cl.get("m"):
            return "m"
        return None


class Service(Prov):
    """incoming requests and aborts, answers, teardown"""

    def on_branch(self, E, st, site, cond, truth):
        Prov.on_branch(self, E, st, site, cond, truth)
        c, t = cond, truth
        while c.k == "not":
            c, t = c.a[0], not t
        e = eqs(c, t)
        if e and C(0) in e[:2]:
            c, t = e[0] if e[1] is C(0) else e[1], not e[2]
        if not t and c.k == "init" and E.in_member(c.a[0], RQ, self.qr["valid"]):
            self.invalidated(E, st, c.a[0])
        elif not t and c.k == "res" and ATOMICRES.match(str(c.a[2])) and E.in_member(c.a[3][0], RQ, self.qr["valid"]):
            self.invalidated(E, st, c.a[3][0])

    def on_store(self, E, st, site, addr, v, size, atomic):
        if E.in_member(addr, RQ, self.qr["valid"]) and const(st, v) == 0:
            self.invalidated(E, st, addr)

    def invalidated(self, E, st, addr):
        r = self.req_of(E, st, addr)
        if r == "m":
            st.cl["inv"] = "m"
        elif r != "new":
            st.cl["inv"] = r
            self.turn(st, "drop")

    def walked(self, E, st, cont):
        w = Prov.walked(self, E, st, cont)
        if w and self.f.q.endswith(("deinit", "~ServiceProvider")):
            return "inner"
        return w

    def copied(self, E, st, src, site):
        x = [z for z in leaves(src) if z.k == "elem" and self.mem(E, z.a[0]) == "handlers"]
        if x:
            k = self.key(x[0])
            st.cl["h"] = 1 if k is not None and self.M is not None and self.is_field(E, st, k, self.M, "operationID") else 2
        if E.in_member(src, RQ, self.qr["abort"]):
            r = self.req_of(E, st, src)
            K = "the abort callback of an ended request runs once, whenever it was set"
            self.ck.ob(K, "read in " + self.f.q, st.cl.get("inv") is not None, "%s reads the abort callback before it has invalidated the request: one set in between never runs" % self.f.q, self.at(E, site))
            st.cl["acb"] = "m" if r == "m" else "e" if r is not None else None
            st.cl.pop("noacb", None)
            st.cl.pop("arun", None)

    def on_call(self, E, st, site, q, args):
        self.walk_call(E, st, site, q, args)
        n = self.f.q.split("::")[-1]
        if q in ("std::function::function", "std::function::operator=", "std::function::swap") and len(args) > 1 and isinstance(args[1], V):
            self.copied(E, st, args[1], site)
        if FLAGSTORE.match(q) and E.in_member(args[0], RQ, self.qr["valid"]):
            if "exchange" in q or const(st, args[1]) == 0:
                self.invalidated(E, st, args[0])
        if q == "virtual" and vname(E, args[2]) == "sendMessageToClient":
            return self.send(E, st, site, args)
        a = emptied(E, st, site, q, args)
        if a is not None and self.req(E, a):
            self.ck.ob("an ending request is taken out first", "all in " + self.f.q, n in ("deinit", "~ServiceProvider"), "%s drops every pending request" % self.f.q, self.at(E, site))
            st.cl["emptied"] = 1
            return None
        co = cont_op(E, site, q, args)
        if not co:
            return None
        c, op, a = co
        r = split(a)[0]
        if r.k == "elem" and self.req(E, r.a[0]) and op in ("push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace"):
            v = E.load(st, args[-1], 8, "p")
            k = self.key(r)
            K = "a request is kept, valid and under its operation, before its handler runs"
            self.ck.ob(K, "operation in " + self.f.q, k is not None and self.M is not None and self.is_field(E, st, k, self.M, "operationID"), "%s keeps the request under another operation" % self.f.q, self.at(E, site))
            if v.k == "heap":
                g = lambda m: E.load(st, ptr(v, self.off[self.qr[m]]), 8 if m != "valid" else 1, "p")
                self.ck.ob(K, "message in " + self.f.q, g("msg") is self.M, "%s keeps a request with another message" % self.f.q, self.at(E, site))
                x = g("valid")
                self.ck.ob(K, "valid in " + self.f.q, x.k == "c" and x.a[0] == 1, "%s keeps a request that is not valid" % self.f.q, self.at(E, site))
                x = g("stub")
                self.ck.ob(K, "service in " + self.f.q, not (x is NULL or x.k == "c"), "%s keeps a request that cannot reach its service" % self.f.q, self.at(E, site))
            st.cl["kept"] = v
        elif r.k == "elem" and self.req(E, r.a[0]) and op in ("erase", "pop_front", "pop_back", "clear", "remove", "splice", "operator=", "swap"):
            m = st.cl.get("m")
            it = E.load(st, args[1], 8, "p") if op == "erase" and len(args) > 1 and split(args[1])[0].k == "al" else args[1] if len(args) > 1 else None
            ok = op == "erase" and m is not None and it is m.a[1]
            self.ck.ob("only the request meant is ended", self.f.q, ok, "%s removes a pending request that was not found to have the operation, id and client asked for (%s; path %s)" % (self.f.q, op, E.path()), self.at(E, site))
            self.ck.ob("only the request meant is ended", "one step in " + self.f.q, st.cl.get("mcs"), "%s finds a request and removes it in different critical sections: it can be ended twice" % self.f.q, self.at(E, site))
            st.cl["erased"] = 1
        elif self.req(E, a) and op in ("erase", "extract"):
            k = E.load(st, args[1], 8, "p") if split(args[1])[0].k == "al" else args[1]
            e = mk("elem", a, k)
            empty = [v for d in (st.facts, st.eq) for v in d for x in leaves(v) if x.k == "qry" and split(x.a[1])[0] is e and st.known(icmp("eq", x, NULL)) is True]
            self.ck.ob("only the request meant is ended", "map in " + self.f.q, bool(empty), "%s drops all requests of an operation, though some may be pending" % self.f.q, self.at(E, site))
        return None

    def on_indirect(self, E, st, site, cv, args):
        n = self.f.q.split("::")[-1]
        loc = self.at(E, site)
        if n == "onIncomingMessage" and len(args) > 1 and isinstance(args[1], V):
            K = "a request reaches the handler of its operation, once"
            hs = [z for z in leaves(cv) if z.k == "elem" and self.mem(E, z.a[0]) == "handlers"]
            h = (1 if all(self.key(z) is not None and self.is_field(E, st, self.key(z), self.M, "operationID") for z in hs) else 2) if hs else st.cl.get("h")
            self.ck.ob(K, "operation", h == 1, "%s runs the handler of another operation" % self.f.q, loc)
            self.ck.ob(K, "once", not st.cl.get("handled"), "%s runs a handler more than once for one request" % self.f.q, loc)
            v = E.load(st, args[1], 8, "p")
            self.ck.ob("a request is kept, valid and under its operation, before its handler runs", "kept", st.cl.get("kept") is v or st.cl.get("kept") is not None and v.k == "phi",
                       "%s runs the handler with a request it does not keep: its answer is refused" % self.f.q, loc)
            self.ck.ob(K, "code", self.opcode(st, "Request"), "%s runs a request handler for a message that is no request" % self.f.q, loc)
            st.cl["handled"] = 1
            return [("ret", None, st)]
        K = "the abort callback of an ended request runs once, whenever it was set"
        self.ck.ob(K, "whose in " + self.f.q, st.cl.get("acb") == "m" or st.cl.get("acb") == "e" and n in ("deinit", "~ServiceProvider"), "%s runs the abort callback of a request that did not end" % self.f.q, loc)
        self.ck.ob(K, "once in " + self.f.q, not st.cl.get("arun"), "%s runs the abort callback twice" % self.f.q, loc)
        if n == "onIncomingMessage":
            self.ck.ob(K, "taken out in " + self.f.q, st.cl.get("erased"), "%s runs the abort callback of a request that is still pending" % self.f.q, loc)
        st.cl["arun"] = 1
        return [("ret", None, st)]

    opcode = Incoming.opcode
    notop = Incoming.notop

    def send(self, E, st, site, args):
        m = E.load(st, args[4], 8, "p")
        loc = self.at(E, site)
        n = self.f.q.split("::")[-1]
        K = "an answer goes to the client that asked"
        to = args[5] if len(args) > 5 else None
        ok = to is not None and (to is ptr(m, self.F["sourceAddress"]) or E.load(st, to, 8, "p") is E.load(st, ptr(m, self.F["sourceAddress"]), 8, "p"))
        self.ck.ob(K, "address in " + self.f.q, ok, "%s sends an answer to %s" % (self.f.q, E.name(to) if to is not None else "nobody"), loc)
        self.ck.ob(K, "message in " + self.f.q, m is self.M, "%s sends %s" % (self.f.q, E.name(m)), loc)
        self.ck.ob(K, "unlocked in " + self.f.q, not st.locks, "%s sends holding a lock" % self.f.q, loc)
        p = E.load(st, ptr(self.M, self.F["payload"]), 8, "p")
        if n == "respondToRequest":
            K = "an answer is sent only for its own pending request, which a final one ends before"
            self.ck.ob(K, "found", st.cl.get("m"), "%s sends an answer whose request is not pending: it was answered or aborted" % self.f.q, loc)
            if not self.opcode(st, "PartialRequestUpdate"):
                self.ck.ob(K, "taken out", st.cl.get("erased"), "%s sends a final answer while its request is still pending: it can be answered twice" % self.f.q, loc)
                self.ck.ob(K, "invalidated", st.cl.get("inv") == "m", "%s sends a final answer while its request still counts as valid" % self.f.q, loc)
            if not self.notop(st, "PartialRequestUpdate"):
                self.ck.ob(K, "partial", not st.cl.get("erased") and not st.cl.get("inv"), "%s ends a request though the answer may be a partial one" % self.f.q, loc)
        v = mk("res", site.ctx, site.idx, "status of the send", ())
        E.kill_defs(st, None, v)
        st.cl["sent"] = sat(st.cl.get("sent", 0) + 1)
        st.cl["status"] = v
        st.cl["err"] = p.k == "heap" or p.k == "res"
        return [("ret", v, st)]


S01 = NS


class Drop(Service):
    """all requests are dropped"""

    def walked(self, E, st, cont):
        o = E.origin(st, cont)
        if self.req(E, o):
            return "ops"
        r = split(o)[0]
        if r.k == "elem" and (self.req(E, r.a[0]) or self.req(E, E.origin(st, r.a[0]))):
            return "drop"
        return None

    def walk_branch(self, E, st, site, cond, truth):
        Service.walk_branch(self, E, st, site, cond, truth)
        if st.cl.get("w:drop") == "done":
            st.cl.pop("w:drop")
            st.cl.pop("c", None)
            self.turn(st, "ops")

    def left(self, E, st, site, w, how):
        self.ck.ob("a service that goes down ends every pending request", E.stack_repo(), False, "%s %s of the pending requests" % (E.stack_repo(), how), self.at(E, site))

    def turn(self, st, w):
        # a request had its turn when it is invalid and its callback ran or there is none
        if w == "drop":
            return
        st.cl["t:" + w] = 1

    def walk_call(self, E, st, site, q, args):
        m = ITER_CLS.match(q)
        if m and args and m.group(3).startswith("operator++"):
            it = E.load(st, args[0], 8, "p")
            c = E.iter_cont(it)
            if isinstance(c, V) and self.walked(E, st, c) == "drop":
                if st.cl.get("inv") is not None and (st.cl.get("arun") or st.cl.get("noacb")):
                    st.cl["t:drop"] = 1
                for k in ("inv", "arun", "noacb", "acb"):
                    st.cl.pop(k, None)
        co = cont_op(E, site, q, args)
        if co and co[1] in ("begin", "cbegin") and self.walked(E, st, co[2]) == "drop":
            st.cl["c"] = co[2]
        Service.walk_call(self, E, st, site, q, args)


class Own(Prov):
    """operations of one request"""
    throws = ()

    def __init__(self, ck, f):
        Prov.__init__(self, ck, f)
        self.new = [mk("arg", i, a[2] or "") for i, a in enumerate(f.args) if i > self.sr]

    def walked(self, E, st, cont):
        return None

    def vpolicy(self, E, tid, slot, targets, args):
        return targets if selfvirt(E, args) and len(targets) == 1 else None

    def on_lock(self, E, st, site, m, mode):
        st.cl["lk"] = sat(st.cl.get("lk", 0) + 1, 3)
        st.cl.pop("v", None)

    def on_unlock(self, E, st, site, m):
        if "v" in st.cl:
            st.cl["was"] = st.cl.pop("v")

    def on_branch(self, E, st, site, cond, truth):
        c, t = cond, truth
        while c.k == "not":
            c, t = c.a[0], not t
        e = eqs(cond, truth)
        if e:
            x, y, tt = e
            for a, b in ((x, y), (y, x)):
                if b.k == "c" and self.flagval(E, a):
                    c, t = a, (b.a[0] != 0) == tt
                if b is NULL and any(z.k == "res" and z.a[2] == "weak_lock" for z in leaves(a)):
                    st.cl["gone"] = tt
                if b is NULL and tt and a.k == "init" and split(a.a[0])[0].k == "arg" and len(self.new) and split(a.a[0])[0] is self.new[0]:
                    st.cl["nullcb"] = 1
        if self.flagval(E, c):
            st.cl["v"] = t

    def flagval(self, E, v):
        if v.k == "init" and E.in_member(v.a[0], RQ, self.qr["valid"]):
            return True
        return v.k == "res" and ATOMICRES.match(str(v.a[2])) and E.in_member(v.a[3][0], RQ, self.qr["valid"])

    def known(self, st):
        return st.cl.get("v", st.cl.get("was"))

    def on_store(self, E, st, site, addr, v, size, atomic):
        if E.in_member(addr, RQ, self.qr["valid"]):
            self.setv(E, st, site, v)

    def setv(self, E, st, site, v):
        self.ck.ob("a request never becomes valid again", self.f.q, const(st, v) == 0, "%s stores %s as validity" % (self.f.q, E.name(v)), self.at(E, site))
        st.cl["inval"] = 1

    def on_call(self, E, st, site, q, args):
        if FLAGSTORE.match(q) and E.in_member(args[0], RQ, self.qr["valid"]):
            self.setv(E, st, site, args[1])
            if "exchange" in q:
                v = mk("res", site.ctx, site.idx, q, (args[0],))
                E.kill_defs(st, None, v)
                return [("ret", v, st)]
        if q in ("std::function::operator=", "std::function::swap", "std::function::function", "std::swap") and len(args) > 1 and isinstance(args[1], V):
            for d, s in ((args[0], args[1]), (args[1], args[0])):
                if E.in_member(d, RQ, self.qr["abort"]) and split(s)[0].k in ("arg", "al", "init"):
                    K = "an abort callback is stored while the request is valid, and run at once after"
                    self.ck.ob(K, "stored", st.cl.get("v") is True and bool(st.locks), "%s stores the abort callback of a request that may have ended: it never runs" % self.f.q, self.at(E, site))
                    self.ck.ob(K, "stored once", not st.cl.get("ran"), "%s stores an abort callback that already ran" % self.f.q, self.at(E, site))
                    st.cl["stored"] = 1
        if q == "virtual" and vname(E, args[2]) == "respondToRequest":
            K = "an answer given is passed on as it is, only while the request is valid"
            loc = self.at(E, site)
            m = E.load(st, args[4], 8, "p")
            g = lambda n, w=8: E.load(st, ptr(m, self.F[n]), w, "p")
            self.ck.ob(K, "valid in " + self.f.q, self.known(st) is True, "%s passes on an answer though the request may have ended" % self.f.q, loc)
            self.ck.ob(K, "unlocked in " + self.f.q, not st.locks, "%s passes on an answer holding the request's lock" % self.f.q, loc)
            old = mk("init", ptr(self.this, self.off[self.qr["msg"]]))
            self.ck.ob(K, "copy in " + self.f.q, m.k == "heap", "%s answers with the request's own message: the next answer changes one being sent" % self.f.q, loc)
            a = self.new[0] if self.new else None
            self.ck.ob(K, "payload in " + self.f.q, a is not None and g("payload") is E.load(st, a, 8, "p"), "%s passes on %s instead of the answer given" % (self.f.q, E.name(g("payload"))), loc)
            c = g("operationCode", 1)
            want = {"respond": self.op["Request"], "update": self.op["PartialRequestUpdate"]}.get(self.f.q.split("::")[-1])
            self.ck.ob(K, "kind in " + self.f.q, want is None and (c is self.new[1] or True) or c.k == "c" and c.a[0] == want, "%s passes on an answer of kind %s" % (self.f.q, E.name(c)), loc)
            for p in ("operationID", "requestID", "sourceAddress", "serviceID"):
                v = g(p)
                self.ck.ob(K, "%s in %s" % (p, self.f.q), any(x is old for x in leaves(v)), "%s passes on an answer with another %s (%s)" % (self.f.q, p, E.name(v)), loc)
            v = mk("res", site.ctx, site.idx, "status of the answer", ())
            E.kill_defs(st, None, v)
            st.cl["sent"] = sat(st.cl.get("sent", 0) + 1)
            st.cl["status"] = v
            return [("ret", v, st)]
        return None

    def on_indirect(self, E, st, site, cv, args):
        K = "an abort callback is stored while the request is valid, and run at once after"
        self.ck.ob(K, "run", self.known(st) is False, "%s runs the abort callback though the request has not ended" % self.f.q, self.at(E, site))
        self.ck.ob(K, "run once", not st.cl.get("ran") and not st.cl.get("stored"), "%s runs the abort callback twice" % self.f.q, self.at(E, site))
        st.cl["ran"] = 1
        return [("ret", None, st)]


@prop("S01", "path-sensitive typestate of each request a service gets, from its arrival to its end",
      "ServiceProvider's and Request's operations with their helpers inlined; handlers, abort callbacks and the server's send are boundaries that may do anything. "
      "A request that arrives while the service is being torn down is not covered.")
def requests(ck):
    P = ck.P
    AS = enum(ck, NS + "ActionCallStatus")
    f, = ck.fn(PRV + "::onIncomingMessage")
    r = Service(ck, f)
    E, out = ck.run(f, r)
    K1 = "a request reaches the handler of its operation, once"
    KA = "the abort callback of an ended request runs once, whenever it was set"
    for kind, val, st, line in out:
        if kind != "ret":
            continue
        cl, loc = st.cl, where(f, line)
        if r.opcode(st, "Request"):
            if cl.get("handled"):
                ck.ob(K1, "handled")
            else:
                ck.ob(K1, "no handler", cl.get("nohandler"), "%s can drop a request although a handler is registered" % f.q, loc)
                ck.ob(K1, "refused", cl.get("sent") and cl.get("err") or cl.get("noserver"), "%s leaves a client whose request has no handler without an answer" % f.q, loc)
        else:
            ck.ob(K1, "others", not cl.get("kept"), "%s keeps a message that is no request among the pending requests" % f.q, loc)
        if r.opcode(st, "Abort"):
            ck.ob("an abort ends its request", "looked up", cl.get("cmp") or cl.get("w:find") == "done" or "w:find" not in cl, "%s does not look for the request to abort" % f.q, loc)
            if cl.get("m"):
                ck.ob("an abort ends its request", "taken out", cl.get("erased"), "%s keeps a request that was aborted" % f.q, loc)
                ck.ob("an abort ends its request", "invalidated", cl.get("inv") == "m", "%s does not invalidate a request that was aborted: it can still be answered" % f.q, loc)
                ck.ob(KA, "ran in " + f.q, cl.get("arun") or cl.get("noacb"), "%s does not run the abort callback of an aborted request" % f.q, loc)
        else:
            ck.ob("an abort ends its request", "others", not cl.get("erased") and not cl.get("inv"), "%s ends a request on a message that is no abort" % f.q, loc)
    f, = ck.fn(PRV + "::respondToRequest")
    r = Service(ck, f)
    E, out = ck.run(f, r)
    K2 = "the answer's status is the truth"
    for kind, val, st, line in out:
        if kind != "ret":
            continue
        cl, loc = st.cl, where(f, line)
        if cl.get("m"):
            ck.ob(K2, "sent", cl.get("sent") == 1 or cl.get("noserver"), "%s does not send an answer though its request is pending (line %s)" % (f.q, line), loc)
        c = const(st, val)
        if cl.get("sent"):
            ck.ob(K2, "status", val is cl["status"] or val.k == "phi" and cl["status"] in leaves(val), "%s reports %s for an answer it sent" % (f.q, E.name(val)), loc)
        else:
            ck.ob(K2, "refused", c is not None and c != AS["Success"], "%s reports %s for an answer it did not send" % (f.q, E.name(val)), loc)
    f, = ck.fn(PRV + "::deinit")
    r = Drop(ck, f)
    E, out = ck.run(f, r)
    K3 = "a service that goes down ends every pending request"
    for kind, val, st, line in out:
        if kind == "ret":
            ck.ob(K3, "taken out", st.cl.get("emptied"), "%s keeps its pending requests" % f.q, where(f, line))
            ck.ob(K3, "all", st.cl.get("w:ops") == "done", "%s can end without having ended every pending request" % f.q, where(f, line))
    # the request itself
    K4 = "an answer given is passed on as it is, only while the request is valid"
    for n in ("respond", "update"):
        f, = ck.fn(RQ + "::" + n)
        r = Own(ck, f)
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            cl, loc = st.cl, where(f, line)
            c = const(st, val)
            if cl.get("sent"):
                ck.ob(K4, "status of " + f.q, val is cl["status"] and cl["sent"] == 1, "%s reports %s for an answer it passed on" % (f.q, E.name(val)), loc)
            else:
                ck.ob(K4, "refusal of " + f.q, c is not None and c != AS["Success"], "%s reports %s for an answer it did not pass on" % (f.q, E.name(val)), loc)
                ck.ob(K4, "dropped by " + f.q, r.known(st) is False or cl.get("gone"), "%s can drop an answer of a valid request" % f.q, loc)
    f, = ck.fn(RQ + "::onAborted")
    r = Own(ck, f)
    E, out = ck.run(f, r)
    K5 = "an abort callback is stored while the request is valid, and run at once after"
    for kind, val, st, line in out:
        if kind == "ret":
            cl = st.cl
            v = r.known(st)
            ck.ob(K5, "looked", v is not None, "%s does not look whether the request has ended" % f.q, where(f, line))
            ck.ob(K5, "kept", v is not True or cl.get("stored"), "%s loses the abort callback of a valid request" % f.q, where(f, line))
            ck.ob(K5, "ran", v is not False or cl.get("ran") or cl.get("nullcb"), "%s does not run the callback of a request that has ended" % f.q, where(f, line))
    f, = ck.fn(RQ + "::invalidate")
    r = Own(ck, f)
    E, out = ck.run(f, r)
    K6 = "invalidating ends the request and tells whether it did"
    for kind, val, st, line in out:
        if kind == "ret":
            v = r.known(st)
            if val is not None and r.flagval(E, val):
                ck.ob(K6, "told")
                ck.ob(K6, "ended", st.cl.get("inval") or v is False, "%s does not end the request" % f.q, where(f, line))
                continue
            ck.ob(K6, "ended", st.cl.get("inval") or v is False, "%s does not end a valid request" % f.q, where(f, line))
            ck.ob(K6, "told", v is not None and const(st, val) == (1 if v else 0), "%s tells %s" % (f.q, E.name(val)), where(f, line))
    handlers(ck)
    for k, n in ((K1, 4), (KA, 5), (K2, 2), (K3, 2), (K4, 10), (K5, 5), (K6, 2), ("only the request meant is ended", 2), ("a request is kept, valid and under its operation, before its handler runs", 5),
                 ("an abort ends its request", 3), ("an answer is sent only for its own pending request, which a final one ends before", 4)):
        ck.need(k, n)


class Handlers(Prov):
    def on_call(self, E, st, site, q, args):
        co = cont_op(E, site, q, args)
        if co and self.mem(E, co[2]) == "handlers":
            op = co[1]
            loc = self.at(E, site)
            K = "a handler is registered once per operation, and never an empty one"
            op_arg = mk("arg", self.sr + 1, self.f.args[self.sr + 1][2] or "")
            reg = self.f.q.endswith("::registerRequestHandler")
            if op in ("try_emplace", "emplace", "insert", "insert_or_assign", "operator[]"):
                self.ck.ob(K, "insert in " + self.f.q, reg, "%s adds a handler" % self.f.q, loc)
                self.ck.ob(K, "replaced by " + self.f.q, op in ("try_emplace", "emplace", "insert") or st.cl.get("absent"), "%s replaces the handler already registered" % self.f.q, loc)
                if op in ("try_emplace", "emplace"):
                    i = 2 if args[0] is not co[2] else 1
                    self.ck.ob(K, "operation in " + self.f.q, args[i] is op_arg or E.load(st, args[i], 8, "p") is E.load(st, op_arg, 8, "p"), "%s registers the handler for another operation" % self.f.q, loc)
                self.ck.ob(K, "empty in " + self.f.q, st.cl.get("full"), "%s may register an empty handler" % self.f.q, loc)
                st.cl["put"] = 1
            if op in ("erase", "extract", "clear"):
                self.ck.ob(K, "erase in " + self.f.q, not reg and op == "erase" and (args[1] is op_arg or args[1].k == "iter" or E.load(st, args[1], 8, "p") is E.load(st, op_arg, 8, "p")),
                           "%s removes the handler of another operation" % self.f.q, loc)
                st.cl["gone"] = 1
        return None

    def on_branch(self, E, st, site, cond, truth):
        e = eqs(cond, truth)
        if not e:
            return
        x, y, t = e
        for a, b in ((x, y), (y, x)):
            if b is NULL and not t and a.k == "init" and split(a.a[0])[0].k in ("arg", "init"):
                st.cl["full"] = 1
            if a.k == "iter" and b.k == "iter" and {a.a[2], b.a[2]} == {"find", "end"} and self.mem(E, a.a[0]) == "handlers":
                st.cl["absent" if t else "present"] = 1


def handlers(ck):
    K = "a handler is registered once per operation, and never an empty one"
    for n in ("registerRequestHandler", "unregisterRequestHandler"):
        f, = ck.fn(PRV + "::" + n)
        r = Handlers(ck, f)
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            c = const(st, val)
            cl = st.cl
            if not cl.get("put") and not cl.get("gone"):
                ck.ob(K, "told by " + f.q, c == 0, "%s reports success though it did nothing" % f.q, where(f, line))
            elif cl.get("put") and not cl.get("absent"):
                ck.ob(K, "truth of " + f.q, c is None and any(x.k in ("res", "init") for x in leaves(val)), "%s reports %s whether or not the operation had a handler" % (f.q, E.name(val)), where(f, line))
    ck.need(K, 5)
