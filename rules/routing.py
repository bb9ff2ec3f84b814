"""S03 routing: one provider, requester or connection per id, and messages reach the one they name"""
from .util import *
from .clientserver import *
from .clientserver import NS, MSG
from .service import tname, PRV
from .registrations import tables, CB
from .status import SPWRITE
from .processor import is_lambda

SB = NS + "ServerBase"
K1 = "there is one per id, created in the step that finds it missing"
K2 = "what is handed out is the one that is kept"
K3 = "a message reaches the one it names, as it is, and nobody else"
K4 = "a connection is kept only if it could be set up, and is started"
K5 = "a new requester knows the status its service has"
INS = ("emplace", "try_emplace", "insert", "insert_or_assign")


def ltable(ck, q, elem):
    return role(ck, q, lambda n, t: "Lockable" in n and t.get("ta") and elem in tname(ck, ck.P.rt(t["ta"][0])), "the table of " + elem)


class Table(CS):
    elem = None

    """a function that works on a table kept in member m of class c"""

    def __init__(self, ck, f, c, m, what):
        CS.__init__(self, ck, f)
        self.c, self.m, self.what = c, m, what
        self.sr = 1 if f.args[0][3] else 0
        self.this = mk("arg", self.sr, f.args[self.sr][2] or "this")
        self.keys = [mk("arg", i, a[2] or "") for i, a in enumerate(f.args) if i > self.sr]
        self.msg = None

    def table(self, E, a):
        return isinstance(a, V) and E.in_member(a, self.c, self.m)

    def path(self, E, st, a):
        """keys by which a container inside the table was reached"""
        a = E.origin(st, a)
        if self.table(E, a):
            return ()
        r = split(a)[0]
        if r.k == "elem":
            p = self.path(E, st, r.a[0])
            return None if p is None else p + (self.key(r),)
        return None

    def same(self, E, st, a, b):
        return a is b or a is not None and E.load(st, a, 8, "p") is E.load(st, b, 8, "p")

    def own(self, E, st, p):
        """True if these are the keys asked for (or the first of them)"""
        return p is not None and len(p) <= len(self.keys) and all(self.same(E, st, k, x) for k, x in zip(p, self.keys))

    def full(self, E, st, p):
        return self.own(E, st, p) and len(p) == len(self.keys)

    def entry(self, E, st, v):
        """keys of the entry the value was read from"""
        r = None
        for x in leaves(v):
            if x.k == "elem":
                p = self.path(E, st, x)
                if p is not None and (r is None or len(p) > len(r)):
                    r = p
        return r

    def on_unlock(self, E, st, site, m):
        if E.in_member(m, self.c, self.m):
            st.cl.pop("absent", None)

    def on_branch(self, E, st, site, cond, truth):
        c, t = cond, truth
        while c.k in ("not", "cast"):
            c, t = (c.a[0], not t) if c.k == "not" else (c.a[1], t)
        if c.k == "field" and c.a[1] == 1 and c.a[0].k == "res" and c.a[0].a[2].endswith("try_emplace"):
            # made by the insertion: it was missing
            p = self.path(E, st, c.a[0].a[3][0])
            if p is not None and self.own(E, st, p + (c.a[0].a[3][1],)):
                if t:
                    self.absent(E, st)
                elif self.full(E, st, p + (c.a[0].a[3][1],)):
                    st.cl["there"] = 1
        e = eqs(cond, truth)
        if not e:
            return
        x, y, t = e
        for a, b in ((x, y), (y, x)):
            if a.k == "iter" and b.k == "iter" and {a.a[2], b.a[2]} == {"find", "end"}:
                p = self.path(E, st, a.a[0])
                if p is not None:
                    k = a.a[3] if a.a[2] == "find" else b.a[3]
                    if t and self.own(E, st, p + (k,)):
                        self.absent(E, st)
                    if not t and self.full(E, st, p + (k,)):
                        st.cl["there"] = 1
            if b is NULL and t:
                p = self.entry(E, st, a)
                if p is not None and self.full(E, st, p):
                    self.absent(E, st)

    def absent(self, E, st):
        st.cl["missing"] = 1
        if any(E.in_member(l[0], self.c, self.m) for l in st.locks):
            st.cl["absent"] = 1

    def wrote(self, E, st, site, p, v):
        loc = self.at(E, site)
        self.ck.ob(K1, "key in " + self.f.q, self.full(E, st, p), "%s keeps %s under another id" % (self.f.q, self.what), loc)
        self.ck.ob(K1, "missing in " + self.f.q, st.cl.get("absent"), "%s keeps another %s though there may be one already: it was not found missing in the same critical section" % (self.f.q, self.what), loc)
        self.ck.ob(K1, "once in " + self.f.q, not st.cl.get("put"), "%s creates two" % self.f.q, loc)
        st.cl["put"] = v
        st.cl.pop("absent", None)

    def on_call(self, E, st, site, q, args):
        if SPWRITE.match(q) and isinstance(args[0], V) and split(args[0])[0].k == "elem":
            p = self.path(E, st, split(args[0])[0])
            if p is not None:
                v = E.load(st, args[1], 8, "p") if len(args) > 1 and isinstance(args[1], V) else NULL
                self.wrote(E, st, site, p, v)
        co = cont_op(E, site, q, args)
        if co:
            c, op, a = co
            p = self.path(E, st, a)
            if p is not None:
                if op == "insert" and len(args) == 2 and self.elem:
                    k, x = self.pair(self.elem)
                    self.wrote(E, st, site, p + (ptr(args[1], k),), E.load(st, ptr(args[1], x), 8, "p"))
                elif op in INS and len(args) > 2 and split(args[-1])[0].k != "iter":
                    k, x = args[-2], E.load(st, args[-1], 8, "p")
                    self.wrote(E, st, site, p + (k,), x)
                elif op in ("erase", "extract", "clear", "swap", "operator=", "merge"):
                    self.ck.ob(K1, "kept in " + self.f.q, False, "%s removes %s (%s)" % (self.f.q, self.what, op), self.at(E, site))
        return self.boundary(E, st, site, q, args)

    def pair(self, elem):
        """where key and value are in an element of a map to shared pointers"""
        P = self.ck.P
        for t in (P.types[i] for i in P.classes.get("std::pair", [])):
            m = {x[0]: x for x in t.get("m", ())}
            if "second" in m and len(t.get("ta", ())) == 2 and elem in tname(self.ck, P.rt(t["ta"][1])) and tname(self.ck, P.rt(t["ta"][1])).startswith("std::shared_ptr"):
                return m["first"][1], m["second"][1]

    def boundary(self, E, st, site, q, args):
        return None

    def returned(self, E, st, line, null=False):
        loc = where(self.f, line)
        v = E.load(st, mk("arg", 0, self.f.args[0][2] or "sret"), 8, "p")
        put = st.cl.get("put")
        p = self.entry(E, st, v)
        if put is not None:
            self.ck.ob(K2, "created in " + self.f.q, v is put or p is not None and (self.full(E, st, p) or p[-1] is None), "%s hands out %s, not the %s it keeps" % (self.f.q, E.name(v), self.what), loc)
        elif v is NULL or v.k == "c" or st.known(v) is False:
            self.ck.ob(K2, "none from " + self.f.q, null and st.cl.get("missing"), "%s hands out nothing though there is %s" % (self.f.q, self.what), loc)
        else:
            self.ck.ob(K2, "found in " + self.f.q, p is not None and (self.full(E, st, p) or None in p), "%s hands out %s, which is not kept" % (self.f.q, E.name(v)), loc)


class Provider(Table):
    elem = "ServiceProviderIF"

    def wrote(self, E, st, site, p, v):
        Table.wrote(self, E, st, site, p, v)
        off = [m[1] for m in layout(self.ck, PRV) if m[0] == role(self.ck, PRV, lambda q, t: q in STR, "the service's id")][0]
        srv = [m[1] for m in layout(self.ck, PRV) if m[0] == role(self.ck, PRV, lambda q, t: q == "std::weak_ptr" and "ServerIF" in t.get("n", ""), "the server")][0]
        if v.k == "heap":
            loc = self.at(E, site)
            self.ck.ob(K1, "id of " + self.f.q, self.same(E, st, ptr(v, off), self.keys[0]), "%s creates a service with another id" % self.f.q, loc)
            s = E.load(st, ptr(v, srv), 8, "p")
            self.ck.ob(K1, "server of " + self.f.q, any(x is self.this for x in leaves(s)), "%s creates a service that does not belong to the server" % self.f.q, loc)


class Requester(Table):
    elem = "ServiceRequesterIF"

    def __init__(self, ck, f):
        self.req, self.sta = tables(ck)
        Table.__init__(self, ck, f, CB, self.req, "the requester of a service")

    def on_branch(self, E, st, site, cond, truth):
        Table.on_branch(self, E, st, site, cond, truth)
        e = eqs(cond, truth)
        if e and e[0].k == "iter" and e[1].k == "iter" and {e[0].a[2], e[1].a[2]} == {"find", "end"} and E.in_member(e[0].a[0], CB, self.sta):
            k = e[0].a[3] if e[0].a[2] == "find" else e[1].a[3]
            if self.same(E, st, k, self.keys[0]):
                st.cl["status"] = "none" if e[2] else "known"

    def on_unlock(self, E, st, site, m):
        Table.on_unlock(self, E, st, site, m)
        if E.in_member(m, CB, self.m) and not st.cl.get("put"):
            st.cl.pop("status", None)
            st.cl.pop("told", None)

    def boundary(self, E, st, site, q, args):
        n = vname(E, args[2]) if q == "virtual" else q.split("::")[-1]
        o = args[3] if q == "virtual" else args[0] if args else None
        co = cont_op(E, site, q, args)
        if co and co[1] == "find" and E.in_member(co[2], CB, self.sta):
            st.cl["looked"] = 1
        if n == "onServiceStatusChanged" and isinstance(o, V) and split(o)[0].k == "heap":
            a = args[4:] if q == "virtual" else args[1:]
            loc = self.at(E, site)
            self.ck.ob(K5, "service", self.same(E, st, a[0], self.keys[0]) or self.entry2(E, st, a[0]), "%s tells the new requester the status of another service" % self.f.q, loc)
            v = a[2]
            ok = v.k == "init" and split(v.a[0])[0].k == "elem" and E.in_member(split(v.a[0])[0].a[0], CB, self.sta) and self.same(E, st, self.key(split(v.a[0])[0]), self.keys[0])
            self.ck.ob(K5, "status", ok, "%s tells the new requester %s, not the status stored" % (self.f.q, E.name(v)), loc)
            st.cl["told"] = 1
            return [("ret", None, st)]
        if n == "init" and isinstance(o, V) and split(o)[0].k == "heap":
            return [("ret", None, st)]
        return None

    def entry2(self, E, st, a):
        r = split(a)[0]
        return r.k == "elem" and E.in_member(r.a[0], CB, self.sta) and self.same(E, st, self.key(r), self.keys[0])

    def wrote(self, E, st, site, p, v):
        Table.wrote(self, E, st, site, p, v)
        if v.k == "heap":
            off = [m[1] for m in layout(self.ck, REQ) if m[0] == role(self.ck, REQ, lambda q, t: q in STR, "the service's id")][0]
            self.ck.ob(K1, "id of " + self.f.q, self.same(E, st, ptr(v, off), self.keys[0]), "%s creates a requester of another service" % self.f.q, self.at(E, site))


class Conn(Table):
    """connections of a factory"""

    def boundary(self, E, st, site, q, args):
        if q == "virtual":
            n, o, a = vname(E, args[2]), args[3], args[4:]
            loc = self.at(E, site)
            if n == "init":
                self.ck.ob(K4, "address in " + self.f.q, bool(a) and self.same(E, st, a[0], self.keys[-1]), "%s sets the connection up for another address" % self.f.q, loc)
                v = mk("res", site.ctx, site.idx, "set up", ())
                E.kill_defs(st, None, v)
                st.cl["init"] = o
                return [("ret", v, st)]
            if n == "start":
                self.ck.ob(K4, "start in " + self.f.q, st.cl.get("up") is not None and not st.cl.get("started"), "%s starts a connection that %s" % (self.f.q, "was started already" if st.cl.get("started") else "was not set up"), loc)
                st.cl["started"] = 1
                v = mk("res", site.ctx, site.idx, "started", ())
                E.kill_defs(st, None, v)
                return [("ret", v, st)]
        return None

    def on_branch(self, E, st, site, cond, truth):
        Table.on_branch(self, E, st, site, cond, truth)
        c, t = cond, truth
        while c.k == "not":
            c, t = c.a[0], not t
        if c.k == "res" and c.a[2] == "set up":
            if t:
                st.cl["up"] = st.cl.get("init")

    def wrote(self, E, st, site, p, v):
        Table.wrote(self, E, st, site, p, v)
        self.ck.ob(K4, "kept in " + self.f.q, st.cl.get("up") is not None and (v is st.cl["up"] or v.k == "phi"), "%s keeps a connection that could not be set up" % self.f.q, self.at(E, site))


class Route(Table):
    """an incoming message is passed on"""

    def __init__(self, ck, f, c, m, what):
        Table.__init__(self, ck, f, c, m, what)
        self.M = mk("init", mk("arg", 1, f.args[1][2] or ""))
        self.keys = [ptr(self.M, self.F["serviceID"])]

    def boundary(self, E, st, site, q, args):
        if q == "virtual" and vname(E, args[2]) == "onIncomingMessage":
            o = args[3]
            p = self.entry(E, st, o)
            loc = self.at(E, site)
            self.ck.ob(K3, "whom in " + self.f.q, p is not None and self.full(E, st, p) or p is None and o.k == "phi" and st.cl.get("there"), "%s passes a message to %s, which is not %s it names" % (self.f.q, E.name(o), self.what), loc)
            self.ck.ob(K3, "message in " + self.f.q, E.load(st, args[4], 8, "p") is self.M, "%s passes on another message" % self.f.q, loc)
            self.ck.ob(K3, "as it is in " + self.f.q, not st.cl.get("changed"), "%s changes the message it passes on" % self.f.q, loc)
            self.ck.ob(K3, "once in " + self.f.q, not st.cl.get("passed"), "%s passes a message on twice" % self.f.q, loc)
            self.ck.ob(K3, "unlocked in " + self.f.q, not st.locks, "%s passes a message on holding a lock" % self.f.q, loc)
            v = mk("res", site.ctx, site.idx, "taken", ())
            E.kill_defs(st, None, v)
            st.cl["passed"] = v
            return [("ret", v, st)]
        if q.startswith(MSG + "::set") and args and args[0] is self.M:
            st.cl["changed"] = 1
        return None


@prop("S03", "path-sensitive analysis of every table from an id to the object that serves it",
      "Servers' services, clients' requesters and the factories' connections, with their helpers inlined; the objects found are boundaries.")
def routing(ck):
    prov = ltable(ck, SB, "ServiceProviderIF")
    f, = ck.fn(SB + "::getServiceProvider")
    r = Provider(ck, f, SB, prov, "a service")
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind == "ret":
            r.returned(E, st, line)
    f, = ck.fn(CB + "::getServiceRequester")
    r = Requester(ck, f)
    E, out = ck.run(f, r)
    for kind, val, st, line in out:
        if kind == "ret":
            r.returned(E, st, line)
            if st.cl.get("put") is not None:
                s = st.cl.get("status")
                ck.ob(K5, "looked", s is not None, "%s creates a requester without looking for the status of its service" % f.q, where(f, line))
                ck.ob(K5, "told", s != "known" or st.cl.get("told"), "%s does not tell a new requester the status of its service" % f.q, where(f, line))
    req, sta = tables(ck)
    for c, m, what, n in ((SB, prov, "the service", "hasServiceProvider"), (CB, req, "the requester", "hasServiceRequester")):
        f, = ck.fn(c + "::" + n)
        r = Table(ck, f, c, m, what)
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            v = const(st, val)
            t = None if v is None else bool(v)
            if t is None:
                p = [x for x in leaves(val) if x.k == "iter" and x.a[2] == "find" and r.table(E, x.a[0])]
                neg_ = val.k == "not" or val.k == "cast" and val.a[1].k == "not"
                ok = bool(p) and all(r.same(E, st, x.a[3], r.keys[0]) for x in p) and neg_
            else:
                ok = t == (not st.cl.get("missing")) and (not t or st.cl.get("there"))
            ck.ob(K2, "truth of " + f.q, ok, "%s returns %s" % (f.q, E.name(val)), where(f, line))
    for c, m, what in ((SB, prov, "the service"), (CB, req, "the requester of the service")):
        f, = ck.fn(c + "::onIncomingMessage")
        r = Route(ck, f, c, m, what)
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            cl, loc = st.cl, where(f, line)
            v = const(st, val)
            if cl.get("passed"):
                ck.ob(K3, "result of " + f.q, val is cl["passed"], "%s reports %s for a message it passed on" % (f.q, E.name(val)), loc)
            elif v == 0:
                ck.ob(K3, "dropped by " + f.q, cl.get("missing"), "%s drops a message though %s it names may be there" % (f.q, what), loc)
            else:
                u = mk("init", ptr(r.M, r.F["operationCode"]))
                ck.ob(K3, "handled by " + f.q, c == CB and st.known(icmp("eq", u, C(r.op["ServiceStatusUpdate"]))) is True, "%s reports a message as handled that it did not pass on" % f.q, loc)
    for q, n in ((NS + "ServerFactoryImpl", "getServer"), (NS + "ClientFactoryImpl", "getClient")):
        m = ltable(ck, q, "std::map")
        f, = ck.fn(q + "::" + n)
        r = Conn(ck, f, q, m, "a connection")
        r.elem = "::%sIF" % n[3:]
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            r.returned(E, st, line, True)
            if st.cl.get("put") is not None:
                ck.ob(K4, "started by " + f.q, st.cl.get("started"), "%s hands out a connection that was not started" % f.q, where(f, line))
            elif st.cl.get("up") is not None:
                ck.ob(K4, "lost by " + f.q, False, "%s does not keep a connection that it set up" % f.q, where(f, line))
    ck.need(K1, 8)
    ck.need(K2, 8)
    ck.need(K3, 8)
    ck.need(K4, 6)
    ck.need(K5, 4)
