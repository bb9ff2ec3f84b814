"""C01-C04 the requester side: answers, requests, service loss, registrations"""
from .util import *
from .processor import is_lambda, named

NS = "maf::messaging::"
REQ = NS + "ServiceRequester"
MSG = NS + "CSMessage"
STR = ("std::basic_string", "std::__cxx11::basic_string")


def fields(ck):
    """offsets of the parts of a message, from its accessors"""
    if getattr(ck, "msgf", None):
        return ck.msgf
    r = {}
    for n in ("serviceID", "operationID", "requestID", "operationCode", "payload", "sourceAddress"):
        f, = ck.fn(MSG + "::" + n)
        E, out = ck.run(f, R())
        sr = 1 if f.args[0][3] else 0
        this = mk("arg", sr, f.args[sr][2] or "this")
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            v = E.load(st, mk("arg", 0, f.args[0][2] or "sret"), 8, "p") if sr else val
            a = v.a[0] if v is not None and v.k == "init" else v
            if isinstance(a, V) and split(a)[0] is this:
                r[n] = split(a)[1]
        if n not in r:
            raise AnalysisError("cannot tell which part of a message %s() returns" % n)
    ck.msgf = r
    return r


def selfvirt(E, args):
    """a call of a virtual function on the object the analysis started with"""
    o = E.vobj
    return isinstance(o, V) and split(o)[0].k == "arg" and split(o)[0] is E.sargs[0][1 if E.stack[0].args and E.stack[0].args[0][3] else 0]


class CS(Walk):
    throws = ()

    def __init__(self, ck, f):
        self.ck, self.f = ck, f
        self.F = fields(ck)
        self.op = enum(ck, NS + "OpCode")

    def vpolicy(self, E, tid, slot, targets, args):
        return targets if selfvirt(E, args) and len(targets) == 1 else None

    def at(self, E, site):
        return where(site.fn if E.p.is_repo(site.fn) else self.f, site.line)

    def field(self, v, M):
        """which part of the message at M the value was read from"""
        if v.k == "init":
            r, o = split(v.a[0])
            for n, x in self.F.items():
                if v.a[0] is ptr(M, x):
                    return n
        return None

    def is_field(self, E, st, a, M, n):
        """the string or scalar at address a is that part of the message"""
        x = ptr(M, self.F[n])
        return a is x or E.load(st, a, 8, "p") is E.load(st, x, 8, "p")

    def nested(self, E, st, v, top):
        """(element of the map, element of the list in it) for an address inside an entry"""
        r = split(v)[0]
        if r.k != "elem":
            return None
        c = E.origin(st, r.a[0])
        r2 = split(c)[0]
        if r2.k == "elem" and top(E, r2.a[0]):
            return r2, r
        return None

    def key(self, e):
        """address of the key an element of a map was reached by"""
        k = e.a[1]
        if k.k == "iter" and k.a[2] == "find":
            return k.a[3]
        if k.k == "at" and len(k.a) > 2:
            return k.a[2]
        return None


def roles(ck):
    """members of the requester: the entries awaiting an answer, the registrations, the cached properties"""
    if getattr(ck, "rr", None):
        return ck.rr
    r = {}

    class Find(CS):
        def on_call(self, E, st, site, q, args):
            co = cont_op(E, site, q, args)
            if co and co[1] in ("operator[]", "emplace", "insert", "try_emplace", "insert_or_assign", "push_back"):
                for c, m in E.member(co[2]):
                    if c == REQ:
                        r.setdefault(self.what, set()).add(m)
    for what, n in (("requests", "sendRequestAsync"), ("registers", "registerSignal"), ("cache", "onIncomingMessage"), ("observers", "registerServiceStatusObserver")):
        f, = ck.fn(REQ + "::" + n)
        x = Find(ck, f)
        x.what = what
        ck.run(f, x)
    for k in ("requests", "registers", "cache", "observers"):
        if len(r.get(k, ())) != 1:
            raise AnalysisError("cannot tell where a requester keeps its %s: %s" % (k, sorted(r.get(k, ()))))
    ck.rr = {k: list(v)[0] for k, v in r.items()}
    return ck.rr


# ---------------------------------------------------------------- C01 answers
class Incoming(CS):
    def __init__(self, ck, f):
        CS.__init__(self, ck, f)
        self.rr = roles(ck)
        self.M = mk("init", mk("arg", 1, f.args[1][2] or ""))

    def top(self, E, a):
        return isinstance(a, V) and E.in_member(a, REQ, self.rr["requests"])

    def reg(self, E, a):
        return isinstance(a, V) and E.in_member(a, REQ, self.rr["registers"])

    def opcode(self, st, *names):
        """True if the message is known to be one of these"""
        c = mk("init", ptr(self.M, self.F["operationCode"]))
        return any(st.known(icmp("eq", c, C(self.op[n]))) is True for n in names)

    def notop(self, st, *names):
        c = mk("init", ptr(self.M, self.F["operationCode"]))
        return all(st.known(icmp("eq", c, C(self.op[n]))) is False for n in names)

    def walked(self, E, st, cont):
        o = E.origin(st, cont)
        r = split(o)[0]
        if r.k == "elem" and self.reg(E, r.a[0]):
            return "regs"
        if split(cont)[0].k == "al" and st.cl.get("box") is split(cont)[0]:
            return "box"
        return None

    def left(self, E, st, site, w, how):
        self.bad = 1
        self.ck.ob("an update reaches every registration of its operation", E.stack_repo(), False,
                   "%s %s of the registrations it notifies (path %s)" % (E.stack_repo(), how, E.path()), self.at(E, site))

    def matched(self, E, st, v):
        """the entry of the message's own operation an address lies in"""
        n = self.nested(E, st, v, self.top)
        if n is None:
            return None
        k = self.key(n[0])
        if k is None or not self.is_field(E, st, k, self.M, "operationID"):
            return None
        return n[1]

    def on_branch(self, E, st, site, cond, truth):
        self.walk_branch(E, st, site, cond, truth)
        e = eqs(cond, truth)
        if not e:
            return
        x, y, t = e
        for a, b in ((x, y), (y, x)):
            if self.field(b, self.M) == "requestID" and a.k == "init" and t:
                m = self.matched(E, st, a.a[0])
                if m is not None:
                    st.cl["m"] = m
            if self.field(b, self.M) == "serviceID" and a.k == "init" and split(a.a[0])[0].k in ("arg",):
                st.cl["sid"] = t
            if b is NULL and t and st.cl.get("cb") and (a.k == "phi" or a.k == "init" and self.nested(E, st, a.a[0], self.top)):
                st.cl["nocb"] = 1
            if a.k == "iter" and b.k == "iter" and {a.a[2], b.a[2]} == {"find", "end"}:
                if self.reg(E, a.a[0]):
                    st.cl.setdefault("sub", not t)
                    if t:
                        st.cl["noregs"] = 1
                if self.top(E, a.a[0]):
                    st.cl["looked"] = 1

    def copied(self, E, st, src):
        n = self.nested(E, st, src, self.top)
        if n is not None:
            st.cl["cb"] = 1 if n[1] is st.cl.get("m") else 2
        n = self.nested(E, st, src, self.reg)
        if n is not None:
            k = self.key(n[0])
            st.cl["rcb"] = 1 if k is not None and self.is_field(E, st, k, self.M, "operationID") else 2

    def on_call(self, E, st, site, q, args):
        self.walk_call(E, st, site, q, args)
        if q in ("std::function::function", "std::function::operator=") and len(args) > 1 and isinstance(args[1], V):
            self.copied(E, st, args[1])
        co = cont_op(E, site, q, args)
        if not co:
            return None
        c, op, a = co
        if op in ("push_back", "emplace_back", "insert", "push_front") and split(a)[0].k == "al" and len(args) > 1 and isinstance(args[-1], V):
            # callbacks collected to be run later
            n = self.nested(E, st, args[-1], self.reg)
            fn = n is not None
            if not fn:
                v = E.load(st, ptr(args[-1], 24), 8, "p")
                if v.k == "init":
                    n = self.nested(E, st, v.a[0], self.reg)
            if n is not None:
                st.cl["box"] = split(a)[0]
                k = self.key(n[0])
                st.cl["rcb"] = 1 if k is not None and self.is_field(E, st, k, self.M, "operationID") else 2
                self.turn(st, "regs")
        if op in ("insert", "emplace", "emplace_back", "push_back") and st.cl.get("box") is split(a)[0] and len(args) > 2:
            self.turn(st, "regs")
        if E.in_member(a, REQ, self.rr["cache"]) and op in ("insert_or_assign", "operator[]", "emplace", "insert", "try_emplace"):
            K = "a status update is cached, if its property is followed, before it is announced"
            ok = len(args) > 1 and self.is_field(E, st, args[1], self.M, "operationID") if op != "insert" else True
            self.ck.ob(K, "key in " + E.stack_repo(), ok, "%s caches the status of another operation (%s)" % (E.stack_repo(), E.name(args[1])), self.at(E, site))
            if op in ("emplace", "insert", "try_emplace"):
                self.ck.ob(K, "replaces in " + E.stack_repo(), False, "%s keeps the old status if there is one (%s)" % (E.stack_repo(), op), self.at(E, site))
            if op == "insert_or_assign":
                v = E.load(st, args[2], 8, "p")
                self.ck.ob(K, "value in " + E.stack_repo(), self.field(v, self.M) == "payload", "%s caches %s instead of the status announced" % (
                    E.stack_repo(), E.name(v)), self.at(E, site))
            self.ck.ob(K, "order in " + E.stack_repo(), not st.cl.get("regcalled") and "w:regs" not in st.cl and not st.cl.get("noregs2"),
                       "%s caches a status after its registrations were collected or notified: who registers in between misses it" % E.stack_repo(), self.at(E, site))
            st.cl["cached"] = 1
        if E.in_member(a, REQ, self.rr["registers"]) and op == "find" and st.cl.get("cached"):
            st.cl["noregs2"] = 1
        if self.nested(E, st, a, lambda E, x: False) is None and split(a)[0].k == "elem" and self.top(E, split(a)[0].a[0]):
            if op in ("erase", "pop_front", "pop_back", "clear", "remove", "splice", "operator=", "swap"):
                m = st.cl.get("m")
                it = E.load(st, args[1], 8, "p") if op == "erase" and len(args) > 1 and split(args[1])[0].k == "al" else args[1] if len(args) > 1 else None
                ok = op == "erase" and m is not None and (it is m.a[1])
                self.ck.ob("an answer ends its own request and no other", E.stack_repo(), ok, "%s removes a pending request that is not the one answered (%s; path %s)" % (
                    E.stack_repo(), op, E.path()), self.at(E, site))
                self.ck.ob("a partial answer leaves its request pending", "erase in " + E.stack_repo(), self.notop(st, "PartialRequestUpdate"),
                           "%s removes the request although the answer may be a partial one" % E.stack_repo(), self.at(E, site))
                st.cl["erased"] = 1
        elif self.top(E, a):
            if op == "erase":
                k = E.load(st, args[1], 8, "p") if split(args[1])[0].k == "al" else args[1]
                e = [x for x in (mk("elem", a, k),)][0]
                empty = [v for d in (st.facts, st.eq) for v in d for x in leaves(v) if x.k == "qry" and split(x.a[1])[0] is e and st.known(icmp("eq", x, NULL)) is True]
                self.ck.ob("an answer ends its own request and no other", "map in " + E.stack_repo(), bool(empty),
                           "%s removes all requests of an operation, though some may be pending" % E.stack_repo(), self.at(E, site))
            elif op in ("clear", "operator=", "swap", "extract"):
                self.ck.ob("an answer ends its own request and no other", "map %s in " % op + E.stack_repo(), False,
                           "%s drops pending requests" % E.stack_repo(), self.at(E, site))
        return None

    def on_indirect(self, E, st, site, cv, args):
        req = reg = None
        for x in leaves(cv):
            if x.k == "elem":
                n = self.nested(E, st, x, self.top)
                if n:
                    req = n[1]
                n = self.nested(E, st, x, self.reg)
                if n:
                    reg = n[1]
                if x.a[0].k == "al" and st.cl.get("box") is x.a[0]:
                    reg = x
        if req is None and reg is None:
            if st.cl.get("m"):
                req = True
            elif st.cl.get("rcb"):
                reg = True
        v = E.load(st, args[1], 8, "p") if len(args) > 1 and isinstance(args[1], V) else None
        if reg is not None and req is None:
            K = "an update reaches every registration of its operation"
            self.ck.ob(K, "own in " + E.stack_repo(), st.cl.get("rcb") == 1, "%s runs callbacks registered for another operation" % E.stack_repo(), self.at(E, site))
            ok = v is not None and (st.known(v) is False and st.known(mk("init", ptr(self.M, self.F["payload"]))) is not True or self.cloned(E, v) or v is NULL)
            self.ck.ob("every registration gets its own copy of the update", E.stack_repo(), ok,
                       "%s gives a callback %s: reading it changes what the next one reads" % (E.stack_repo(), E.name(v) if v is not None else "nothing"), self.at(E, site))
            self.ck.ob("a status update is cached, if its property is followed, before it is announced", "announced in " + E.stack_repo(),
                       not self.opcode(st, "StatusRegister") or st.cl.get("cached") or st.cl.get("sub") is False,
                       "%s announces a status without having cached it" % E.stack_repo(), self.at(E, site))
            self.turn(st, "box")
            self.turn(st, "regs")
            st.cl["regcalled"] = 1
            return [("ret", None, st)]
        if req is not None:
            self.ck.ob("an answer goes only to the request it answers", E.stack_repo(), st.cl.get("m") and (req is st.cl["m"] or req is True and st.cl.get("cb") == 1),
                       "%s gives the answer to a request that was not found to have its operation and request id (path %s)" % (E.stack_repo(), E.path()), self.at(E, site))
            self.ck.ob("an answer goes only to the request it answers", "once in " + E.stack_repo(), not st.cl.get("called"),
                       "%s runs the callback of the request more than once for one answer" % E.stack_repo(), self.at(E, site))
            self.ck.ob("a final answer ends its request before it is delivered", E.stack_repo(), st.cl.get("erased") or self.opcode(st, "PartialRequestUpdate"),
                       "%s delivers an answer that may be final while its request is still pending: it can be answered twice" % E.stack_repo(), self.at(E, site))
            self.ck.ob("the payload delivered is the answer's", E.stack_repo(), v is not None and self.field(v, self.M) == "payload",
                       "%s delivers %s" % (E.stack_repo(), E.name(v) if v is not None else "nothing"), self.at(E, site))
            st.cl["called"] = 1
            return [("ret", None, st)]
        return None

    def cloned(self, E, v):
        return any(x.k == "res" and "clone" in str(x.a[2]) and any(self.field(y, self.M) == "payload" for a in x.a[3] if isinstance(a, V) for y in leaves(a)) for x in leaves(v))


class Answer(R):
    """callbacks that satisfy a promise"""
    throws = ()

    def __init__(self, ck, f):
        self.ck, self.f = ck, f

    def on_branch(self, E, st, site, cond, truth):
        t, c = truth, cond
        while c.k == "not":
            c, t = c.a[0], not t
        if any(x.k == "res" and re.search(r"std::(atomic|__atomic_base|atomic_flag)::(exchange|compare_exchange\w*|test_and_set)$", str(x.a[2])) for x in leaves(c)):
            cas = any(x.k == "res" and "compare" in str(x.a[2]) for x in leaves(c))
            st.cl["first"] = t if cas else not t
        e = eqs(cond, truth)
        if c.k == "init" and st.locks and not t:
            st.cl["first"] = True

    def on_call(self, E, st, site, q, args):
        if FLAGSTORE.match(q) and "exchange" in q:
            # the value the flag had decides
            v = mk("res", site.ctx, site.idx, q, (args[0],))
            return [("ret", v, st)]
        if q == "std::promise::set_value":
            K = "a blocked request is answered once, with the answer it got"
            once = any("call_once" in x.q for x in E.stack)
            self.ck.ob(K, "once", st.cl.get("first") or once, "%s can satisfy the promise of a blocked request a second time, which throws" % self.f.q, where(self.f, site.line))
            n = len(self.f.args) - 1
            self.ck.ob(K, "payload", args[1] is mk("arg", n, self.f.args[n][2] or "") or any(x.k == "arg" and x.a[0] == n for x in leaves(args[1])) or
                       any(x.k == "arg" and x.a[0] == n for x in leaves(E.load(st, args[1], 8, "p"))),
                       "%s hands %s to the blocked request" % (self.f.q, E.name(args[1])), where(self.f, site.line))
            st.cl["set"] = 1
            return [("ret", None, st)]


@prop("C01", "path-sensitive dataflow of an incoming answer through the table of pending requests",
      "The whole path from a requester's entry for incoming messages to the callback; that ids are unique is C02's.")
def answers(ck):
    P = ck.P
    f, = ck.fn(REQ + "::onIncomingMessage")
    r = Incoming(ck, f)
    E, out = ck.run(f, r)
    K = "every matched answer is delivered"
    for kind, val, st, line in out:
        if kind != "ret":
            continue
        if st.cl.get("m"):
            ck.ob(K, "matched", st.cl.get("called") or st.cl.get("nocb"), "%s can drop an answer although its request is pending" % f.q, where(f, line))
        for n in ("Request", "StatusGet", "PartialRequestUpdate"):
            if r.opcode(st, n) and st.cl.get("sid") is not False:
                ck.ob(K, n + " looked up", st.cl.get("looked"), "%s does not look up the request of an answer (%s)" % (f.q, n), where(f, line))
        if st.cl.get("called"):
            ck.ob("answers of another service are ignored", f.q, st.cl.get("sid") is True, "%s delivers a message without having checked its service" % f.q, where(f, line))
            if st.cl.get("erased") is None:
                ck.ob("a partial answer leaves its request pending", "delivered", True)
    ps = [g for g in P.fns.values() if g.blocks and P.is_repo(g) and g.file == f.file and calls(g, "std::promise", "set_value", P)]
    for g in ps:
        E, out = ck.run(g, Answer(ck, g))
        for kind, val, st, line in out:
            if kind == "ret":
                ck.ob("a blocked request is answered once, with the answer it got", "first", st.cl.get("set") or st.cl.get("first") is False,
                      "%s can return without having answered the blocked request" % g.q, where(g, line))
    for k, n in (("an answer goes only to the request it answers", 2), ("an answer ends its own request and no other", 1), (K, 3),
                 ("a final answer ends its request before it is delivered", 1), ("the payload delivered is the answer's", 1),
                 ("a blocked request is answered once, with the answer it got", 2)):
        ck.need(k, n)
    # registrations are C04's
    for k in list(ck.obl):
        if "registration" in k or "cached" in k:
            del ck.obl[k]
            for v in [v for v in ck.viol if v.startswith(k)]:
                del ck.viol[v]


def calls(g, cls, name, P):
    for b in g.blocks:
        for i in b:
            if i[0] == "call" and isinstance(i[2], str):
                c = P.fns.get(i[2])
                if c is not None and c.q == cls + "::" + name:
                    return True
    return False


# ---------------------------------------------------------------- C02 requests
RQT = NS + "ServiceRequesterIF"
OPS = ("sendRequestAsync", "sendRequest", "registerStatus", "registerSignal", "getStatus", "abortRequest", "unregister", "unregisterAll")


def ptrto(P, t, q):
    if t is None or t < 0 or P.types[t]["k"] != "ptr":
        return False
    to = P.rt(P.types[t]["to"])
    return to >= 0 and P.types[to].get("q") == q


FUTWAIT = re.compile(r"^std::(future|__basic_future|shared_future)::wait(_for|_until)?$")


class Outgoing(CS):
    """a public operation of the requester: what is stored, sent, withdrawn and reported"""

    def __init__(self, ck, f):
        CS.__init__(self, ck, f)
        self.rr = roles(ck)
        self.AS = enum(ck, NS + "ActionCallStatus")
        P = ck.P
        self.sr = 1 if f.args[0][3] else 0
        self.this = mk("arg", self.sr, f.args[self.sr][2] or "this")
        self.ops, self.stat, self.regid, self.cont = [], None, None, None
        for i, a in enumerate(f.args):
            if i <= self.sr:
                continue
            v = mk("arg", i, a[2] or "")
            if ptrto(P, a[0], STR[0]) or ptrto(P, a[0], STR[1]):
                self.ops.append(v)
            if ptrto(P, a[0], NS + "RegID"):
                self.regid = v
                self.ops.append(ptr(v, regid(ck)["opID"]))
            if ptrto(P, a[0], NS + "ActionCallStatus") and "reference" not in P.types[a[0]]["tag"]:
                self.stat = v
            if a[0] >= 0 and P.types[a[0]]["k"] == "ptr" and P.types[P.rt(P.types[a[0]]["to"])].get("q") == "std::shared_ptr":
                self.cont = v
        d = f.j["dty"][0]
        d = P.rt(d) if d >= 0 else -1
        self.rets = P.types[d].get("q") if d >= 0 else None
        self.payret = d >= 0 and P.types[d].get("q") == "std::shared_ptr"

    def mem(self, E, a):
        """which table of the requester"""
        for w, m in self.rr.items():
            if isinstance(a, V) and E.in_member(a, REQ, m):
                return w
        return None

    def top(self, E, a):
        return self.mem(E, a) in ("requests", "registers")

    def walked(self, E, st, cont):
        r = split(E.origin(st, cont))[0]
        return "find" if r.k == "elem" and self.top(E, r.a[0]) else None

    def asked(self, E, st, a):
        c = E.load(st, a, 8, "p")
        return any(c is E.load(st, x, 8, "p") or a is x for x in self.ops)

    def put(self, E, st, site, cont, args):
        """an entry is added to a table"""
        r = split(cont)[0]
        w = self.mem(E, r.a[0])
        k = self.key(r)
        v = E.load(st, args[1], 8, "p")
        K = "an entry is kept under its operation and a fresh id, before its message is sent"
        self.ck.ob(K, "%s: operation" % self.f.q, k is not None and self.asked(E, st, k), "%s stores the entry under %s, not the operation asked for" % (
            self.f.q, E.name(k) if k is not None else "?"), self.at(E, site))
        self.ck.ob(K, "%s: id" % self.f.q, any(x.k == "res" and "fetch_add" in str(x.a[2]) for x in leaves(v)) or any(x.k == "init" and split(x.a[0])[0] is self.this for x in leaves(v)) and st.locks,
                   "%s stores the entry with id %s, which is not fresh" % (self.f.q, E.name(v)), self.at(E, site))
        self.ck.ob(K, "%s: order" % self.f.q, not st.cl.get("sent"), "%s stores the entry only after its message was sent: the answer may come before" % self.f.q, self.at(E, site))
        self.ck.ob("requests and registrations are kept apart", self.f.q, w == ("registers" if self.f.q.split("::")[-1].startswith("register") else "requests"),
                   "%s keeps its entry among the %s" % (self.f.q, w), self.at(E, site))
        st.cl["stored"] = (w, v)
        st.cl["list"] = r
        st.cl.pop("removed", None)

    def on_branch(self, E, st, site, cond, truth):
        self.walk_branch(E, st, site, cond, truth)
        if any(x.k == "res" and FUTWAIT.match(str(x.a[2])) for x in leaves(cond)):
            e = eqs(cond, truth)
            if e and C(0) in e[:2]:
                st.cl["late"] = not e[2]
            elif e and C(1) in e[:2]:
                st.cl["late"] = e[2]
        # how many there were: sizes of an entry list
        c, t = cond, truth
        while c.k == "not":
            c, t = c.a[0], not t
        before = st.cl.get("removed") is None and not st.cl.get("sent")
        if before and c.k == "icmp" and any(x.k == "qry" and x.a[0] == "size" or x.k == "stale" or x.k == "res" and str(x.a[2]).endswith("::size") for x in leaves(c)):
            st.cl["counted"] = 1
        e = eqs(cond, truth)
        if not e:
            return
        x, y, t = e
        sz = [v for v in (x, y) if any(z.k == "qry" and z.a[0] == "size" for z in leaves(v))]
        if sz and any(self.top(E, split(split(z.a[1])[0].a[0])[0] if split(z.a[1])[0].k == "elem" else z.a[1]) or split(z.a[1])[0].k == "elem" and self.top(E, split(z.a[1])[0].a[0])
                      for v in sz for z in leaves(v) if z.k == "qry"):
            o = y if sz[0] is x else x
            if o.k == "c" and before:
                st.cl["n"] = (o.a[0], t)
        for a, b in ((x, y), (y, x)):
            if a.k == "init" and t:
                n = self.nested(E, st, a.a[0], self.top)
                if n is not None and self.wanted(E, st, n, b):
                    st.cl["hit"] = n[1]
            if a.k == "iter" and b.k == "iter" and t and "end" in (a.a[2], b.a[2]):
                c = a.a[0]
                if self.top(E, c) and "find" in (a.a[2], b.a[2]):
                    if st.cl.get("removed") is None:
                        st.cl["removed"] = "absent"
                n = split(c)[0]
                if n.k == "elem" and self.top(E, n.a[0]) and st.cl.get("removed") is None:
                    st.cl["removed"] = "absent"

    def wanted(self, E, st, n, b):
        """b is the id of the entry stored here, or the one the caller names"""
        k = self.key(n[0])
        if k is None or not self.asked(E, st, k):
            return False
        s = st.cl.get("stored")
        if s and b is s[1]:
            return True
        return self.regid is not None and b is E.load(st, ptr(self.regid, regid(self.ck)["requestID"]), 8, "p")

    def on_call(self, E, st, site, q, args):
        self.walk_call(E, st, site, q, args)
        if q == "virtual" and vname(E, args[2]) == "sendMessageToServer":
            return self.send(E, st, site, args)
        if q == "virtual" and vname(E, args[2]) == "abortRequest" or q == REQ + "::abortRequest":
            a = args[3:] if q == "virtual" else args
            if self.f.q.split("::")[-1] != "abortRequest":
                self.ck.ob("a request given up is aborted", "its id in " + self.f.q, st.cl.get("stored") and E.load(st, ptr(a[1], regid(self.ck)["requestID"]), 8, "p") is st.cl["stored"][1],
                           "%s aborts another request than the one that timed out" % self.f.q, self.at(E, site))
                st.cl["aborted"] = 1
                return [("ret", None, st)]
        if q == "std::future::get" or FUTWAIT.match(q):
            K = "a caller that waits does not keep its own request alive"
            h = self.promise(E, st)
            self.ck.ob(K, self.f.q, not h, "%s waits for the answer while holding the promise itself (in %s): if the service goes away nobody wakes it" % (self.f.q, h), self.at(E, site))
            self.ck.ob("a caller waits only for a request that was sent", self.f.q, st.cl.get("stored") and self.ok(st) is True,
                       "%s waits for the answer of a request that was not sent" % self.f.q, self.at(E, site))
            if q == "std::future::get" and not st.cl.get("ready"):
                s = st.copy()
                s.cl["broken"] = 1
                st.cl["ready"] = 1
                if len(site.ins) > 4 and site.ins[1] < 0 and len(args) > 1:
                    E.havoc(st, args[0], mk("site", site.ctx, site.idx))
                    v = mk("res", site.ctx, site.idx, q, ())
                    E.store(st, args[0], v, 8)
                return [("ret", None, st), ("throw", mk("exc", "future", "_ZTISt12future_error"), s)]
        co = cont_op(E, site, q, args)
        if not co:
            return None
        c, op, a = co
        r = split(a)[0]
        if r.k == "elem" and self.top(E, r.a[0]):
            if op in ("emplace_back", "push_back", "emplace_front", "push_front", "emplace", "insert"):
                self.put(E, st, site, a, args if op not in ("emplace", "insert") else [args[0]] + list(args[2:]))
            elif op in ("erase", "pop_back", "pop_front", "clear", "swap", "operator=", "remove", "splice"):
                it = None
                if op == "erase" and len(args) > 1:
                    it = E.load(st, args[1], 8, "p") if split(args[1])[0].k == "al" else args[1]
                ok = st.cl.get("hit") is not None and it is st.cl["hit"].a[1]
                self.ck.ob("only the entry named is withdrawn", self.f.q, ok, "%s removes an entry that is not known to be the one meant (%s; path %s)" % (self.f.q, op, E.path()), self.at(E, site))
                st.cl["removed"] = "removed"
                st.cl["gone"] = self.mem(E, r.a[0])
        elif self.top(E, a):
            if op == "erase":
                k = E.load(st, args[1], 8, "p") if split(args[1])[0].k == "al" else args[1]
                if k.k == "iter":
                    e = mk("elem", a, k)
                    empty = any(x.k == "qry" and split(x.a[1])[0] is e and st.known(icmp("eq", x, NULL)) is True for d in (st.facts, st.eq) for v in d for x in leaves(v))
                    self.ck.ob("only the entry named is withdrawn", "operation in " + self.f.q, empty,
                               "%s removes all entries of an operation though others may be pending" % self.f.q, self.at(E, site))
                else:
                    self.ck.ob("only the entry named is withdrawn", "operation in " + self.f.q, self.f.q.endswith("::unregisterAll") and self.asked(E, st, args[1]),
                               "%s removes all entries of an operation though others may be pending" % self.f.q, self.at(E, site))
                st.cl["last"] = self.mem(E, a)
            elif op in ("clear", "operator=", "swap", "extract"):
                self.ck.ob("only the entry named is withdrawn", "%s in %s" % (op, self.f.q), False, "%s drops every entry (%s)" % (self.f.q, op), self.at(E, site))
        elif self.mem(E, a) == "cache":
            if op == "erase":
                self.ck.ob("the cache follows the registrations", "erase in " + self.f.q, self.asked(E, st, args[1]) or args[1].k == "iter",
                           "%s drops the cached status of another property" % self.f.q, self.at(E, site))
                st.cl["uncached"] = 1
            if op in ("find", "operator[]", "at", "count"):
                self.ck.ob("a cached status is the one of the property asked for", self.f.q, self.asked(E, st, args[1]),
                           "%s reads the cached status of another property" % self.f.q, self.at(E, site))
        return None

    def on_store(self, E, st, site, addr, v, size, atomic):
        if self.stat is not None and addr is self.stat:
            st.cl["rep"] = v

    def on_return(self, E, st, site, fn, val):
        self.walk_return(E, st, site, fn)
        if val is not None and val.k == "c" and fn.j["dty"] and self.isstat(fn.j["dty"][0]):
            st.cl["ret"] = val

    def isstat(self, t):
        t = self.ck.P.rt(t) if t >= 0 else -1
        return t >= 0 and self.ck.P.types[t].get("q") == NS + "ActionCallStatus"

    def promise(self, E, st):
        for (r, o), (v, sz) in st.mem.items():
            if r.k == "al" and v.k in ("heap", "p") and split(v)[0].k == "heap":
                t = E.typeof(split(v)[0])
                if t >= 0 and E.p.types[t].get("q") == "std::promise":
                    return E.name(r)
        return None

    def ok(self, st):
        s = st.cl.get("status")
        return None if s is None else st.known(icmp("eq", s, C(self.AS["Success"])))

    def send(self, E, st, site, args):
        m = E.load(st, args[4], 8, "p")
        g = lambda n: E.load(st, ptr(m, self.F[n]), 8 if n != "operationCode" else 1, "p")
        K = "what is sent says which service, operation and request it is for"
        code = g("operationCode")
        code = code.a[0] if code.k == "c" else None
        name = {v: k for k, v in self.op.items()}.get(code)
        sid = g("serviceID")
        loc = self.at(E, site)
        self.ck.ob(K, "%s %s: service" % (self.f.q, name), sid.k == "init" and split(sid.a[0])[0] is self.this, "%s sends a message for service %s" % (self.f.q, E.name(sid)), loc)
        self.ck.ob(K, "%s %s: operation" % (self.f.q, name), self.asked(E, st, ptr(m, self.F["operationID"])), "%s sends a message for operation %s, not the one asked for" % (
            self.f.q, E.name(g("operationID"))), loc)
        n = self.f.q.split("::")[-1]
        want = {"sendRequestAsync": ("Request",), "sendRequest": ("Request", "Abort"), "registerStatus": ("StatusRegister",), "registerSignal": ("SignalRegister",),
                "getStatus": ("StatusGet", "Abort"), "abortRequest": ("Abort",), "unregister": ("Unregister",), "unregisterAll": ("Unregister",)}[n]
        self.ck.ob(K, "%s %s: code" % (self.f.q, name), name in want, "%s sends a message of kind %s" % (self.f.q, name or code), loc)
        rid = g("requestID")
        if name == "Abort" and n == "abortRequest":
            ok = rid is E.load(st, ptr(self.regid, regid(self.ck)["requestID"]), 8, "p")
            self.ck.ob(K, "%s %s: request" % (self.f.q, name), ok, "%s aborts another request than the one named" % self.f.q, loc)
            self.ck.ob("only a pending request is aborted", self.f.q, st.cl.get("removed") == "removed", "%s sends the abort of a request that it did not find pending" % self.f.q, loc)
        elif name != "Unregister":
            s = st.cl.get("stored")
            self.ck.ob("an entry is kept under its operation and a fresh id, before its message is sent", "%s %s" % (self.f.q, name), bool(s),
                       "%s sends a message (%s) before it keeps the entry its answer is matched with" % (self.f.q, name), loc)
            if s:
                self.ck.ob(K, "%s %s: request" % (self.f.q, name), rid is s[1], "%s sends request id %s, but keeps the entry under %s" % (self.f.q, E.name(rid), E.name(s[1])), loc)
        if n.startswith("sendRequest"):
            v = g("payload")
            self.ck.ob(K, "%s %s: payload" % (self.f.q, name), self.cont is not None and v is E.load(st, self.cont, 8, "p"), "%s sends %s instead of the content given" % (self.f.q, E.name(v)), loc)
        v = mk("res", site.ctx, site.idx, "status of the send", ())
        E.kill_defs(st, None, v)
        st.cl["sent"] = sat(st.cl.get("sent", 0) + 1)
        st.cl["status"] = v
        st.cl["what"] = name
        st.cl.pop("hit", None)
        st.cl.pop("removed", None)
        self.ck.ob("nothing is sent under a lock of the requester", self.f.q, not st.locks, "%s sends holding a lock" % self.f.q, loc)
        return [("ret", v, st)]


def regid(ck):
    return {m[0]: m[1] for m in layout(ck, NS + "RegID")}


def const(st, v):
    if v is None:
        return None
    if v.k == "c":
        return v.a[0]
    return st.eq.get(v)


@prop("C02", "path-sensitive typestate of each request: stored, sent, withdrawn, reported",
      "All eight public operations of a requester, with their helpers inlined; the client's send is an interface boundary that may report any status. "
      "A registration made while the first one of its operation is being sent and fails is not covered.")
def requests(ck):
    P = ck.P
    AS = enum(ck, NS + "ActionCallStatus")
    nfn = 0
    for f in [g for g in P.fns.values() if g.blocks and g.cls is not None and g.q in [REQ + "::" + n for n in OPS]]:
        n = f.q.split("::")[-1]
        nfn += 1
        r = Outgoing(ck, f)
        E, out = ck.run(f, r)
        wait = any(o[2].cl.get("ready") or o[2].cl.get("broken") for o in out)
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            cl, loc = st.cl, where(f, line)
            ok = r.ok(st)
            s = cl.get("stored")
            if s and not cl.get("sent") and (not cl.get("counted") or cl.get("n") == (1, True)):
                ok = False
            if s and (cl.get("sent") or ok is False):
                K = "a request that could not be sent leaves nothing behind"
                ck.ob(K, f.q + " looked at the result", ok is not None, "%s returns at line %s without regard to whether the message was sent" % (f.q, line), loc)
                if ok is False:
                    ck.ob(K, f.q, cl.get("removed"), "%s returns at line %s with the entry of a message that was not sent still stored" % (f.q, line), loc)
                if ok is True:
                    ck.ob("a request that was sent stays until it is answered or given up", f.q, not cl.get("removed") or cl.get("late"),
                          "%s returns at line %s having removed the entry of a message that was sent" % (f.q, line), loc)
            if cl.get("late"):
                ck.ob("a request given up is aborted", f.q, cl.get("aborted"), "%s gives up waiting at line %s without aborting the request" % (f.q, line), loc)
            if r.rets == NS + "RegID" and s:
                K = "the caller gets the id of what is pending, and no id otherwise"
                v = E.load(st, mk("arg", 0, f.args[0][2] or "sret"), 8, "p")
                if ok is False:
                    ck.ob(K, f.q + " failed", v.k == "c" and v.a[0] in (-1, 2**64 - 1), "%s returns id %s at line %s though nothing is pending" % (f.q, E.name(v), line), loc)
                elif ok is True or not cl.get("removed") or not (v.k == "c" and v.a[0] in (-1, 2**64 - 1)):
                    ck.ob(K, f.q, v is s[1], "%s returns id %s at line %s, not that of its entry" % (f.q, E.name(v), line), loc)
            # what is reported
            v = None
            if r.stat is not None and st.known(r.stat) is not False:
                v = cl.get("rep") or E.load(st, r.stat, 1)
                if v.k == "init" and v.a[0] is r.stat or any(x.k == "init" and x.a[0] is r.stat for x in leaves(v)):
                    ck.ob("the status of every call is reported", f.q, False, "%s returns at line %s without reporting a status" % (f.q, line), loc)
                    continue
            elif r.rets == NS + "ActionCallStatus" and val is not None:
                v = val
            if v is None:
                continue
            K = "the status reported is what happened"
            c = const(st, v)
            ck.ob("the status of every call is reported", f.q, True)
            if cl.get("late") or cl.get("aborted"):
                ck.ob(K, f.q + " late", c == AS["Timeout"], "%s reports status %s at line %s for a request given up" % (f.q, stname(AS, c, E, v), line), loc)
            elif cl.get("broken"):
                ck.ob(K, f.q + " broken", c is not None and c != AS["Success"], "%s reports status %s at line %s for a request that was dropped" % (f.q, stname(AS, c, E, v), line), loc)
            elif cl.get("sent"):
                fine = v is cl["status"] or c is not None and ok is not None and (c == AS["Success"]) == ok
                ck.ob(K, f.q + " sent", fine, "%s reports status %s at line %s, not that of the send" % (f.q, stname(AS, c, E, v), line), loc)
            elif s is None and cl.get("gone") is None and n not in ("unregister", "getStatus"):
                ck.ob(K, f.q + " not sent", c is not None and c != AS["Success"], "%s reports status %s at line %s though it did nothing" % (f.q, stname(AS, c, E, v), line), loc)
    if nfn < 8:
        raise AnalysisError("only %d operations of the requester found" % nfn)
    for k in ("the cache follows the registrations", "a cached status is the one of the property asked for"):
        ck.obl.pop(k, None)
        for v in [v for v in ck.viol if v.startswith(k)]:
            del ck.viol[v]
    for k, m in (("an entry is kept under its operation and a fresh id, before its message is sent", 4), ("what is sent says which service, operation and request it is for", 8),
                 ("a request that could not be sent leaves nothing behind", 4), ("the status of every call is reported", 6), ("the status reported is what happened", 6),
                 ("only the entry named is withdrawn", 4), ("a request given up is aborted", 1), ("a caller that waits does not keep its own request alive", 1)):
        ck.need(k, m)


def stname(AS, c, E, v):
    for k, x in AS.items():
        if x == c:
            return k
    return E.name(v)
