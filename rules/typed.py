"""C05 typed client calls, S05 typed service calls"""
from .util import *
from .processor import is_lambda
from maf.engine import Engine, State

MS = "maf::messaging::"
PROXY, STUB, REQ, RESP, DELEG = MS + "BasicProxy", MS + "BasicStub", MS + "RequestT", MS + "ResponseT", MS + "ServiceStatusObserverDelegater"
C1 = "each call is passed on once, for the operation of its type"
C2 = "what is passed on is what the caller gave"
C3 = "what the caller gets is what became of its call"
C4 = "a callback given runs once per message, on the executor, with the content of that message"
C5 = "a call without a callback or an executor to run it is refused, and says so"
C6 = "the content of a message is only read as what the message says it is"
C7 = "a request dropped without an answer is answered with an error, one that was answered is not"
C8 = "proxies and stubs that share a service differ in the executor only"
FN = re.compile(r"^std::function::operator\(\)$")
PAYLOAD = mk("arg", 90, "message")
ASKED = mk("arg", 91, "request")
OLD, NEW = mk("arg", 92, "old"), mk("arg", 93, "new")
LOOKS = ("serviceID", "serviceStatus", "availability", "getOperationID", "getOperationCode", "getRequestID")
FUNC, SP = "std::function", "std::shared_ptr"


class Typed(R):
    """one call of the typed layer, from the caller to the untyped interface and back: callbacks are delivered to on the spot"""
    throws = ("throw",)

    def __init__(self, ck, f):
        self.ck, self.f, self.P = ck, f, ck.P
        self.sr = 1 if f.args and f.args[0][3] else 0
        self.a = [mk("arg", i, "sret" if i < self.sr else x[2] or "") for i, x in enumerate(f.args)]
        self.this = self.a[self.sr] if len(self.a) > self.sr and f.args[self.sr][2] == "this" else None
        self.params = [(self.a[i],) + self.ptype(f, i) for i in range(self.sr + (self.this is not None), len(f.args))]
        self.n = f.q.rsplit("::", 1)[1]
        self.ops = set(re.findall(r"\b(\w+_(?:request|signal|property))\b", f.dem))
        self.AS, self.PT, self.AV = enum(ck, MS + "ActionCallStatus"), enum(ck, MS + "CSPayloadType"), None
        self.what = "%s %s" % (f.q.replace(MS, ""), short(f))
        self.ipc = "ipc::local" in f.dem

    # ---- what the parameters are
    def ptype(self, f, i):
        """(kind of type, class) of a parameter, references and addresses of temporaries looked through"""
        t = f.args[i][0]
        ty = f.j.get("dty") or ()
        k = i - (1 if f.args and f.args[0][3] else 0) + 1
        if t < 0 and 0 <= k < len(ty):
            t = ty[k]
        d = self.P.types[self.P.rt(t)] if t >= 0 else {}
        if d.get("k") == "ptr" and d.get("to", -1) >= 0:
            e = self.P.types[self.P.rt(d["to"])]
            return ("ptr" if "q" in e else e.get("k"), e.get("q", e.get("n", "")), e.get("n", ""))
        return (d.get("k"), d.get("q", d.get("n", "")), d.get("n", ""))

    def param(self, pred):
        return [p for p in self.params if pred(p)]

    def at(self, E, site):
        return where(site.fn, site.line) if E.p.is_repo(site.fn) else where(self.f)

    def ob(self, clause, what, ok, msg, E, site):
        self.ck.ob(clause, "%s: %s" % (self.what, what), ok, "%s %s" % (self.what, msg), self.at(E, site))

    # ---- content
    def payload(self, E, st, v):
        """v is the message delivered, or the one the untyped call gave"""
        return v is mk("init", PAYLOAD)

    def content(self, E, st, v):
        """v is the content of that message"""
        if isinstance(v, V) and v.k == "decoded":
            return True
        r, o = split(v.a[0]) if v.k == "init" else (None, 0)
        return r is mk("init", PAYLOAD) and (self.trusted and not self.ipc or st.cl.get("type") in ("IncomingData", "OutgoingData"))

    def typeknown(self, E, st, site, addr):
        if isinstance(addr, V) and split(addr)[0] is mk("init", PAYLOAD) and split(addr)[1] > 0:
            k = st.cl.get("type")
            self.ob(C6, "content", k in ("IncomingData", "OutgoingData") or k is None and not self.ipc and self.trusted,
                    "reads the content of a message %s" % ("of type %s as if it was its own" % k if k else "without having asked what it is"), E, site)

    def on_branch(self, E, st, site, cond, truth):
        e = eqs(cond, truth)
        if e and NULL in e[:2] and mk("init", PAYLOAD) in e[:2]:
            st.cl["empty"] = e[2]
        elif e and NULL in e[:2]:
            y = e[0] if e[1] is NULL else e[1]
            if y is self.executor:
                st.cl["executor"] = not e[2]
            elif self.ipc and st.cl.get("type") != "OutgoingData" and y.k == "init" and split(y.a[0])[0] is mk("init", PAYLOAD) and e[2]:
                st.cl["undecoded"] = 1
            elif any(y is p[0] for p in self.params):
                st.cl["nostatus"] = e[2]
            elif any(y is mk("init", ptr(p[0], 16)) for p in self.params if p[2] == FUNC):
                st.cl["callback"] = not e[2]

    trusted = False

    def on_load(self, E, st, site, addr, *rest):
        self.typeknown(E, st, site, addr)

    # ---- function objects
    def target(self, E, st, fo):
        v = E.load(st, ptr(fo, 24), 8, "p")
        return v

    def deliver(self, E, st, site, fo, args, tag):
        """call the function object at address fo, as the other side does"""
        v = self.target(E, st, fo)
        if v.k == "fn":
            g = E.p.fns[v.a[0]]
            sr = 1 if g.args and g.args[0][3] else 0
            return E.call_fn(g, [fo] + args, st, mk("ctx", site.ctx, g.name, tag), site)
        self.called(E, st, site, v, args)
        return [("ret", None, st, site.line)]

    def called(self, E, st, site, v, args):
        """an unknown function object is called: it has to be the caller's callback"""
        own = [p for p in self.params if p[2] == FUNC and v is mk("init", ptr(p[0], 24))]
        if not own:
            return False
        n = st.cl["ran"] = sat(st.cl.get("ran", 0) + 1)
        self.ob(C4, "once", n == 1, "calls its callback twice for one message", E, site)
        self.ob(C4, "executor", st.cl.get("on") or self.direct, "calls its callback past the executor", E, site)
        self.given(E, st, site, args)
        return True

    direct = False

    def on_indirect(self, E, st, site, cv, args):
        if self.called(E, st, site, cv, args[1:]):
            return [("ret", None, st)]

    def given(self, E, st, site, args):
        """what the callback is called with"""
        for a in args:
            r = dict(st.cl.get("resp", ())).get(a)
            if r is not None:
                self.answer(E, st, site, r)
                return
            q = dict(st.cl.get("asked", ())).get(a)
            if q is not None:
                self.ob(C4, "content", q is mk("init", ASKED), "calls its handler for another request than the one that came in", E, site)
                return
        if not args:
            return
        if st.cl.get("watch"):
            ok = len(args) == 2 and all(E.load(st, x, 4) is y or x is y for x, y in zip(args, (OLD, NEW)))
            self.ob(C4, "content", ok, "does not pass on the change it was told of", E, site)
            return
        v = E.load(st, args[0], 8, "p")
        self.value(E, st, site, v)

    def value(self, E, st, site, v):
        t = st.cl.get("type")
        bad = st.cl.get("empty") or t == "Error" or st.cl.get("undecoded")
        if bad:
            self.ob(C4, "nothing", v is NULL, "hands on content that is not there (%s)" % (t or "no message"), E, site)
        else:
            self.ob(C4, "content", self.content(E, st, v), "does not hand on the content of its message", E, site)

    def encodable(self):
        return not re.search(r"ResponseT<\w+_request>|<\w+_request, true>|sendRequest_<\w+_request>", self.f.dem)

    def answer(self, E, st, site, r):
        kind, v = r
        t = st.cl.get("type")
        if st.cl.get("became") not in (None, "Success"):
            self.ob(C3, "failed", kind == "error" and v is not NULL, "answers a request that failed (%s) without an error" % st.cl["became"], E, site)
        elif st.cl.get("empty"):
            self.ob(C3, "empty", kind == "output" and v is NULL, "does not hand on an empty answer as an answer", E, site)
        elif t == "Error":
            self.ob(C3, "error", kind == "error" and self.payload(E, st, v), "does not hand on the error of the service", E, site)
        elif self.encodable():
            self.ob(C3, "output", kind == "output" and (v is NULL if st.cl.get("undecoded") else self.content(E, st, v)),
                    "does not hand on the content of the answer" if t else "does not ask what the answer is", E, site)
        else:
            self.ob(C3, "no value", kind == "novalue" and t, "hands on a value that the answer cannot have", E, site)

    # ---- calls
    def on_call(self, E, st, site, q, args):
        if q.endswith("::operationID") and not args:
            return [("ret", mk("opid", q.split("::")[0]), st)]
        co = cont_op(E, site, q, args)
        if co and co[0].endswith("basic_string") and co[1] == "basic_string" and len(args) > 1 and isinstance(args[1], V) and args[1].k == "opid":
            st.cl["ops"] = st.cl.get("ops", frozenset()) | {(args[0], args[1].a[0])}
        if co and co[0].endswith("basic_string") and co[1] == "basic_string" and len(args) > 1 and isinstance(args[1], V) and args[1].k == "g" and args[1].a[0] in E.p.strings:
            st.cl["ops"] = st.cl.get("ops", frozenset()) | {(args[0], E.p.strings[args[1].a[0]].replace(".", "_"))}
        if co and co[0].endswith("basic_string") and co[1] == "basic_string" and len(args) == 2 and isinstance(args[1], V):
            for a, n in list(st.cl.get("ops", ())):
                if a is args[1]:
                    st.cl["ops"] = st.cl["ops"] | {(args[0], n)}
        if q in ("std::static_pointer_cast", "std::const_pointer_cast", "std::reinterpret_pointer_cast") and len(args) == 2:
            for o in (0, 8):
                E.store(st, ptr(args[0], o), E.load(st, ptr(args[1], o), 8, "p"), 8)
            return [("ret", None, st)]
        if q == "std::__invoke_r" and callee(E, site) is not None and callee(E, site).blocks:
            return [(k, v, s) for k, v, s, ln in E.call_fn(callee(E, site), args, st, mk("ctx", site.ctx, q, site.idx), site)]
        if q == "virtual":
            return self.virtual(E, st, site, vname(E, args[2]), args[2], args[3:])
        if q == RESP + "::ResponseT":
            return self.response(E, st, site, args)
        if q == REQ + "::RequestT" and len(args) == 2 and self.n != "operator=" and self.n != "RequestT":
            d = dict(st.cl.get("asked", ()))
            c = callee(E, site)
            t = self.ptype(c, 1)[1]
            d[args[0]] = d.get(args[1]) if t == REQ else E.load(st, args[1], 8, "p")
            st.cl["asked"] = frozenset(d.items())
            if t != REQ:
                E.store(st, args[1], NULL, 8)
            return [("ret", None, st)]
        if q == REQ + "::~RequestT" and self.n not in ("~RequestT", "operator="):
            return [("ret", None, st)]
        if re.match(r"^maf::srz::DSR::operator>>$", q):
            t = st.copy()
            E.store(st, args[1], mk("decoded", site.line), 8)
            t.cl["undecoded"], st.cl["read"] = 1, 1
            return [("ret", args[0], st), ("throw", mk("exc", "decode", "_ZTISt13runtime_error"), t)]
        if q == "maf::srz::deserialize" and len(args) == 2:
            t = st.copy()
            E.store(st, args[1], mk("decoded", site.line), 8)
            t.cl["undecoded"], st.cl["read"] = 1, 1
            return [("ret", TRUE, st), ("ret", NULL, t)]
        if q.endswith("::fail") and "Stream" in q and len(args) == 1:
            if st.cl.get("read"):
                return [("ret", NULL, st)]
            t = st.copy()
            t.cl["undecoded"] = 1
            return [("ret", NULL, st), ("ret", TRUE, t)]
        if q == MS + "csmgmt::getServiceRequester" or q == MS + "csmgmt::getServiceProvider":
            return self.manager(E, st, site, args)
        return None

    def manager(self, E, st, site, args):
        want = [p[0] for p in self.params[:3]]
        self.ob(C2, "service", list(args[1:4]) == want, "asks for another service than the caller", E, site)
        E.store(st, args[0], mk("init", mk("arg", 94, "found")), 8)
        st.cl["asked for"] = sat(st.cl.get("asked for", 0) + 1)
        return [("ret", None, st)]

    def response(self, E, st, site, args):
        d = dict(st.cl.get("resp", ()))
        if len(args) == 1:
            d[args[0]] = ("novalue", NULL)
        else:
            c = callee(E, site)
            k = self.ptype(c, 1)
            if k[1] == RESP:
                d[args[0]] = d.get(args[1], ("?", NULL))
            else:
                d[args[0]] = ("error" if "CSError" in k[2] else "output", E.load(st, args[1], 8, "p"))
        st.cl["resp"] = frozenset(d.items())
        return [("ret", None, st)]

    def virtual(self, E, st, site, n, targets, args):
        g = E.p.fns[targets[0]] if targets else None
        sr = 1 if g is not None and g.args and g.args[0][3] else 0
        if g is None:
            return None
        own = g.q.rsplit("::", 1)[0]
        obj = args[sr]
        if n == "execute" and sr == 0 and len(args) == 2:
            return self.execute(E, st, site, args)
        if n == "type" and self.payload(E, st, obj):
            return self.types(E, st)
        if n.startswith("~"):
            return [("ret", None, st)]
        if n in ("dump", "equal", "clone") and n != self.n:
            return None
        if self.isside(E, st, obj):
            if n in LOOKS and n != self.n:
                return None
            return self.passed(E, st, site, n, g, sr, args)
        return None

    def types(self, E, st):
        if st.cl.get("type"):
            return [("ret", C(self.PT[st.cl["type"]]), st)]
        out = []
        for k in ("IncomingData", "OutgoingData", "Error"):
            s = st.copy()
            s.cl["type"] = k
            out.append(("ret", C(self.PT[k]), s))
        return out

    def isside(self, E, st, obj):
        """the object of the untyped interface that this call goes to"""
        return obj is self.side

    def execute(self, E, st, site, args):
        ex = args[0]
        given = [p for p in self.params if "ExecutorIF" in p[3] and ex is mk("init", p[0])]
        self.ob(C4, "executor", ex is self.executor or bool(given), "runs its callback on another executor than its own", E, site)
        drop = st.copy()
        drop.cl["refused"] = 1
        st.cl["on"] = 1
        out = [("ret", NULL, drop)]
        for k, v, s, ln in self.deliver(E, st, site, args[1], [], "job"):
            s.cl.pop("on", None)
            out.append(("ret", TRUE, s) if k == "ret" else (k, v, s))
        return out

    # ---- the call that is passed on
    def passed(self, E, st, site, n, g, sr, args):
        st.cl["passed"] = sat(st.cl.get("passed", 0) + 1)
        want = self.SAYS.get(self.n, self.n)
        self.ob(C1, "passed", n in want.split("|"), "calls %s" % n, E, site)
        self.ob(C1, "once", st.cl["passed"] == 1, "passes its call on twice", E, site)
        fo = None
        for i in range(sr + 1, len(g.args)):
            if i >= len(args):
                break
            k, q, nm = self.ptype(g, i)
            a = args[i]
            if q.startswith("std::") and "basic_string" in q:
                p = self.param(lambda p: "basic_string" in p[2] and p[1] == "ptr")
                ok = a is p[0][0] if p and self.n != "onServiceStatusChanged" else bool({x for b, x in st.cl.get("ops", ()) if b is a} & self.ops)
                self.ob(C1, "operation", ok, "is passed on for another operation", E, site)
            elif q == FUNC:
                fo = a
            elif q == SP and "Observer" in nm:
                p = self.param(lambda p: p[2] == SP and "Observer" in p[3])
                v = E.load(st, a, 8, "p")
                if p:
                    self.ob(C2, "observer", v is mk("init", p[0][0]), "does not pass on the observer given", E, site)
                else:
                    st.cl["watch"] = v
            elif q == SP:
                self.sent(E, st, site, E.load(st, a, 8, "p"))
            elif q == MS + "RegID":
                p = self.param(lambda p: p[2] == MS + "RegID")
                self.ob(C2, "registration", bool(p) and a is p[0][0], "names another registration", E, site)
            elif k == "enum" or "ActionCallStatus" in nm or "ActionCallStatus" in q:
                p = self.param(lambda p: "ActionCallStatus" in p[3])
                if p and a is p[0][0]:
                    st.cl["told"] = 1
                elif p:
                    st.cl["status"] = a
                    self.ob(C3, "status", split(a)[0].k == "al", "does not learn what became of the call", E, site)
            elif "duration" in nm or "duration" in q or "chrono" in nm:
                p = self.param(lambda p: "duration" in p[3] or "chrono" in p[3])
                self.ob(C2, "timeout", bool(p) and any(x is p[0][0] for x in leaves(a) if isinstance(x, V)), "does not wait as long as the caller said", E, site)
            elif nm == "bool":
                p = self.param(lambda p: p[3] == "bool")
                self.ob(C2, "flag", bool(p) and any(x is p[0][0] for x in leaves(a)), "does not pass on what the caller said", E, site)
        return self.results(E, st, site, n, g, sr, args, fo)

    def sent(self, E, st, site, v):
        """the content passed on: the caller's, as a message of data; nothing if the caller gave nothing"""
        p = self.param(lambda p: p[2] == SP and "ExecutorIF" not in p[3])
        if p and "CSError" in p[0][3]:
            self.ob(C2, "content", v is mk("init", p[0][0]), "does not pass on the error given", E, site)
            return
        if not p:
            if self.n in ("error", "~RequestT", "operator="):
                ok = v.k == "heap"
            elif self.param(lambda p: p[1] != "ptr" or True) and re.search(r"int|Args", self.f.dem.split("(")[-1]) and self.n in ("setStatus", "broadcastSignal", "respond", "update"):
                ok = v.k == "heap"
            else:
                ok = v is NULL
            self.ob(C2, "content", ok, "passes on content that its caller did not give" if v is not NULL else "passes on nothing", E, site)
            return
        mine = mk("init", p[0][0])
        if v is NULL:
            self.ob(C2, "content", st.known(mine) is False, "does not pass on the content given", E, site)
            return
        ok = any(E.load(st, ptr(v, o), 8, "p") is mine for o in (8, 16))
        self.ob(C2, "content", v.k == "heap" and ok, "does not pass on the content given", E, site)

    def results(self, E, st, site, n, g, sr, args, fo):
        outs = [st]
        rt = g.j["dty"][0]
        name = self.P.types[self.P.rt(rt)].get("n", "") if rt >= 0 else ""
        retv = None
        if sr and "shared_ptr" in name:
            E.store(st, args[0], mk("init", PAYLOAD), 8)
        elif sr:
            E.store(st, args[0], mk("qry", "said", self.side), 8)
        elif rt >= 0:
            retv = mk("qry", "said", self.side)
        sta = st.cl.get("status")
        if sta is not None:
            outs = []
            for k in ("Success", "Timeout", "FailedUnknown"):
                s = st.copy()
                s.cl["became"] = k
                E.store(s, sta, C(self.AS[k]), 4)
                outs.append(s)
        if fo is not None:
            r = []
            for s in outs:
                keep = s.copy()
                v = self.target(E, s, fo)
                if v is NULL:
                    s.cl["nocb"] = 1
                    r.append(("ret", retv, s))
                    continue
                self.ob(C4, "registered", v.k == "fn" or any(v is mk("init", ptr(p[0], 24)) for p in self.params), "does not pass a callback on", E, site)
                keep.cl["silent"] = 1
                r.append(("ret", retv, keep))
                if v.k == "fn":
                    got = self.deliver(E, s, site, fo, self.message(E, s, fo), "msg")
                    self.ob(C4, "ends", any(x[0] == "ret" for x in got), "cannot handle a message without ending the process", E, site)
                    for k, v2, s2, ln in got:
                        if k == "ret":
                            self.delivered(E, s2, site)
                            r.append(("ret", retv, s2))
                            if n == "registerNotification":
                                self.again(E, s2.copy(), site, fo)
                        else:
                            self.ob(C4, "throws", False, "lets an exception out of its callback", E, site)
                else:
                    self.direct = True
            return r
        w = st.cl.get("watch")
        if w is not None and n == "registerServiceStatusObserver":
            r = [("ret", retv, st.copy())]
            for h in self.ck.fn(DELEG + "::onServiceStatusChanged"):
                for k, v2, s2, ln in E.call_fn(h, [w, mk("arg", 95, "id"), OLD, NEW], st, mk("ctx", site.ctx, h.name, "watch"), site):
                    self.delivered(E, s2, site)
                    self.ob(C4, "refused", bool(s2.cl.get("refused")) == (k == "throw"), "does not say that its executor refused to run the callback", E, site)
                    r.append(("ret", retv, s2))
            return r
        return [("ret", retv, s) for s in outs]

    def again(self, E, st, site, fo):
        """what is kept and called for each message has to be as good for the next"""
        for k in ("ran", "refused", "on", "type", "undecoded", "read"):
            st.cl.pop(k, None)
        out = self.deliver(E, st, site, fo, self.message(E, st, fo), "next")
        if st.cl.get("empty") is not True:
            self.ob(C4, "next", any(s.cl.get("ran") == 1 for k, v, s, ln in out), "has used up its callback with the first message", E, site)
        for k, v, s, ln in out:
            if k == "ret":
                self.delivered(E, s, site)
            else:
                self.ob(C4, "next", False, "has used up its callback with the first message", E, site)

    def message(self, E, st, fo):
        return [PAYLOAD]

    def delivered(self, E, st, site):
        n = st.cl.get("ran", 0)
        if st.cl.get("empty") and self.n == "registerNotification":
            return
        if st.cl.get("refused"):
            self.ob(C4, "refused", n == 0, "runs a callback its executor has refused", E, site)
        elif self.skips(E, st):
            self.ob(C4, "skipped", n == 0, "hands on a message it cannot read", E, site)
        else:
            self.ob(C4, "delivered", n == 1, "can leave its callback out for a message that came in", E, site)

    def skips(self, E, st):
        return False

    # ---- the end of the call
    def exits(self, E, out):
        ck, f = self.ck, self.f
        cb = self.param(lambda p: p[2] == FUNC)
        for kind, val, st, line in out:
            at = where(f, line)
            if kind != "ret":
                ck.ob(C3, self.what + ": throws", False, "%s can end with an exception (line %s)" % (self.what, line), at)
                continue
            n = st.cl.get("passed", 0)
            self.ended(E, st, val, line, at, n, cb)

    def ended(self, E, st, val, line, at, n, cb):
        ck, f = self.ck, self.f
        ready = st.cl.get("callback") is not False and st.cl.get("executor") is not False
        need = self.needs(cb) and not self.optional(st)
        if need and not ready:
            ck.ob(C5, self.what + ": refused", n == 0, "%s is passed on at line %s without a callback, or an executor to run it" % (self.what, line), at)
        else:
            ck.ob(C1, self.what + ": passed on", n == 1, "%s can end at line %s without having been passed on" % (self.what, line), at)
        if n:
            self.result(E, st, val, line, at)
        elif need:
            self.refused(E, st, val, line, at)

    def needs(self, cb):
        return bool(cb)

    def optional(self, st):
        return False

    def refused(self, E, st, val, line, at):
        p = self.param(lambda p: "ActionCallStatus" in p[3])
        if p and not st.cl.get("nostatus"):
            v = E.load(st, p[0][0], 4)
            self.ck.ob(C5, self.what + ": says", v is C(self.AS["InvalidParam"]), "%s is refused at line %s without saying so" % (self.what, line), at)
        elif val is not None and not p:
            self.ck.ob(C5, self.what + ": says", val is C(self.AS["InvalidParam"]) or val is NULL, "%s is refused at line %s without saying so" % (self.what, line), at)

    def result(self, E, st, val, line, at):
        ck, f = self.ck, self.f
        rt = f.j["dty"][0]
        if rt < 0:
            return
        said = mk("qry", "said", self.side)
        t = self.P.types[self.P.rt(rt)]
        if t.get("q") == RESP:
            r = dict(st.cl.get("resp", ())).get(self.a[0])
            if r is None:
                ck.ob(C3, self.what + ": answer", False, "%s can end at line %s without an answer" % (self.what, line), at)
            else:
                self.answer2(E, st, r, line)
        elif t.get("q") == SP and "watch" in st.cl:
            ck.ob(C3, self.what + ": observer", E.load(st, self.a[0], 8, "p") is st.cl["watch"], "%s does not return the observer it registered (line %s)" % (self.what, line), at)
        elif t.get("q") == SP:
            self.stat(E, st, E.load(st, self.a[0], 8, "p"), line, at)
        elif self.sr:
            ck.ob(C3, self.what + ": result", E.load(st, self.a[0], 8, "p") is said, "%s does not return what became of its call (line %s)" % (self.what, line), at)
        elif val is not None:
            ck.ob(C3, self.what + ": result", val is said or any(x is said for x in leaves(val)), "%s does not return what became of its call (line %s)" % (self.what, line), at)
        p = self.param(lambda p: "ActionCallStatus" in p[3])
        if p and "status" in st.cl and not st.cl.get("nostatus"):
            v = E.load(st, p[0][0], 4)
            ck.ob(C3, self.what + ": status", v is C(self.AS[st.cl["became"]]), "%s does not tell its caller what became of the call (line %s)" % (self.what, line), at)
        elif p:
            ck.ob(C3, self.what + ": status", "told" in st.cl or "status" in st.cl, "%s does not tell its caller what became of the call (line %s)" % (self.what, line), at)

    def answer2(self, E, st, r, line):
        class S:
            pass
        s = S()
        s.fn, s.line = self.f, line
        self.answer(E, st, s, r)

    def stat(self, E, st, v, line, at):
        t = st.cl.get("type")
        none = st.cl.get("empty") or t == "Error" or st.cl.get("undecoded")
        self.ck.ob(C3, self.what + ": content", v is NULL if none else self.content(E, st, v) or v is NULL and st.cl.get("nostream"),
                   "%s can return %s at line %s, the message being %s" % (self.what, E.name(v), line, t or "empty"), at)


def short(f):
    m = re.search(re.escape(f.q.rsplit("::", 1)[1]) + r"(<[^(]*>)?\((.*)", f.dem)
    k = "ipc" if "ipc::local" in f.dem else "itc"
    w = re.findall(r"\b(\w+_(?:request|signal|property)(?:::\w+)?)\b", m.group(0) if m else f.dem)
    return "(%s%s)" % (k, (" " + w[0]) if w else "")


class Client(Typed):
    SAYS = {"onServiceStatusChanged": "registerServiceStatusObserver"}

    def __init__(self, ck, f):
        Typed.__init__(self, ck, f)
        lay = layout(ck, PROXY)
        o = {("e" if "Executor" in ck.P.types[m[2]]["n"] else "r"): m[1] for m in lay if m[3] == SP}
        self.off = o
        self.side = mk("init", ptr(self.this, o["r"])) if self.this is not None else mk("init", mk("arg", 94, "found"))
        self.executor = mk("init", ptr(self.this, o["e"])) if self.this is not None else None

    def needs(self, cb):
        return bool(cb)

    def optional(self, st):
        """a request may be sent without asking for the answer"""
        return self.n == "sendRequestAsync" and st.cl.get("callback") is False


class Service(Typed):
    trusted = True  # what a service is told of itself, in its own process
    SAYS = {}

    def __init__(self, ck, f):
        Typed.__init__(self, ck, f)
        o = {("e" if "Executor" in ck.P.types[m[2]]["n"] else "r"): m[1] for m in layout(ck, STUB) if m[3] == SP}
        self.off = o
        self.side = mk("init", ptr(self.this, o["r"])) if self.this is not None else mk("init", mk("arg", 94, "found"))
        self.executor = mk("init", ptr(self.this, o["e"])) if self.this is not None else None

    def message(self, E, st, fo):
        return [ASKED] if self.n == "registerRequestHandler" else [PAYLOAD]

    def needs(self, cb):
        return bool(cb)

    def skips(self, E, st):
        return bool(st.cl.get("empty") or st.cl.get("undecoded") or st.cl.get("type") == "Error") and self.n == "registerNotification"


class Asked(Typed):
    trusted = True  # typed clients send nothing else
    SAYS = {"error": "respond", "~RequestT": "respond", "operator=": "respond"}
    LIFE = ("~RequestT", "operator=")

    def __init__(self, ck, f):
        Typed.__init__(self, ck, f)
        self.side, self.executor = mk("init", self.this), None

    def needs(self, cb):
        return False

    def virtual(self, E, st, site, n, targets, args):
        if n == "valid" and self.n in self.LIFE and self.isside(E, st, args[0]):
            if "valid" in st.cl:
                return [("ret", TRUE if st.cl["valid"] else NULL, st)]
            no = st.copy()
            no.cl["valid"], st.cl["valid"] = False, True
            return [("ret", TRUE, st), ("ret", NULL, no)]
        return Typed.virtual(self, E, st, site, n, targets, args)

    def ended(self, E, st, val, line, at, n, cb):
        ck = self.ck
        if self.n in self.LIFE:
            none = st.known(self.side) is False
            want = 0 if none or st.cl.get("valid") is False else 1
            ck.ob(C7, self.what + ": answered", n == want and (not n or st.cl.get("valid") is True), "%s %s (line %s)" % (self.what, "drops a request that nobody has answered" if want > n else "answers a request again", line), at)
        elif self.n == "getInput" and re.search(r"RequestT<[^()]*, \w+_request>::", self.f.dem):
            ck.ob(C3, self.what + ": no input", E.load(st, self.a[0], 8, "p") is NULL, "%s returns an input the request cannot have (line %s)" % (self.what, line), at)
        else:
            Typed.ended(self, E, st, val, line, at, n, cb)


FOUND = mk("init", mk("arg", 94, "found"))


class Share(Typed):
    """making proxies and stubs, and what they hold"""

    def __init__(self, ck, f, cls):
        Typed.__init__(self, ck, f)
        self.off = {("e" if "Executor" in ck.P.types[m[2]]["n"] else "r"): m[1] for m in layout(ck, cls) if m[3] == SP}
        self.side = mk("init", ptr(self.this, self.off["r"])) if self.this is not None else FOUND
        self.executor = mk("init", ptr(self.this, self.off["e"])) if self.this is not None else None

    def virtual(self, E, st, site, n, targets, args):
        if n == "registerServiceStatusObserver" and self.isside(E, st, args[0]):
            st.cl["observed"] = sat(st.cl.get("observed", 0) + 1)
            p = self.param(lambda p: p[2] == SP and "Observer" in p[3])
            v = E.load(st, args[1], 8, "p")
            self.ob(C2, "observer", bool(p) and v is mk("init", p[0][0]), "does not pass on the observer given", E, site)
            return [("ret", None, st)]
        if self.isside(E, st, args[0]):
            self.ob(C8, "silent", n in LOOKS, "calls %s" % n, E, site)
        return Typed.virtual(self, E, st, site, n, targets, args)

    def passed(self, E, st, site, n, g, sr, args):
        return None

    def ended(self, E, st, val, line, at, n, cb):
        ck, n, e = self.ck, self.n, self.param(lambda p: "ExecutorIF" in p[3])
        given = mk("init", e[0][0]) if e else None

        def ok(what, good, msg):
            ck.ob(C8, "%s: %s" % (self.what, what), good, "%s %s (line %s)" % (self.what, msg, line), at)
        if n == "setExecutor":
            v = E.load(st, ptr(self.this, self.off["e"]), 8, "p")
            none = st.known(given) is False
            ok("executor", v is given or none and v in (self.executor, NULL), "does not keep the executor given")
            ok("service", E.load(st, ptr(self.this, self.off["r"]), 8, "p") is self.side, "changes the service it is for")
            return
        v = E.load(st, self.a[0], 8, "p")
        if n in ("getExecutor", "getRequester"):
            ok("result", v is (self.executor if n == "getExecutor" else self.side), "does not return what it holds")
            return
        none = st.known(given) is False if n == "with" else st.known(FOUND) is False
        if n != "with":
            ok("asked", st.cl.get("asked for") == 1, "does not ask for the service it is given")
        if none:
            ok("nothing", v is NULL, "makes something of nothing")
            return
        made = v.k == "heap"
        ok("made", made, "does not return what it made")
        if made:
            ok("service", E.load(st, ptr(v, self.off["r"]), 8, "p") is self.side, "makes one that is for another service")
            ok("executor", E.load(st, ptr(v, self.off["e"]), 8, "p") is given, "makes one with another executor")
        o = self.param(lambda p: p[2] == SP and "Observer" in p[3])
        if o:
            ok("observer", st.cl.get("observed") == 1, "does not register the observer given")


class Held(R):
    """what a response was made with is what it says it holds"""

    def __init__(self, ck, f):
        self.ck, self.f = ck, f

    def kind(self, t):
        return "error" if "CSError" in t else "none" if "NoValue" in t else "output"

    def on_call(self, E, st, site, q, args):
        c = callee(E, site)
        if q == "std::variant::variant" and len(args) == 2 and c is not None:
            t = c.dem[c.dem.rindex("("):]
            if "std::variant<" in t:
                i = E.load(st, ptr(args[1], 16), 1)
            else:
                i = mk("alt", self.kind(t))
            E.store(st, ptr(args[0], 16), i, 1)
            E.store(st, args[0], NULL if i is mk("alt", "none") else E.load(st, args[1], 8, "p"), 8)
            return [("ret", None, st)]
        if q in ("std::holds_alternative", "std::get", "std::get_if") and c is not None:
            t, d = [""], 0
            for ch in c.dem[c.dem.index(q + "<") + len(q):]:
                d += (ch == "<") - (ch == ">")
                if not d:
                    break
                if ch == "," and d == 1:
                    t.append("")
                else:
                    t[-1] += ch
            m = re.match(r"<(\d+)u?l?$", t[0])
            t = t[1 + int(m.group(1))] if m else t[0]
            has = E.load(st, ptr(args[0], 16), 1) is mk("alt", self.kind(t))
            if has:
                st.assume(args[0], True)
            if q == "std::get" and not has:
                return [("throw", mk("exc", "get", "_ZTISt18bad_variant_access"), st)]
            return [("ret", (TRUE if has else NULL) if q == "std::holds_alternative" else args[0] if has else NULL, st)]
        if q == "std::variant::index" and len(args) == 1:
            i = E.load(st, ptr(args[0], 16), 1)
            return [("ret", C({"output": 0, "error": 1, "none": 2}.get(i.a[0], 9) if i.k == "alt" else 9), st)]


def response(ck):
    lay = layout(ck, RESP)
    n = 0
    for cls in sorted({f.dem.split(">::")[0] for f in ck.P.fns.values() if f.q.startswith(RESP + "::") and f.blocks and "getOutput" in f.q}):
        fs = [f for f in ck.P.fns.values() if f.blocks and f.q.startswith(RESP + "::") and f.q.count("::") == 3 and f.dem.split(">::")[0].split(" ")[-1] == cls.split(" ")[-1]]
        index = {}
        for f in fs:
            if f.q != RESP + "::ResponseT" or len(f.args) > 2:
                continue
            kind = "none" if len(f.args) == 1 else "error" if "CSError" in f.dem.split("(")[-1] else "output"
            if "ResponseT" in f.dem.split("(")[-1]:
                continue
            E, out = ck.run(f, Held(ck, f))
            for k, val, st, line in out:
                v = E.load(st, mk("arg", 0, "this"), 8, "p")
                i = E.load(st, ptr(mk("arg", 0, "this"), 16), 1)
                index.setdefault(kind, i)
                ck.ob(C3, "response: " + kind, index[kind] is i and i.k == "alt", "%s does not hold the %s it is made with" % (cls, kind), where(f))
                if kind != "none":
                    ck.ob(C3, "response: holds " + kind, v is mk("init", mk("arg", 1, "")) or v is mk("init", mk("arg", 1, f.args[1][2] or "")), "%s does not hold the %s it is made with" % (cls, kind), where(f))
        ck.ob(C3, "response: kinds", len(set(index.values())) == len(index) and len(index) == (3 if any(x.q == RESP + "::getOutput" for x in fs) else len(index)), "%s cannot tell an output, an error and nothing apart" % cls, where(fs[0]))
        for f in fs:
            nm = f.q.rsplit("::", 1)[1]
            if nm not in ("isError", "isOutput", "hasValue", "getOutput", "getError"):
                continue
            for kind, i in sorted(index.items()):
                r = Held(ck, f)
                e0 = Engine(ck.P, r, 1000)
                st = State()
                this = mk("arg", [k for k, a in enumerate(f.args) if a[2] == "this"][0], "this")
                e0.store(st, ptr(this, 16), i, 1)
                E, out = ck.run(f, r, None, st)
                n += 1
                ck.ob(C3, "response: %s of %s returns" % (nm, kind), any(o[0] == "ret" for o in out), "%s of a response made with %s never returns" % (nm, kind), where(f))
                for k, val, s, line in out:
                    at = where(f, line)
                    if nm.startswith("get"):
                        v = E.load(s, mk("arg", 0, "sret"), 8, "p")
                        want = mk("init", this) if nm == {"output": "getOutput", "error": "getError"}.get(kind) else NULL
                        good = v is want
                    else:
                        want = {"isError": kind == "error", "isOutput": kind == "output", "hasValue": kind != "none"}[nm]
                        good = val is C(int(want))
                    ck.ob(C3, "response: %s of %s" % (nm, kind), k == "ret" and good, "%s of a response made with %s says otherwise (line %s)" % (nm, kind, line), at)
    return n


def count(what, n, least):
    if n < least:
        raise AnalysisError("only %d %s were found, expected at least %d" % (n, what, least))


def methods(ck, cls, skip, make, only=None):
    k = 0
    for f in sorted(ck.P.fns.values(), key=lambda f: f.name):
        if f.blocks and f.q.startswith(cls + "::") and f.acc == "public" and not is_lambda(f) and f.q.count("::") == cls.count("::") + 1 and "_ZTh" not in f.name:
            n = f.q.rsplit("::", 1)[1]
            if n in skip or only and n not in only:
                continue
            r = make(ck, f)
            E, out = ck.run(f, r)
            r.exits(E, out)
            k += 1
    return k


SHARE = ("setExecutor", "getExecutor", "getRequester", "with", "createProxy", "createStub")
STATIC = "%s: every public member of every instance of the class is run over every path through the source, from the typed call to the virtual call of the untyped interface and back; function objects it hands over are called on the spot with a message of every kind, executors run or refuse the job; rule: %s"


@prop("C05", STATIC % ("typed client calls against their untyped counterparts", "same operation, same content, same result, callback once on the executor, refusals told"), "what the untyped requester and the executor do is decided by C01, C03, T06; contracts are represented by those of the witness (input and output, no input, attributes, no attributes, status) over both kinds of content translation", witness=("typed",))
def client(ck):
    count("calls", methods(ck, PROXY, ("BasicProxy", "~BasicProxy") + SHARE, Client), 20)
    count("sharing", methods(ck, PROXY, (), lambda ck, f: Share(ck, f, PROXY), SHARE), 8)
    count("responses", response(ck), 10)


@prop("S05", STATIC % ("typed service calls against their untyped counterparts", "same operation, same content, same result, handler once on the executor, a request dropped is answered once"), "what the untyped provider, the request and the executor do is decided by S01, S02, S03, T06; contracts are represented by those of the witness", witness=("typed",))
def service(ck):
    count("calls", methods(ck, STUB, ("BasicStub", "~BasicStub", "cloneStatus") + SHARE, Service), 20)
    count("requests", methods(ck, REQ, ("RequestT",), Asked), 20)
    count("sharing", methods(ck, STUB, (), lambda ck, f: Share(ck, f, STUB), SHARE), 6)
