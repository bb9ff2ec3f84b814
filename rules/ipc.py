"""I01 receiving, I02 sending between processes"""
from .util import *
from .serialization import Sz, bare, linear, arg, ev, values, offset


NS = "maf::messaging::ipc::local::"
RI = NS + "LocalIPCBufferReceiverImpl"
FD = "maf::messaging::ipc::AutoCloseFD"
SI = NS + "LocalIPCBufferSenderImpl"
K1 = "bytes are read only into room made for them, and no more room is made than bytes can come"
K2 = "only a complete message is passed on, once, with exactly its bytes"
K3 = "every descriptor is owned and closed once"
K4 = "a stopped receiver notices, and does not come back"
K5 = "a receiver runs only after it could be set up"
K6 = "a connection that was read from is not kept"
S1 = "success is reported only if the whole message was written"
S2 = "writing to a process that is gone does not end this one"
S3 = "only bytes of the message, all of them in order, are written"
S4 = "an address that does not fit is not used"
S5 = "a receiver counts as available only if it could be connected to"
ERR = mk("c", -1)


def isneg(v):
    return v.k == "c" and (v.a[0] & 0xffffffff) == 0xffffffff


class Sys(R):
    """system calls on descriptors: each of them may fail"""
    throws = ("throw",)

    def __init__(self, ck, f, cls):
        self.ck, self.f = ck, f
        self.this = arg(f, 1 if f.args[0][3] else 0)
        self.sz = Sz(ck, f, "des", None)

    def ob(self, E, site, clause, what, ok, msg):
        fn = next((x for x in reversed(E.stack) if E.p.is_repo(x)), self.f)
        self.ck.ob(clause, what, ok, msg, where(fn, site.line if site is not None and E.p.is_repo(site.fn) else None))

    def new(self, E, st, site, tag):
        v = mk(tag, site.ctx, site.idx, E.stack[-1].name)
        E.kill_defs(st, None, v)
        st.cl["open"] = st.cl.get("open", frozenset()) - {v}
        return v

    def on_call(self, E, st, site, q, args):
        h = getattr(self, "c_" + q.split("::")[-1], None) if "::" not in q or q.startswith(("std::atomic::", "std::__atomic_base::")) else None
        if h is not None:
            return h(E, st, site, args)
        return self.other(E, st, site, q, args)

    def other(self, E, st, site, q, args):
        return self.buffers(E, st, site, q, args)

    # ---- descriptors
    def opened(self, E, st, site):
        v = self.new(E, st, site, "fd")
        s2 = st.copy()
        s2.cl["nofd"] = 1
        st.cl["open"] = st.cl.get("open", frozenset()) | {v}
        st.ne = st.ne | {(v, -1), (v, 0xffffffff)}
        st.assume(mk("icmp", "slt", v, NULL), False)
        return [("ret", v, st), ("ret", ERR, s2)]

    def c_socket(self, E, st, site, args):
        self.ob(E, site, K3, "kind", [const_(st, x) for x in args[:2]] == [1, 1], "%s makes a socket of another kind" % E.stack_repo())
        return self.opened(E, st, site)

    def c_close(self, E, st, site, args):
        v = bare(args[0])
        if v.k == "fd":
            self.ob(E, site, K3, "closed once", v in st.cl.get("open", ()), "%s closes a descriptor that is not its own any more" % E.stack_repo())
            st.cl["open"] = st.cl.get("open", frozenset()) - {v}
        return [("ret", NULL, st)]

    def fork(self, st, *vals):
        out = []
        for v in vals:
            out.append(("ret", v, st.copy()))
        return out

    def c_setsockopt(self, E, st, site, args):
        return self.fork(st, NULL, ERR)

    def c_connect(self, E, st, site, args):
        self.address(E, st, site, args)
        self.ob(E, site, K3, "usable", bare(args[0]) in st.cl.get("open", ()), "%s connects something that is not an open descriptor" % E.stack_repo())
        st.cl["tried"] = 1
        out = self.fork(st, NULL, ERR)
        out[0][2].cl["connected"] = bare(args[0])
        return out

    # ---- addresses
    want = None

    def address(self, E, st, site, args):
        """args[1] is the address of the process that is meant"""
        self.ob(E, site, S4, "length", const_(st, args[2]) == SUN, "%s names only a part of the address, or more" % E.stack_repo())
        root, off = split(args[1])
        n = dict(st.cl.get("name", ())).get((root, off))
        w = self.wanted(E, st)
        if n is not None:
            self.ob(E, site, S4, "name", n in w, "%s uses the address of another one" % E.stack_repo())
        else:
            k = self.cached(E, st, root, w)
            self.ob(E, site, S4, "name", k is not None, "%s uses an address that was not filled in for this one" % E.stack_repo())
            if k is not None:
                st.cl["cache"] = (root, k)

    def wanted(self, E, st):
        return [E.load(st, self.want, 8, "p")] if self.want is not None else []

    def cached(self, E, st, root, w):
        """an address kept from before is that of a name kept with it: the same as the wanted one"""
        g = E.p.globals.get(root.a[0]) if root.k == "g" else None
        if not g or not g["tls"]:
            return None
        for f, t in st.facts.items():
            if t and f.k == "icmp" and f.a[0] == "eq":
                for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                    if x in w:
                        if y.k == "init" and split(y.a[0])[0].k == "g":
                            return y.a[0]
                        for (rr, o), v in st.mem.items():
                            if rr.k == "g" and v[0] is y and y.k == "str":
                                return ptr(rr, o)
        return None

    def c_strncpy(self, E, st, site, args):
        dst, src, n = args[:3]
        o = split(dst)[1]
        top = bare(n).a[0] if bare(n).k == "c" else max(values(st, self.size_key(E, st, bare(n)), (0, 1, 50, 105, 106, 107, 108, 109, 110, 200, 1 << 20)) or [0])
        self.ob(E, site, S4, "fits", o + top <= SUN, "%s copies a path that does not fit into the address" % E.stack_repo())
        m = {k: v for k, v in st.cl.get("name", ()) if k[0] is not split(dst)[0]}
        if src.k == "res" and src.a[2].split("::")[-1] in ("data", "c_str") and o == 3:
            self.ob(E, site, S4, "whole name", bare(n).k == "qry" and E.load(st, bare(n).a[1], 8, "p") is E.load(st, src.a[3][0], 8, "p"), "%s copies only a part of the name" % E.stack_repo())
            m[split(dst)[0], 0] = E.load(st, src.a[3][0], 8, "p")
        st.cl["name"] = frozenset(m.items())
        return None

    def buffers(self, E, st, site, q, args):
        if q.startswith("llvm.mem") and args and isinstance(args[0], V):
            d = split(args[0])
            if args[1].k == "res" and args[1].a[2].split("::")[-1] in ("data", "c_str") and d[1] == 3:
                return self.c_strncpy(E, st, site, args[:3])
            m = dict(st.cl.get("name", ()))
            if m:
                s = split(args[1]) if "memcpy" in q or "memmove" in q else None
                m = {k: v for k, v in m.items() if k != d}
                if s in m:
                    m[d] = m[s]
                st.cl["name"] = frozenset(m.items())
        return None

    def kept_names(self, E, st, line):
        """addresses kept for later belong to the name kept with them"""
        for (r, o), n in st.cl.get("name", ()):
            if r.k == "g":
                ok = any(v[0] is n and k[0].k == "g" for k, v in st.mem.items())
                self.ck.ob(S4, "kept", ok, "%s keeps an address without the name it belongs to" % self.f.q, where(self.f, line))
        roots = {k[0] for k, _ in st.cl.get("name", ()) if k[0].k == "g"}
        for (r, o), v in st.mem.items():
            if r.k == "g" and o == 0 and v[0] in self.wanted(E, st) and E.p.globals.get(r.a[0], {}).get("tls"):
                self.ck.ob(S4, "kept", bool(roots), "%s keeps a name without the address it belongs to" % self.f.q, where(self.f, line))

    def size_key(self, E, st, n):
        """the length that was compared: of the same text"""
        if n.k == "qry" and n.a[0] == "size":
            have = {x for w in list(st.facts) + list(st.eq) for x in leaves(w) if x.k == "qry" and x.a[0] == "size"}
            if n in have:
                return n
            c = E.load(st, n.a[1], 8, "p")
            for x in have:
                y = E.load(st, x.a[1], 8, "p")
                if y is c or E.canon(st, x.a[1]) is E.canon(st, n.a[1]):
                    return x
        return n

    def leaks(self, E, st, line, extra=()):
        left = set(st.cl.get("open", ()))
        for (r, o), v in st.mem.items():
            if r.k in ("arg", "init", "heap"):
                left.discard(bare(v[0]))
        self.ck.ob(K3, "closed", not left, "%s ends without closing a descriptor" % self.f.q, where(self.f, line))


def init(a):
    return mk("init", a)


def const_(st, v):
    v = bare(v)
    if v.k == "c":
        return v.a[0]
    return st.eq.get(v)


class Pieces:
    """one message, cut into up to four pieces anywhere: how many bytes went over is their sum"""
    MAX = 3

    def total(self, st):
        return linear(*st.cl.get("took", ()))

    def went(self, E, st, site, tag):
        """another piece, of unknown size"""
        took = st.cl.get("took", ())
        if len(took) >= self.MAX:
            return None
        v = mk(tag, site.ctx, site.idx, E.stack[-1].name, len(took))
        E.kill_defs(st, None, v)
        st.cl["took"] = took + (v,)
        return v

    def over(self, E, st):
        """the message is done with"""
        for x in ("len", "cont", "took", "hdr", "gave", "used", "sized", "all", "broken"):
            st.cl.pop(x, None)
        E.store(st, SIZE, NULL, 8)

    def reached(self, st, L):
        """all of L went over, as this path knows"""
        t = self.total(st)
        if t == linear(L) or not t and const_(st, L) == 0:
            return True
        d = dict(linear(L))
        for k, n in t:
            d[k] = d.get(k, 0) - n
        d = {k: n for k, n in d.items() if n}
        m = {k: -n for k, n in d.items()}

        def diff(a, b):
            x = dict(linear(b))
            for k, n in linear(a):
                x[k] = x.get(k, 0) - n
            return {k: n for k, n in x.items() if n}
        for w, tr in st.facts.items():
            if w.k == "icmp":
                x = diff(w.a[1], w.a[2])
                if w.a[0] == "ult" and not tr and x == d or w.a[0] == "eq" and tr and x in (d, m):
                    return True
        return any(diff(mk("c", n), w) in (d, m) for w, n in st.eq.items() if any(x.k in ("rd", "wr") for x in leaves(w)))


class State:
    """the state of the receiver: only stopping it happens at the same time"""

    def bind(self, ck):
        self.en = enum(ck, RI + "::State")
        self.off = next(m[1] for m in layout(ck, RI) if m[3] == "std::atomic")

    def mine(self, a):
        return split(a) == (self.this, self.off)

    def outcomes(self, st):
        s = st.cl.get("S")
        if s is None:
            return sorted(self.en.values())
        return sorted({s, self.en["Stopped"]})

    def c_compare_exchange_strong(self, E, st, site, args):
        if not self.mine(args[0]):
            return None
        e, d = const_(st, E.load(st, args[1], 1)), const_(st, args[2])
        if e is None or d is None:
            raise AnalysisError("the state of the receiver is exchanged with an unknown one")
        out = []
        for x in self.outcomes(st):
            s = st.copy()
            if x == e:
                s.cl["S"] = d
                s.cl["chk"] = 1
                out.append(("ret", mk("c", 1), s))
                self.ob(E, site, K4, "restart", e != self.en["Stopped"] or d == self.en["Stopped"], "%s makes a stopped receiver another one" % E.stack_repo())
            else:
                self.seen(s, x)
                E.store(s, args[1], mk("c", x), 1)
                out.append(("ret", NULL, s))
        return out

    c_compare_exchange_weak = c_compare_exchange_strong

    def seen(self, s, x):
        s.cl["S"] = x
        s.cl["chk"] = 1
        if x == self.en["Stopped"]:
            s.cl["stop"] = 1

    def c_load(self, E, st, site, args):
        if not self.mine(args[0]):
            return None
        out = []
        for x in self.outcomes(st):
            s = st.copy()
            if x != self.en["Stopped"] or self.f.q.endswith("::stop"):
                s.cl["chk"] = 1
            if x == self.en["Stopped"]:
                self.seen(s, x)
            out.append(("ret", mk("c", x), s))
        return out

    def c_store(self, E, st, site, args):
        if not self.mine(args[0]):
            return None
        d = const_(st, args[1])
        init = self.f.q.endswith("::init")
        self.ob(E, site, K4, "overwritten", d == self.en["Stopped"] or init, "%s overwrites the state of a receiver that may just have been stopped" % E.stack_repo())
        st.cl["S"] = d
        if d == self.en["Stopped"]:
            st.cl["stored"] = 1
        return [("ret", None, st)]

    def c_exchange(self, E, st, site, args):
        if not self.mine(args[0]):
            return None
        d = const_(st, args[1])
        init = self.f.q.endswith("::init")
        self.ob(E, site, K4, "overwritten", d == self.en["Stopped"] or init, "%s overwrites the state of a receiver that may just have been stopped" % E.stack_repo())
        out = []
        for x in self.outcomes(st):
            s = st.copy()
            s.cl["S"] = d
            if d == self.en["Stopped"]:
                s.cl["stored"] = 1
                s.cl["old"] = x
            out.append(("ret", mk("c", x), s))
        return out


class Recv(Pieces, State, Sys):
    hdr = None

    def __init__(self, ck, f):
        Sys.__init__(self, ck, f, RI)
        self.bind(ck)
        self.sock = next(m[1] for m in layout(ck, RI) if m[3].endswith("AutoCloseFD"))

    def c_close(self, E, st, site, args):
        if bare(args[0]) is init(ptr(self.this, self.sock)):
            st.cl["unbound"] = 1
        return Sys.c_close(self, E, st, site, args)

    def c_select(self, E, st, site, args):
        self.used(E, st, site)
        self.over(E, st)
        st.cl["waited"] = 1
        self.ob(E, site, K4, "waiting", st.cl.get("S") == self.en["WaitingConnection"] and not st.cl.get("stop"), "%s waits for connections in a state in which stopping does not wake it" % E.stack_repo())
        self.ob(E, site, K4, "bounded wait", args[4] is not NULL, "%s waits without an end, though stopping cannot always wake it" % E.stack_repo())
        st.cl["chk"] = 0
        return [("ret", self.new(E, st, site, "sel"), st)]

    def alive(self, E, st, site):
        self.ob(E, site, K4, "looked", bool(st.cl.get("chk")) and not st.cl.get("stop"), "%s goes on without looking whether the receiver was stopped" % E.stack_repo())

    def c_accept(self, E, st, site, args):
        self.alive(E, st, site)
        return self.opened(E, st, site)

    def c_accept4(self, E, st, site, args):
        return self.c_accept(E, st, site, args)

    def used(self, E, st, site):
        self.ob(E, site, K6, "dropped", "used" not in st.cl, "%s keeps a connection that was read from: what comes next is not the start of a message" % E.stack_repo())

    def c_recv(self, E, st, site, args):
        return self.c_read(E, st, site, args)

    def c_read(self, E, st, site, args):
        self.alive(E, st, site)
        fd, dst, n = args[:3]
        k = const_(st, n)
        st.cl.pop("kind", None)
        root = split(dst)[0]
        if root.k == "al" and k is not None and root is not st.cl.get("cont"):
            self.used(E, st, site)
            self.ob(E, site, K1, "length read", k == self.hdr, "%s reads a length of %d bytes where one of %s is sent" % (E.stack_repo(), k, self.hdr))
            self.over(E, st)
            st.cl["used"] = 1
            full, part = st.copy(), st.copy()
            v = self.new(E, full, site, "len")
            full.cl["len"] = v
            full.cl["hdr"] = "full"
            E.store(full, dst, v, k)
            part.cl["hdr"] = "part"
            E.store(part, dst, mk("junk", site.ctx, site.idx), k)
            out = [("ret", mk("c", k), full), ("ret", mk("c", 1), part)]
            for x in (NULL, ERR):
                s = st.copy()
                s.cl["hdr"] = "none%d" % x.a[0]
                out.append(("ret", x, s))
            return out
        return self.piece(E, st, site, args)

    def size(self, E, st):
        return E.load(st, SIZE, 8) if st.cl.get("sized") else None

    def piece(self, E, st, site, args):
        fd, dst, n = args[:3]
        cont = st.cl.get("cont")
        off = offset(dst, mk("chars", cont)) if cont is not None else None
        size, total = self.size(E, st), self.total(st)
        ok = off is not None and size is not None
        self.ob(E, site, K1, "room", ok and linear(off, n) == linear(size), "%s reads into memory it has not made room for" % E.stack_repo())
        self.ob(E, site, K2, "in order", ok and linear(off) == total, "%s does not put the bytes one after the other" % E.stack_repo())
        self.ob(E, site, K2, "after the length", st.cl.get("hdr") == "full", "%s goes on reading though the length was not complete" % E.stack_repo())
        out = []
        s = st.copy()
        r = self.went(E, s, site, "rd")
        if r is not None:
            s.assume(mk("icmp", "slt", NULL, r), True)
            out.append(("ret", r, s))
        for x in (NULL, ERR):
            s = st.copy()
            s.cl["broken"] = x.a[0]
            out.append(("ret", x, s))
        return out

    def could(self, E, st):
        """the own address fits, and there was a descriptor to connect with"""
        k = self.size_key(E, st, mk("qry", "size", self.want))
        return "nofd" not in st.cl and values(st, k, (0, 1, 20, 50, 100, 107))

    def bounded(self, E, st, v):
        if self.total(st) == linear(v):
            return True
        # what was read already, and a bounded rest
        l = dict(linear(v))
        if self.counts(l):
            return True
        for w, t in st.facts.items():
            if w.k == "icmp" and w.a[0] == "ult":
                c, x = (w.a[1], w.a[2]) if not t else (w.a[2], w.a[1])
                if c.k == "c" and 0 <= c.a[0] <= 1 << 24:
                    r = dict(l)
                    for k, n in linear(x):
                        r[k] = r.get(k, 0) - n
                    if self.counts({k: n for k, n in r.items() if n}):
                        return True
        return False

    def counts(self, l):
        return all(n <= 1 << 24 if k is None else n == 1 and k.k == "rd" for k, n in l.items())

    def other(self, E, st, site, q, args):
        a = args[0] if args else None
        n = q.split("::")[-1]
        if q.startswith("std::basic_string::") and isinstance(a, V) and a.k == "al" and ("hdr" in st.cl):
            if n == "resize":
                self.ob(E, site, K1, "bounded", self.bounded(E, st, args[1]), "%s makes room for as many bytes as a peer claims to send" % E.stack_repo())
                E.store(st, SIZE, bare(args[1]), 8)
                st.cl["sized"], st.cl["cont"] = 1, a
                return [("ret", None, st)]
            if a is st.cl.get("cont"):
                if n in ("size", "length"):
                    return [("ret", self.size(E, st), st)]
                if n in ("data", "c_str"):
                    return [("ret", mk("chars", a), st)]
                if n in ("operator[]", "at"):
                    return [("ret", mk("idx", mk("chars", a), args[1], 1), st)]
        if q.startswith("std::vector::") and n in ("push_back", "emplace_back") and len(args) > 1 and split(args[1])[0].k == "al":
            fd = bare(E.load(st, args[1], 4))
            if fd.k == "fd" or isneg(fd) or fd.k == "init":
                self.ob(E, site, K3, "kept connection", fd in st.cl.get("open", ()), "%s keeps a connection that could not be accepted" % E.stack_repo())
                vs = values(st, fd, (0, 5, 1023, 1024, 1025, 5000))
                self.ob(E, site, K1, "waited for", not vs & {1024, 1025, 5000}, "%s keeps a descriptor that is too large for the set it waits with" % E.stack_repo())
                st.cl["open"] = st.cl.get("open", frozenset()) - {fd}
                E.store(st, args[1], ERR, 4)
                return None
        if q == "std::vector::erase" and "used" in st.cl:
            self.over(E, st)
        if q == "std::function::operator()" and split(a) == (self.this, 0):
            return self.passed(E, st, site, args)
        return Sys.other(self, E, st, site, q, args)

    def passed(self, E, st, site, args):
        self.alive(E, st, site)
        L, size = st.cl.get("len"), self.size(E, st)
        ok = st.cl.get("hdr") == "full"
        if size is None:
            size = NULL
            same = True
        else:
            same = args[1] is st.cl.get("cont")
        come = self.total(st) == linear(size) or self.reached(st, size)
        full = L is not None and (linear(size) == linear(L) or self.reached(st, L))
        self.ob(E, site, K2, "complete", ok and come and full, "%s passes on a message that is not complete" % E.stack_repo())
        self.ob(E, site, K2, "its bytes", same, "%s passes on other bytes than it read" % E.stack_repo())
        self.ob(E, site, K2, "once", not st.cl.get("gave"), "%s passes a message on twice" % E.stack_repo())
        st.cl.pop("hdr", None)
        st.cl["gave"] = 1
        return [("ret", None, st), ("throw", mk("exc", "callback", "_ZTISt9bad_alloc"), st.copy())]


SUN = 110
SIZE = mk("g", "ghost size")


class Init(Recv):
    def __init__(self, ck, f):
        Recv.__init__(self, ck, f)
        self.want = arg(f, 1)

    def wanted(self, E, st):
        return [E.load(st, self.want, 8, "p"), init(self.want)]

    def step(self, E, st, site, args, name, after):
        self.ob(E, site, K5, "steps", bare(args[0]) in st.cl.get("open", ()) and (after is None or after in st.cl), "%s prepares a socket that is not ready for it" % E.stack_repo())
        out = self.fork(st, NULL, ERR)
        out[0][2].cl[name] = 1
        return out

    def c_bind(self, E, st, site, args):
        self.address(E, st, site, args)
        return self.step(E, st, site, args, "bound", None)

    def c_listen(self, E, st, site, args):
        return self.step(E, st, site, args, "listening", "bound")


def ready(ck):
    f = ck.fn(RI + "::init")[0]
    r = Init(ck, f)
    E, out = ck.run(f, r)
    ok = 0
    off = next(m[1] for m in layout(ck, RI) if m[3].endswith("AutoCloseFD"))
    for k, v, st, line in out:
        if k != "ret":
            continue
        loc = where(f, line)
        up = "listening" in st.cl
        t = const_(st, v) if v is not None else None
        if t is None:
            raise AnalysisError("what %s returns is unknown" % f.q)
        ck.ob(K5, "answer", bool(t) == up, "%s says that it is ready though it is not, or the other way round" % f.q, loc)
        ck.ob(K5, "state", (st.cl.get("S") == r.en["Initialized"]) == up, "%s makes a receiver startable that is not ready, or the other way round" % f.q, loc)
        r.leaks(E, st, line)
        if up:
            ok += 1
            fd = bare(E.load(st, ptr(r.this, off), 4))
            ck.ob(K5, "socket", fd.k == "fd", "%s does not keep the socket it prepared" % f.q, loc)
            ck.ob(K5, "own address", E.load(st, ptr(r.this, next(m[1] for m in layout(ck, RI) if m[3] == "maf::messaging::Address")), 8, "p") is init(r.want),
                  "%s does not keep the address it listens on: stopping could not wake it" % f.q, loc)
            ck.ob(K1, "waited for", not values(st, fd, (0, 5, 1023, 1024, 1025, 5000)) & {1024, 1025, 5000}, "%s keeps a descriptor that is too large for the set it waits with" % f.q, loc)
    some(ck, ok, "a receiver can be prepared")


class Stop(Recv):
    def __init__(self, ck, f):
        Recv.__init__(self, ck, f)
        self.want = ptr(self.this, next(m[1] for m in layout(ck, RI) if m[3] == "maf::messaging::Address"))


def stopped(ck):
    for f in ck.fn(RI + "::stop") + dtors(ck, RI):
        r = Stop(ck, f)
        E, out = ck.run(f, r)
        for k, v, st, line in out:
            loc = where(f, line)
            ck.ob(K4, "stopped", st.cl.get("stored") or st.cl.get("S") == r.en["Stopped"], "%s leaves a receiver that can go on" % f.q, loc)
            if k == "ret" and st.cl.get("old", r.en["WaitingConnection"]) == r.en["WaitingConnection"] and st.cl.get("stored"):
                ck.ob(K4, "woken", "tried" in st.cl or not r.could(E, st), "%s does not wake a receiver that waits" % f.q, loc)
            r.leaks(E, st, line)


def dtors(ck, q):
    c = q.split("::")[-1]
    r = [f for f in ck.fn(q + "::~" + c)]
    return r[:1]


@prop("I01", "typestate over the receiving loop with every system call succeeding in part, in full, or not at all", "The Unix implementation.")
def receiving(ck):
    f = ck.fn(RI + "::start")[0]
    r = Recv(ck, f)
    r.hdr = header(ck)
    E = Engine(ck.P, r, 4000000)
    E.K, E.KLOOP, E.KRET = 16, 8, 12
    E, out = ck.run(f, r, engine=E)
    for k, v, st, line in out:
        loc = where(f, line)
        ck.ob(K4, "no exception", k == "ret", "%s ends with an exception" % f.q, loc)
        r.leaks(E, st, line)
        if "waited" in st.cl and k == "ret":
            ck.ob(K4, "unbound", "unbound" in st.cl or st.eq.get(init(ptr(r.this, r.sock))) in (-1, 0xffffffff), "%s ends with a socket that others can still connect to" % f.q, loc)
            ck.ob(K4, "ended", st.cl.get("S") == r.en["Stopped"], "%s ends without being stopped: it could be started again without its socket" % f.q, loc)
    ready(ck)
    stopped(ck)
    moves(ck)


class Own(Sys):
    def c_close(self, E, st, site, args):
        st.cl["closed"] = st.cl.get("closed", ()) + (bare(args[0]),)
        return [("ret", NULL, st)]


def moves(ck):
    """a descriptor has one owner"""
    for f in ck.P.fns.values():
        if not f.q.startswith(FD + "::") or f.blocks is None:
            continue
        n = f.q.split("::")[-1]
        if n not in ("AutoCloseFD", "operator=", "~AutoCloseFD", "reset"):
            continue
        r = Own(ck, f, FD)
        E, out = ck.run(f, r)
        src = arg(f, 1) if len(f.args) > 1 and f.args[1][0] >= 0 and ck.P.types[f.args[1][0]]["k"] in ("ptr", "ref", "rref") else None
        for k, v, st, line in out:
            loc = where(f, line)
            mine = init(r.this)
            c = st.cl.get("closed", ())
            if src is not None:
                ck.ob(K3, "handed over", bare(E.load(st, r.this, 4)) is init(src) and const_(st, E.load(st, src, 4)) in (-1, 0xffffffff), "%s leaves a descriptor with two owners, or none" % f.q, loc)
            if n != "AutoCloseFD":
                none = (mine, -1) not in st.ne and st.eq.get(mine) in (-1, 0xffffffff)
                ck.ob(K3, "closed when dropped", c == (mine,) or none and not c, "%s does not close the descriptor it gives up exactly once" % f.q, loc)


class Send(Pieces, Sys):
    """bytes written: the length first, then the payload"""

    def __init__(self, ck, f):
        Sys.__init__(self, ck, f, SI)
        self.payload = arg(f, 1)
        self.want = arg(f, 2)

    def c_write(self, E, st, site, args):
        return self.c_send(E, st, site, args)

    def c_sendmsg(self, E, st, site, args):
        raise AnalysisError("messages are sent in a way that is not understood")

    c_sendto = c_writev = c_sendmsg

    def c_send(self, E, st, site, args):
        fd, src, n = args[:3]
        fl = const_(st, args[3]) if len(args) > 3 else 0
        self.ob(E, site, S2, "no signal", fl is not None and fl & 0x4000, "%s writes in a way that ends the process when the receiver is gone" % E.stack_repo())
        self.ob(E, site, S1, "connected", bare(fd) is st.cl.get("connected") and bare(fd) in st.cl.get("open", ()), "%s writes to a descriptor that is not connected" % E.stack_repo())
        L = mk("qry", "size", self.payload)
        if not st.cl.get("hdr"):
            v = E.load(st, src, const_(st, n) or 4)
            self.ob(E, site, S3, "length first", split(src)[0].k == "al" and const_(st, n) in (4, 8) and linear(v) == linear(self.size_key(E, st, L)), "%s does not start with the length of the message" % E.stack_repo())
            self.ob(E, site, S3, "length fits", not (const_(st, n) == 4 and any(x > 0xffffffff for x in values(st, self.size_key(E, st, L), (0, 1, 0xffffffff, 1 << 32, (1 << 32) + 5, 1 << 40)))), "%s sends a length that does not fit" % E.stack_repo())
            out = []
            for val, h in ((mk("c", const_(st, n) or 4), "full"), (mk("c", 1), "part"), (ERR, "none")):
                s = st.copy()
                s.cl["hdr"] = h
                out.append(("ret", val, s))
            return out
        st.cl.pop("all", None)
        off = self.place(src)
        self.ob(E, site, S3, "after the length", st.cl["hdr"] == "full", "%s sends bytes though the length was not sent" % E.stack_repo())
        ok = off is not None
        self.ob(E, site, S3, "in order", ok and linear(off) == self.total(st), "%s does not send the bytes one after the other" % E.stack_repo())
        self.ob(E, site, S3, "within", ok and self.inside(E, st, off, n), "%s sends bytes that are not part of the message" % E.stack_repo())
        out = []
        s = st.copy()
        r = self.went(E, s, site, "wr")
        if r is not None:
            s.ne = s.ne | {(r, -1), (r, 0xffffffff), (r, 2 ** 64 - 1)}
            s.assume(mk("icmp", "slt", r, NULL), False)
            out.append(("ret", r, s))
        s2 = st.copy()
        s2.cl["failed"] = 1
        return out + [("ret", ERR, s2)]

    def place(self, src):
        """how far into the payload"""
        for x in leaves(src):
            if x.k == "res" and x.a[3] and x.a[3][0] is self.payload and x.a[2].startswith("std::basic_string::"):
                o = offset(src, x)
                n = x.a[2].split("::")[-1]
                if o is not None and n in ("data", "c_str"):
                    return o
                if o is not None and n in ("operator[]", "at"):
                    return mk("add", o, x.a[3][1])
        return None

    def inside(self, E, st, off, n):
        L = self.size_key(E, st, mk("qry", "size", self.payload))
        return linear(off, n) == linear(L)

    def on_branch(self, E, st, site, v, truth):
        # known here, not where ways to get here come together
        if st.cl.get("hdr") == "full" and self.all_sent(E, st):
            st.cl["all"] = 1

    def all_sent(self, E, st):
        if st.cl.get("all"):
            return True
        L = self.size_key(E, st, mk("qry", "size", self.payload))
        return st.cl.get("hdr") == "full" and self.reached(st, L)


def header(ck):
    """the number of bytes the length is sent in"""
    class H(Send):
        n = None

        def ob(self, E, site, clause, what, ok, msg):
            pass

        def c_send(self, E, st, site, args):
            if not st.cl.get("hdr"):
                self.n = const_(st, args[2])
            return Send.c_send(self, E, st, site, args)
    for f in ck.fn(SI + "::send"):
        if "Address" in f.dem.split("(")[-1]:
            h = H(ck, f)
            Engine(ck.P, h).run(f)
            return h.n


@prop("I02", "typestate over sending with every system call succeeding in part, in full, or not at all", "The Unix implementation.")
def sending(ck):
    acs = enum(ck, "maf::messaging::ActionCallStatus")
    av = enum(ck, "maf::messaging::Availability")
    fs = [f for f in ck.fn(SI + "::send") if "Address" in f.dem.split("(")[-1]]
    some(ck, fs, "a way to send")
    good = 0
    for f in fs:
        r = Send(ck, f)
        E, out = ck.run(f, r)
        for k, v, st, line in out:
            loc = where(f, line)
            r.leaks(E, st, line)
            r.kept_names(E, st, line)
            if k != "ret":
                continue
            n = const_(st, v)
            if n is None:
                raise AnalysisError("what %s returns is unknown" % f.q)
            if n == acs["Success"]:
                good += 1
                ck.ob(S1, "complete", r.all_sent(E, st), "%s reports success for a message that was not written completely" % f.q, loc)
            elif r.all_sent(E, st) and not st.cl.get("failed"):
                ck.ob(S1, "reported", False, "%s reports a failure for a message that was written" % f.q, loc)
            if "tried" in st.cl and "connected" not in st.cl:
                ck.ob(S5, "gone", n == acs["ReceiverUnavailable"], "%s does not report that the receiver is gone" % f.q, loc)
    some(ck, good, "a message can be sent")
    yes = 0
    for f in ck.fn(SI + "::checkReceiverStatus"):
        r = Sys(ck, f, SI)
        r.want = arg(f, 1)
        E, out = ck.run(f, r)
        for k, v, st, line in out:
            loc = where(f, line)
            r.leaks(E, st, line)
            r.kept_names(E, st, line)
            if k != "ret":
                continue
            n = const_(st, v)
            yes += n == av["Available"]
            ck.ob(S5, "answer", n == (av["Available"] if "connected" in st.cl else av["Unavailable"]), "%s does not say what connecting said" % f.q, loc)
    some(ck, yes, "a receiver can be available")


def some(ck, n, what):
    if not n and not ck.viol:
        raise AnalysisError("no path on which " + what)
