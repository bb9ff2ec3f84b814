"""E01 reading serialized data, E02 what is written is what is read"""
from .util import *
from .clientserver import *

NS = "maf::srz::"
SER, DES, SIZ = NS + "serialize", NS + "deserialize", NS + "serializedSize"
STREAM = re.compile(r"(BasicIByteStream|OByteStream)::(\w+)$")
NUM = {"bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "float": 4,
       "wchar_t": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "double": 8, "char16_t": 2, "char32_t": 4}
K1 = "a value was read only if every part of it was read"
K2 = "nothing that could not be read becomes part of the value"
K3 = "a container or text gets the number of elements that was announced, and room only for what comes"
K4 = "a byte stream never reads past its end, and stays failed"
K5 = "a failed read is reported to the caller"
W1 = "a value is read back in the parts it was written in"
W2 = "the announced size is that of the parts"
W3 = "what is written comes after what was written before, completely"
W4 = "a message is read back with the fields it was written with"
SMALL = tuple(range(0, 24)) + (65535, 65536, 65537, 2 ** 31, 2 ** 32 - 1)


def split_targs(s):
    """the template arguments at the start of s (after the opening <)"""
    out, d, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "<([{":
            d += 1
        elif c in ">)]}":
            if c == ">" and s[i - 1] == "-":
                pass
            elif d == 0:
                break
            else:
                d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    out.append(cur.strip())
    return out


def norm(t):
    t = t.replace("__cxx11::", "")
    t = re.sub(r"\bconst\b|&", "", t)
    return re.sub(r"\s+", " ", re.sub(r"\s*([<>,*])\s*", r"\1", t)).strip()


def vtype(f):
    """the type of the value an instance of one of the functions handles"""
    i = f.dem.index(f.q + "<") + len(f.q) + 1
    a = split_targs(f.dem[i:])
    return norm(a[0] if f.q == SIZ else a[1])


def stream_of(f):
    i = f.dem.index(f.q + "<") + len(f.q) + 1
    return norm(split_targs(f.dem[i:])[0])


_w = {}


def width(P, t):
    if t in NUM:
        return NUM[t]
    if id(P) not in _w:
        _w.clear()
        _w[id(P)] = {x["n"]: x["s"] for x in P.types if x["k"] == "enum"}
    return _w[id(P)].get(t)


def ev(v, env):
    """value of a pure expression, None if not known"""
    if v in env:
        return env[v]
    if v.k == "c":
        return v.a[0]
    if v.k == "icmp":
        a, b = ev(v.a[1], env), ev(v.a[2], env)
        if a is None or b is None:
            return None
        return int({"eq": a == b, "ne": a != b, "ult": (a & M64) < (b & M64), "slt": a < b, "ule": (a & M64) <= (b & M64), "sle": a <= b}.get(v.a[0]))
    if v.k == "not":
        a = ev(v.a[0], env)
        return None if a is None else int(not a)
    if v.k == "cast":
        a = ev(v.a[1], env)
        if a is None:
            return None
        if v.a[0] == "trunc":
            return a & ((1 << v.a[3]) - 1)
        if v.a[0] == "sext" and a >> (v.a[2] - 1) & 1:
            return a - (1 << v.a[2])
        return a & ((1 << v.a[2]) - 1) if v.a[0] == "zext" else a
    if v.k in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr"):
        a, b = ev(v.a[0], env), ev(v.a[1], env)
        if a is None or b is None:
            return None
        return {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b, "shl": a << (b & 63), "lshr": (a & M64) >> (b & 63)}[v.k]
    return None


M64 = 2 ** 64 - 1


def values(st, g, cands=SMALL):
    """those of the candidate values the facts of this path allow for g"""
    out = []
    for n in cands:
        env = {g: n}
        ok = True
        for v, t in st.facts.items():
            if g in leaves(v):
                x = ev(v, env)
                ok = ok and (x is None or bool(x) == t)
        for v, x in st.eq.items():
            if g in leaves(v):
                y = ev(v, env)
                ok = ok and (y is None or y == x)
        for v, x in st.ne:
            if g in leaves(v):
                y = ev(v, env)
                ok = ok and (y is None or y != x)
        if ok:
            out.append(n)
    return frozenset(out)


class Sz(R):
    throws = ()

    def __init__(self, ck, f, kind, value, stream=None, T="", ok=False):
        self.ck, self.f, self.kind, self.value, self.stream, self.T = ck, f, kind, value, stream, T
        self.quiet = ok

    def at(self, E, site):
        fn = next((x for x in reversed(E.stack) if E.p.is_repo(x)), self.f)
        return where(fn, site.line if site is not None and E.p.is_repo(site.fn) else None)

    def ob(self, clause, what, ok, msg, loc):
        self.ck.ob(clause, "%s of %s" % (what, self.T), ok, msg, loc)

    # ---- the name of the place of a part
    def place(self, E, st, addr, T, n, deep=True):
        r, o = split(addr)
        if r is self.value:
            return ("at", o)
        if r.k == "init":
            b, o2 = split(r.a[0])
            if b is self.value:
                return ("ref", o2, o)
        if r.k == "elem" and (r.a[0].k == "contof" or split(E.canon(st, r.a[0]))[0] is self.value):
            return ("elem", o)
        if r.k == "res" and str(r.a[2]).split("::")[-1] in ("get", "__get") and r.a[3] and r.a[3][0] is self.value:
            return ("alt", o)
        if r.k in ("al", "heap") and deep:
            if T.startswith("std::tuple<"):
                return ("tuple",) + tuple(self.place(E, st, v[0], "", None, False) for (b, off), v in sorted(((k, v) for k, v in st.mem.items() if k[0] is r and v[1] == 8), key=lambda kv: kv[0][1]))
            if n or T.endswith("*"):
                v = E.load(st, addr, n or 8)
                return self.source(E, st, v)
            return ("local", addr)
        return ("?", show(addr)[:60])

    def source(self, E, st, v):
        w = v
        while w.k == "cast":
            w = w.a[1]
        if v.k == "c":
            return ("const", frozenset((v.a[0],)))
        if w.k == "qry" and w.a[0] == "size" and split(w.a[1])[0] is self.value:
            return ("size",)
        if w.k == "init" and split(w.a[0])[0] is self.value:
            o = split(w.a[0])[1]
            return ("copy", o, values(st, w))
        if w.k == "res" and str(w.a[2]) == "std::variant::index" and w.a[3][0] is self.value or w.k == "qry" and w.a[0] == "index" and w.a[1] is self.value:
            return ("copy", "index", values(st, w))
        if w.k == "phi" or w.k == "hav":
            return ("?", w.k)
        return ("?", show(v)[:60])

    def add(self, st, e):
        evs = st.cl.get("ev", ())
        if evs and evs[-1] == e:
            if e[0] == "chars":
                return
            st.cl["n"] = sat(st.cl.get("n", 1) + 1, 3)
            return
        if len(evs) < 12:
            st.cl["ev"] = evs + (e,)
            if e[-1][0] in ("elem", "into"):
                st.cl["n"] = 1

    def fresh(self, E, st, site, tag="got"):
        v = mk(tag, site.ctx, site.idx, E.stack[-1].name if E.stack else "")
        E.kill_defs(st, None, v)
        return v

    def on_call(self, E, st, site, q, args):
        if q in (SER, DES, SIZ):
            return self.nested(E, st, site, q, args)
        m = STREAM.search(q)
        if m and self.stream is not None and args and args[0] is self.stream:
            return self.streamop(E, st, site, m.group(2), args)
        if self.kind != "des" and q.endswith("operator++") and "iterator" in q.lower():
            self.ob(W1 if self.kind == "ser" else W2, "every element", bool(st.cl.get("here")), "%s passes over an element" % E.stack_repo(), self.at(E, site))
            st.cl.pop("here", None)
        if self.kind == "des":
            self.consumed(E, st, site, q, args)
            self.room(E, st, site, q, args)
        if q in ("operator delete",) and args[0].k == "heap":
            st.cl["freed"] = args[0]
        return None

    def nested(self, E, st, site, q, args):
        f = callee(E, site)
        T = vtype(f)
        n = width(E.p, T)
        loc = self.at(E, site)
        if q == SIZ:
            if self.kind != "size":
                return None
            st.cl["n"] = sat(st.cl.get("n", 0) + 1, 3) if self.place(E, st, args[0], T, n)[0] == "elem" else st.cl.get("n", 0)
            if self.place(E, st, args[0], T, n)[0] == "elem":
                st.cl["here"] = 1
            if n:
                return [("ret", mk("c", n), st)]
            return [("ret", mk("sizeof", T, self.place(E, st, args[0], T, n)[0], sat(st.cl.get("n", 0), 3)), st)]
        self.ob(W1, "stream", args[0] is self.stream, "%s uses another stream for a part" % E.stack_repo(), loc)
        p = self.place(E, st, args[1], T, n)
        if q == SER:
            if p[0] == "elem":
                st.cl["here"] = 1
            self.add(st, ("num", n, p) if n else ("part", T, p))
            return [("ret", None, st)]
        return self.got(E, st, site, T, n, args[1], p, ("num", n) if n else ("part", T))

    def got(self, E, st, site, T, n, addr, p, what, ret=True):
        """a part is read: or not"""
        s2 = st.copy()
        s2.cl["bad"] = 1
        r, o = split(addr)
        if r.k in ("al", "heap"):
            p = ("local", addr)
            if n or T.endswith("*"):
                v = self.fresh(E, st, site)
                E.store(st, addr, v, n or 8)
                p = ("got", v)
                E.store(s2, addr, self.fresh(E, s2, site, "junk"), n or 8)
            if T.startswith("std::tuple<"):
                p = self.place(E, st, addr, T, n)
        pend = [e for e in st.cl.get("ev", ()) if e[-1][0] == "local" and e[-1][1] is addr]
        self.ob(K3, "element kept", not pend, "%s reads an element and drops it" % E.stack_repo(), self.at(E, site))
        self.add(st, what + (p,))
        return [("ret", mk("c", 1) if ret else None, st), ("ret", mk("c", 0) if ret else None, s2)]

    def streamop(self, E, st, site, n, args):
        if n in ("fail", "good"):
            b = bool(st.cl.get("sbad"))
            return [("ret", mk("c", int(b == (n == "fail"))), st)]
        if n == "read" and self.kind == "des":
            if st.cl.get("sbad"):
                return [("ret", None, st)]
            k = const(st, args[2])
            if k is not None and k <= 16:
                out = self.got(E, st, site, "", k if split(args[1])[0].k in ("al", "heap") else None, args[1], self.place(E, st, args[1], "", k), ("num", k), False)
            else:
                out = self.chars(E, st, site, args)
            out[1][2].cl["sbad"] = 1
            return out
        if n == "write" and self.kind == "ser":
            k = const(st, args[2])
            if k is not None and k <= 16:
                self.add(st, ("num", k, self.place(E, st, args[1], "", k)))
            else:
                r = args[1]
                ok = r.k == "res" and str(r.a[2]).split("::")[-1] in ("c_str", "data") and split(r.a[3][0])[0] is self.value
                l, sz = self.times(args[2])
                self.add(st, ("chars", l if ok and sz.k == "qry" and sz.a[0] == "size" and split(sz.a[1])[0] is self.value else None, ("all",)))
            return [("ret", None, st)]
        return None

    def times(self, v):
        while v.k == "cast":
            v = v.a[1]
        if v.k == "mul" and any(x.k == "c" for x in v.a):
            c = next(x for x in v.a if x.k == "c")
            o = v.a[1] if v.a[0] is c else v.a[0]
            while o.k == "cast":
                o = o.a[1]
            return c.a[0], o
        return 1, v

    def chars(self, E, st, site, args):
        """characters are read into a text, piece by piece"""
        loc = self.at(E, site)
        k, cnt = self.times(args[2])
        if cnt.k == "c" and k == 1:
            k = self.cw
            cnt = mk("c", cnt.a[0] // k)
        d = args[1]
        pos = None
        r, o = split(d)
        if r.k == "elem" and split(r.a[0])[0] is self.value and r.a[1].k == "at":
            pos = r.a[1].a[-1]
        elif r.k == "res" and str(r.a[2]).split("::")[-1] in ("operator[]", "at") and r.a[3] and r.a[3][0] is self.value:
            pos = r.a[3][1]
        elif r.k == "res" and str(r.a[2]).split("::")[-1] in ("data",) or r is self.value:
            pos = NULL
            pos = mk("c", o // k) if o else pos
        elif r.k == "idx":
            pos = r.a[1]
        pos = bare(pos) if isinstance(pos, V) else None
        size = st.cl.get("size")
        size = bare(size) if size is not None else None
        want = linear(pos, cnt) if pos is not None else None
        self.ob(K3, "room", size is not None and want is not None and (linear(size) == want or pos.k == "c" and pos.a[0] == 0 and linear(size) == linear(cnt)),
                "%s reads characters where it has made no room for them" % E.stack_repo(), loc)
        last = st.cl.get("done")
        ok = pos is not None and (pos.k == "c" and pos.a[0] == 0 if last is None else last == "many" or pos.k in ("phi", "hav") or linear(pos) == last)
        self.ob(K3, "piece", ok, "%s does not read the characters one after the other" % E.stack_repo(), loc)
        st.cl["dn"] = st.cl.get("dn", 0) + (st.cl.get("dn", 0) < 3)
        st.cl["done"] = want if st.cl["dn"] < 3 else "many"
        st.cl.pop("size", None)
        st.cl["sized"] = 1
        s2 = st.copy()
        s2.cl["bad"] = 1
        self.add(st, ("chars", k, ("all",)))
        return [("ret", None, st), ("ret", None, s2)]

    def room(self, E, st, site, q, args):
        co = cont_op(E, site, q, args)
        if q.startswith("std::basic_string::"):
            co = ("std::basic_string", q.split("::")[-1], args[0])
        if not co or split(co[2])[0] is not self.value:
            return
        if co[1] in ("reserve", "resize"):
            v = args[1]
            if co[1] == "resize":
                st.cl["size"] = v
            self.ob(K3, "bounded", self.bounded(st, v), "%s makes room for as many elements as the data claims, before any was read" % E.stack_repo(), self.at(E, site))
        if co[1] == "clear":
            st.cl["cleared"] = 1

    def bounded(self, st, v, d=0):
        v = bare(v)
        if v.k == "c":
            return v.a[0] <= 1 << 24
        if v.k in ("phi", "hav"):
            return d > 0
        if v.k == "mul" and any(x.k == "c" for x in v.a):
            return all(x.k == "c" or self.bounded(st, x, d) for x in v.a)
        lim = [w.a[1].a[0] for w, t in st.facts.items() if w.k == "icmp" and w.a[0] == "ult" and not t and bare(w.a[2]) is v and w.a[1].k == "c"]
        lim += [w.a[2].a[0] for w, t in st.facts.items() if w.k == "icmp" and w.a[0] == "ult" and t and bare(w.a[1]) is v and w.a[2].k == "c"]
        lim += [x for w, x in st.eq.items() if w is v]
        if any(x <= 1 << 24 for x in lim):
            return True
        if v.k in ("add", "sub"):
            if v.k == "add":
                # done + (size - done) with size - done bounded
                return all(self.bounded(st, x, d + 1) for x in v.a) or d == 0 and self.rest(st, v)
            return False
        return False

    def rest(self, st, v):
        """the sum is what was read and a bounded rest"""
        for x in v.a:
            if self.bounded(st, x, 1):
                y = v.a[1] if x is v.a[0] else v.a[0]
                if y.k in ("phi", "hav", "c"):
                    return True
        l = linear(v)
        # facts may bound the rest size - done under another name
        for w, t in st.facts.items():
            if w.k == "icmp" and w.a[0] == "ult" and not t and w.a[1].k == "c" and w.a[1].a[0] <= 1 << 24:
                r = dict(l)
                for k, n in linear(bare(w.a[2])):
                    r[k] = r.get(k, 0) - n
                r = {k: n for k, n in r.items() if n}
                if all(k is None or k.k in ("phi", "hav") for k in r):
                    return True
        return False

    def consumed(self, E, st, site, q, args):
        """a local that was read becomes part of the value"""
        evs = st.cl.get("ev", ())
        if not args or not isinstance(args[0], V) or not q.startswith("std::"):
            return
        f = callee(E, site)
        a = args[1:] if f is not None and f.args and f.args[0][3] else args
        if not a or split(a[0])[0] is not self.value:
            return
        nm = q.split("::")[-1]
        op = nm not in ("clear", "reserve", "resize", "size", "empty", "begin", "end", "data", "max_size", "capacity")
        for i, e in enumerate(evs):
            p = e[-1]
            hit = p[0] == "local" and any(x is p[1] for x in a[1:]) or p[0] == "got" and any(x is p[1] or isinstance(x, V) and split(x)[0].k == "al" and E.load(st, x, 8) is p[1] for x in a[1:])
            if hit and op:
                self.ob(K2, "kept", not st.cl.get("bad"), "%s keeps an element that could not be read" % E.stack_repo(), self.at(E, site))
                t = e[:-1] + (("into", split(a[0])[1]),)
                st.cl["n"] = sat(st.cl.get("n", 0) + 1, 3)
                if i and evs[i - 1] == t:
                    st.cl["ev"] = evs[:i] + evs[i + 1:]
                else:
                    st.cl["ev"] = evs[:i] + (t,) + evs[i + 1:]
                return
        if op and st.cl.get("bad") and not nm.startswith("~"):
            loc = [x for x in a[1:] if isinstance(x, V) and split(x)[0].k == "al"]
            self.ob(K2, "kept", not loc, "%s keeps an element that could not be read" % E.stack_repo(), self.at(E, site))


def bare(v):
    while v.k == "cast":
        v = v.a[1]
    return v


def linear(*vs):
    """sum of the values as {leaf: factor}, as a frozenset"""
    r = {}

    def go(v, f):
        v = bare(v)
        if v.k == "c":
            r[None] = r.get(None, 0) + f * v.a[0]
        elif v.k == "add":
            for x in v.a:
                go(x, f)
        elif v.k == "sub":
            go(v.a[0], f)
            go(v.a[1], -f)
        elif v.k == "mul" and v.a[0].k == "c":
            go(v.a[1], f * v.a[0].a[0])
        elif v.k == "mul" and v.a[1].k == "c":
            go(v.a[0], f * v.a[1].a[0])
        else:
            r[v] = r.get(v, 0) + f
    for v in vs:
        go(v, 1)
    return frozenset((k, n) for k, n in r.items() if n)


def arg(f, i):
    return mk("arg", i, f.args[i][2] or ("sret" if f.args[i][3] else ""))


def instances(ck):
    """{type: {ser|des|size: [functions]}}"""
    r = {}
    for f in ck.P.fns.values():
        if f.blocks and f.q in (SER, DES, SIZ):
            r.setdefault(vtype(f), {}).setdefault({SER: "ser", DES: "des", SIZ: "size"}[f.q], []).append(f)
    return r


def short(T):
    return strip_targs(T).replace("std::basic_string", "string") if len(T) > 60 else T


def runs(ck, f, kind, T):
    if kind == "size":
        r = Sz(ck, f, kind, arg(f, 0), None, short(T))
    else:
        r = Sz(ck, f, kind, arg(f, 1), arg(f, 0), short(T))
    r.cw = NUM.get(split_targs(T[T.index("<") + 1:])[0], 1) if T.startswith("std::basic_string<") else 1
    E, out = ck.run(f, r)
    return r, E, [(k, v, st, l) for k, v, st, l in out if k == "ret"]


def final_des(r, E, st):
    """the parts that were read, with those that reached the value at the end"""
    out = []
    for e in st.cl.get("ev", ()):
        p = e[-1]
        w = E.load(st, r.value, 8, "p")
        if p[0] == "got" and w.k == "heap" and E.load(st, w, e[1] if e[0] == "num" else 8) is p[1]:
            p = ("new", 0)
        elif p[0] == "got" and E.load(st, r.value, 8) is p[1]:
            p = ("into", 0, values(st, p[1]))
        elif p[0] == "got":
            p = ("got", values(st, p[1]))
        elif p[0] == "local" and E.load(st, r.value, 8, "p") is p[1]:
            p = ("new", 0)
        out.append(e[:-1] + (p,))
    return tuple(out)


def match(s, d, T):
    """a written sequence and a read one have the same parts; None if they are of different kind, else a complaint or ''"""
    if len(s) != len(d) or any(a[:-1] != b[:-1] for a, b in zip(s, d)):
        return None
    bad = ""
    for a, b in zip(s, d):
        p, q = a[-1], b[-1]
        ok = p == q
        if p[0] == "const":
            if q[0] != "got" or not p[1] <= q[1]:
                return None
            ok = True
        elif p[0] == "copy" and p[1] == "index" and q[0] == "got":
            alts = split_targs(T[T.index("<") + 1:])
            ok = bool(q[1]) and all(i < len(alts) and (s[1][:2] == ("part", alts[i]) or s[1][:2] == ("num", NUM.get(alts[i]))) for i in q[1])
        elif p[0] == "copy" and q[0] == "got":
            if p[2] and not p[2] <= q[1]:
                return None
            ok = True
        elif p[0] == "copy":
            ok = q[0] == "into" and q[1] == p[1]
        elif p[0] == "size":
            ok = q[0] == "got"
        elif p[0] in ("elem", "alt"):
            ok = q[0] == "into"
        elif p[0] == "ref":
            ok = ok or q[0] == "new" and p[1:] == (q[1], 0)
        elif p[0] == "at":
            ok = ok or q[0] == "into" and p[1] == q[1] == 0
        if not ok:
            bad = "%s is written from %s and read into %s" % (a[0] if a[0] != "part" else short(str(a[1])), p, q)
    return bad


@prop("E01", "per-type dataflow of every instance of the reading functions, with every nested read and every read of the stream succeeding or failing",
      "Every instance of the reading functions in the program and in a witness unit that names one type of each kind; user-supplied readers are not known. "
      "Allocation failure is not considered; the value a failed read leaves behind is only required to hold no part that was not read.")
def reading(ck):
    n = 0
    for T, fs in sorted(instances(ck).items()):
        for f in fs.get("des", ()):
            n += 1
            r, E, out = runs(ck, f, "des", T)
            for k, v, st, line in out:
                loc = where(f, line)
                if v is None:
                    raise AnalysisError("%s does not say whether it could read" % f.q)
                t = st.known(v)
                bad = bool(st.cl.get("bad"))
                ck.ob(K1, "true for %s" % r.T, not (bad and t is not False), "%s reports that a %s was read though a part of it was not" % (f.q, r.T), loc)
                range_ = T.startswith("std::variant<")
                ck.ob(K1, "false for %s" % r.T, bad or t is True or range_, "%s reports that a %s could not be read though all of it was" % (f.q, r.T), loc)
                p = [e[-1][1] for e in st.cl.get("ev", ()) if e[-1][0] == "local" and split(e[-1][1])[0].k == "heap"]
                if T.endswith("*"):
                    x = E.load(st, r.value, 8, "p")
                    if bad:
                        ck.ob(K2, "null for %s" % r.T, x is NULL, "%s leaves a pointer to an object that was not read" % f.q, loc)
                continue_count(ck, r, E, st, T, bad, t, loc)
    ck.need(K1, 20)
    for f in ck.P.fns.values():
        if f.blocks and f.q in (NS + "DSR::operator>>", NS + "DSR::deserializeBatch"):
            forwarded(ck, f)
    streams(ck, True)
    translated(ck)


def continue_count(ck, r, E, st, T, bad, t, loc):
    evs = st.cl.get("ev", ())
    f = r.f
    if bad or t is False:
        return
    loc_ = [e for e in evs if e[-1][0] == "local" and split(e[-1][1])[0].k == "al"]
    ck.ob(K3, "all kept of %s" % r.T, not loc_, "%s drops the last element it read" % f.q, loc)
    if evs and evs[0][0] == "num" and evs[0][-1][0] == "got" and len(evs) <= 2 and (len(evs) == 1 or evs[1][-1][0] == "into") and CONT.match(strip_targs(T) + "::x"):
        n = st.cl.get("n", 0) if len(evs) == 2 else 0
        vs = values(st, evs[0][-1][1])
        if n <= 2 and vs:
            ck.ob(K3, "as many as announced of %s" % r.T, vs == frozenset((n,)), "%s ends with %d elements when %s were announced" % (f.q, n, sorted(vs)[:3]), loc)
        ck.ob(K3, "replaced of %s" % r.T, bool(st.cl.get("cleared")), "%s adds to what the container had before" % f.q, loc)
    if T.startswith("std::basic_string<") and T.endswith(">") and evs:
        g = evs[0][-1][1] if evs[0][-1][0] == "got" else None
        if g is not None:
            d = st.cl.get("done")
            vs = values(st, g)
            if d is None:
                ck.ob(K3, "as many as announced of %s" % r.T, vs == frozenset((0,)), "%s reads no characters though some were announced" % f.q, loc)
                ck.ob(K3, "replaced of %s" % r.T, bool(st.cl.get("cleared")) or "size" in st.cl or "sized" in st.cl, "%s keeps what the text had before" % f.q, loc)
            elif d != "many" and not any(k is not None and k.k in ("phi", "hav") for k, _ in d):
                env = [n for n in SMALL if n in vs]
                ok = d == frozenset(((g, 1),)) or all(k is None for k, _ in d) and not [n for n in env if n != dict(d).get(None, 0)]
                ck.ob(K3, "as many as announced of %s" % r.T, ok, "%s does not read as many characters as were announced" % f.q, loc)


class Fwd(R):
    """one nested read or write, done or not"""
    throws = ("throw",)

    def __init__(self):
        self.calls = []

    def on_call(self, E, st, site, q, args):
        if q not in (SER, DES):
            return None
        f = callee(E, site)
        st.cl["args"] = (args[0], self.value(E, st, args[1]))
        st.cl["calls"] = sat(st.cl.get("calls", 0) + 1, 3)
        if q == SER:
            return [("ret", None, st)]
        s2 = st.copy()
        s2.cl["bad"] = 1
        return [("ret", mk("c", 1), st), ("ret", mk("c", 0), s2)]

    def value(self, E, st, addr):
        r, o = split(addr)
        if r.k in ("al", "heap"):
            t = [(off, v[0]) for (b, off), v in st.mem.items() if b is r and v[1] == 8]
            return tuple(v for _, v in sorted(t, key=lambda x: x[0]))
        return addr


def forwarded(ck, f):
    r = Fwd()
    E, out = ck.run(f, r)
    this = arg(f, 0)
    rd = "DSR" in f.q
    own = "Outgoing" in f.q
    vals = [] if own else [arg(f, i) for i in range(1, len(f.args))]
    for k, v, st, line in out:
        loc = where(f, line)
        bad = bool(st.cl.get("bad"))
        if rd:
            ck.ob(K5, "thrown", (k == "throw") == bad, "%s %s" % (f.q, "does not report that a value could not be read" if bad else "reports a value that was read as unreadable"), loc)
        if k == "throw" and not rd:
            continue
        a = st.cl.get("args")
        ok = st.cl.get("calls") == 1 and (a[0] is arg(f, 1) if own else a[0].k == "init" and split(a[0].a[0]) == (this, 0))
        x = a[1] if a else None
        ok = ok and (split(x)[0] is this if own and isinstance(x, V) else bool(vals) and x is vals[0] if isinstance(x, V) else x == tuple(reversed(vals)))
        ck.ob(W1 if not rd else K5, "passed on", bool(ok), "%s does not pass its values on to its stream" % f.q, loc)


GRID = [(s, p, n, b) for s in (1, 2, 5, 6) for p in (0, 1, 3) for n in (0, 1, 2, 5) for b in (0, 1, 3, 4, 5, 6, 8) if p <= b]


def consistent(st, env):
    for v, t in st.facts.items():
        x = ev(v, env)
        if x is not None and bool(x) != t:
            return False
    for v, x in st.eq.items():
        y = ev(v, env)
        if y is not None and y != x:
            return False
    return not any(ev(v, env) == x for v, x in st.ne)


class Move(R):
    """copies between a stream's buffer and memory"""
    throws = ()

    def __init__(self, cont):
        self.cont = cont

    def on_call(self, E, st, site, q, args):
        if re.match(r"(llvm\.)?mem(cpy|move)\b", q) or q in ("std::copy", "std::copy_n"):
            dst, src, n = args[:3]
            if q == "std::copy":
                a, b = (offset(x, mk("chars", self.cont)) for x in (args[0], args[1]))
                if a is None or b is None:
                    a, b = NULL, offset(args[1], args[0]) or mk("?")
                dst, src, n = args[2], args[0], mk("sub", b, a)
            elif q == "std::copy_n":
                dst, src, n = args[2], args[0], args[1]
            st.cl["copies"] = st.cl.get("copies", ()) + ((dst, src, n),)
            st.cl["copied_at"] = st.cl.get("size")
            return [("ret", args[0], st)]
        if q.startswith("std::basic_string::") and args and args[0] is self.cont:
            n = q.split("::")[-1]
            if n == "resize":
                st.cl["size"] = args[1]
                return [("ret", None, st)]
            if n in ("size", "length"):
                return [("ret", st.cl.get("size", mk("qry", "size", self.cont)), st)]
            if n in ("data", "c_str"):
                return [("ret", mk("chars", self.cont), st)]
            if n in ("operator[]", "at"):
                return [("ret", mk("idx", mk("chars", self.cont), args[1], 1), st)]
        return None


def offset(v, base):
    """v as a sum of base and something: that something, else None"""
    if v is base:
        return NULL
    r, o = split(v)
    if r is base:
        return mk("c", o)
    if r.k == "idx" and (len(r.a) < 3 or r.a[2] == 1):
        x = offset(r.a[0], base)
        return None if x is None else mk("add", mk("add", x, bare(r.a[1])), mk("c", o))
    return None


def streams(ck, reads):
    n = 0
    for f in sorted(ck.P.fns.values(), key=lambda f: f.name):
        if not f.blocks or f.q != (NS + "details::BasicIByteStream::read" if reads else NS + "OByteStream::write"):
            continue
        rd = f.q.endswith("read")
        this, buf, size = (arg(f, i) for i in range(3))
        c = strip_targs(f.q).rsplit("::", 1)[0]
        lay = {x["n"]: x["o"] for x in next(t for t in ck.P.types if t["k"] == "class" and t["id"] == f.cls)["fields"]} if False else None
        ref = "const" in f.dem.split("::read")[0] and "&" in f.dem.split("::read")[0]
        lay = (0, 8, 16) if ref else (0, 32, 40)
        at = lambda o: mk("init", ptr(this, o))
        cont = at(0) if ref else this
        r = Move(cont)
        E, out = ck.run(f, r)
        p0, s0, bs = at(lay[1]), at(lay[2]), mk("qry", "size", cont)
        clause = K4 if rd else W3
        for k, v, st, line in out:
            loc = where(f, line)
            n += 1
            p1, s1 = E.load(st, ptr(this, lay[1]), 8), E.load(st, ptr(this, lay[2]), 1)
            for s, p, z, b in GRID:
                env = {s0: s, p0: p, size: z, bs: b}
                if not consistent(st, env):
                    continue
                go = bool(s & 1) and (p + z <= b if rd else True)
                cp = [x for x in st.cl.get("copies", ()) if ev(x[2], env) != 0]
                what = "state %d, position %d, %d of %d bytes" % (s, p, z, b)
                if go and z:
                    ok = len(cp) == 1 and ev(cp[0][2], env) == z
                    if ok:
                        o, m = (offset(cp[0][1 if rd else 0], mk("chars", cont)), cp[0][0 if rd else 1])
                        ok = o is not None and ev(o, env) == p and m is buf
                    room = st.cl.get("copied_at")
                    ok = ok and (rd or ev(room if room is not None else bs, env) >= p + z)
                    ck.ob(clause, "copied", ok, "%s does not copy the bytes at its position (%s)" % (f.q, what), loc)
                else:
                    ck.ob(clause, "not copied", not cp, "%s copies bytes it must not (%s)" % (f.q, what), loc)
                e1 = ev(p1, env)
                ck.ob(clause, "advanced", e1 == (p + z if go else p), "%s moves its position from %d to %s (%s)" % (f.q, p, e1, what), loc)
                e2 = ev(s1, env)
                if rd:
                    ck.ob(clause, "state", e2 is not None and (e2 & 3) == (1 if go else 2), "%s leaves state %s (%s)" % (f.q, e2, what), loc)
    if not reads:
        return
    ck.need(K4, 2)
    queries(ck)
    for f in sorted(ck.P.fns.values(), key=lambda f: f.name):
        m = re.match(NS + r"(IByteStream|IByteStreamView)::(IByteStream|IByteStreamView)$|" + NS + r"details::BasicIByteStream::(moveTo)$", f.q)
        if not f.blocks or not m or len(f.args) != 2 or "IByteStream" not in f.dem[f.dem.rindex("("):]:
            continue
        E, out = ck.run(f, Plain())
        src, dst = (arg(f, 0), arg(f, 1)) if m.group(3) else (arg(f, 1), arg(f, 0))
        form = lambda t: (8, 16) if t else (32, 40)
        view = "View" in f.q or m.group(3) and "const" in f.dem.split("::moveTo")[0]
        dl, sl = form(view), form(view and m.group(3))
        for k, v, st, line in out:
            if k != "ret":
                continue
            for i, w in ((0, 8), (1, 1)):
                got = E.load(st, ptr(dst, dl[i]), w)
                ck.ob(K4, "taken over", bare(got) is mk("init", ptr(src, sl[i])), "%s does not take over the position and state of the other stream" % f.dem[:90], where(f, line))


class Plain(R):
    throws = ()


def queries(ck):
    for f in ck.P.fns.values():
        m = re.match(NS + r"(details::BasicIByteStream|OByteStream)::(good|fail)$", f.q)
        if not m or not f.blocks:
            continue
        this = arg(f, 0)
        E, out = ck.run(f, Plain())
        for k, v, st, line in out:
            for s in (1, 2, 5, 6):
                env = {x: s for w in [v] + list(st.facts) for x in leaves(w) if x.k == "init" and split(x.a[0])[0] is this}
                if consistent(st, env):
                    ck.ob(K4, "asked", ev(v, env) is not None and bool(ev(v, env)) == bool(s & (1 if m.group(2) == "good" else 2)), "%s is wrong about state %d" % (f.q, s), where(f, line))


class Translate(R):
    throws = ("throw",)

    def on_call(self, E, st, site, q, args):
        m = STREAM.search(q)
        if m and m.group(2) in ("fail", "good") and split(args[0])[0].k == "al":
            return [("ret", mk("c", int(bool(st.cl.get("bad")) == (m.group(2) == "fail"))), st)]
        if q != DES:
            return None
        st.cl["stream"] = split(args[0])[0]
        s2 = st.copy()
        s2.cl["bad"] = 1
        st.cl["done"] = 1
        E.store(st, args[1], mk("got", site.ctx, site.idx, ""), 8)
        return [("ret", mk("c", 1), st), ("ret", mk("c", 0), s2)]


def translated(ck):
    en = enum(ck, "maf::messaging::TranslationStatus")
    for f in ck.P.fns.values():
        if not f.blocks or not re.search(r"ipc::local::ParamTrait::translate$", f.q) or len(f.args) < 3:
            continue
        E, out = ck.run(f, Translate())
        status = next((arg(f, i) for i in range(len(f.args)) if f.args[i][2] == "status"), arg(f, len(f.args) - 1))
        res = arg(f, 0)
        for k, v, st, line in out:
            loc = where(f, line)
            if k != "ret":
                continue
            bad, done = bool(st.cl.get("bad")), bool(st.cl.get("done"))
            x = E.load(st, res, 8, "p")
            done = done or not bad and x.k == "init" and x is not NULL and split(x.a[0])[0].k not in ("al", "arg")
            s = st.cl.get("stream")
            if s is not None:
                ck.ob(K5, "own position", s is not None and s.k == "al", "%s reads with the position of the message's own stream: the next one to translate it finds nothing" % f.q, loc)
            told = E.load(st, status, 4)
            told = "nobody" if st.eq.get(status) == 0 or st.known(mk("icmp", "eq", status, NULL)) is True else const(st, told)
            if bad:
                ck.ob(K5, "failure told", told == "nobody" or told is not None and told != en["Success"], "%s reports a message it could not read as %s" % (f.q, told), loc)
                ck.ob(K5, "no content", E.load(st, res, 8, "p") is NULL, "%s returns content that was not read" % f.q, loc)
            if done:
                ck.ob(K5, "success told", told == "nobody" or told == en["Success"], "%s does not report that it could read a message" % f.q, loc)


LM = "maf::messaging::ipc::local::LocalIPCMessage"


class Message(R):
    throws = ("throw",)

    def __init__(self, ck, this):
        self.ck, self.this = ck, this

    def add(self, st, *e):
        if len(st.cl.get("ev", ())) < 16:
            st.cl["ev"] = st.cl.get("ev", ()) + e

    def what(self, E, st, addr, T):
        r, o = split(addr)
        if r is self.this:
            return ("field", o)
        if addr.k in ("errdesc",):
            return (addr.k,)
        if r.k in ("al", "heap"):
            v = bare(E.load(st, addr, width(E.p, T) or 8, None if width(E.p, T) else "p"))
            if v.k == "init" and split(v.a[0])[0] is self.this:
                return ("field", split(v.a[0])[1])
            if v.k in ("ptype", "errcode", "errdesc"):
                return (v.k,)
            if v.k == "c":
                return ("const", v.a[0])
            if v.k == "str":
                return (v.a[0].k,)
        return ("?", show(addr)[:40])

    def on_call(self, E, st, site, q, args):
        if q == "virtual":
            n = vname(E, args[2]) or ""
            if n == "type":
                return [("ret", mk("ptype"), st)]
            if n == "serialize":
                self.add(st, ("payload",))
                return [("ret", mk("c", 1), st)]
            return None
        if q == "maf::messaging::CSError::description":
            return [("ret", mk("errdesc"), st)]
        if q == "maf::messaging::CSError::code":
            return [("ret", mk("errcode"), st)]
        if q == SER or q == DES:
            T = vtype(callee(E, site))
            r, o = split(args[1])
            if q == SER:
                if T.startswith("std::tuple<"):
                    t = [v[0] for (b, off), v in sorted(((k, v) for k, v in st.mem.items() if k[0] is r and v[1] == 8), key=lambda kv: -kv[0][1])]
                    for x, y in zip(t, split_targs(T[11:])):
                        self.add(st, (y,) + self.what(E, st, x, y))
                else:
                    self.add(st, (T,) + self.what(E, st, args[1], T))
                return [("ret", None, st)]
            st.cl["stream"] = args[0]
            s2 = st.copy()
            s2.cl["bad"] = 1
            if T.startswith("std::tuple<") and r.k == "al":
                t = [v[0] for (b, off), v in sorted(((k, v) for k, v in st.mem.items() if k[0] is r and v[1] == 8), key=lambda kv: -kv[0][1])]
                for x, y in zip(t, split_targs(T[11:])):
                    self.add(st, (y, "field", split(x)[1]) if split(x)[0] is self.this else (y, "local", x))
                    E.store(st, x, mk("read", x), width(E.p, y) or 8)
            elif r is self.this:
                self.add(st, (T, "field", o))
                E.store(st, args[1], mk("got", site.ctx, site.idx, ""), width(E.p, T) or 8)
            else:
                self.add(st, (T, "local", args[1]))
                E.store(st, args[1], mk("read", args[1]), width(E.p, T) or 8)
            return [("ret", mk("c", 1), st), ("ret", mk("c", 0), s2)]
        if q == "maf::messaging::CSError::CSError" and len(args) == 3:
            d = E.load(st, args[1], 8, "p")
            st.cl["error"] = (d, bare(args[2]))
            return [("ret", None, st)]
        if q.endswith("IncomingPayload::IncomingPayload") and len(args) == 2:
            st.cl["rest"] = E.load(st, args[1], 8, "p")
        if q == "maf::messaging::CSMessage::setPayload":
            st.cl["set"] = 1
        return None


def messages(ck):
    en = enum(ck, "maf::messaging::CSPayloadType")
    w = ck.fn(LM + "::toBytes")[0]
    d = ck.fn(LM + "::fromBytes")[0]
    pay = next(m[1] for m in layout(ck, "maf::messaging::CSMessage") if "shared_ptr" in m[3])
    this = arg(w, 1)
    E, out = ck.run(w, Message(ck, this))
    heads = {}
    errs = {}
    for k, v, st, line in out:
        if k != "ret":
            continue
        loc = where(w, line)
        evs = list(st.cl.get("ev", ()))
        head, rest = evs[:6], evs[6:]
        null = E.load(st, ptr(this, pay), 8, "p")
        none = null is NULL or st.eq.get(null) == 0 or st.known(mk("icmp", "eq", null, NULL)) is True
        pt = values(st, mk("ptype"))
        if head and head[-1][1] == "const":
            ck.ob(W4, "kind of payload", head[-1][2] == en["NA"] and none, "%s announces a payload of kind %d that is not the payload's" % (w.q, head[-1][2]), loc)
            head[-1] = (head[-1][0], "ptype")
        elif head:
            ck.ob(W4, "kind of payload", head[-1][1] == "ptype", "%s does not announce the kind of the payload after the other fields (%s)" % (w.q, head[-1]), loc)
        heads.setdefault(tuple(head), loc)
        if none or pt == frozenset((en["NA"],)):
            ck.ob(W4, "no payload", not rest, "%s writes a payload there is not" % w.q, loc)
        elif pt == frozenset((en["Error"],)):
            errs.setdefault(tuple((e[0], e[1]) for e in rest), loc)
        elif en["Error"] not in pt:
            ck.ob(W4, "payload", rest == [("payload",)], "%s does not write the payload after the fields" % w.q, loc)
        else:
            ck.ob(W4, "payload", False, "%s writes an error and another payload alike" % w.q, loc)
    this = arg(d, 0)
    E, out = ck.run(d, Message(ck, this))
    rh, re_ = {}, {}
    for k, v, st, line in out:
        loc = where(d, line)
        ck.ob(W4, "no exception", k == "ret", "%s ends with an exception" % d.q, loc)
        if k != "ret":
            continue
        t = st.known(v)
        bad = bool(st.cl.get("bad"))
        ck.ob(W4, "unreadable told" if bad else "read", t is not None and t != bad, "%s %s" % (d.q, "takes bytes it could not read for a message" if bad else "drops a message it could read"), loc)
        if bad:
            continue
        evs = list(st.cl.get("ev", ()))
        head, rest = evs[:6], evs[6:]
        if len(head) == 6 and head[-1][1] == "local":
            kind = mk("read", head[-1][2])
            head[-1] = (head[-1][0], "ptype")
            pt = values(st, kind)
            ck.ob(W4, "payload kept", bool(st.cl.get("set")) or (const(st, E.load(st, ptr(this, pay), 8, "p")) is None and st.mem.get((this, pay)) is not None), "%s does not keep the payload" % d.q, loc)
            if "error" in st.cl:
                ck.ob(W4, "error kept", pt == frozenset((en["Error"],)), "%s takes another payload for an error" % d.q, loc)
                a, b = st.cl["error"]
                names = []
                for e in rest:
                    m = mk("read", e[2]) if e[1] == "local" else None
                    names.append((e[0], "errdesc" if m is a else "errcode" if m is b else "?"))
                re_.setdefault(tuple(names), loc)
            else:
                s = st.cl.get("stream")
                ck.ob(W4, "error kept", en["Error"] not in pt, "%s takes an error for another payload" % d.q, loc)
                ck.ob(W4, "rest kept", not rest and s is not None and st.cl.get("rest") is s, "%s does not keep the bytes after the fields as the payload" % d.q, loc)
        rh.setdefault(tuple(head), loc)
    ck.ob(W4, "fields", set(heads) == set(rh) and len(heads) == 1, "%s writes %s, %s reads %s" % (w.q, fields_text(heads), d.q, fields_text(rh)), list(rh.values() or [where(d)])[0])
    ck.ob(W4, "error", set(errs) == set(re_) and len(errs) == 1, "%s writes an error as %s, %s reads %s" % (w.q, [[e[1] for e in x] for x in errs], d.q, [[e[1] for e in x] for x in re_]), list(re_.values() or [where(d)])[0])


def fields_text(h):
    return "; ".join(" ".join("%s@%s" % (short(e[0]), e[2] if len(e) > 2 else e[1]) for e in x) for x in h)


@prop("E02", "comparison of the part sequences of the writing, reading and measuring function of every type",
      "Every type the program or the witness unit serializes; values of parts are compared by the place they come from and go to, not by their bits.")
def same(ck):
    n = 0
    for T, fs in sorted(instances(ck).items()):
        S = []
        for f in fs.get("ser", ()):
            r, E, out = runs(ck, f, "ser", T)
            S = [(st.cl.get("ev", ()), st.cl.get("n", 0), f, l) for k, v, st, l in out]
            if DBG: print("S", T[:80], S)
        for f in fs.get("des", ()):
            if not S:
                continue
            r, E, out = runs(ck, f, "des", T)
            D = [(final_des(r, E, st), l) for k, v, st, l in out if not st.cl.get("bad") and st.known(v) is not False]
            if DBG: print("D", T[:80], D)
            n += 1
            for s, cnt, g, l in S:
                ms = [match(s, d, T) for d, _ in D]
                ms = [m for m in ms if m is not None]
                ck.ob(W1, "written %s" % short(T), bool(ms), "what %s writes of a %s is not what %s reads (%s)" % (g.q, short(T), f.q, text(s)), where(g, l))
                ck.ob(W1, "places %s" % short(T), not ms or "" in ms, "%s" % (ms[0] if ms else ""), where(f, D[0][1] if D else None))
            for d, l in D:
                ms = [match(s, d, T) for s, *_ in S]
                ck.ob(W1, "read %s" % short(T), any(m is not None for m in ms), "what %s reads of a %s is nothing %s writes (%s)" % (f.q, short(T), S[0][2].q, text(d)), where(f, l))
        for f in fs.get("size", ()):
            if not S:
                continue
            r, E, out = runs(ck, f, "size", T)
            if DBG: print("Z", T[:80], [(show(v), st.cl.get("n", 0)) for k, v, st, l in out])
            sizes(ck, f, T, S, [(v, st.cl.get("n", 0), l) for k, v, st, l in out])
    ck.need(W1, 40)
    for f in ck.P.fns.values():
        if f.blocks and f.q in (NS + "SR::operator<<", NS + "SR::serializeBatch", "maf::messaging::ipc::local::OutgoingPayloadT::serialize"):
            forwarded(ck, f)
    streams(ck, False)
    messages(ck)


def text(s):
    return " ".join("%s:%s" % (e[0], short(str(e[1]))) for e in s)


def measure(v):
    """(bytes known, the rest) of an announced size"""
    c, d = 0, {}
    for x, n in linear(v):
        if x is None:
            c += n
        elif x.k == "sizeof":
            d[x.a[0]] = d.get(x.a[0], 0) + n
        else:
            d[x] = d.get(x, 0) + n
    return c, frozenset(d.items())


def extent(s, n):
    """the size of what a sequence of parts writes"""
    c, d = 0, {}
    for i, e in enumerate(s):
        k = n if i == len(s) - 1 and e[-1][0] == "elem" else 1
        if e[0] == "num":
            c += k * e[1]
        elif e[0] == "part":
            d[e[1]] = d.get(e[1], 0) + k
    return c, frozenset(d.items())


def sizes(ck, f, T, S, out):
    if T.startswith("std::basic_string<") and T.endswith(">"):
        cw = NUM.get(split_targs(T[T.index("<") + 1:])[0], 1)
        for v, n, l in out:
            m = measure(v)
            ok = m[0] == 4 and [(x.k, x.a[0], k) for x, k in m[1] if isinstance(x, V)] == [("qry", "size", cw)]
            ck.ob(W2, "size of %s" % short(T), ok, "%s announces %s bytes for a text" % (f.q, show(v)[:80]), where(f, l))
        return
    want = {extent(s, n): l for s, n, _, l in S if n <= 2}
    have = {}
    for v, n, l in out:
        m = measure(v)
        if not any(isinstance(x, V) for x, _ in m[1]):
            have[m] = l
    # sequences of two elements and less
    small = lambda m: sum(n for _, n in m[1]) <= 2
    for m, l in have.items():
        if small(m) and not any(n > 2 for _, n in m[1]):
            ok = m in want or len(want) > 1 and max(w[0] for w in want) < m[0]
            ck.ob(W2, "size of %s" % short(T), ok, "%s announces %d bytes and %s for a %s, which is written with %s" % (f.q, m[0], sorted(m[1]), short(T), sorted(w[0] for w in want)), where(f, l))
    for w, l in want.items():
        ck.ob(W2, "written size of %s" % short(T), w in have, "%s does not announce the %d bytes and %s that are written" % (f.q, w[0], sorted(w[1])), where(f))


DBG = 0
