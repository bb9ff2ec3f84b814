"""U03 identifiers compare as the values they are, C06 messages and their copies"""
import itertools
from .util import *
from maf.engine import Engine, State

MS = "maf::messaging::"
RELOP = re.compile(r"^std::operator(<|>|<=|>=|==|!=)$")
COMPARE = re.compile(r"^std::(?:__cxx11::)?basic_string::compare$")
TEXTOP = re.compile(r"^std::(?:__cxx11::)?basic_string::(basic_string|operator=|assign|swap)$")
STRING = ("std::basic_string", "std::__cxx11::basic_string")
CMP = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b,
       "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
O1 = "an identifier does not come before itself, nor two before each other"
O2 = "of two different identifiers one comes before the other, and what comes before what is consistent"
O3 = "two identifiers are the same exactly if all their parts are"
O4 = "an identifier is usable exactly if it was given"
O5 = "an identifier that was moved away is usable no more, the one that took it is the same"
O6 = "an id is handed out once and is never the invalid one"
TEXT0 = 1000    # texts are told apart by their rank: TEXT0 is the empty one


class Values(R):
    """texts are values of known rank, all the rest is what it is"""
    throws = ("throw",)

    def text(self, E, st, a):
        """rank of the text at an address, or of a literal"""
        if isinstance(a, V):
            s = E.p.strings.get(a.a[0]) if a.k == "g" else None
            if s is not None:
                return TEXT0 if s == "" else s
            v = E.load(st, a, 8, "p")
            if v.k == "c":
                return v.a[0]
        return None

    def isstring(self, E, f, i):
        t = E.argtype(f, i) if f is not None else -1
        if t >= 0 and E.p.types[t]["k"] == "ptr":
            t = E.p.rt(E.p.types[t]["to"])
        return t is not None and t >= 0 and (E.p.types[t].get("q", "") in STRING or E.p.types[t].get("k") == "basic")

    def on_call(self, E, st, site, q, args):
        m = RELOP.match(q)
        f = callee(E, site)
        if m and len(args) == 2:
            if self.isstring(E, f, 0):
                x, y = self.text(E, st, args[0]), self.text(E, st, args[1])
                if isinstance(x, int) and isinstance(y, int):
                    return [("ret", C(int(CMP[m.group(1)](x, y))), st)]
            elif f is not None and f.blocks:
                return [(o[0], o[1], o[2]) for o in E.call_fn(f, args, st, mk("ctx", site.ctx, site.fn.name, site.idx), site)]
        if COMPARE.match(q) and len(args) == 2:
            x, y = self.text(E, st, args[0]), self.text(E, st, args[1])
            if isinstance(x, int) and isinstance(y, int):
                return [("ret", C((x > y) - (x < y)), st)]
        if re.match(r"^std::(?:__cxx11::)?basic_string::empty$", q):
            x = self.text(E, st, args[0])
            if isinstance(x, int):
                return [("ret", C(int(x == TEXT0)), st)]
        if (q.startswith("std::__tuple_compare::") or f is not None and not E.p.is_repo(f) and WITNESS.match(q)) and f is not None and f.blocks:
            return [(o[0], o[1], o[2]) for o in E.call_fn(f, args, st, mk("ctx", site.ctx, site.fn.name, site.idx), site)]
        m = TEXTOP.match(q)
        if m and len(args) == 1 and m.group(1) == "basic_string":
            E.store(st, args[0], C(TEXT0), 8)
            return [("ret", None, st)]
        if m and (len(args) == 2 or len(args) == 3 and args[2].k != "c" and m.group(1) == "basic_string") and (m.group(1) == "swap" or self.isstring(E, f, 1)):
            x = self.text(E, st, args[1])
            if isinstance(x, int):
                if m.group(1) == "swap":
                    y = E.load(st, args[0], 8, "p")
                    E.store(st, args[0], C(x), 8)
                    E.store(st, args[1], y, 8)
                    return [("ret", None, st)]
                E.store(st, args[0], C(x), 8)
                if rvalue(E, f, 1) and args[0] is not args[1]:
                    E.store(st, args[1], mk("left", site.fn.name, site.idx), 8)
                return [("ret", args[0] if m.group(1) != "basic_string" else None, st)]
        if DBG:
            print("   call", q, args)
        return None


DBG = False
WITNESS = re.compile(r"^\w+_(?:request|signal|property)::")


def fields(ck, cls):
    """[(name, offset, size, is text)] of a class of numbers and texts, else None"""
    out = []
    t = ck.P.types[ck.tid(cls)]
    for n, off, ty, q in layout(ck, cls):
        d = ck.P.types[ty] if ty >= 0 else {}
        if n == "<base>":
            if any(m[0] != "<base>" and not m[0].startswith("_vptr") for m in d.get("m", ())):
                return None
            continue
        if q in STRING:
            out.append((n, off, 8, True))
        elif d.get("k") in ("basic", "enum") and d.get("s") in (1, 2, 4, 8):
            out.append((n, off, d["s"], False))
        else:
            return None
    return out


def setup(E, st, obj, fs, vals):
    for (n, off, sz, txt), v in zip(fs, vals):
        E.store(st, ptr(obj, off), C(v), sz)
    return st


def truth(ck, f, args, st, rule):
    """the set of results of a predicate: {True}, {False}, both, or None in it where it is not known"""
    E, out = ck.run(f, rule, args, st)
    r = set()
    for o in out:
        if o[0] == "ret":
            v = o[1]
            r.add(bool(v.a[0]) if v is not None and v.k == "c" else o[2].known(v))
        else:
            r.add(None)
    return r


def points(fs):
    """one value of every order type: three of a field, the last one the invalid one"""
    return list(itertools.product(*[(TEXT0, TEXT0 + 1, TEXT0 + 2) if f[3] else (0, 1, -1) for f in fs]))


def op(ck, cls, name):
    """the comparison of two objects of the class: a member, or a function beside it"""
    P = ck.P
    for f in sorted(P.fns.values(), key=lambda f: f.name):
        if f.blocks and f.q == cls + "::operator" + name and len(f.args) == 2:
            return f
        if f.blocks and f.q == cls.rsplit("::", 1)[0] + "::operator" + name and len(f.args) == 2:
            ts = [P.types[a[0]] for a in f.args if a[0] >= 0]
            if all(t["k"] == "ptr" and P.types[P.rt(t["to"])].get("q") == cls for t in ts) and len(ts) == 2:
                return f
    return None


def ordered(ck, cls):
    fs = fields(ck, cls)
    if fs is None:
        raise AnalysisError("%s has parts that are neither numbers nor texts" % cls)
    nm = cls.replace(MS, "")
    lt, eq, ne = op(ck, cls, "<"), op(ck, cls, "=="), op(ck, cls, "!=")
    pts = points(fs)
    e0 = Engine(ck.P, Values())
    A, B = mk("arg", 0, "a"), mk("arg", 1, "b")

    def tell(v):
        return "(%s)" % ", ".join("%s %s" % (f[0], "abc"[x - TEXT0] if f[3] and x > TEXT0 else '""' if f[3] else x) for f, x in zip(fs, v))
    table = {}
    for o, f in (("<", lt), ("==", eq), ("!=", ne)):
        if f is None:
            continue
        for x in pts:
            for y in pts:
                st = State()
                setup(e0, st, A, fs, x)
                setup(e0, st, B, fs, y)
                st.assume(icmp("eq", A, B), False)
                table[o, x, y] = truth(ck, f, [A, B], st, Values())
    if eq is not None:
        for x in pts:
            for y in pts:
                r = table["==", x, y]
                ck.ob(O3, "%s: ==" % nm, None in r or r == {x == y}, "%s %s and %s %s" % (nm, tell(x), tell(y), "are not the same, but == says so" if x != y else "are the same, but == does not say so"), where(eq))
    if ne is not None:
        for x in pts:
            for y in pts:
                r = table["!=", x, y]
                ck.ob(O3, "%s: !=" % nm, None in r or r == {x != y}, "%s %s and %s: != does not say whether they differ" % (nm, tell(x), tell(y)), where(ne))
    if lt is not None:
        T = lambda x, y: table["<", x, y] == {True}
        und = any(None in table["<", x, y] for x in pts for y in pts)
        for x in pts:
            ck.ob(O1, "%s: <" % nm, und or not True in table["<", x, x], "%s %s comes before itself" % (nm, tell(x)), where(lt))
            for y in pts:
                if x == y or und:
                    continue
                ck.ob(O1, "%s: <" % nm, not (T(x, y) and T(y, x)), "%s: %s and %s each come before the other" % (nm, tell(x), tell(y)), where(lt))
                ck.ob(O2, "%s: total" % nm, T(x, y) or T(y, x), "%s: neither %s nor %s comes before the other, though they differ: a map takes them for one" % (nm, tell(x), tell(y)), where(lt))
                for z in pts:
                    if T(x, y) and T(y, z):
                        ck.ob(O2, "%s: transitive" % nm, T(x, z), "%s: %s comes before %s and that before %s, but the first not before the last" % (nm, tell(x), tell(y), tell(z)), where(lt))
    return len(pts)



ATOMIC = re.compile(r"^std::(?:atomic|__atomic_base)::(fetch_add|operator\+\+|operator\+=|fetch_sub|load|store|exchange|operator=|operator [a-z ]+|compare_exchange_\w+)$")


class Counted(Values):
    """allocation of an id: every atomic step of the counter gives a value of its own"""

    def on_call(self, E, st, site, q, args):
        if q.endswith("IDManager::allocateNewID") and any(f.q == q for f in E.stack):
            v = mk("id", "again", site.idx)     # by induction
            st.assume(icmp("eq", v, C(-1)), False)
            return [("ret", v, st)]
        m = ATOMIC.match(q)
        if m:
            n = sat(st.cl.get("n", 0) + 1, 3)
            st.cl["n"] = n
            k = m.group(1)
            add = args[1] if len(args) > 1 else C(1)
            fresh = k in ("fetch_add", "operator++", "operator+=") and (k == "operator++" or add.k == "c" and add.a[0] % (1 << 32))
            return [("ret", mk("id" if fresh else "seen", n, site.idx), st)]
        return Values.on_call(self, E, st, site, q, args)


def functions(ck, q, pred=lambda f: True):
    fs = [f for f in sorted(ck.P.fns.values(), key=lambda f: f.name) if f.q == q and f.blocks and pred(f)]
    if not fs:
        raise AnalysisError("%s was not found" % q)
    return fs


def usable(ck, cls, want):
    """valid() says whether the identifier was given"""
    fs = fields(ck, cls)
    e0 = Engine(ck.P, Values())
    this = mk("arg", 0, "this")
    nm = cls.replace(MS, "")
    for f in functions(ck, cls + "::valid"):
        for x in points(fs):
            st = setup(e0, State(), this, fs, x)
            given = [v != (TEXT0 if d[3] else -1) for d, v in zip(fs, x)]
            r = truth(ck, f, [this], st, Values())
            ck.ob(O4, "%s: valid" % nm, None in r or r == {want(given)}, "%s: valid() says %s of (%s)" % (nm, "no" if want(given) else "yes", ", ".join(map(str, x))), where(f))


def moved(ck, cls):
    """copies and moves: the one that takes it is the same, the one it was taken from is usable no more"""
    fs = fields(ck, cls)
    e0 = Engine(ck.P, Values())
    A, B = mk("arg", 0, "this"), mk("arg", 1, "other")
    nm = cls.replace(MS, "")
    n = 0

    def isref(f):
        t = ck.P.types[f.args[1][0]] if f.args[1][0] >= 0 else None
        if t is None:
            ty = (f.j.get("dty") or ())[1:]
            t = ck.P.types[ty[1]] if len(ty) > 1 and ty[1] >= 0 else None
        if t is None or t["k"] != "ptr" or ck.P.types[ck.P.rt(t["to"])].get("q") != cls:
            return None
        return "rvalue" in t.get("tag", "")
    for f in sorted(ck.P.fns.values(), key=lambda f: f.name):
        if not f.blocks or len(f.args) != 2 or f.q not in (cls + "::" + cls.rsplit("::", 1)[1], cls + "::operator="):
            continue
        rv = isref(f)
        if rv is None:
            continue
        n += 1
        how = "move" if rv else "copy"
        for x in points(fs):
            for y in (points(fs) if f.q.endswith("=") else [None]):
                st = State()
                if y is not None:
                    setup(e0, st, A, fs, y)
                setup(e0, st, B, fs, x)
                st.assume(icmp("eq", A, B), False)
                E, out = ck.run(f, Values(), [A, B], st)
                for k, v, s, line in out:
                    got = [E.load(s, ptr(A, d[1]), d[2], "i") for d in fs]
                    ck.ob(O5, "%s: %s" % (nm, how), k == "ret" and all(g is C(w) for g, w in zip(got, x)), "%s of %s does not give the same (line %s)" % (how, nm, line), where(f))
                    left = [E.load(s, ptr(B, d[1]), d[2], "i") for d in fs]
                    if not rv:
                        ck.ob(O5, "%s: copied from" % nm, all(g is C(w) for g, w in zip(left, x)), "copying a %s changes the one copied (line %s)" % (nm, line), where(f))
                    elif ck.P.fns and any(g.q == cls + "::clear" for g in ck.P.fns.values()):
                        gone = [g is C(TEXT0 if d[3] else -1) for g, d in zip(left, fs)]
                        ck.ob(O5, "%s: moved from" % nm, any(gone), "a %s that was moved away stays usable (line %s)" % (nm, line), where(f))
        if f.q.endswith("="):
            for x in points(fs):
                st = setup(e0, State(), A, fs, x)
                E, out = ck.run(f, Values(), [A, A], st)
                for k, v, s, line in out:
                    got = [E.load(s, ptr(A, d[1]), d[2], "i") for d in fs]
                    ck.ob(O5, "%s: %s onto itself" % (nm, how), all(g is C(w) for g, w in zip(got, x)), "assigning a %s to itself changes it (line %s)" % (nm, line), where(f))
    for f in [f for f in sorted(ck.P.fns.values(), key=lambda f: f.name) if f.blocks and f.q in (cls + "::clear", cls + "::" + cls.rsplit("::", 1)[1]) and len(f.args) == 1]:
        st = State()
        if f.q.endswith("clear"):
            setup(e0, st, A, fs, points(fs)[0])
        E, out = ck.run(f, Values(), [A], st)
        n += 1
        for k, v, s, line in out:
            got = [E.load(s, ptr(A, d[1]), d[2], "i") for d in fs]
            ck.ob(O4, "%s: %s" % (nm, "cleared" if f.q.endswith("clear") else "made of nothing"), k == "ret" and all(g is C(TEXT0 if d[3] else -1) for g, d in zip(got, fs)),
                  "a %s %s is not the unusable one (line %s)" % (nm, "that was cleared" if f.q.endswith("clear") else "made of nothing", line), where(f))
    return n


def ids(ck):
    IDM = "maf::util::details::IDManager"
    for f in functions(ck, IDM + "::allocateNewID"):
        E, out = ck.run(f, Counted())
        ck.ob(O6, "allocateNewID returns", any(o[0] == "ret" for o in out), "allocateNewID never returns", where(f))
        for k, v, st, line in out:
            if k != "ret":
                continue
            ok = isinstance(v, V) and v.k == "id"
            ck.ob(O6, "allocateNewID: own value", ok, "allocateNewID returns a value that another caller can be given as well (line %s)" % line, where(f, line))
            w = [(1 << 64) - 1, (1 << 32) - 1, -1]
            ck.ob(O6, "allocateNewID: not the invalid one", not ok or any(st.known(icmp("eq", v, C(x))) is False for x in w), "allocateNewID can return the invalid id (line %s)" % line, where(f, line))
    e0 = Engine(ck.P, Values())
    for f in functions(ck, MS + "RegID::allocateUniqueID"):
        E, out = ck.run(f, Counted())
        for k, v, st, line in out:
            if k == "ret":
                r = E.load(st, mk("arg", 0, f.args[0][2] or ""), 8, "u64")
                ck.ob(O6, "RegID gets the id", r.k == "id", "RegID::allocateUniqueID does not give the id allocated", where(f, line))


@prop("U03", "evaluation of every comparison, validity test, copy and move of the identifier classes over one representative of every order type of their parts, by the path-sensitive interpreter over the IR; the laws of an order and of an equivalence are then checked on the table of results; rule: irreflexive, asymmetric, total, transitive, equal exactly if all parts are, ids from one atomic step and never the invalid one", "texts are represented by their rank, so the comparison of characters itself is the standard library's; generated parameters are represented by one contract of the witness", witness=("values",))
def identifiers(ck):
    ordered(ck, MS + "Address")
    ordered(ck, MS + "RegID")
    own = sorted(f.q[:-len("::operator==")] for f in ck.P.fns.values() if f.blocks and f.q.endswith("place_request::input::operator=="))
    if not own:
        raise AnalysisError("the contract of the witness was not found")
    for c in own:
        ordered(ck, c)
    usable(ck, MS + "Address", any)
    usable(ck, MS + "RegID", all)
    if moved(ck, MS + "Address") + moved(ck, MS + "RegID") < 7:
        raise AnalysisError("the copies and moves of identifiers were not found")
    ids(ck)


# ---------------------------------------------------------------- C06
P1 = "what a message was given is what it says"
P2 = "giving a message one thing changes nothing else of it"
P3 = "a copy is a thing of its own, of the same kind, with the same content"
P4 = "two contents are equal exactly if they are of one kind and what they hold is equal"
P5 = "the content of another message is only read once it is known to be of the same kind"
CARRIERS = [  # class, what it was made with in order, how to give it anew
    (MS + "CSMessage", ("serviceID", "operationID", "operationCode", "requestID", "payload", "sourceAddress")),
    (MS + "CSError", ("description", "code")),
    (MS + "itc::Payload", ("type", "content")),
    (MS + "ipc::local::OutgoingPayloadT", ("content",)),
    (MS + "ipc::local::IncomingPayload", ("stream",)),
    (MS + "Address", ("get_name", "get_port")),
]
SPQ = "std::shared_ptr"


class Carry(R):
    """texts are carried from place to place; comparisons of what two objects hold go both ways"""
    throws = ("throw",)

    def __init__(self, A=None, B=None, types=None, parts=()):
        self.A, self.B, self.types, self.parts = A, B, types or {}, parts
        self.shared = ()
        self.own = None

    def on_enter(self, E, st, site, fn, args):
        c = fn.q.rsplit("::", 1)
        if len(c) == 2 and c[1] == strip_targs(c[0].rsplit("::", 1)[-1]) and args and args[0].k == "heap":
            st.cl.setdefault(("made", args[0]), c[0])

    def on_load(self, E, st, site, addr, val, size, atomic):
        if self.B is not None and self.A is not self.B and isinstance(addr, V) and split(addr)[0] is self.B and split(addr)[1] >= 8:
            self.chk.ob(P5, "%s" % self.what, self.sametype(st) is True, "%s reads the content of the other before it is known to be of the same kind" % self.what, where(site.fn, site.line) if E.p.is_repo(site.fn) else where(self.f))

    def sametype(self, st):
        return st.known(icmp("eq", self.types[self.A], self.types[self.B]))

    def held(self, st, x, y):
        """the part compared: two places at the same offset of what two objects hold"""
        for n, pa, pb in self.parts:
            for a, b in ((x, y), (y, x)):
                if a is pa and b is pb:
                    return n
        return None

    def on_call(self, E, st, site, q, args):
        f = callee(E, site)
        if q == "virtual":
            n = vname(E, args[2])
            if n == "type" and args[3] in self.types:
                return [("ret", self.types[args[3]], st)]
            own = [E.p.fns[t] for t in args[2] if t in E.p.fns and E.p.fns[t].blocks and self.own and E.p.fns[t].cls >= 0 and E.p.types[E.p.fns[t].cls].get("n") == self.own]
            if len(own) == 1 and (args[3] is self.A or len(args) > 4 and args[4] is self.A):
                return [(o[0], o[1], o[2]) for o in E.call_fn(own[0], args[3:], st, mk("ctx", site.ctx, site.fn.name, site.idx), site)]
        elif self.types and q.endswith("::type") and len(args) == 1 and args[0] in self.types:
            return [("ret", self.types[args[0]], st)]
        nm = q.rsplit("::", 1)[-1]
        if nm in ("operator==", "operator!=") and len(args) == 2 and self.types:
            yes = C(int(nm == "operator=="))
            no = C(int(nm != "operator=="))
            if args[0] is args[1]:
                return [("ret", yes, st)]
            p = self.held(st, args[0], args[1])
            if p is not None:
                if p in self.shared:
                    self.chk.ob(P5, "%s: content" % self.what, all(st.known(icmp("eq", a, NULL)) is False for a in args), "%s compares a content that may be missing" % self.what, where(self.f))
                self.chk.ob(P5, "%s" % self.what, self.sametype(st) is True, "%s compares the content of the other before it is known to be of the same kind" % self.what, where(self.f))
                s2 = st.copy()
                st.cl["same", p] = True
                s2.cl["same", p] = False
                return [("ret", yes, st), ("ret", no, s2)]
        m = TEXTOP.match(q)
        if m:
            t = E.argtype(f, 1) if f is not None and len(args) > 1 else -1
            if t >= 0 and E.p.types[t]["k"] == "ptr":
                t = E.p.rt(E.p.types[t]["to"])
            if m.group(1) == "swap" or t is not None and t >= 0 and E.p.types[t].get("q", "") in STRING:
                x = E.load(st, args[1], 8, "p")
                if m.group(1) == "swap":
                    y = E.load(st, args[0], 8, "p")
                    E.store(st, args[0], x, 8)
                    E.store(st, args[1], y, 8)
                    return [("ret", None, st)]
                E.store(st, args[0], x, 8)
                if rvalue(E, f, 1) and args[0] is not args[1]:
                    E.store(st, args[1], mk("left", site.fn.name, site.idx), 8)
                return [("ret", args[0] if m.group(1) != "basic_string" else None, st)]
            if args and m.group(1) != "swap":
                E.store(st, args[0], mk("text", site.fn.name, site.idx), 8)
                return [("ret", args[0] if m.group(1) != "basic_string" else None, st)]
        if DBG:
            print("   call", q, args)
        return None


def mark(ck, E, st, addr, t):
    """what tells the value of type t at an address from others"""
    d = ck.P.types[t]
    if d.get("q") == MS + "Address":
        fs = fields(ck, MS + "Address")
        return tuple(E.load(st, ptr(addr, o), sz, "p" if txt else "i") for _, o, sz, txt in fs)
    if d["k"] in ("basic", "enum"):
        return (E.load(st, addr, d["s"], "i"),)
    return (E.load(st, addr, 8, "p"),)


def says(ck, g, obj, st, rule):
    """[what the getter g says of an object, None if it does not return]"""
    ty = g.j["dty"][0]
    d = ck.P.types[ck.P.rt(ty)] if ty >= 0 else {}
    sr = bool(g.args and g.args[0][3])
    S = mk("arg", 77, "result")
    E, out = ck.run(g, rule, ([S] if sr else []) + [obj], st.copy())
    r = []
    for k, v, s, line in out:
        if k != "ret":
            r.append(None)
        elif sr:
            r.append(mark(ck, E, s, S, ck.P.rt(ty)))
        elif d.get("k") == "ptr":
            r.append(mark(ck, E, s, v, ck.P.rt(d["to"])))
        else:
            r.append((v,))
    return r


def agree(st, xs, ys):
    return xs is not None and len(xs) == len(ys) and all(x is y or st.known(icmp("eq", x, y)) is True for x, y in zip(xs, ys))


def params(ck, f):
    """[(value, type)] of the parameters behind 'this', references looked through"""
    out = []
    sr = 1 if f.args and f.args[0][3] else 0
    dty = f.j["dty"]
    for i in range(sr + 1, len(f.args)):
        t = f.args[i][0]
        if t < 0:
            t = dty[i - sr + 1]
        t = ck.P.rt(t)
        d = ck.P.types[t]
        byref = True
        if d["k"] == "ptr":
            t = ck.P.rt(d["to"])
        elif d["k"] in ("basic", "enum"):
            byref = False
        out.append((i, mk("arg", i, "given%d" % i), t, byref))
    return out


def instances(ck, cls):
    """the instances of a class (template): [full name]"""
    r = {}
    for f in ck.P.fns.values():
        if f.blocks and f.q.startswith(cls + "::") and f.q.count("::") == cls.count("::") + 1 and f.cls is not None and f.cls >= 0:
            c, fs = r.get(ck.P.types[f.cls]["n"], (f.cls, []))
            fs.append(f)
            r[ck.P.types[f.cls]["n"]] = (c if ck.P.types[c].get("m") else f.cls, fs)
    return r


@prop("C06", "abstract interpretation of every constructor, setter, copy, clone and comparison of the message classes over their IR, with symbolic contents; what each getter says afterwards is compared with what was given, and every path of a comparison with what has been found out on it; rule: say what was given, change nothing else, copies own what they hold, equal exactly if found equal in every part", "contents are opaque, with an equality of their own; the payload templates are represented by the instances of the witnesses", witness=("values",))
def messages(ck):
    n = 0
    for cls, gets in CARRIERS:
        found = instances(ck, cls)
        if not found:
            raise AnalysisError("%s was not found" % cls)
        for _, (c, fs) in sorted(found.items()):
            n += carrier(ck, cls, c, sorted(fs, key=lambda f: f.name), gets)
    if n < 20:
        raise AnalysisError("only %d members were looked at" % n)


def carrier(ck, cls, c, fs, gets):
    nm = cls.replace(MS, "")
    base = strip_targs(cls.rsplit("::", 1)[1])
    P = ck.P
    A = mk("arg", 0, "this")
    n = 0
    getters = {}
    for g in fs:
        m = g.q.rsplit("::", 1)[1]
        if m in gets and len(g.args) - (1 if g.args[0][3] else 0) == 1:
            getters.setdefault(m, g)
    for f in fs:
        m = f.q.rsplit("::", 1)[1]
        ps = params(ck, f)
        own = len(ps) == 1 and P.types[ps[0][2]].get("q") == cls
        args = lambda: [A] + [p[1] for p in ps]
        if m == base and ps and not own and f.acc == "public":
            if len(ps) != len(gets):
                continue
            E, out = ck.run(f, Carry(), args())
            n += 1
            given = [mark(ck, E, State(), p[1], p[2]) if p[3] else (p[1],) for p in ps]
            for k, v, st, line in out:
                ck.ob(P1, "%s: made" % nm, k == "ret", "making a %s does not return (line %s)" % (nm, line), where(f, line))
                for i, gname in enumerate(gets):
                    g = getters.get(gname)
                    if g is None or k != "ret":
                        continue
                    for r in says(ck, g, A, st, Carry()):
                        ck.ob(P1, "%s: %s" % (nm, gname), agree(st, r, given[i]), "%s: %s() says something else than it was made with" % (nm, gname), where(f))
        elif re.match(r"^set[A-Z_]", m) and len(ps) == 1:
            g0 = next((g for g in gets if g.lower() == m[3:].strip("_").lower()), None)
            st = State()
            E, out = ck.run(f, Carry(), args(), st)
            n += 1
            p = ps[0]
            given = mark(ck, E, State(), p[1], p[2]) if p[3] else (p[1],)
            for gname, g in sorted(getters.items()):
                before = says(ck, g, A, State(), Carry())
                for k, v, s, line in out:
                    for r in says(ck, g, A, s, Carry()) if k == "ret" else [None]:
                        if gname == g0:
                            ck.ob(P1, "%s: %s" % (nm, m), agree(s, r, given), "%s: after %s, %s() says something else" % (nm, m, gname), where(f))
                        else:
                            ck.ob(P2, "%s: %s, %s" % (nm, m, gname), [r] == before, "%s: %s changes what %s() says" % (nm, m, gname), where(f))
            if g0 is None:
                ck.ob(P1, "%s: %s" % (nm, m), False, "%s: %s sets nothing that can be asked for" % (nm, m), where(f))
        elif own and m in (base, "operator="):
            n += copied(ck, nm, cls, f, ps[0], getters, A)
        elif m == "clone":
            n += cloned(ck, nm, cls, c, f, getters, A)
        elif m == "equal":
            n += equals(ck, nm, cls, c, f, getters, A)
    return n


def owned(ck, c):
    """members of a class that are plain pointers: [(name, offset, pointee)]"""
    return [(m[0], m[1], ck.P.rt(ck.P.types[ck.P.rt(m[2])]["to"])) for m in ck.P.types[c]["m"]
            if ck.P.rt(m[2]) >= 0 and ck.P.types[ck.P.rt(m[2])]["k"] == "ptr" and not m[0].startswith("_vptr") and not m[4:5] == [1]]


def copied(ck, nm, cls, f, p, getters, A):
    B = p[1]
    st = State()
    st.assume(icmp("eq", A, B), False)
    E, out = ck.run(f, Carry(), [A, B], st)
    how = "move" if rvref(ck, f) else "copy"
    for k, v, s, line in out:
        for gname, g in sorted(getters.items()):
            want = says(ck, g, B, State(), Carry())
            for r in says(ck, g, A, s, Carry()) if k == "ret" else [None]:
                ck.ob(P3, "%s: %s, %s" % (nm, how, gname), [r] == want, "a %s that was made by a %s says something else for %s()" % (nm, how, gname), where(f))
        for name, off, _ in owned(ck, f.cls):
            x, y = E.load(s, ptr(A, off), 8, "p"), E.load(s, ptr(B, off), 8, "p")
            ck.ob(P3, "%s: %s, owns" % (nm, how), k == "ret" and x is not y, "a %s of a %s shares %s with it, and both delete it" % (how, nm, name), where(f))
    return 1


def rvref(ck, f):
    t = f.args[1][0]
    return t >= 0 and "rvalue" in ck.P.types[t].get("tag", "")


def cloned(ck, nm, cls, c, f, getters, A):
    r = Carry(A)
    r.own = ck.P.types[c]["n"]
    E, out = ck.run(f, r, [A])
    ck.ob(P3, "%s: clone returns" % nm, any(o[0] == "ret" for o in out), "clone of a %s never returns" % nm, where(f))
    for k, v, s, line in out:
        if k != "ret":
            continue
        new = isinstance(v, V) and v.k == "heap"
        ck.ob(P3, "%s: clone, own" % nm, new, "clone of a %s does not give a new object (line %s)" % (nm, line), where(f, line))
        if not new:
            continue
        ck.ob(P3, "%s: clone, kind" % nm, s.cl.get(("made", v)) == cls, "clone of a %s gives something else (line %s)" % (nm, line), where(f, line))
        for gname, g in sorted(getters.items()):
            want = says(ck, g, A, State(), Carry())
            for r in says(ck, g, v, s, Carry()):
                ck.ob(P3, "%s: clone, %s" % (nm, gname), [r] == want, "a clone of a %s says something else for %s()" % (nm, gname), where(f))
        for name, off, _ in owned(ck, c):
            ck.ob(P3, "%s: clone, owns" % nm, E.load(s, ptr(v, off), 8, "p") is not E.load(s, ptr(A, off), 8, "p"), "a clone of a %s shares %s with it" % (nm, name), where(f))
    return 1


def equals(ck, nm, cls, c, f, getters, A):
    B = mk("arg", 1, "other")
    e0 = Engine(ck.P, Carry())
    typef = [g for g in ck.P.fns.values() if g.blocks and g.q.endswith("::type") and (g.cls is not None and g.cls >= 0 and ck.P.types[g.cls].get("n") == ck.P.types[c]["n"] or g.q == MS + "ipc::local::OutgoingPayload::type" and "Outgoing" in cls)]
    kind = None
    for g in typef[:1]:
        for r in says(ck, g, A, State(), Carry()):
            kind = r[0] if r else None
    types = {A: kind if kind is not None else mk("kind", A), B: mk("kind", B)}
    # what is compared: the object behind a shared pointer, or the parts of the data it owns
    parts, native = [], []
    for m in ck.P.types[c]["m"]:
        t = ck.P.rt(m[2])
        d = ck.P.types[t] if t >= 0 else {}
        if d.get("q") == SPQ:
            parts.append((m[0], e0.load(State(), ptr(A, m[1]), 8, "p"), e0.load(State(), ptr(B, m[1]), 8, "p")))
    shared = [x[0] for x in parts]
    for name, off, to in owned(ck, c):
        pa, pb = e0.load(State(), ptr(A, off), 8, "p"), e0.load(State(), ptr(B, off), 8, "p")
        for m in ck.P.types[to].get("m", ()):
            d = ck.P.types[ck.P.rt(m[2])]
            if d["k"] in ("basic", "enum"):
                native.append((m[0], e0.load(State(), ptr(pa, m[1]), d["s"], "i"), e0.load(State(), ptr(pb, m[1]), d["s"], "i")))
            else:
                parts.append((m[0], ptr(pa, m[1]), ptr(pb, m[1])))
    if not parts:
        raise AnalysisError("%s: nothing to compare was found" % cls)
    identity = cls.endswith("IncomingPayload")

    def verdict(st):
        """True: equal, False: different, None: not told"""
        if st.known(icmp("eq", B, NULL)) is True:
            return False
        same = r.sametype(st)
        if same is not True:
            return same
        res = True
        for n, x, y in native:
            k = st.known(icmp("eq", x, y))
            if k is False:
                return False
            res = res if k else None
        for n, x, y in parts:
            k = st.cl.get(("same", n))
            if k is None:
                e = st.known(icmp("eq", x, y))
                zx, zy = st.known(icmp("eq", x, NULL)), st.known(icmp("eq", y, NULL))
                k = True if e is True or zx is True and zy is True else \
                    False if zx is not None and zy is not None and zx != zy or e is False and (identity or zx is True or zy is True) else None
            if k is False:
                return False
            res = res if k else None
        return res
    r = Carry(A, B, types, parts)
    r.what, r.f = "%s: equal" % nm, f
    r.shared = shared
    st = State()
    st.assume(icmp("eq", A, B), False)
    E, out = ck.run(f, r, [A, B], st)
    ck.ob(P4, "%s: equal returns" % nm, any(o[0] == "ret" for o in out), "equal of a %s never returns" % nm, where(f))
    for k, v, s, line in out:
        if k != "ret":
            continue
        for b in (True, False):
            if v.k == "c" and bool(v.a[0]) != b or s.known(v) not in (None, b):
                continue
            s2 = s.copy()
            if v.k != "c":
                s2.assume(v, b)
            w = verdict(s2)
            how = "the two differ" if w is False else "the two are equal" if w else "it has not been found out"
            ck.ob(P4, "%s: equal" % nm, w is b, "%s: equal can say %s where %s (line %s)" % (nm, "yes" if b else "no", how, line), where(f, line))
    r = Carry(A, A, {A: types[A]}, parts)
    r.what, r.f = "%s: equal" % nm, f
    st = State()
    st.assume(icmp("eq", A, NULL), False)
    E, out = ck.run(f, r, [A, A], st)
    for k, v, s, line in out:
        if k == "ret":
            ck.ob(P4, "%s: equal to itself" % nm, s.known(v) is True or v is C(1), "a %s can be said to differ from itself (line %s)" % (nm, line), where(f, line))
    return 1
