"""U01 notifying slots, U02 observable states"""
from .util import *
from .processor import is_lambda, named

NS = "maf::signal_slots::details::"
SIG, CON, SCO, CIF = NS + "BasicSignal_", NS + "Connection", NS + "ScopedConnection", NS + "ConnectableIF"
FILE = "maf/utils/SignalSlots.h"
SEQ = ("std::list", "std::array", "std::vector", "std::deque", "std::shared_ptr")
KEEPERS = ("MultiSlotKeeper", "SingleSlotKeeper")
SHP = re.compile(r"^std::(__shared_ptr|shared_ptr)::(.+)$")
CALL = re.compile(r"^std::function::operator\(\)$")
REMOVE = ("erase", "clear", "pop_front", "pop_back", "remove", "remove_if", "swap", "operator=", "assign", "splice", "unique", "resize", "sort", "reverse", "merge")
GROW = ("push_back", "push_front", "emplace_back", "emplace_front", "insert", "emplace")

S1 = "the slot called stays alive while it is called"
S2 = "a keeper that goes over its slots is marked, and only as long as it does"
S3 = "each slot connected has its turn, once, with the values given"
S4 = "no slot is taken off a list that may be gone over"
S5 = "adding and removing a slot do what they report"
S6 = "a signal that may be destroyed by its slots outlives its call"
S7 = "a slot connected with an executor, an object or a connection is called once, while its object is there"
S8 = "what a connection reports is what its signal says"
S9 = "a scoped connection ends with its scope"
S10 = "connecting stores the slot given, once, and hands out its connection"


class Sig(Walk):
    """what is held by local shared pointers"""
    throws = ()

    def __init__(self, ck, f):
        self.ck, self.f = ck, f
        self.sr = 1 if f.args and f.args[0][3] else 0
        self.a = [mk("arg", i, x[2] or "") for i, x in enumerate(f.args)][self.sr:]
        self.this = self.a[0] if self.a else None

    def at(self, E, site):
        return where(site.fn if E.p.is_repo(site.fn) else self.f, site.line)

    def ob(self, clause, what, ok, msg, E, site):
        self.ck.ob(clause, "%s in %s" % (what, self.f.q), ok, "%s %s" % (self.f.q, msg), self.at(E, site))

    def own(self, E, st, site, q, args):
        m = SHP.match(q)
        if not m or not args:
            return
        nm = strip_targs(m.group(2))
        f = callee(E, site)
        r = split(args[0])[0]
        if r.k != "al":
            return
        own = st.cl.get("own", frozenset())
        if nm in (m.group(1), "__shared_ptr", "shared_ptr", "operator="):
            st.cl["own"] = own | {args[0]}
        elif nm.startswith("~"):
            st.cl["own"] = own - {args[0]}

    def owned(self, E, st, v):
        """v is the object a local shared pointer (that has not ended) points to, or part of it"""
        r = split(v)[0]
        for a in st.cl.get("own", ()):
            x = E.load(st, a, 8, "p")
            if x is r or split(x)[0] is r and r.k not in ("arg", "al") or x is v:
                return True
        return False

    def on_call(self, E, st, site, q, args):
        self.own(E, st, site, q, args)
        self.walk_call(E, st, site, q, args)


class Keeper(Sig):
    """member functions of the class that keeps the slots of a signal"""

    def __init__(self, ck, f, kind):
        Sig.__init__(self, ck, f)
        self.kind, self.cls = kind, NS + kind
        self.slots = role(ck, self.cls, lambda q, t: q in SEQ, "the slots")
        self.flag = role(ck, self.cls, lambda q, t: t.get("n") in ("bool", "int", "unsigned int", "unsigned long"), "the notifying mark")
        self.many, = [m[3] not in ("std::array", "std::shared_ptr") for m in layout(ck, self.cls) if m[0] == self.slots]
        self.stable, = [m[3] == "std::list" for m in layout(ck, self.cls) if m[0] == self.slots]
        self.arg = None
        self.name = f.q.rsplit("::", 1)[1]

    def isslots(self, E, a):
        return isinstance(a, V) and split(a)[0].k != "elem" and E.in_member(a, self.cls, self.slots)

    def isflag(self, E, a):
        return isinstance(a, V) and E.in_member(a, self.cls, self.flag)

    def walk_call(self, E, st, site, q, args):
        m = ITER_CLS.match(q)
        if m and args and m.group(3).startswith("operator++"):
            it = E.load(st, args[0], 8, "p")
            c = E.iter_cont(it)
            if isinstance(c, V) and self.isslots(E, c) and st.cl.get("w"):
                if not st.cl.get("cur"):
                    if st.cl.get("pend"):
                        st.cl["skipped"] = 1
                    st.cl["pend"] = it
                st.cl["cur"] = None
            return
        co = cont_op(E, site, q, args)
        if co and self.isslots(E, co[2]) and co[1] in ("begin", "cbegin"):
            for k in ("cur", "pend", "skipped"):
                st.cl.pop(k, None)
            st.cl["w"] = "on"
        if co and self.isslots(E, co[2]) and co[1] == "erase" and len(args) > 1:
            if st.cl.get("pend") is self.iterarg(E, st, args[1]):
                st.cl["pend"] = None
            else:
                st.cl["cur"] = None

    def walk_branch(self, E, st, site, cond, truth):
        e = eqs(cond, truth)
        if e and e[2] and e[0].k == "iter" and e[1].k == "iter" and "end" in (e[0].a[2], e[1].a[2]) and "find" not in (e[0].a[2], e[1].a[2]) \
                and self.isslots(E, e[0].a[0]) and st.cl.get("w"):
            st.cl["w"] = "done"
            if st.cl.get("pend"):
                st.cl["skipped"] = 1

    def iterarg(self, E, st, a):
        return E.load(st, a, 8, "p") if split(a)[0].k == "al" else a

    def turned(self, st, s):
        if s is not None and s.k == "elem" and st.cl.get("pend") is s.a[1]:
            st.cl["pend"] = None
        else:
            st.cl["cur"] = 1

    def all(self, st):
        """the loop over the slots has come to its end, with a turn for each"""
        return st.cl.get("w") == "done" and not st.cl.get("skipped")

    def slot(self, E, v):
        """the slot (an address in the keeper) that v is in or was read from"""
        for _ in range(3):
            r = split(v)[0]
            if r.k == "elem" and self.isslots(E, r.a[0]):
                return r
            if not self.many and r.k != "elem" and self.isslots(E, v):
                return v
            if r.k != "init":
                return None
            v = r.a[0]
        return None

    def marked(self, st):
        return st.cl.get("flag")

    def on_store(self, E, st, site, addr, val, *rest):
        if self.isflag(E, addr):
            k = val if val.k == "c" else None
            st.cl["flag"] = bool(k.a[0]) if k is not None else None

    def null(self, E, st, s, t):
        """it is found out whether the slot s is empty"""
        st.cl["null:"] = (s, t)
        if t:
            self.turned(st, s)
        else:
            st.cl["live"] = 1

    def on_branch(self, E, st, site, cond, truth):
        e = eqs(cond, truth)
        t = truth
        x = cond
        while x.k == "not":
            x, t = x.a[0], not t
        if e and NULL in e[:2]:
            y, = [v for v in e[:2] if v is not NULL] or [NULL]
            if y.k == "init" and self.slot(E, y) is not None:
                if self.slot(E, y) is y.a[0]:
                    self.null(E, st, y.a[0], e[2])
                elif split(y.a[0])[0].k == "init":
                    st.cl["empty"] = e[2]  # the function in the slot
            if y.k == "qry" and y.a[0] == "size" and self.isslots(E, y.a[1]) and e[2]:
                st.cl["w"] = "done"
        elif x.k == "init" and self.slot(E, x) is not None and self.slot(E, x) is x.a[0]:
            self.null(E, st, self.slot(E, x), not t)
        elif e and self.arg is not None:
            ws = [E.load(st, self.arg, 8, "p"), mk("init", self.arg)]
            a = [v for v in e[:2] if any(v is w for w in ws)]
            b = [v for v in e[:2] if v.k == "init" and self.slot(E, v) is v.a[0]]
            if a and b:
                if e[2]:
                    st.cl["match"] = self.slot(E, b[0])
                    if st.known(a[0]) is True:
                        st.assume(b[0], True)
                else:
                    st.cl["other"] = 1
                self.turned(st, self.slot(E, b[0]))
        f = st.known(mk("init", self.flagaddr(E))) if self.this is not None else None
        if "flag" not in st.cl and f is not None:
            st.cl["was"] = f
        self.walk_branch(E, st, site, cond, truth)

    def flagaddr(self, E):
        return ptr(self.this, [m[1] for m in layout(self.ck, self.cls) if m[0] == self.flag][0])

    def on_call(self, E, st, site, q, args):
        self.own(E, st, site, q, args)
        m = SHP.match(q)
        nm = strip_targs(m.group(2)) if m else ""
        if nm in ("reset", "operator=", "swap") and args:
            s = self.slot(E, args[0])
            if s is not None and (split(args[0])[0] is s or args[0] is s):
                src = args[1] if len(args) > 1 else None
                if nm == "reset" and src is None or nm == "operator=" and E.load(st, src, 8, "p") is NULL:
                    self.dropped(E, st, site, s)
                else:
                    self.stored(E, st, site, s, src)
        if nm in ("shared_ptr", "__shared_ptr", "operator=") and len(args) > 1 and rvalue(E, callee(E, site), 1):
            s = self.slot(E, args[1])
            if s is not None and args[1] is s:
                self.dropped(E, st, site, s)
        co = cont_op(E, site, q, args)
        gone = emptied(E, st, site, q, args)
        if gone is not None and self.isslots(E, gone):
            st.cl["cleared"] = 1
        if co and self.isslots(E, co[2]):
            self.slotop(E, st, site, co[1], args)
        elif co and co[1] in ("swap", "operator=", co[0]) and any(isinstance(a, V) and self.isslots(E, a) and rvalue(E, callee(E, site), i) for i, a in enumerate(args)):
            self.slotop(E, st, site, "swap", args)
        self.walk_call(E, st, site, q, args)

    def dropped(self, E, st, site, s):
        st.cl["dropped"] = s
        self.turned(st, s)
        self.lost(E, st, site, s)

    def lost(self, E, st, site, s):
        pass

    def stored(self, E, st, site, s, src):
        st.cl["stored"] = sat(st.cl.get("stored", 0) + 1)
        st.cl["what"] = src is not None and self.arg is not None and (src is self.arg or E.load(st, src, 8, "p") is mk("init", self.arg))
        st.cl["where"] = s

    def slotop(self, E, st, site, op, args):
        if op in GROW:
            src = args[-1]
            st.cl["stored"] = sat(st.cl.get("stored", 0) + 1)
            st.cl["what"] = self.arg is not None and (src is self.arg or E.load(st, src, 8, "p") is mk("init", self.arg))
        if op == "erase" and len(args) > 1:
            it = self.iterarg(E, st, args[1])
            st.cl["erased"] = mk("elem", args[0], it) if isinstance(it, V) and it.k == "iter" else args[1]
        if op == "erase" and len(args) > 2:
            r = [self.iterarg(E, st, a) for a in args[1:3]]
            st.cl["erased"] = args[1]
            if r[0].k == "iter" and r[0].a[2] == "begin" and r[1].k == "iter" and r[1].a[2] == "end":
                st.cl["cleared"] = 1
        if op == "clear":
            st.cl["cleared"] = 1
        if op in REMOVE or op in GROW and not self.stable:
            self.ck.ob(S4, "%s in %s" % (op, self.f.q), st.cl.get("was") is False or st.cl.get("flag") is False or not self.many,
                       "%s takes slots off the list (%s) also while it is gone over" % (self.f.q, op), self.at(E, site))


class Notify(Keeper):
    throws = ("throw",)

    def vet(self, E, st, site, q, args):
        """what these report is judged where they are defined"""
        if q in (self.cls + "::valid", self.cls + "::size") and args[0] is self.this and self.many:
            return [("ret", mk("qry", q.rsplit("::", 1)[1], args[0]), st)]

    def flagset(self, st):
        return st.cl.get("flag") is True

    def on_call(self, E, st, site, q, args):
        if CALL.match(q):
            s = self.slot(E, args[0])
            self.ob(S1, "call", self.owned(E, st, args[0]), "calls a slot that nothing keeps alive if it disconnects itself", E, site)
            if self.many:
                self.ob(S2, "call", self.flagset(st), "calls a slot without saying that the slots are being gone over", E, site)
            again = st.cl.get("cur") and not (s is not None and s.k == "elem" and st.cl.get("pend") is s.a[1])
            self.ob(S3, "call", s is not None and not again, "calls something else than the slot whose turn it is, or calls it again", E, site)
            given = list(args[1:])
            self.ob(S3, "values", len(given) == len(self.a) - 1 and all(x is y or E.load(st, x, 8, "p") is E.load(st, y, 8, "p") for x, y in zip(given, self.a[1:])),
                    "does not call the slot with the values it was given", E, site)
            self.turned(st, s)
            st.cl["called"] = 1
            t = st.copy()
            return [("ret", None, st), ("throw", mk("exc", self.f.q, "_ZTISt9bad_alloc"), t)]
        return Keeper.on_call(self, E, st, site, q, args) or self.vet(E, st, site, q, args)

    def lost(self, E, st, site, s):
        self.ob(S3, "slot dropped", st.cl.get("null:") == (s, True), "disconnects a slot while notifying", E, site)

    def slotop(self, E, st, site, op, args):
        if op == "erase":
            it = self.iterarg(E, st, args[1])
            n = st.cl.get("null:")
            ok = n is not None and n[1] and isinstance(it, V) and n[0].k == "elem" and n[0].a[1] is it
            self.ob(S3, "erase", ok, "takes a slot off that is not known to be disconnected", E, site)
        elif op in REMOVE or op in GROW:
            self.ob(S3, op, False, "changes the slots (%s)" % op, E, site)

    def exits(self, E, out):
        for kind, val, st, line in out:
            self.ck.ob(S2, "%s ends" % self.f.q, st.cl.get("flag") is not True,
                       "%s can end at line %s (%s) and leave its slots marked as being gone over" % (self.f.q, line, "after a slot threw" if kind == "throw" else "normally"),
                       where(self.f, line))
            if kind == "ret":
                idle = st.known(mk("qry", "valid", self.this)) is False or st.known(mk("qry", "size", self.this)) is False
                if self.many:
                    ok = idle or self.all(st)
                else:
                    n = st.cl.get("null:")
                    ok = st.cl.get("called") or n is not None and n[1] or st.cl.get("empty") or idle
                self.ck.ob(S3, "%s ends" % self.f.q, ok, "%s can end at line %s without having called each of the slots connected" % (self.f.q, line), where(self.f, line))


class Member(Keeper):
    """every other member function"""

    def __init__(self, ck, f, kind):
        Keeper.__init__(self, ck, f, kind)
        if self.name in ("add", "addUnique", "remove", "has") and len(self.a) > 1:
            self.arg = self.a[1]

    def null(self, E, st, s, t):
        Keeper.null(self, E, st, s, t)
        if not t and self.name in ("size", "valid"):
            st.cl["lives"] = sat(st.cl.get("lives", 0) + 1)
            self.turned(st, s)

    def exits(self, E, out):
        n, ck, f = self.name, self.ck, self.f
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            val = None if val is None else C(int(st.known(val))) if val.k != "c" and st.known(val) is not None else val
            r = None if val is None or val.k != "c" else bool(val.a[0])
            at = where(f, line)
            live, has = st.cl.get("live"), st.cl.get("match")
            nl = st.cl.get("null:")
            if n in ("add", "addUnique"):
                k = st.cl.get("stored", 0)
                ck.ob(S5, "%s reports" % f.q, r is not None and k == int(r) and (not k or st.cl.get("what")),
                      "%s can return %s at line %s having stored its slot %d times" % (f.q, r, line, k), at)
                if not self.many:
                    ck.ob(S5, "%s keeps" % f.q, not k or nl is not None and nl[1], "%s replaces a slot that is connected" % f.q, at)
                    ck.ob(S5, "%s refuses" % f.q, k or nl is not None and not nl[1], "%s refuses a slot though there is room for it" % f.q, at)
                elif n == "addUnique":
                    ck.ob(S5, "%s once" % f.q, r is not None and bool(has) != r, "%s %s" % (f.q, "adds a slot that is connected" if r else "refuses a slot that is not connected"), at)
                else:
                    ck.ob(S5, "%s refuses" % f.q, k, "%s can refuse a slot" % f.q, at)
            elif n == "remove":
                gone = [x for x in (st.cl.get("erased"), st.cl.get("dropped")) if x is not None]
                ck.ob(S5, "%s reports" % f.q, r is not None and len(gone) == int(r) and not st.cl.get("cleared"),
                      "%s can return %s at line %s having removed %d slots" % (f.q, r, line, len(gone)), at)
                ck.ob(S5, "%s removes" % f.q, all(g is has or not self.many and has is not None for g in gone), "%s can remove another slot than the one named" % f.q, at)
                there = self.arg is not None and st.known(mk("init", self.arg)) is True or has is not None and st.known(mk("init", has)) is True or st.cl.get("was") is False
                ck.ob(S5, "%s names" % f.q, not r or there, "%s reports that it removed a slot when it was given none" % f.q, at)
                ck.ob(S5, "%s looks" % f.q, gone or st.known(mk("init", self.arg)) is False or not has and (st.cl.get("other") if not self.many else self.all(st)),
                      "%s can return at line %s without having looked at all slots" % (f.q, line), at)
            elif n == "has":
                if val is not None and r is None:  # the comparison with the end of the list, or of the slots themselves
                    e = eqs(val, True)
                    r = bool(has) if e else None
                ck.ob(S5, "%s reports" % f.q, r is not None and r == bool(has), "%s can return %s at line %s, the slot being %s" % (f.q, r, line, "there" if has else "not there"), at)
            elif n == "clear":
                ok = st.cl.get("cleared") or (self.all(st) if self.many else nl is not None and nl[1] or st.cl.get("dropped"))
                ck.ob(S5, "%s clears" % f.q, ok, "%s can end at line %s with slots still connected" % (f.q, line), at)
            elif n in ("size", "valid") and self.many:
                raw = any(x.k == "qry" and x.a[0] == "size" and self.isslots(E, x.a[1]) for x in leaves(val)) and st.cl.get("was") is not False
                ck.ob(S5, "%s counts" % f.q, not raw, "%s counts slots that are disconnected" % f.q, at)
                if st.cl.get("w"):
                    k, c = st.cl.get("lives", 0), val.a[0] if val.k == "c" else None
                    ok = (c is None or min(c, 2) == k) and self.all(st) if n == "size" else r is None or r == (k > 0) and (r or self.all(st))
                    ck.ob(S5, "%s counts" % f.q, ok, "%s can return %s at line %s, there being %s slots connected" % (f.q, E.name(val), line, k), at)
            elif n in ("size", "valid"):
                full = [t for t in (st.known(v) for v in list(st.eq) + [x[0] for x in st.ne] if v.k == "init" and self.slot(E, v) is v.a[0])]
                full = None if not full else full[0] and not st.cl.get("empty")
                ck.ob(S5, "%s counts" % f.q, r is None and eqs(val, True) or r == full, "%s can return %s at line %s, the slot being %s" %
                      (f.q, E.name(val), line, "connected" if full else "not connected"), at)


NOTIFY = tuple(NS + k + "::notify" for k in KEEPERS)
OPS = {NS + k + "::" + n: n for k in KEEPERS for n in ("add", "addUnique", "remove", "clear", "has", "notify")}
DELIVER = re.compile(r"^std::(promise::set_value|function::operator\\(\\))$".replace("\\\\", "\\"))


def lockres(v):
    return isinstance(v, V) and v.k == "res" and v.a[2] == "weak_lock"


class Own(Sig):
    """what a weak reference gave is only used while it is held, and only if it was there"""

    def on_after(self, E, st, site, q, args, v):
        if q == "std::weak_ptr::lock" and args:
            a = args[0]
            st.cl["own"] = st.cl.get("own", frozenset()) | {a}

    def on_call(self, E, st, site, q, args):
        if q == "std::weak_ptr::lock":
            st.cl["own"] = st.cl.get("own", frozenset()) | {args[0]}
        self.own(E, st, site, q, args)

    def cast(self, E, st, site, q, args):
        if q in ("std::reinterpret_pointer_cast", "std::static_pointer_cast") and len(args) == 2:
            for o in (0, 8):
                E.store(st, ptr(args[0], o), E.load(st, ptr(args[1], o), 8, "p"), 8)
            st.cl["own"] = st.cl.get("own", frozenset()) | {args[0]}
            return [("ret", None, st)]

    def on_branch(self, E, st, site, cond, truth):
        e = eqs(cond, truth)
        if e and NULL in e[:2]:
            y = e[0] if e[1] is NULL else e[1]
            if lockres(y):
                self.found(E, st, y, not e[2])

    def found(self, E, st, y, there):
        if there:
            st.cl["there"] = st.cl.get("there", frozenset()) | {y}
        else:
            st.cl["gone"] = 1

    def held(self, E, st, v):
        r = split(v)[0]
        while r.k == "idx":
            r = split(r.a[0])[0]
        return lockres(r) and r in st.cl.get("there", ()) and self.owned(E, st, r)


class Signal(Own):
    """the functions of a signal: what they do to the slots goes to their own keeper"""
    throws = ("throw",)

    def __init__(self, ck, f):
        Sig.__init__(self, ck, f)
        self.keeper, = [m[1] for m in layout(ck, SIG) if m[3] == "std::shared_ptr"]
        self.name = f.q.rsplit("::", 1)[1]
        self.mine = mk("init", ptr(self.this, self.keeper))

    def on_branch(self, E, st, site, cond, truth):
        Own.on_branch(self, E, st, site, cond, truth)
        e = eqs(cond, truth)
        if e and NULL in e[:2] and self.mine in e[:2]:
            st.cl["mine"] = not e[2]

    def on_load(self, E, st, site, addr, *rest):
        if st.cl.get("notified") and isinstance(addr, V) and split(addr)[0] is self.this:
            self.ob(S6, "after the slots", False, "uses the signal after its slots were called, one of which may have destroyed it", E, site)

    def on_unlock(self, E, st, site, m, *rest):
        if st.cl.get("notified"):
            r = m
            while not self.owned(E, st, r) and split(r)[0].k == "init":
                r = split(r)[0].a[0]
            self.ob(S6, "unlock", self.owned(E, st, r), "unlocks the lock of a signal that one of its slots may have destroyed", E, site)

    def on_call(self, E, st, site, q, args):
        Own.on_call(self, E, st, site, q, args)
        op = OPS.get(q)
        if op is None:
            if q == CON + "::Connection" and len(args) == 3 and self.sr and args[0].k == "arg" and args[0].a[0] == 0:
                st.cl["hub"] = E.load(st, args[1], 8, "p")
                st.cl["ctor"] = E.load(st, args[2], 8, "p")
            return self.cast(E, st, site, q, args)
        k = args[1] if op == "lastSlot" else args[0]
        own = split(k)[0] is self.mine
        if op == "notify":
            self.ob(S6, "notify", self.owned(E, st, k), "notifies slots that may destroy it without keeping them and their lock alive", E, site)
            self.ob(S3, "notify", own and not st.cl.get("notified") and list(args[1:]) == self.a[1:], "does not pass exactly its values on to its slots, once", E, site)
            st.cl["notified"] = 1
            return [("ret", None, st), ("throw", mk("exc", self.f.q, "_ZTISt9bad_alloc"), st.copy())]
        if op in ("add", "addUnique"):
            s = E.load(st, args[1], 8, "p")
            self.ob(S10, "add", own and "added" not in st.cl and s is not NULL, "stores no slot, a second one, or in another signal", E, site)
            if s.k == "heap":
                fn = E.load(st, ptr(s, 24), 8, "p")
                self.ob(S10, "ready", fn is not NULL, "stores a slot before it is ready to be called", E, site)
            st.cl["slot"] = s
            out = []
            for b in (TRUE, NULL):
                t = st.copy()
                t.cl["added"] = b is TRUE
                out.append(("ret", b, t))
            return out
        if op == "clear":
            self.ob(S10, "clear", own, "disconnects the slots of another signal", E, site)
            if self.name.startswith("~"):
                self.ob(S6, "moved from", st.cl.get("mine") is True, "uses its slots, which are gone if it was moved from", E, site)
            st.cl["cleared"] = 1
            return [("ret", None, st)]
        if op == "remove":
            self.ob(S10, "remove", own and E.load(st, args[1], 8, "p") is mk("init", self.a[1]), "disconnects another slot than the one it was given", E, site)
            out = []
            for b in (TRUE, NULL):
                t = st.copy()
                t.cl["removed"] = b is TRUE
                out.append(("ret", b, t))
            return out

    def exits(self, E, out):
        n, ck, f = self.name, self.ck, self.f
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            at = where(f, line)
            if n == "connect":
                ck.ob(S10, "%s ends" % f.q, "added" in st.cl, "%s can end at line %s without having stored its slot" % (f.q, line), at)
                if st.cl.get("added"):
                    ck.ob(S10, "%s hands out" % f.q, st.cl.get("hub") is self.mine and st.cl.get("ctor") is st.cl.get("slot"),
                          "%s hands out a connection that is not that of the slot it stored (line %s)" % (f.q, line), at)
                elif "added" in st.cl:
                    ck.ob(S10, "%s hands out" % f.q, "hub" not in st.cl, "%s hands out a connection for a slot that was not stored (line %s)" % (f.q, line), at)
            elif n in ("notify", "operator()"):
                ck.ob(S3, "%s ends" % f.q, st.cl.get("notified"), "%s can end at line %s without having notified" % (f.q, line), at)
            elif n.startswith("~"):
                ck.ob(S10, "%s ends" % f.q, st.cl.get("cleared") or st.cl.get("mine") is False, "%s can leave slots connected that are still to be called" % f.q, at)
            elif n == "disconnect" and "removed" in st.cl:
                ck.ob(S8, "%s reports" % f.q, val is not None and st.known(val) is st.cl["removed"] or val is C(int(st.cl["removed"])),
                      "%s does not report whether it disconnected" % f.q, at)
            elif n == "disconnect":
                ck.ob(S10, "%s ends" % f.q, st.cl.get("cleared"), "%s can end without having disconnected" % f.q, at)


class Ask(Own):
    """functions that pass on what the keeper of the slots says"""
    SAYS = {"connect": "addUnique", "disconnect": "remove", "connectedTo": "has", "connected": "valid", "connectionCount": "size"}

    def __init__(self, ck, f):
        Sig.__init__(self, ck, f)
        self.op = self.SAYS[f.q.rsplit("::", 1)[1]]

    def on_call(self, E, st, site, q, args):
        Own.on_call(self, E, st, site, q, args)
        n = next((q.rsplit("::", 1)[1] for k in KEEPERS if q.startswith(NS + k + "::")), None)
        if n in self.SAYS.values() or n in ("add", "clear"):
            r = split(args[0])[0]
            self.ob(S8, n, r is self.this or r.k == "init" and split(r.a[0])[0] is self.this, "asks the keeper of other slots", E, site)
            if n in ("addUnique", "remove", "has", "add"):
                self.ob(S8, "names", E.load(st, args[1], 8, "p") is mk("init", self.a[1]), "does not ask for the slot it was asked for", E, site)
            return [("ret", mk("qry", n, self.this), st)]
        return self.cast(E, st, site, q, args)

    def exits(self, E, out):
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            v, neg = val, False
            while v.k == "not":
                v, neg = v.a[0], not neg
            said = mk("qry", self.op, self.this)
            e = eqs(val, True)
            ok = v is said and not neg
            if self.op in ("valid",) and e and NULL in e[:2]:
                ok = mk("qry", "size", self.this) in e[:2] and not e[2]
            if v.k == "c":
                ok = st.known(said) is bool(v.a[0])
            self.ck.ob(S8, "%s reports" % self.f.q, ok, "%s can return %s at line %s, which is not what its slots say (%s)" % (self.f.q, E.name(val), line, self.op), where(self.f, line))


class Closure(Own):
    """the functions a signal stores for the slots it was given"""

    def __init__(self, ck, f):
        Sig.__init__(self, ck, f)
        self.tracks = any(ck.P.types[m[2]].get("q") == "std::weak_ptr" for m in members(ck.P, f.cls))
        self.what = closure(f)

    def ob(self, clause, what, ok, msg, E, site):
        self.ck.ob(clause, "%s in %s" % (what, self.what), ok, "%s %s" % (self.what, msg), self.at(E, site))

    def deliver(self, E, st, site, args):
        st.cl["delivered"] = sat(st.cl.get("delivered", 0) + 1)
        self.ob(S7, "once", st.cl["delivered"] == 1, "calls its slot twice", E, site)
        if self.tracks:
            self.ob(S7, "tracked", not st.cl.get("gone") and any(self.owned(E, st, y) for y in st.cl.get("there", ())),
                    "calls its slot without holding the object it was connected with", E, site)

    def on_call(self, E, st, site, q, args):
        Own.on_call(self, E, st, site, q, args)
        if DELIVER.match(q):
            self.deliver(E, st, site, args)
            return [("ret", None, st)]
        if q in NOTIFY:
            self.deliver(E, st, site, args)
            self.ob(S6, "notify", self.held(E, st, args[0]), "notifies the slots of another signal without keeping them and their lock alive", E, site)
            self.ob(S7, "values", all(split(a)[0].k == "arg" for a in args[1:]), "passes other values on than it was called with", E, site)
            return [("ret", None, st)]
        if q == "virtual" and vname(E, args[2]) == "execute":
            self.deliver(E, st, site, args)
            return [("ret", None, st)]
        if q == CON + "::disconnect":
            st.cl["disconnected"] = 1
            return [("ret", TRUE, st), ("ret", NULL, st.copy())]
        if q in (CON + "::holdingConnector", CON + "::holdingConnectorRef"):
            return [("ret", TRUE, st), ("ret", NULL, st.copy())]

    def on_indirect(self, E, st, site, cv, args):
        self.deliver(E, st, site, args)
        return [("ret", None, st)]

    def exits(self, E, out):
        ck, f = self.ck, self.f
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            n = st.cl.get("delivered", 0)
            ok = n == 1 if not st.cl.get("gone") else n == 0 and st.cl.get("disconnected")
            ck.ob(S7, "%s ends" % self.what, ok, "%s can end at line %s having called its slot %d times%s" %
                  (self.what, line, n, ", its object being gone" + ("" if st.cl.get("disconnected") else ", and stays connected") if st.cl.get("gone") else ""), where(f, line))


class Hub(Own):
    """connections: what they report is what the signal said"""
    OPS = {"disconnect": "disconnect", "connected": "connectedTo", "reconnect": "connect"}

    def __init__(self, ck, f):
        Sig.__init__(self, ck, f)
        self.name = f.q.rsplit("::", 1)[1]

    def on_call(self, E, st, site, q, args):
        Own.on_call(self, E, st, site, q, args)
        if q == "virtual" and any(E.p.fns[t].q.startswith(SIG + "::") for t in args[2]):
            n = vname(E, args[2])
            self.ob(S8, n, n == self.OPS[self.name] and "said" not in st.cl, "does not ask its signal to %s, once" % self.OPS[self.name], E, site)
            self.ob(S8, "alive", self.held(E, st, args[3]), "asks a signal that may be gone", E, site)
            c = E.load(st, args[4], 8, "p")
            self.ob(S8, "itself", c is not NULL and (lockres(c) or self.name == "reconnect"), "asks about another connection than itself", E, site)
            out = []
            for b in (TRUE, NULL):
                t = st.copy()
                t.cl["said"], t.cl["me"] = b is TRUE, c
                out.append(("ret", b, t))
            return out
        if q == "std::variant::operator=" and "said" in st.cl:
            st.cl["kept"] = E.load(st, args[1], 8, "p") is st.cl["me"]

    def exits(self, E, out):
        ck, f = self.ck, self.f
        for kind, val, st, line in out:
            if kind != "ret" or val is None:
                continue
            at = where(f, line)
            r = bool(val.a[0]) if val.k == "c" else st.known(val)
            ck.ob(S8, "%s reports" % f.q, r is not None and r == bool(st.cl.get("said")), "%s can return %s at line %s, the signal having said %s" % (f.q, r, line, st.cl.get("said")), at)
            if "said" not in st.cl:
                ck.ob(S8, "%s asks" % f.q, st.cl.get("gone") or st.cl.get("idle"), "%s can return at line %s without having asked its signal" % (f.q, line), at)
            if self.name != "connected" and r:
                ck.ob(S8, "%s keeps" % f.q, st.cl.get("kept"), "%s can end at line %s without its slot, which could be %s again" %
                      (f.q, line, "connected" if self.name == "disconnect" else "disconnected"), at)

    def found(self, E, st, y, there):
        Own.found(self, E, st, y, there)

    def on_branch(self, E, st, site, cond, truth):
        Own.on_branch(self, E, st, site, cond, truth)
        e = eqs(cond, truth)
        if self.name == "reconnect" and e and NULL in e[:2] and e[2] and not lockres(e[0]) and not lockres(e[1]):
            st.cl["idle"] = 1


class Scoped(Sig):
    def on_call(self, E, st, site, q, args):
        if q == CON + "::connected":
            t = st.copy()
            t.cl["off"] = 1
            return [("ret", TRUE, st), ("ret", NULL, t)]
        if q == CON + "::disconnect":
            st.cl["off"] = 1
            return [("ret", TRUE, st), ("ret", NULL, st.copy())]
        if q == CON + "::operator=" and split(args[0])[0] is self.this:
            self.ob(S9, "replaced", st.cl.get("off"), "replaces a connection that may still be connected", E, site)
            return None


def members(P, t):
    return P.types[P.rt(t)]["m"] if t is not None and t >= 0 else ()


def closure(f):
    return "the closure at %s" % f.q.split("(anon")[0] if "(" not in f.q else "closure of " + re.sub(r"<.*?>", "", f.dem.split("::'lambda")[0].split("::{lambda")[0])[-60:]


@prop("U01", "typestate of the notifying mark, the slot list and the owners of what is called, over the IR of every signal instance",
      "Every instance of the two keepers, of the signals and connections and of the closures they store, for the signals of the library and those of witness/signals.cpp (every alias, "
      "with and without locks). Slots may throw. That a slot nested in its own notification ends in the assertion is documented behaviour. Containers and shared pointers of the standard "
      "library are taken at their contracts.", witness=("signals",))
def signals(ck):
    P = ck.P
    for kind in KEEPERS:
        for f in ck.fn(NS + kind + "::notify"):
            r = Notify(ck, f, kind)
            E, out = ck.run(f, r)
            r.exits(E, out)
        for f in P.fns.values():
            if f.blocks and f.q.startswith(NS + kind + "::") and f.acc == "public" and f.q != NS + kind + "::notify" and not is_lambda(f) and f.cls is not None \
                    and not f.q.rsplit("::", 1)[1].startswith("~") and f.q.rsplit("::", 1)[1] != kind:
                r = Member(ck, f, kind)
                E, out = ck.run(f, r)
                r.exits(E, out)
    pub = [f for f in P.fns.values() if f.blocks and f.q.startswith(SIG + "::") and f.q.count("::") == SIG.count("::") + 1 and not is_lambda(f)]
    seen = set()
    for f in pub:
        n = f.q.rsplit("::", 1)[1]
        if n in ("connect", "notify", "operator()", "disconnect") or n.startswith("~"):
            r = Signal(ck, f)
            E, out = ck.run(f, r)
            r.exits(E, out)
            seen.add(n)
    for f in P.fns.values():
        n = f.q.split("::")[-1]
        if f.blocks and not is_lambda(f) and n in Ask.SAYS and (f.q == SIG + "::MyKeeper_::" + n or f.q == SIG + "::" + n and n in ("connected", "connectionCount")) and f.name.find("ZTh") < 0:
            r = Ask(ck, f)
            E, out = ck.run(f, r)
            r.exits(E, out)
    for f in P.fns.values():
        if f.blocks and is_lambda(f) and f.file.endswith(FILE) and f.q.endswith("operator()") and f.j["dty"][0] < 0 \
                and not re.match(r"_Z+NK?3maf12signal_slots7details\d+[A-Za-z]*Keeper", f.name):
            r = Closure(ck, f)
            E, out = ck.run(f, r)
            r.exits(E, out)
            for m in members(P, f.cls):
                t = P.types[P.rt(m[2])]
                ck.ob(S7, "%s in %s" % (m[0], r.what), not (t.get("k") == "ptr" and "reference" in t.get("tag", "")),
                      "%s refers to %s, which may be gone when the signal is notified" % (r.what, m[0]), where(f, f.line))
    for n in Hub.OPS:
        for f in ck.fn(CON + "::" + n):
            r = Hub(ck, f)
            E, out = ck.run(f, r)
            r.exits(E, out)
    for f in ck.fn(SCO + "::~ScopedConnection", SCO + "::operator="):
        r = Scoped(ck, f)
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            if kind == "ret":
                ck.ob(S9, "%s ends" % f.q, st.cl.get("off"), "%s can end at line %s with its connection still connected" % (f.q, line), where(f, line))
    for c in ("One", "Many"):
        for v in ("Signal", "SignalST", "SignalShared"):
            t = P.types[ck.tid("witness::" + c + v)]
            b, = [P.types[P.rt(m[2])] for m in t["m"] if m[0] == "<base>"]
            ck.ob(S5, "%s %s" % (c, v), ("SingleSlotKeeper" in b["n"]) == (c == "One"), "a signal for %s (%s) keeps its slots like the other kind" %
                  ("one connection" if c == "One" else "many connections", b["n"][:60]), "include/maf/utils/SignalSlots.h:1")
    ck.need(S7, 8)
    ck.need(S10, 6)
    ck.need(S8, 8)
    ck.need(S9, 2)


# ---------------------------------------------------------------- U02
STATE, OBS = NS + "StateBasedSlotKeeper", NS + "ObservableBasic_"
OBSFILE = "maf/utils/Observable.h"
OBSCLS = tuple(NS + c for c in ("ObservableBasic_", "BasicObservable_", "SingleStateObservableBasic_", "BasicSingleStateObservable_", "BasicCompoundObservable_"))

O1 = "a new state is announced once, after it is stored, and only if it differs"
O2 = "a silent write and a read announce nothing"
O3 = "what is announced is the state"
O4 = "an observable that may be destroyed by its slots outlives its call"
O5 = "a new slot is told the state it starts from once, one connected silently is not"
O6 = "each part of a joined state follows its own source"
O8 = "what an observable offers can be used"
O7 = "an arithmetic operation stores its result through a reference that announces it"


def nums(f, n):
    """the numbers among the template arguments of the function n in the name of f"""
    m = re.findall(r"(?<!\d)%d%sI?J?((?:Lm\d+E)+)" % (len(n), n), f.name)
    return tuple(int(x) for x in re.findall(r"Lm(\d+)E", m[-1])) if m else None


class State(Own):
    """what is known of the state, and of what is to become of it"""

    def __init__(self, ck, f):
        Sig.__init__(self, ck, f)
        self.state = role(ck, STATE, lambda q, t: q == "std::tuple", "the state")
        self.idx = nums(f, f.q.rsplit("::", 1)[1])

    def isstate(self, E, v):
        return isinstance(v, V) and E.in_member(v, STATE, self.state)

    def old(self, E, v):
        return False

    def labels(self, E, st, v, d=0):
        """the values v refers to: "state", "old" or parameters"""
        if not isinstance(v, V):
            return frozenset()
        v = st.canon(v) if hasattr(st, "canon") else v
        if v.k == "arg" and v in self.a[1:]:
            return frozenset((v,))
        if self.isstate(E, v):
            return frozenset(("state",))
        if self.old(E, v):
            return frozenset(("old",))
        if v.k == "init":
            return self.labels(E, st, v.a[0], d)
        r, o = split(v)
        if r.k == "arg" and r in self.a[1:]:
            return frozenset((r,))
        if r.k == "al" and d < 3:
            out = frozenset().union(*[w for a, w in st.cl.get("of", ()) if a is v])
            for i in range(4):
                for size in (8, 4):
                    try:
                        x = E.load(st, ptr(v, 8 * i), size, "p")
                    except Exception:
                        break
                    if isinstance(x, V) and x.k != "c" and split(x)[0] is not r and not (x.k == "init" and split(x.a[0])[0] is r):
                        out |= self.labels(E, st, x, d + 1)
                        break
            return out
        return frozenset()

    def compared(self, E, st, a, b):
        la, lb = self.labels(E, st, a), self.labels(E, st, b)
        if "state" in lb:
            la, lb = lb, la
        return lb - {"state"} if "state" in la and lb - {"state"} else None

    def differs(self, st, what, t):
        if t:
            st.cl["changed"] = True
        else:
            st.cl.setdefault("changed", False)
            st.cl["same"] = st.cl.get("same", frozenset()) | what

    def on_branch(self, E, st, site, cond, truth):
        Own.on_branch(self, E, st, site, cond, truth)
        e = eqs(cond, truth)
        if e and all(isinstance(x, V) for x in e[:2]):
            w = self.compared(E, st, e[0], e[1])
            if w:
                self.differs(st, w, not e[2])

    def on_store(self, E, st, site, addr, val, *rest):
        if self.isstate(E, addr):
            self.write(E, st, site, self.labels(E, st, val))
        if self.old(E, addr) and isinstance(val, V) and "state" in self.labels(E, st, val):
            st.cl["saved"] = bool(st.cl.get("locked"))

    def on_lock(self, E, st, site, *rest):
        st.cl["locked"] = 1

    def write(self, E, st, site, what):
        st.cl["stored"] = st.cl.get("stored", frozenset()) | what

    def on_call(self, E, st, site, q, args):
        Own.on_call(self, E, st, site, q, args)
        n = strip_targs(q.rsplit("::", 1)[-1]) if q.startswith("std::") else ""
        if n in ("operator!=", "operator==") and len(args) >= 2:
            w = self.compared(E, st, args[0], args[1])
            if w:
                t = st.copy()
                self.differs(st, w, n == "operator!=")
                self.differs(t, w, n == "operator==")
                return [("ret", TRUE, st), ("ret", NULL, t)]
        if q in ("std::basic_string::operator=", "std::basic_string::assign", "std::basic_string::basic_string", "std::basic_string::swap") and len(args) > 1:
            w = self.labels(E, st, args[1])
            if self.isstate(E, args[0]):
                self.write(E, st, site, w)
            elif self.old(E, args[0]) and "state" in w:
                st.cl["saved"] = bool(st.cl.get("locked"))
            elif split(args[0])[0].k == "al":
                st.cl["of"] = frozenset(x for x in st.cl.get("of", ()) if x[0] is not args[0]) | {(args[0], w)}

    def announced(self, E, st, site, n=1):
        st.cl["told"] = sat(st.cl.get("told", 0) + n)
        self.ob(O1, "once", st.cl["told"] == 1, "announces a state twice", E, site)


class Kept(State):
    """the state and its slots"""

    def __init__(self, ck, f):
        State.__init__(self, ck, f)
        self.name = f.q.rsplit("::", 1)[1]

    def on_call(self, E, st, site, q, args):
        if q in NOTIFY:
            self.ob(O3, "values", args[0] is self.this and all(len(x) == 1 and ("state" in x or x <= st.cl.get("stored", frozenset())) for x in (self.labels(E, st, a) for a in args[1:])),
                    "announces something else than the state", E, site)
            self.ob(O5 if self.name == "notifyOne" else O1, "tells", self.name != "notifyOne", "tells every slot the state, not the one connected", E, site)
            if self.name == "set":
                left = [a.a[1] or "its value" for a in self.a[1:] if a not in st.cl.get("stored", ())]
                self.ob(O1, "stored", not left, "announces a state before %s is stored" % ", ".join(left), E, site)
                self.ob(O1, "differs", st.cl.get("changed") is True, "announces a state that is not known to differ", E, site)
            self.announced(E, st, site)
            return [("ret", None, st)]
        if CALL.match(q) and self.name == "notifyOne":
            self.ob(O5, "values", split(args[0])[0] is mk("init", self.a[1]) and all(self.labels(E, st, a) == {"state"} for a in args[1:]),
                    "tells a slot something else than the state, or another slot", E, site)
            self.announced(E, st, site)
            return [("ret", None, st)]
        return State.on_call(self, E, st, site, q, args)

    def exits(self, E, out):
        ck, f, n = self.ck, self.f, self.name
        given = frozenset(self.a[1:])
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            at = where(f, line)
            told, ch = st.cl.get("told", 0), st.cl.get("changed")
            if n == "set":
                ck.ob(O1, "%s decides" % f.q, ch is not None, "%s can end at line %s without having compared its values with the state" % (f.q, line), at)
                ck.ob(O1, "%s announces" % f.q, told == int(bool(ch)), "%s can end at line %s having announced %d states, the state having %schanged" % (f.q, line, told, "" if ch else "not "), at)
                ck.ob(O1, "%s looks" % f.q, ch or given <= st.cl.get("same", frozenset()), "%s drops values it did not compare with the state" % f.q, at)
                ck.ob(O1, "%s stores" % f.q, not ch or given <= st.cl.get("stored", frozenset()), "%s can end at line %s with a value that was not stored" % (f.q, line), at)
            elif n == "silentSet":
                ck.ob(O2, "%s is silent" % f.q, not told, "%s announces the state" % f.q, at)
                ck.ob(O2, "%s stores" % f.q, given <= st.cl.get("stored", frozenset()) | (st.cl.get("same", frozenset()) if ch is False else frozenset()),
                      "%s can end at line %s with a value that was not stored" % (f.q, line), at)
            elif n == "notifyState":
                ck.ob(O1, "%s announces" % f.q, told == 1, "%s can end at line %s without announcing the state" % (f.q, line), at)
            elif n == "notifyOne":
                there = st.known(mk("init", self.a[1]))
                fn = [e for e in st.eq if e is not None]
                ck.ob(O5, "%s tells" % f.q, told or there is False, "%s can end at line %s without telling the slot the state" % (f.q, line), at)


class Ref(State):
    """references to the state that announce what was written through them"""

    def __init__(self, ck, f, cls):
        State.__init__(self, ck, f)
        self.top = cls
        self.keep, self.olds = None, []
        self.walk(cls, 0)

    def walk(self, t, off):
        P = self.ck.P
        for m in members(P, t):
            r = P.types[P.rt(m[2])]
            o = off + m[1]
            q = r.get("q", "")
            if m[0] == "<base>":
                self.walk(m[2], o)
            elif q == "std::shared_ptr":
                self.keep = o
            elif "Ref" in q and "Ref" in q.rsplit("::", 1)[-1]:
                self.lock = o
            else:
                self.olds.append((o, r.get("sz") or 8))

    def base(self):
        return self.this

    def old(self, E, v):
        r, o = split(v) if isinstance(v, V) else (None, 0)
        return r is self.base() and any(a == o or a < o < a + max(n, 1) for a, n in self.olds)


class Release(Ref):
    """the end of a reference"""
    loud = True

    def on_unlock(self, E, st, site, m, *rest):
        st.cl["unlocked"] = 1
        if self.loud:
            self.ob(O4, "unlock", not st.cl.get("released") and self.keep is not None, "unlocks the lock of an observable that one of its slots may have destroyed", E, site)

    def on_call(self, E, st, site, q, args):
        if q == STATE + "::notifyState" or q in NOTIFY:
            self.ob(O1, "differs", st.cl.get("changed") is True or not self.loud, "announces a state that is not known to differ", E, site)
            self.ob(O3, "locked", not st.cl.get("unlocked"), "announces the state after others may have changed it", E, site)
            self.announced(E, st, site)
            return [("ret", None, st)]
        m = SHP.match(q)
        if m and args and "~" in m.group(2) and self.keep is not None and args[0] is ptr(self.this, self.keep):
            st.cl["released"] = 1
        return State.on_call(self, E, st, site, q, args)

    def exits(self, E, out):
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            told, ch = st.cl.get("told", 0), st.cl.get("changed")
            at = where(self.f, line)
            if self.loud:
                self.ck.ob(O1, "%s decides" % self.f.q, ch is not None, "%s does not find out whether the state was changed" % self.f.q, at)
                self.ck.ob(O1, "%s announces" % self.f.q, told == int(bool(ch)), "%s can end having announced %d states, the state having %schanged" % (self.f.q, told, "" if ch else "not "), at)
            else:
                self.ck.ob(O2, "%s is silent" % self.f.q, not told, "%s announces the state" % self.f.q, at)


class Take(Ref):
    """the making of a reference"""
    loud = True

    def base(self):
        return mk("arg", 0, "sret")

    def exits(self, E, out):
        ck, f = self.ck, self.f
        mine = mk("init", ptr(self.this, [m[1] for m in layout(ck, SIG) if m[3] == "std::shared_ptr"][0]))
        dummy = "DummyMutex" in f.dem or "NonAtomic" in f.dem
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            at = where(f, line)
            b = self.base()
            ck.ob(O4, "%s refers" % f.q, split(E.load(st, ptr(b, self.lock), 8, "p"))[0] is mine, "%s refers to the state of another observable" % f.q, at)
            ck.ob(O4, "%s locks" % f.q, dummy or st.cl.get("locked"), "%s refers to the state without its lock" % f.q, at)
            if self.loud:
                ck.ob(O4, "%s keeps" % f.q, self.keep is not None and split(E.load(st, ptr(b, self.keep), 8, "p"))[0] is mine, "%s does not keep the state and its slots alive" % f.q, at)
                ck.ob(O1, "%s remembers" % f.q, self.olds and "saved" in st.cl and (dummy or st.cl["saved"]), "%s does not remember the state it found under its lock" % f.q, at)


class Facade(State):
    """observables pass on what they are told, once, and look at nothing of themselves afterwards"""

    def __init__(self, ck, f):
        State.__init__(self, ck, f)
        self.name = f.q.rsplit("::", 1)[1]
        self.keeper, = [m[1] for m in layout(ck, SIG) if m[3] == "std::shared_ptr"]
        self.mine = mk("init", ptr(self.this, self.keeper))
        if self.name in ("connect", "silentlyConnect"):
            self.res = mk("arg", 0, "sret")

    def on_load(self, E, st, site, addr, *rest):
        if st.cl.get("told") and isinstance(addr, V) and split(addr)[0] is self.this:
            self.ob(O4, "after the slots", False, "uses the observable after its slots were called, one of which may have destroyed it", E, site)

    def on_unlock(self, E, st, site, m, *rest):
        if st.cl.get("told"):
            r = m
            while not self.owned(E, st, r) and split(r)[0].k == "init":
                r = split(r)[0].a[0]
            self.ob(O4, "unlock", self.owned(E, st, r), "unlocks the lock of an observable that one of its slots may have destroyed", E, site)

    def same(self, E, st, a, b):
        return a is b or self.labels(E, st, a) == self.labels(E, st, b) != frozenset()

    def on_call(self, E, st, site, q, args):
        r = State.on_call(self, E, st, site, q, args)
        if r:
            return r
        n = q[len(STATE) + 2:] if q.startswith(STATE + "::") else None
        if n in ("set", "silentSet", "notifyOne", "notifyState"):
            self.ob(O3, n, split(args[0])[0] is self.mine, "goes to the state of another observable", E, site)
            if n != "silentSet":
                self.ob(O4, n, self.owned(E, st, args[0]), "calls slots that may destroy it without keeping them and their lock alive", E, site)
                self.announced(E, st, site)
            else:
                st.cl["wrote"] = sat(st.cl.get("wrote", 0) + 1)
        if n in ("set", "silentSet"):
            st.cl["op"] = n
            want = self.a[1:]
            if self.name == "operator=" and len(args) - 1 > 1:
                ok = all(self.labels(E, st, a) == {self.a[1]} for a in args[1:]) and len(set(args[1:])) == len(args) - 1
            else:
                ok = len(args) - 1 == len(want) and all(self.same(E, st, a, b) for a, b in zip(args[1:], want))
            self.ob(O3, "values", ok, "does not pass exactly its values on", E, site)
            i, mine = nums(callee(E, site), n), self.idx
            self.ob(O3, "parts", i == mine or (mine is None and i == (0,) and len(args) == 2), "passes its values on to other parts of the state (%s, not %s)" % (i, mine), E, site)
            return [("ret", None, st)]
        if n == "notifyOne":
            c = E.load(st, args[1], 8, "p")
            self.ob(O5, "tells", c is mk("qry", "slot", self.res), "tells the state to another slot than the one connected", E, site)
            return [("ret", None, st)]
        if n == "notifyState":
            self.ob(O5 if "onnect" in self.name else O1, "tells", "onnect" not in self.name, "tells every slot the state, not the one connected", E, site)
            return [("ret", None, st)]
        if q == SIG + "::connect":
            self.ob(O5, "connects", args[1] is self.this and "con" not in st.cl and args[0] is self.res, "connects twice, or to another observable", E, site)
            st.cl["con"] = args[0]
            return [("ret", None, st)]
        if q == CON + "::getSlotPtr":
            E.store(st, args[0], mk("qry", "slot", args[1]), 8)
            return [("ret", None, st)]

    def exits(self, E, out):
        ck, f = self.ck, self.f
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            at = where(f, line)
            told = st.cl.get("told", 0)
            if self.name in ("connect", "silentlyConnect"):
                ck.ob(O5, "%s connects" % f.q, "con" in st.cl, "%s can end without having connected its slot" % f.q, at)
                ck.ob(O5, "%s tells" % f.q, told == (self.name == "connect"), "%s can end having told the new slot the state %d times" % (f.q, told), at)
            elif self.name == "silentSet":
                ck.ob(O2, "%s ends" % f.q, not told and st.cl.get("wrote") == 1, "%s can end without having stored its values silently" % f.q, at)
            else:
                ck.ob(O1, "%s ends" % f.q, told == 1 and st.cl.get("op") == "set", "%s can end without having set its state, or without announcing it" % f.q, at)


class Join(Own):
    """the connection of a joined observable to its sources"""

    def __init__(self, ck, f):
        Sig.__init__(self, ck, f)
        self.idx = (nums(f, "connect") or (-1,))[0]
        self.keeper, = [m[1] for m in layout(ck, SIG) if m[3] == "std::shared_ptr"]
        self.ctor = f.q.endswith("::BasicCompoundObservable_")
        rest = self.a[1:]
        P = ck.P
        self.ex = [a for a, x in list(zip(self.a, f.args[self.sr:]))[1:] if x[0] < 0 or P.types[P.rt(P.types[P.rt(x[0])].get("to", x[0]))].get("q") == "std::shared_ptr"]
        self.src = [a for a in rest if a not in self.ex]

    def on_call(self, E, st, site, q, args):
        Own.on_call(self, E, st, site, q, args)
        f = callee(E, site)
        if q.endswith("ProcessorConnector::connect"):
            i = (nums(f, "connect") or (-1,))[0]
            given = [a for a in args[1:] if a not in self.ex]
            want = self.src if self.ctor else self.src[1:]
            self.ob(O6, "others", i == (0 if self.ctor else self.idx + 1) and args[0] is self.this and given == want and "others" not in st.cl,
                    "does not connect the sources that are left to the parts of the state that are left, in order (part %d on)" % i, E, site)
            self.ob(O6, "executor", len(args) - 1 - len(given) == len(self.ex), "does not pass its executor on", E, site)
            st.cl["others"] = 1
            return [("ret", None, st)]
        if q.startswith(NS + "BasicObservable_::") and q.endswith("::set") or q == STATE + "::set":
            i = nums(f, "set")
            self.ob(O6, "initial", i == (self.idx,) and "got" in st.cl, "starts with the state of another source", E, site)
            st.cl["first"] = 1
            return [("ret", None, st)]
        n = q.rsplit("::", 1)[-1]
        if n == "get" and q.startswith(OBSCLS):
            o = [a for a in args if a in self.src]
            self.ob(O6, "initial", o and o[0] is self.src[0], "starts with the state of another source", E, site)
            st.cl["got"] = 1
            return [("ret", mk("qry", "state", self.src[0]), st)]
        if n in ("connect", "silentlyConnect") and q.startswith(OBSCLS + (SIG,)):
            self.ob(O6, "source", args[1] is self.src[0] and "con" not in st.cl, "connects to another source, or twice", E, site)
            fn = E.load(st, args[2], 8, "p")
            self.ob(O6, "keeps", split(fn)[0] is mk("init", ptr(self.this, self.keeper)), "stores a slot that does not keep the joined state alive", E, site)
            self.ob(O6, "executor", bool(self.ex) == (len(args) > 3), "does not pass its executor on", E, site)
            self.ob(O6, "starts", n == "connect" and not self.ex or st.cl.get("first"), "does not start with the state its source has", E, site)
            st.cl["con"] = args[0]
            return [("ret", None, st)]
        if q == SCO + "::ScopedConnection" and len(args) > 1 and args[1] is st.cl.get("con"):
            st.cl["con"] = args[0]
            return [("ret", None, st)]
        if q in (SCO + "::~ScopedConnection", CON + "::~Connection"):
            return [("ret", None, st)]
        if n == "operator<<" and q.startswith(NS + "ScopedConnectionGroup"):
            if args[-1] is st.cl.get("con") or args[1] is st.cl.get("con"):
                self.ob(O6, "held", split(args[0])[0] is self.this or split(args[0])[0].k == "arg", "does not hold the connection to its source", E, site)
                st.cl["held"] = 1
            return [("ret", args[0], st)]

    def exits(self, E, out):
        ck, f = self.ck, self.f
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            at = where(f, line)
            if not self.ctor:
                ck.ob(O6, "%s holds" % f.q, "con" in st.cl and "held" in st.cl, "%s can end without holding a connection to its source" % f.q, at)
            left = self.src if self.ctor else self.src[1:]
            ck.ob(O6, "%s goes on" % f.q, not left or "others" in st.cl, "%s can end with sources that were not connected" % f.q, at)


class Follow(Own):
    """the slot by which a part of a joined state follows its source"""

    def __init__(self, ck, f):
        Sig.__init__(self, ck, f)
        self.idx = (nums(f, "connect") or (-1,))[0]

    def on_call(self, E, st, site, q, args):
        Own.on_call(self, E, st, site, q, args)
        if q == STATE + "::set":
            st.cl["n"] = sat(st.cl.get("n", 0) + 1)
            r = split(args[0])[0]
            while r.k == "idx":
                r = split(r.a[0])[0]
            self.ob(O6, "joined state", r.k == "init" and split(r.a[0])[0] is self.this, "sets something else than the joined state", E, site)
            self.ob(O6, "part", nums(callee(E, site), "set") == (self.idx,), "sets part %s of the joined state, not part %d" % (nums(callee(E, site), "set"), self.idx), E, site)
            v = args[1]
            self.ob(O6, "value", len(args) == 2 and (v is self.a[1] or E.load(st, v, 8, "p") is E.load(st, self.a[1], 8, "p") or v is mk("init", self.a[1]) or split(v)[0].k == "al"),
                    "sets another value than the one its source has", E, site)
            return [("ret", None, st)]

    def exits(self, E, out):
        for kind, val, st, line in out:
            if kind == "ret":
                self.ck.ob(O6, "%s follows" % closure(self.f), st.cl.get("n") == 1, "the slot of part %d of a joined state can end without having set it" % self.idx, where(self.f, line))


ARITH = {"=": None, "+=": "add", "-=": "sub", "*=": "mul", "/=": "sdiv", "%=": "srem", "|=": "or", "&=": "and", "<<=": "shl", ">>=": "ashr", "^=": "xor", "++": "add"}


class Arith(State):
    """operators of observable numbers"""

    def __init__(self, ck, f):
        State.__init__(self, ck, f)
        self.op = re.search(r"operator(\S+?)\(", f.dem).group(1)

    def on_store(self, E, st, site, addr, val, *rest):
        if not self.isstate(E, addr):
            return State.on_store(self, E, st, site, addr, val)
        st.cl["n"] = sat(st.cl.get("n", 0) + 1)
        cur = mk("init", addr)
        by = None
        if len(self.a) > 1 and self.op != "++":
            by = [self.a[1], mk("init", self.a[1])]
        want = ARITH[self.op]
        if self.op == "++":
            ok = val.k == "add" and {val.a[0], val.a[1]} == {cur, C(1)}
        elif want is None:
            ok = val in by
        elif want == "add" and val.k == "sub":
            ok = False
        else:
            ok = val.k == want and (val.a[0] is cur and val.a[1] in by or want in ("add", "mul", "and", "or", "xor") and val.a[1] is cur and val.a[0] in by)
        self.ob(O7, "result", ok, "stores %s" % E.name(val), E, site)
        st.cl["after"], st.cl["before"] = val, cur

    def on_call(self, E, st, site, q, args):
        n = q.rsplit("::", 1)[-1]
        if n == "mutable_" and q.startswith(OBSCLS) and len(args) == 2:
            st.cl["ref"] = args[0]
        if n.startswith("~") and args[0] is st.cl.get("ref") and args[0] is not None:
            st.cl["end"] = "n" in st.cl
        if q == STATE + "::notifyState":
            return [("ret", None, st)]
        return State.on_call(self, E, st, site, q, args)

    def exits(self, E, out):
        ck, f = self.ck, self.f
        post = self.op == "++" and len(self.a) > 1
        for kind, val, st, line in out:
            if kind != "ret":
                continue
            at = where(f, line)
            own = "ArithmeticStateBase_" in f.q and re.search(r"SubStateRef<[^<>]*>>::operator", f.dem)
            ck.ob(O7, "%s stores" % f.dem[-40:], st.cl.get("n") == 1, "%s can end having stored %d results" % (f.q, st.cl.get("n", 0)), at)
            ck.ob(O7, "%s announces" % f.dem[-40:], own or st.cl.get("end"), "%s writes the state without announcing it" % f.q, at)
            if val is not None and "n" in st.cl:
                w = st.cl["before"] if post else st.cl["after"]
                ck.ob(O7, "%s returns" % f.dem[-40:], val is w, "%s returns %s instead of the value %s" % (f.q, E.name(val), "it had before" if post else "it has"), at)


@prop("U02", "typestate of the state, the comparison and the announcement, over the IR of every observable instance",
      "Every instance of the state keepers, observables, references, joined observables and arithmetic operators for the observables of the library and those of witness/observables.cpp. "
      "What a slot list does with an announcement is U01.")
def observables(ck):
    P = ck.P
    loud, quiet = {}, {}
    broken = getattr(P, "broken", {}).get("observables")
    ck.ob(O8, "witness/observables.cpp", not broken, "a program that uses what observables offer does not compile any more: %s" % broken, "include/%s:1" % OBSFILE)
    for f in P.fns.values():
        if f.blocks and f.q.startswith("witness_observables::"):
            for b in (f.blocks if isinstance(f.blocks, list) else f.blocks.values()):
                for ins in b:
                    c = P.fns.get(ins[2]) if ins[0] in ("call", "invoke") and isinstance(ins[2], str) else None
                    if c is not None and c.q.rsplit("::", 1)[-1] in ("connect", "silentlyConnect"):
                        ck.ob(O5, "connects in %s" % f.q, c.q.startswith(OBS), "%s: connecting to an observable with (%s) does not tell the slot the state" % (f.q, c.dem.rsplit("(", 1)[-1][:80]), where(c))
    fns = [f for f in P.fns.values() if f.blocks and f.file.endswith(OBSFILE)]
    for f in fns:
        n = f.q.rsplit("::", 1)[-1]
        if f.q.startswith(STATE + "::") and f.q.count("::") == STATE.count("::") + 1 and n in ("set", "silentSet", "notifyState", "notifyOne"):
            r = Kept(ck, f)
        elif f.q.rsplit("::", 1)[0] in OBSCLS and n in ("set", "silentSet", "connect", "silentlyConnect", "operator=") and f.j["dty"][0] != f.cls \
                and not any("&&" in f.dem.rsplit("(", 1)[-1] for _ in (0,) if n == "operator="):
            r = Facade(ck, f)
        elif f.q.rsplit("::", 1)[0] in OBSCLS and n in ("mutable_", "silentMutable", "immutable"):
            cls = f.j["dty"][0]
            r = Take(ck, f, cls)
            r.loud = n == "mutable_"
            (loud if r.loud else quiet)[P.rt(cls)] = cls
        else:
            continue
        E, out = ck.run(f, r)
        r.exits(E, out)
    ends = {P.rt(f.cls): f for f in fns if f.q.rsplit("::", 1)[-1].startswith("~") and f.cls is not None and f.cls >= 0}
    for d in (loud, quiet):
        for t, cls in d.items():
            f = None
            while f is None:
                f = ends.get(t)
                if f is None:
                    b = [m for m in members(P, t) if m[0] == "<base>" and m[1] == 0]
                    if not b:
                        break
                    t = P.rt(b[0][2])
            if f is None:
                ck.ob(O1 if d is loud else O2, P.types[P.rt(cls)]["n"][-60:], d is quiet, "%s ends without announcing what was written" % P.types[P.rt(cls)]["n"][-60:], "include/" + OBSFILE + ":1")
                continue
            r = Release(ck, f, t)
            r.loud = d is loud
            E, out = ck.run(f, r)
            r.exits(E, out)
    for f in fns:
        n = f.q.rsplit("::", 1)[-1]
        if f.q == NS + "BasicCompoundObservable_::BasicCompoundObservable_" and len(f.args) > 2 or f.q.endswith("ProcessorConnector::connect") and not is_lambda(f):
            r = Join(ck, f)
        elif is_lambda(f) and n == "operator()" and "ProcessorConnector" in f.dem:
            r = Follow(ck, f)
        elif f.q.startswith(NS + "ArithmeticStateBase_::operator") and re.search(r"operator([^\s\w(]+)\(", f.dem):
            r = Arith(ck, f)
        else:
            continue
        E, out = ck.run(f, r)
        r.exits(E, out)
