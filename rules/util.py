"""helpers shared by the rules"""
import re
from maf.core import *
from maf.engine import CONT, LOCKCLS, ITER_CLS, strip_targs

FLAGLOAD = re.compile(r"^std::(atomic|__atomic_base)::(load|operator [A-Za-z_].*)$")
FLAGSTORE = re.compile(r"^std::(atomic|__atomic_base)::(store|operator=|exchange|compare_exchange_strong|compare_exchange_weak)$")
ATOMICRES = re.compile(r"^std::(atomic|__atomic_base)::(load|exchange|operator [A-Za-z_].*)$|^atomic_")
CVWAIT = re.compile(r"^std::condition_variable(_any)?::(wait|wait_for|wait_until)$")
CVNOTIFY = re.compile(r"^std::condition_variable(_any)?::(notify_one|notify_all)$")


def callee(E, site):
    c = site.ins[2]
    return E.p.fns.get(c) if isinstance(c, str) else None


def cont_op(E, site, q, args):
    """(class, operation, container address) of a standard container member call, else None"""
    m = CONT.match(q)
    if not m or not args:
        if args and q in ("std::begin", "std::end", "std::cbegin", "std::cend"):
            return "", q[5:], args[-1]
        return None
    f = callee(E, site)
    sret = bool(f is not None and f.args and f.args[0][3])
    nm = m.group(2)
    nm = nm if nm.startswith("operator") else strip_targs(nm)
    a = args[1] if sret and len(args) > 1 else args[0]
    return m.group(1), nm, a


def rvalue(E, f, i):
    """parameter i of a call is an rvalue reference"""
    t = E.argtype(f, i) if f is not None else -1
    return t >= 0 and E.p.types[t]["k"] == "ptr" and "rvalue" in E.p.types[t]["tag"]


def emptied(E, st, site, q, args):
    """the container that has lost all its elements after this call, or None"""
    if q == "std::swap" and len(args) == 2:
        l = [a for a in args if split(a)[0].k == "al"]
        o = [a for a in args if split(a)[0].k != "al"]
        return o[0] if l and o else None
    m = CONT.match(q)
    if not m or not args:
        return None
    nm = strip_targs(m.group(2))
    if nm == "clear":
        return args[0]
    if nm == "swap" and len(args) == 2:
        return args[1] if split(args[0])[0].k == "al" else args[0] if split(args[1])[0].k == "al" else None
    if len(args) == 2 and isinstance(args[1], V) and (nm == strip_targs(m.group(1)) or m.group(2).startswith("operator=")) and rvalue(E, callee(E, site), 1):
        if m.group(2).startswith("operator=") and split(args[1])[0].k == "al":
            return args[0]
        return args[1]
    return None


def nonempty(st, cont):
    """is the container known to be non-empty here?"""
    z = mk("qry", "size", cont)
    if st.known(z) is True:
        return True
    n = st.eq.get(z)
    if n:
        return True
    return any(t and v.k == "icmp" and v.a[0] in ("ult", "slt") and v.a[2] is z for v, t in st.facts.items())


def held(st, E, pred):
    return [m for m, mode in st.locks if pred(m)]


def layout(ck, q):
    """[(member name, offset, type id, type qname)] of the first instantiation of a class"""
    out = []
    P = ck.P
    t = P.types[ck.tid(q)]
    for m in t["m"]:
        mt = P.rt(m[2])
        out.append((m[0], m[1], mt, P.types[mt].get("q", P.types[mt]["k"]) if mt >= 0 else ""))
    return out


def role(ck, q, pred, what):
    """the unique member of class q whose type satisfies pred"""
    r = [m for m in layout(ck, q) if pred(m[3], ck.P.types[m[2]] if m[2] >= 0 else {})]
    if len(r) != 1:
        raise AnalysisError("%s: expected one member that is %s, found %s" % (q, what, [m[0] for m in r]))
    return r[0][0]


def sat(n, k=2):
    return min(n, k)


class Flags(R):
    """atomic flags that only change under a lock keep their value inside a critical section of that lock"""

    def flag_of(self, E, addr):
        """lock address guarding the flag at addr, or None"""
        return None

    def on_lock(self, E, st, site, m, mode):
        self.drop(st, m)

    def part(self, st):
        r = []
        for d in (st.eq, st.facts):
            for v in d:
                for x in leaves(v):
                    if x.k in ("flag", "qry"):
                        r.append(x)
        for v, n in st.ne:
            for x in leaves(v):
                if x.k in ("flag", "qry"):
                    r.append(x)
        return frozenset((x, st.known(x)) for x in r)

    def drop(self, st, m):
        st.forget(lambda x: x.k == "flag" and x.a[1] is m)

    def on_call(self, E, st, site, q, args):
        if FLAGLOAD.match(q):
            g = self.flag_of(E, args[0])
            if g is not None and any(m is g for m, _ in st.locks):
                return [("ret", mk("flag", args[0], g), st)]
        elif FLAGSTORE.match(q):
            g = self.flag_of(E, args[0])
            if g is not None and any(m is g for m, _ in st.locks):
                fl = mk("flag", args[0], g)
                op = q.rsplit("::", 1)[1]
                if op in ("store", "operator="):
                    st.forget(lambda x: x is fl)
                    st.assume(fl, bool(args[1].a[0])) if args[1].k == "c" else None
                    self.flag_written(E, st, site, args[0], args[1])
                    return [("ret", args[1] if site.ins[1] >= 0 else None, st)]
                if op == "exchange" and args[1].k == "c":
                    outs = []
                    for old in (0, 1):
                        s = st.copy()
                        if s.assume(fl, bool(old)):
                            s.forget(lambda x: x is fl)
                            s.assume(fl, bool(args[1].a[0]))
                            if args[1].a[0] != old:
                                self.flag_written(E, s, site, args[0], args[1])
                            outs.append(("ret", C(old), s))
                    return outs
                if op.startswith("compare_exchange") and args[2].k == "c":
                    exp = E.load(st, args[1], 1)
                    if exp.k == "c":
                        outs = []
                        s = st.copy()
                        if s.assume(fl, bool(exp.a[0])):
                            s.forget(lambda x: x is fl)
                            s.assume(fl, bool(args[2].a[0]))
                            self.flag_written(E, s, site, args[0], args[2])
                            outs.append(("ret", TRUE, s))
                        if st.assume(fl, not exp.a[0]):
                            E.store(st, args[1], C(1 - exp.a[0]), 1)
                            outs.append(("ret", NULL, st))
                        return outs
            elif g is not None:
                self.flag_unlocked(E, st, site, args[0])
        elif CVWAIT.match(q):
            for m, _ in st.locks:
                self.drop(st, m)
        return None

    def flag_written(self, E, st, site, addr, v):
        pass

    def flag_unlocked(self, E, st, site, addr):
        pass


def enum(ck, q):
    """enumerators of the first enumeration of that name"""
    for t in ck.P.types:
        if t["k"] == "enum" and t.get("q") == q:
            return t["e"]
    raise AnalysisError("no enumeration %s in the program" % q)


def vname(E, targets):
    """name of the member function a virtual call reaches"""
    return E.p.fns[targets[0]].q.split("::")[-1] if targets else ""


def eqs(cond, truth):
    """(x, y, truth) of an equality tested by a branch, else None"""
    t = truth
    while cond.k == "not":
        cond, t = cond.a[0], not t
    if cond.k == "icmp" and cond.a[0] == "eq":
        return cond.a[1], cond.a[2], t
    if cond.k == "icmp" and cond.a[0] == "ne":
        return cond.a[1], cond.a[2], not t
    return None


class Walk(R):
    """loops over containers: every element has its turn before the loop goes on, and the loop reaches the end"""

    def walked(self, E, st, cont):
        """a name for the loops over this container that are followed, or None"""

    def turn(self, st, w):
        st.cl["t:" + w] = 1

    def done(self, st, w):
        return st.cl.get("w:" + w) == "done"

    def left(self, E, st, site, w, how):
        pass

    def walk_call(self, E, st, site, q, args):
        m = ITER_CLS.match(q)
        if m and args and m.group(3).startswith("operator++"):
            it = E.load(st, args[0], 8, "p")
            c = E.iter_cont(it)
            w = self.walked(E, st, c) if isinstance(c, V) else None
            if w:
                if not st.cl.pop("t:" + w, None):
                    self.left(E, st, site, w, "passes over an element")
            return
        co = cont_op(E, site, q, args)
        if co and co[1] in ("begin", "cbegin", "end", "cend"):
            if co[1] in ("end", "cend") and "w:%s" % self.walked(E, st, co[2]) in st.cl:
                return
            w = self.walked(E, st, co[2])
            if w and co[1] in ("begin", "cbegin"):
                st.cl["w:" + w] = len(E.stack)
                st.cl.pop("t:" + w, None)
        if co and co[1] == "erase" and len(args) > 1:
            w = self.walked(E, st, co[2])
            if w and "w:" + w in st.cl:
                st.cl.pop("t:" + w, None)

    def walk_branch(self, E, st, site, cond, truth):
        e = eqs(cond, truth)
        if e and e[2] and e[0].k == "iter" and e[1].k == "iter" and "end" in (e[0].a[2], e[1].a[2]) and "find" not in (e[0].a[2], e[1].a[2]):
            w = self.walked(E, st, e[0].a[0])
            if w and "w:" + w in st.cl:
                st.cl["w:" + w] = "done"

    def walk_return(self, E, st, site, fn):
        n = len(E.stack)
        for k, v in list(st.cl.items()):
            if isinstance(k, str) and k.startswith("w:") and isinstance(v, int) and v >= n:
                st.cl[k] = "broken"
                self.left(E, st, site, k[2:], "stops before the last element")

    def on_call(self, E, st, site, q, args):
        self.walk_call(E, st, site, q, args)

    def on_branch(self, E, st, site, cond, truth):
        self.walk_branch(E, st, site, cond, truth)

    def on_return(self, E, st, site, fn, val):
        self.walk_return(E, st, site, fn)
