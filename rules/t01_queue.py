"""T01: the closable queue hands every element to exactly one taker and refuses pushes once closed."""
from .util import *

Q = "maf::threading::ThreadSafeQueue"


class QueueRule(Flags):
    throws = ("user", "std")

    def __init__(self, ck, f, roles):
        self.ck, self.f = ck, f
        self.mq, self.mc, self.mf = roles
        self.ops = set()

    # -- where things are
    def inq(self, E, a):
        return E.in_member(a, Q, self.mq)

    def mutex(self, E, a):
        """the queue's mutex is inside the lockable member"""
        return self.inq(E, a)

    def flag_of(self, E, addr):
        if not E.in_member(addr, Q, self.mf):
            return None
        return self._m

    def locked(self, E, st):
        return any(self.mutex(E, m) for m, _ in st.locks)

    def on_lock(self, E, st, site, m, mode):
        if self.mutex(E, m):
            self._m = m
            st.cl["cs"] = 1
            st.cl.pop("front", None)
        Flags.on_lock(self, E, st, site, m, mode)

    _m = None

    def on_call(self, E, st, site, q, args):
        cl = st.cl
        co = cont_op(E, site, q, args)
        if co is not None and self.inq(E, co[2]):
            op, a = co[1], co[2]
            lk = self.locked(E, st)
            nm = "%s: %s" % (self.f.q, op)
            if op not in ("~queue", "~priority_queue") and not op.startswith(("queue", "priority_queue", "~")):
                self.ck.ob("the queue content is only touched under the queue's lock", nm, lk,
                           "%s on the queue content without holding the queue's lock (path %s)" % (op, E.path()),
                           where(site.fn, site.line))
            if op in ("front", "top"):
                self.ck.ob("an element is only taken from a queue seen non-empty under the lock", nm, nonempty(st, a),
                           "front() on a queue that may be empty (path %s)" % E.path(), where(site.fn, site.line))
                cl["front"] = 1
            elif op == "pop":
                self.ops.add("pop")
                self.ck.ob("an element is only taken from a queue seen non-empty under the lock", nm, nonempty(st, a),
                           "pop() on a queue that may be empty (path %s)" % E.path(), where(site.fn, site.line))
                cl["pop"] = sat(cl.get("pop", 0) + 1)
                if not cl.get("got"):
                    cl["lost"] = 1
                fl = self.open_state(E, st)
                if fl is not True:
                    cl["popclosed"] = 1
                cl.pop("front", None)
                cl.pop("got", None)
            elif op in ("push", "emplace", "push_back", "emplace_back"):
                self.ops.add("push")
                cl["push"] = sat(cl.get("push", 0) + 1)
                self.ck.ob("elements are only added while the queue is open", nm, self.open_state(E, st) is True,
                           "an element is added without having checked under the lock that the queue is open (path %s)" % E.path(),
                           where(site.fn, site.line))
            elif op in ("operator=", "swap", "clear", "erase"):
                self.ops.add("wipe")
                cl["wipe"] = 1
        elif cl.get("front") and args and isinstance(args[0], V):
            # assignment of the front element to the taker's variable
            if any(isinstance(x, V) and self.is_front(E, x) for x in args[1:]):
                r = split(args[0])[0]
                if r.k in ("arg", "init"):
                    cl["got"] = 1
                elif r.k == "al":
                    cl["got"] = 2
        return Flags.on_call(self, E, st, site, q, args)

    def is_front(self, E, x):
        return any(y.k == "elem" and self.inq(E, y.a[0]) for y in leaves(x))

    def on_store(self, E, st, site, a, v, size, atomic):
        if st.cl.get("front") and isinstance(v, V) and self.is_front(E, v):
            r = split(a)[0]
            if r.k == "arg" or r.k == "init":
                st.cl["got"] = 1
            elif r.k == "al" and not st.cl.get("got"):
                st.cl["got"] = 2

    def open_state(self, E, st):
        """True: known open, False: known closed"""
        for d in (st.eq, st.ne, st.facts):
            for v in d:
                v = v[0] if isinstance(v, tuple) else v
                for x in leaves(v):
                    if x.k == "flag":
                        k = st.known(x)
                        if k is not None:
                            return not k
        return None

    def flag_written(self, E, st, site, addr, v):
        self.ops.add("flag%s" % (v.a[0] if v.k == "c" else "?"))
        st.cl["flag"] = v.a[0] if v.k == "c" else "?"

    def flag_unlocked(self, E, st, site, addr):
        self.ck.ob("the queue is opened and closed under its lock", self.f.q, False,
                   "the open/closed flag is changed without holding the queue's lock (path %s)" % E.path(), where(site.fn, site.line))


def roles(ck):
    mq = role(ck, Q, lambda q, t: q == "maf::threading::Lockable", "a lockable container")
    mc = role(ck, Q, lambda q, t: q.startswith("std::condition_variable"), "a condition variable")
    mf = role(ck, Q, lambda q, t: q.startswith("std::atomic"), "an atomic flag")
    return mq, mc, mf


@prop("T01", "path-sensitive effect analysis of every queue instantiation's critical sections",
      "Covers every member function of every instantiation of the blocking queue in the program; the standard containers, "
      "mutexes and condition variables are modelled by their contracts. FIFO order itself is that of the standard container.")
def check(ck):
    P = ck.P
    rl = roles(ck)
    fns = [f for f in P.fns.values() if f.blocks and f.q.startswith(Q + "::") and "lambda" not in f.dem and "$_" not in f.dem]
    if len(fns) < 10:
        raise AnalysisError("only %d queue member functions found" % len(fns))
    for f in fns:
        n = f.q.split("::")[-1]
        if n == "ThreadSafeQueue":
            continue
        r = QueueRule(ck, f, rl)
        E, out = ck.run(f, r)
        isbool = any(v is not None for k, v, s, l in out if k == "ret")
        inst = f.q
        for kind, val, st, line in out:
            cl = st.cl
            pops, pushes = cl.get("pop", 0), cl.get("push", 0)
            if kind == "throw":
                if "pop" in r.ops and n != "clear":
                    ck.ob("a take that fails leaves the queue as it was", inst + " by exception", pops == 0,
                          "%s can throw after an element was removed" % f.q, where(f, line))
                continue
            if isbool and "pop" in r.ops:
                tv = st.known(val)
                if tv is not False:
                    ck.ob("a successful take removes exactly one element and delivers it", inst,
                          pops == 1 and not cl.get("lost") and not cl.get("popclosed") and not cl.get("wipe"),
                          "%s can report success with %s" % (f.q, "%d elements removed" % pops if pops != 1 else
                                                              "a removed element that was not delivered to the caller" if cl.get("lost")
                                                              else "the queue closed"), where(f, line))
                if tv is not True:
                    ck.ob("a take that fails leaves the queue as it was", inst, pops == 0 and not cl.get("wipe"),
                          "%s can report failure although an element was removed" % f.q, where(f, line))
            elif "pop" in r.ops or "wipe" in r.ops:
                ck.ob("only taking and clearing remove elements", inst, n == "clear" or not (pops or cl.get("wipe")),
                      "%s removes elements" % f.q, where(f, line))
            if "push" in r.ops or n == "push":
                tv = st.known(val) if val is not None else None
                if isbool and tv is not False:
                    ck.ob("a push reports success exactly when the element was added", inst + " true",
                          (pushes == 1 or "push<" in f.dem),
                          "%s can report success with %s elements added" % (f.q, pushes), where(f, line))
                if tv is not True or not isbool:
                    ck.ob("a push reports success exactly when the element was added", inst + " false", pushes == 0,
                          "%s reports refusal although an element was added" % f.q, where(f, line))
            if n == "close":
                ck.ob("closing leaves the queue closed", inst, r.open_state(E, st) is False or cl.get("flag") == 1,
                      "close() can return with the queue still open", where(f, line))
            if n == "reOpen":
                ck.ob("only reopening opens a closed queue", inst, cl.get("flag") == 0, "reOpen() can return without having opened the queue",
                      where(f, line))
            elif "flag0" in r.ops:
                ck.ob("only reopening opens a closed queue", inst, cl.get("flag") != 0, "%s opens a closed queue" % f.q, where(f, line))
    for k, m in (("the queue content is only touched under the queue's lock", 3), ("elements are only added while the queue is open", 1),
                 ("a successful take removes exactly one element and delivers it", 1), ("closing leaves the queue closed", 1),
                 ("an element is only taken from a queue seen non-empty under the lock", 1)):
        ck.need(k, m)
