"""M01: the thread -> processor binding is established for processing and restored on every exit."""
from maf.core import *

PROC = "maf::messaging::Processor"


def tls_var(ck):
    P = ck.P
    r = []
    for n, g in P.globals.items():
        if g["tls"] and "t" in g:
            t = P.types[g["t"]]
            if t["k"] == "ptr" and t["to"] >= 0 and P.types[P.rt(t["to"])].get("q") == PROC:
                r.append(n)
    if len(r) != 1:
        raise AnalysisError("expected one thread-local Processor pointer, found %d" % len(r))
    return mk("g", r[0])


class Binding(R):
    throws = ("user", "throw", "std")

    def __init__(self, ck, g, fn):
        self.ck, self.g, self.fn = ck, g, fn
        self.touched = False

    def on_store(self, E, st, site, a, v, size, atomic):
        if split(a)[0] is self.g:
            self.touched = True
            old = mk("init", self.g)
            cur = E.load(st, self.g, 8, "p")
            # an existing binding may only be replaced by itself, or by what it was on entry
            ok = v is cur or v is old or st.known(old) is False
            self.ck.ob("binding is only changed on a thread that had none", "%s stores the thread binding" % site.fn.q, ok,
                       "the current-processor binding of a thread that already has one is overwritten with %s (entry point %s, path %s)" %
                       (E.name(v), self.fn.q, E.path()), where(site.fn, site.line))
            st.cl["bound"] = v  # keeps paths that changed the binding apart from those that did not

    def on_indirect(self, E, st, site, cv, args):
        # a queued job: the callable comes out of the processor's queue
        if any(x.k == "elem" for x in leaves(cv)) and self.fn.q.startswith(PROC + "::run"):
            cur = E.load(st, self.g, 8, "p")
            ok = cur is mk("arg", 0, "this") or st.known(cur) is True
            self.ck.ob("jobs run with the thread bound", "%s invokes queued jobs" % self.fn.q, ok,
                       "a queued job is invoked while the thread is not bound to a processor (binding is %s)" % E.name(cur),
                       where(site.fn, site.line))
        return None


@prop("M01", "value dataflow over the thread-local binding on all normal and exceptional paths",
      "All paths of every public processor entry point are covered, user callbacks may throw anywhere; loops are joined. "
      "Decides the binding of the calling thread; the queue and user code are opaque.")
def check(ck):
    g = tls_var(ck)
    P = ck.P
    roots = [f for f in P.fns.values() if f.blocks and P.is_repo(f) and (
        f.q.startswith(PROC + "::") and "$_" not in f.dem or f.q.startswith("maf::messaging::this_processor::"))
        and f.acc == "public" and not f.j["internal"]]
    if len(roots) < 20:
        raise AnalysisError("only %d processor entry points found" % len(roots))
    for f in roots:
        if f.q.split("::")[-1] in ("Processor", "~Processor"):
            continue
        r = Binding(ck, g, f)
        E, out = ck.run(f, r)
        for kind, val, st, line in out:
            cur = E.load(st, g, 8, "p")
            old = mk("init", g)
            ok = cur is old or (cur is NULL and st.known(old) is False) or st.known(icmp("eq", cur, old)) is True
            if r.touched:
                ck.ob("binding restored on every exit", "%s: %s exits" % (f.q, "exceptional" if kind == "throw" else "normal"), ok,
                      "%s exits by %s at line %s with the thread's current processor left as %s" %
                      (f.q, "exception" if kind == "throw" else "return", line, E.name(cur)), where(f, line))
    for n in ("run", "runUntil", "runOnceUntil"):
        ck.fn(PROC + "::" + n)
    ck.need("binding restored on every exit", 3)
    ck.need("jobs run with the thread bound", 2)
