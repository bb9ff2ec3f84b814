"""Whole-program abstract interpreter over the exported LLVM IR of sepcon/maf.

It is a forward, join-based dataflow analysis: abstract values are interned
terms, memory is a map from (object, offset) to values, branches refine by
remembered comparison facts, calls to functions of the analysed program are
followed in context, calls to the standard library are modelled or opaque.
Nothing is executed and no solver is involved.
"""
import heapq
import re
import sys

sys.setrecursionlimit(20000)


# ----------------------------------------------------------------- values
class V:
    __slots__ = ("k", "a", "n", "_m")
    _tab = {}
    _cnt = 0

    def __repr__(self):
        return show(self)


def mk(k, *a):
    key = (k,) + a
    v = V._tab.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        V._cnt += 1
        v.n = V._cnt
        v._m = None
        V._tab[key] = v
    return v


def C(n):
    return mk("c", n)


NULL = C(0)
TRUE = C(1)
UNDEF = mk("u")


def ptr(v, off):
    if off == 0:
        return v
    if v.k == "p":
        o = v.a[1] + off
        return mk("p", v.a[0], o) if o else v.a[0]
    if v.k == "c":
        return C(v.a[0] + off)
    return mk("p", v, off)


def split(v):
    if v.k == "p":
        return v.a
    return v, 0


def leaves(v):
    """all sub-terms (as a frozenset) of a value"""
    if v._m is None:
        s = {v}
        for x in (v.a if v.k not in ("phi", "hav", "ctx", "site") else ()):
            if isinstance(x, V):
                if x.k != "ctx":
                    s |= leaves(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, V) and y.k != "ctx":
                        s |= leaves(y)
        v._m = frozenset(s)
    return v._m


def show(v, d=0):
    if not isinstance(v, V):
        return repr(v)
    if d > 6:
        return "…"
    k = v.k
    if k == "c":
        return str(v.a[0])
    if k == "p":
        return "%s+%d" % (show(v.a[0], d + 1), v.a[1])
    if k == "init":
        return "*(%s)" % show(v.a[0], d + 1)
    if k == "arg":
        return "arg%d:%s" % (v.a[0], v.a[1])
    if k == "al":
        return "&%s" % (v.a[2] or "tmp%d" % v.a[1])
    if k == "res":
        return "%s(%s)" % (v.a[2], ",".join(show(x, d + 1) for x in v.a[3]))
    if k == "fn":
        return "&" + v.a[0]
    if k == "g":
        return "@" + v.a[0]
    return "%s(%s)" % (k, ",".join(show(x, d + 1) for x in v.a if not (isinstance(x, V) and x.k == "ctx")))


# ---------------------------------------------------------------- program
def strip_targs(s):
    """remove <...> template argument lists (keeps operator<, operator<<, ->)"""
    out = []
    d = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if d == 0 and s.startswith("operator", i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
            j = i + 8
            m = re.match(r"operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>)", s[i:])
            if m:
                op = m.group(1)
                r = s[i + 8 + len(op):i + 9 + len(op)]
                if op == "<<" and (r.isalnum() or r in ("_", ":", "'", "{")) and r:
                    op = "<"  # a template operator<
                out.append("operator" + op)
                i += 8 + len(op)
                continue
            out.append("operator")
            i = j
            continue
        if c == "<":
            d += 1
        elif c == ">":
            if i and s[i - 1] == "-":
                if d == 0:
                    out.append(c)
            else:
                d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


def qname_from_demangled(d):
    s = strip_targs(d).replace("__cxx11::", "").replace("_V2::", "")
    s = s.replace("(anonymous namespace)", "{anon}")
    s = re.sub(r"\[abi:\w+\]", "", s)
    if s.startswith("decltype("):
        # deduced return type
        d0 = 0
        for k, c in enumerate(s):
            d0 += (c == "(") - (c == ")")
            if c == ")" and d0 == 0:
                s = s[k + 1:].strip()
                break
    # cut the parameter list: first '(' at depth 0 which is not operator()
    i = 0
    n = len(s)
    cut = n
    while i < n:
        if s.startswith("operator()", i):
            i += 10
            continue
        if s.startswith("'lambda", i):
            j = s.find("'", i + 1)
            i = j + 1
            if i < n and s[i] == "(":
                dep = 0
                while i < n:
                    if s[i] == "(":
                        dep += 1
                    elif s[i] == ")":
                        dep -= 1
                        if dep == 0:
                            break
                    i += 1
                i += 1
            continue
        if s[i] == "(":
            # "foo(int)::$_0::operator()" : parameter list of an enclosing fn
            dep = 0
            j = i
            while j < n:
                if s[j] == "(":
                    dep += 1
                elif s[j] == ")":
                    dep -= 1
                    if dep == 0:
                        break
                j += 1
            rest = s[j + 1:]
            if rest.startswith("::") or re.match(r" (const)?(&&?)?::", rest):
                s = s[:i] + re.sub(r"^ (const)?(&&?)?", "", rest)
                n = len(s)
                continue
            cut = i
            break
        i += 1
    s = s[:cut].strip()
    m = re.search(r"operator\b.*$", s)
    if m:
        head = s[:m.start()]
        head = head.split()[-1] if head.split() else ""
        return head + m.group(0).replace(" ", "") if not re.match(r"operator [a-zA-Z]", m.group(0)) else head + m.group(0)
    return s.split()[-1] if s.split() else s


class Fn:
    __slots__ = ("name", "j", "q", "blocks", "args", "live", "rpo", "cls", "file", "line", "dem", "nounwind", "preds",
                 "loops", "liveat", "acc", "virt", "cref")

    def __init__(self, prog, name, j):
        self.name = name
        self.j = j
        self.dem = j["d"]
        self.cls = j.get("cls", -1)
        self.file = j.get("file", "")
        self.line = j.get("line", 0)
        self.args = j["args"]
        self.blocks = j.get("b")
        self.nounwind = j["nounwind"]
        self.live = None
        self.cref = None
        self.rpo = None
        self.liveat = {}
        acc = j.get("acc", "public")
        if acc == "default":
            acc = "private" if self.cls >= 0 and not prog.types[self.cls].get("struct") else "public"
        self.acc = acc
        q = None
        if self.cls is not None and self.cls >= 0 and "n" in j:
            cn = prog.types[self.cls].get("n", "")
            if "(anon:" not in cn and "(lambda" not in cn:
                nm = j["n"]
                nm = nm if nm.startswith("operator") else strip_targs(nm)
                q = strip_targs(cn) + "::" + nm
                q = re.sub(r"(operator)(.*)<.*$", lambda m: m.group(0) if m.group(2) in ("", "<", "-") else m.group(0), q)
                if nm.startswith("operator"):
                    m = re.match(r"operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>|\(\)|\[\]|==|!=|=|\+\+|--|\*|!|&|\+=|-=|\+|-|\|=| [\w: ]+)", nm)
                    q = strip_targs(cn) + "::" + (m.group(0) if m else nm)
        self.q = q or qname_from_demangled(self.dem)

    def succs(self, i):
        t = self.blocks[i][-1]
        op = t[0]
        if op == "br":
            return [t[2]]
        if op == "cbr":
            return [t[3], t[4]]
        if op == "sw":
            return [t[3]] + [c[1] for c in t[4]]
        if op == "call":
            return [x for x in (t[5], t[6]) if x >= 0]
        return []

    def prepare(self):
        if self.rpo is not None:
            return
        n = len(self.blocks)
        seen = [False] * n
        order = []
        stack = [(0, iter(self.succs(0)))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.preds = [0] * n
        back = set()
        for b in order:
            for s in self.succs(b):
                self.preds[s] += 1
                if self.rpo[s] <= self.rpo[b]:
                    back.add(s)
        self.loops = back
        # liveness of SSA values
        use = [set() for _ in range(n)]
        df = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]
        for b in order:
            for ins in self.blocks[b]:
                op = ins[0]
                if op == "phi":
                    df[b].add(ins[1])
                    for val, pb in ins[2]:
                        if isinstance(val, int):
                            phiuse[pb].add(val)
                    continue
                for x in operands(ins):
                    if x not in df[b]:
                        use[b].add(x)
                if ins[1] >= 0:
                    df[b].add(ins[1])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set(phiuse[b])
                for s in self.succs(b):
                    o |= live[s]
                ni = use[b] | (o - df[b])
                # phi uses at end of b are live through b
                if ni != live[b]:
                    live[b] = ni
                    ch = True
        self.live = live


def operands(ins):
    op = ins[0]
    r = []

    def add(x):
        if isinstance(x, int) and not isinstance(x, bool):
            r.append(x)
        elif isinstance(x, list) and x and x[0] == "s":
            for y in x[1:]:
                add(y)
    if op == "ld" or op == "lend":
        add(ins[2])
    elif op == "st":
        add(ins[2]); add(ins[3])
    elif op == "gep":
        add(ins[2])
        for d in ins[4]:
            add(d[0])
    elif op == "call":
        if not isinstance(ins[2], str):
            add(ins[2])
        for x in ins[3]:
            add(x)
    elif op == "cbr" or op == "sw":
        add(ins[2])
    elif op in ("ret", "resume"):
        if ins[2] is not None:
            add(ins[2])
    elif op == "icmp" or op == "bin":
        add(ins[3]); add(ins[4])
    elif op == "cast":
        add(ins[3])
    elif op == "sel":
        add(ins[2]); add(ins[3]); add(ins[4])
    elif op == "ev":
        add(ins[2])
    elif op == "iv":
        add(ins[2]); add(ins[3])
    elif op == "cas":
        add(ins[2]); add(ins[3]); add(ins[4])
    elif op == "rmw":
        add(ins[3]); add(ins[4])
    return r


class Program:
    def __init__(self, j):
        self._isa = {}
        self.types = j["types"]
        self.globals = j["globals"]
        self.strings = j.get("strings", {})
        self.tname = {}
        for i, t in enumerate(self.types):
            if t["k"] in ("class", "enum"):
                t["q"] = strip_targs(t["n"])
        # forward declarations -> definitions
        defs = {}
        for i, t in enumerate(self.types):
            if t["k"] == "class" and not t["fwd"] and t["id"]:
                defs[t["id"]] = i
        self.defs = defs
        self.fns = {}
        self.byq = {}
        for n, f in j["fns"].items():
            fn = Fn(self, n, f)
            self.fns[n] = fn
            self.byq.setdefault(fn.q, []).append(fn)
        virt = set()
        for t in self.types:
            for m in t.get("methods", ()):
                if m[4]:
                    virt.add(m[1])
        for f in self.fns.values():
            f.virt = f.name in virt
        self.classes = {}
        for i, t in enumerate(self.types):
            if t["k"] == "class" and not t["fwd"]:
                self.classes.setdefault(t["q"], []).append(i)
        self._chain = {}

    def rt(self, tid):
        """resolve forward declarations"""
        if tid is None or tid < 0:
            return -1
        t = self.types[tid]
        if t["k"] == "class" and t["fwd"]:
            return self.defs.get(t["id"], tid)
        return tid

    def isa(self, t, base):
        """is class t the class base or derived from it?"""
        t = self.rt(t) if t is not None else -1
        base = self.rt(base) if base is not None else -1
        if t < 0 or base < 0:
            return False
        k = (t, base)
        r = self._isa.get(k)
        if r is None:
            a, b = self.types[t], self.types[base]
            r = t == base or (a.get("q") is not None and a.get("q") == b.get("q") and a.get("n") == b.get("n")) or any(
                m[0] == "<base>" and self.isa(m[2], base) for m in a.get("m", ()))
            self._isa[k] = r
        return r

    def q(self, *names):
        r = []
        for n in names:
            r += [f for f in self.byq.get(n, [])]
        return r

    def is_repo(self, fn):
        return "/repo/" in fn.file or fn.file.startswith("/repo") or "/witness/" in fn.file or ROOT in fn.file

    def chain(self, tid, off):
        """member chain [(class, member, offset-in-class, member type)] from type tid down to offset off"""
        tid = self.rt(tid)
        key = (tid, off)
        r = self._chain.get(key)
        if r is not None:
            return r
        r = []
        cur, o = tid, off
        for _ in range(40):
            if cur < 0:
                break
            t = self.types[cur]
            if t["k"] == "array":
                e = self.rt(t["to"])
                s = self.types[e].get("s", 0) if e >= 0 else 0
                if not s:
                    break
                cur, o = e, o % s
                continue
            if t["k"] != "class":
                break
            best = None
            for m in t["m"]:
                mt = self.rt(m[2])
                ms = self.types[mt].get("s", 8) if mt >= 0 else 8
                if m[1] <= o < m[1] + max(ms, 1):
                    if best is not None and self.types[self.rt(best[2])].get("s", 8) >= ms and best[0] != "<base>":
                        continue
                    if best is not None and m[0] == "<base>" and ms <= 1:
                        continue
                    best = m
            if best is None:
                break
            r.append((t["q"], best[0], best[1], self.rt(best[2]), cur))
            cur, o = self.rt(best[2]), o - best[1]
        self._chain[key] = r
        return r


ROOT = "/repo"


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("mem", "eq", "ne", "facts", "locks", "cl", "exc")

    def __init__(self):
        self.mem = {}
        self.eq = {}
        self.ne = frozenset()
        self.facts = {}
        self.locks = ()
        self.cl = {}
        self.exc = None

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.eq = dict(self.eq)
        s.ne = self.ne
        s.facts = dict(self.facts)
        s.locks = self.locks
        s.cl = dict(self.cl)
        s.exc = self.exc
        return s

    def key(self):
        return (self.locks, frozenset(self.cl.items()))

    def fp(self):
        return hash((self.locks, frozenset(self.cl.items()), frozenset(self.mem.items()), frozenset(self.eq.items()), self.ne,
                     frozenset(self.facts.items()), self.exc))

    def same(self, o):
        return (self.locks == o.locks and self.cl == o.cl and self.mem == o.mem and self.eq == o.eq and self.ne == o.ne
                and self.facts == o.facts and self.exc is o.exc)

    # --- facts
    def known(self, v):
        """truth of 'v != 0' if known else None"""
        k = v.k
        if k == "c":
            return v.a[0] != 0
        if k in ("al", "heap", "g", "fn"):
            return True
        if k == "p":
            return True
        if k == "icmp":
            return self.known_icmp(v)
        if k == "not":
            r = self.known(v.a[0])
            return None if r is None else not r
        e = self.eq.get(v)
        if e is not None:
            return e != 0
        if (v, 0) in self.ne:
            return True
        if k == "and":
            a, b = self.known(v.a[0]), self.known(v.a[1])
            if a is False or b is False:
                return False
            if a and b and v.a[1].k == "c" and v.a[1].a[0] == 1:
                return None
        return None

    def known_icmp(self, v):
        p, a, b = v.a
        f = self.facts.get(v)
        if f is not None:
            return f
        if a is b:
            return p in ("eq",)
        if b.k == "c" and p == "eq":
            n = b.a[0]
            if a.k == "c":
                return a.a[0] == n
            e = self.eq.get(a)
            if e is not None:
                return e == n
            if (a, n) in self.ne:
                return False
            if n == 0:
                k = self.known(a)
                if k is not None:
                    return not k
        av = self.eq.get(a) if a.k != "c" else a.a[0]
        bv = self.eq.get(b) if b.k != "c" else b.a[0]
        if av is not None and bv is not None:
            if p == "eq":
                return av == bv
            if p == "slt":
                return av < bv
            if p == "ult":
                return (av & (2**64 - 1)) < (bv & (2**64 - 1))
        if a.k != "c" and b.k != "c":
            for q in ("ult", "slt") if p == "eq" else ("eq",):
                for x, y in ((a, b), (b, a)):
                    if self.facts.get(mk("icmp", q, x, y)):
                        return False
        if p == "eq":
            ra, rb = split(a), split(b)
            if ra[0].k in ("al", "heap", "g") and rb[0].k in ("al", "heap", "g"):
                return ra == rb
        return None

    def assume(self, v, truth):
        """assume v != 0 is `truth`; False when contradictory"""
        k = self.known(v)
        if k is not None:
            return k == truth
        if v.k == "not":
            return self.assume(v.a[0], not truth)
        if v.k == "icmp":
            p, a, b = v.a
            self.facts[v] = truth
            if p == "eq" and b.k == "c":
                if truth:
                    self.eq[a] = b.a[0]
                else:
                    self.ne = self.ne | {(a, b.a[0])}
            return True
        if v.k == "and" and truth:
            for x in v.a:
                if x.k != "c":
                    self.assume(x, True)
            return True
        if v.k == "or" and not truth:
            for x in v.a:
                if x.k != "c":
                    self.assume(x, False)
            return True
        if truth:
            self.ne = self.ne | {(v, 0)}
        else:
            self.eq[v] = 0
        return True

    def forget(self, pred):
        """drop every fact about a value for which pred(subterm) holds for some subterm"""
        for d in (self.eq, self.facts):
            kill = [v for v in d if any(pred(x) for x in leaves(v))]
            for v in kill:
                del d[v]
        if self.ne:
            bad = [t for t in self.ne if any(pred(x) for x in leaves(t[0]))]
            if bad:
                self.ne = self.ne - set(bad)


class Budget(Exception):
    pass


class Rule:
    """interface for property rules"""
    throws = ("user", "throw")

    def part(self, st):
        """extra facts that keep paths apart (hashable, finite)"""
        return None

    def on_call(self, E, st, site, q, args):
        return None

    def on_store(self, E, st, site, addr, val, size, atomic):
        pass

    def on_load(self, E, st, site, addr, val, size, atomic):
        pass

    def on_lock(self, E, st, site, m, mode):
        pass

    def on_unlock(self, E, st, site, m):
        pass

    def on_indirect(self, E, st, site, callee, args):
        return None

    def on_return(self, E, st, site, fn, val):
        pass

    def on_enter(self, E, st, site, fn, args):
        pass

    def on_branch(self, E, st, site, cond, truth):
        pass


class Site:
    __slots__ = ("fn", "ctx", "line", "idx", "ins")

    def __init__(self, fn, ctx, idx, line, ins):
        self.fn = fn
        self.ctx = ctx
        self.idx = idx
        self.line = line
        self.ins = ins


INLINE_STD = re.compile(
    r"^std::(lock_guard|unique_lock|scoped_lock|shared_lock|__invoke|__invoke_impl|invoke|forward|move|__addressof|addressof|"
    r"as_const|exchange|__exchange|get|__get_helper|_Tuple_impl|_Head_base|tuple|pair|_Function_handler|_Function_base|function|"
    r"__apply_impl|apply|forward_as_tuple|tie|make_pair|ref|cref|reference_wrapper|move_if_noexcept|"
    r"optional|_Any_data|_Optional_\w+|_Optional_base|initializer_list|begin|end|size|empty|"
    r"adopt_lock|min|max|numeric_limits|__iterator_category|make_unique|atomic_exchange|bind|_Bind|_Mu|__get_tuple_lock|lock|__detail::__try_lock\w*|__lock_impl|"
    r"find|find_if|find_if_not|__find_if|__find_if_not|any_of|all_of|none_of|for_each|count|count_if|__count_if|transform|copy_if|back_inserter|"
    r"back_insert_iterator|inserter|insert_iterator|list::remove_if)\b|^__gnu_cxx::__ops::")
# printing helpers: read their arguments only
SKIP = re.compile(r"^maf::(logging::|srz::(details::)?(dump|_dump\w*|writeIndent|DumperSFINAE|Dumper\w*)\b|messaging::(Address|CSMessage)::dump$)")
ITER_CLS = re.compile(r"^(std::(_List_iterator|_List_const_iterator|_Rb_tree_iterator|_Rb_tree_const_iterator|_Deque_iterator|"
                      r"__detail::_Node_iterator|__detail::_Node_const_iterator|_Fwd_list_iterator|reverse_iterator|istreambuf_iterator|_Bit_iterator)|__gnu_cxx::__normal_iterator)::(.*)$")
CONT = re.compile(r"^std::(map|multimap|set|multiset|list|vector|deque|queue|priority_queue|stack|unordered_map|unordered_set|forward_list|"
                  r"basic_string|array|basic_string_view|any|__cxx11::\w+)::(.*)$")
LOCKCLS = re.compile(r"^std::(mutex|recursive_mutex|timed_mutex|recursive_timed_mutex|shared_mutex|shared_timed_mutex)::(\w+)$")
SPTR = re.compile(r"^std::(shared_ptr|__shared_ptr|__shared_ptr_access|weak_ptr|__weak_ptr|unique_ptr)::(.*)$")
NOTHROW = {"pop", "pop_back", "pop_front", "front", "back", "top", "empty", "size", "clear", "swap", "data", "c_str", "capacity"}
SIZED = ("vector", "list", "deque", "map", "set", "multimap", "multiset", "unordered_map", "unordered_set", "forward_list")
GROWS = ("push_back", "push_front", "emplace_back", "emplace_front")
MUTATORS = {"push", "push_back", "push_front", "emplace", "emplace_back", "emplace_front", "pop", "pop_back", "pop_front", "erase", "clear",
            "insert", "insert_or_assign", "try_emplace", "operator=", "swap", "remove_if", "remove", "resize", "assign", "operator[]", "splice",
            "merge", "append", "operator+=", "reset", "emplace_hint", "extract"}


class Engine:
    K = 6       # distinct states kept per block and rule-state before joining
    KLOOP = 2
    KRET = 3
    dbg = None
    MAXDEPTH = 60

    def __init__(self, prog, rule, budget=400000):
        self.p = prog
        self.rule = rule
        self.after = getattr(rule, "on_after", None)  # after a call that was not inlined returned normally
        rule.E = self
        self.types = {}
        self.steps = 0
        self.budget = budget
        self.analysed = set()
        self.sites = 0
        self.opaque = {}
        self.models = dict(MODELS)
        self.guards = None  # set by the rules that use lock/guard reasoning

    # ---------------------------------------------------------- types
    def observe(self, v, tid):
        tid = self.p.rt(tid)
        if tid < 0 or not isinstance(v, V) or v.k in ("c", "u", "p"):
            return
        t = self.p.types[tid]
        if t["k"] == "ptr":
            return
        old = self.types.get(v)
        if old is None and v.k in ("init", "elem", "g"):
            old = self.typeof(v)
            old = old if old >= 0 else None
        if old is None or self.p.types[old].get("s", 0) < t.get("s", 0):
            self.types[v] = tid

    def typeof(self, v):
        """type of the object v points to"""
        t = self.types.get(v)
        if t is not None:
            return t
        if v.k == "init":
            a = v.a[0]
            ch = self.chain(a)
            if ch:
                lt = ch[-1][3]
                if lt >= 0 and self.p.types[lt]["k"] == "ptr":
                    return self.p.rt(self.p.types[lt]["to"])
            root, off = split(a)
            if off == 0:
                # pointer object of smart pointer type: use its element type
                pass
            for c in reversed(ch):
                t = c[3]
                if t >= 0 and self.p.types[t]["k"] == "class" and self.p.types[t]["q"] in (
                        "std::unique_ptr", "std::shared_ptr", "std::weak_ptr", "std::__shared_ptr", "std::__weak_ptr"):
                    ta = self.p.types[t]["ta"]
                    if ta:
                        return self.p.rt(ta[0])
        elif v.k == "g":
            g = self.p.globals.get(v.a[0])
            if g and "t" in g:
                return self.p.rt(g["t"])
        elif v.k == "elem":
            # element of a container: value type from the container's type
            cont = v.a[0]
            ch = self.chain(cont)
            ts = [c[3] for c in ch]
            root, off = split(cont)
            if off == 0:
                ts.append(self.types.get(root, -1))
            for t in reversed(ts):
                e = self.elem_type(t)
                if e >= 0:
                    return e
        return -1

    def elem_type(self, t):
        if t is None or t < 0:
            return -1
        t = self.p.types[t]
        if t["k"] != "class":
            return -1
        m = re.match(r"^std::(map|unordered_map|multimap)$", t["q"])
        if m and len(t["ta"]) >= 2:
            k, v = (self.p.rt(x) for x in t["ta"][:2])
            for tid in self.p.classes.get("std::pair", []):
                ta = self.p.types[tid]["ta"]
                if len(ta) == 2 and self.p.rt(ta[0]) == k and self.p.rt(ta[1]) == v:
                    return tid
            return -1
        if re.match(r"^std::(list|vector|set|deque|queue|unordered_set|forward_list|stack|priority_queue)$", t["q"]) and t["ta"]:
            return self.p.rt(t["ta"][0])
        return -1

    def chain(self, addr):
        root, off = split(addr)
        t = self.typeof(root)
        if t < 0:
            return []
        return self.p.chain(t, off)

    def full_chain(self, addr):
        root, off = split(addr)
        t = self.typeof(root)
        return self.p.chain(t, off) if t >= 0 else []

    def member(self, addr):
        """[(class,member)] path of the field an address lies in, base-class steps included"""
        return [(c[0], c[1]) for c in self.chain(addr)]

    def in_member(self, addr, cls, mem):
        return any(c == cls and m == mem for c, m in self.member(addr))

    def rootclass(self, v):
        root, off = split(v)
        t = self.typeof(root)
        return self.p.types[t].get("q", "") if t >= 0 else ""

    def name(self, v):
        """readable name for an address / value"""
        if v.k == "c":
            return str(v.a[0])
        root, off = split(v)
        ch = self.chain(v)
        mem = "".join("." + m for c, m, *_ in ch if m != "<base>" and c.startswith("maf::"))
        if root.k == "arg":
            r = root.a[1] or "arg%d" % root.a[0]
        elif root.k == "init":
            r = self.name(root.a[0]) + "->"
        elif root.k == "al":
            r = root.a[2] or "tmp"
        elif root.k == "elem":
            r = self.name(root.a[0]) + "[]"
        elif root.k == "g":
            r = self.p.globals.get(root.a[0], {}).get("n") or root.a[0]
        elif root.k == "res":
            r = root.a[2].split("::")[-1] + "()"
        elif root.k == "heap":
            r = "new"
        else:
            r = root.k
        if not mem and off:
            mem = "+%d" % off
        return r + mem

    # ---------------------------------------------------------- memory
    def load(self, st, addr, size, kind="i"):
        if kind == "a" and size > 8:
            return mk("agg", *[self.load(st, ptr(addr, i), 8) for i in range(0, size, 8)])
        root, off = split(addr)
        c = st.mem.get((root, off))
        if c is not None:
            v, sz = c
            if sz == size or sz < size:
                return v
            if v.k == "init":
                return v
            if v.k == "c":
                return C(sext(v.a[0], size * 8))
            return v if size >= 4 or v.k in ("res", "phi") else mk("part", v, 0, size)
        for d in range(1, 8):
            c = st.mem.get((root, off - d))
            if c is not None:
                v, sz = c
                if sz > d:
                    if v.k == "init":
                        return mk("init", ptr(v.a[0], d))
                    if v.k == "c":
                        return C(sext(v.a[0] >> (8 * d), size * 8))
                    return mk("part", v, d, size)
                break
        if root.k == "g":
            g = self.p.globals.get(root.a[0])
            if g and g.get("const") and off == 0 and "i" in g:
                return C(g["i"])
        if root.k == "zero":
            return C(0)
        return mk("init", addr)

    def store(self, st, addr, val, size):
        root, off = split(addr)
        if val.k == "agg":
            for i, x in enumerate(val.a):
                self.store(st, ptr(addr, 8 * i), x, 8)
            return
        m = st.mem
        for d in range(1, 8):
            c = m.get((root, off - d))
            if c is not None and c[1] > d:
                del m[(root, off - d)]
        for d in range(1, size):
            if (root, off + d) in m:
                del m[(root, off + d)]
        m[(root, off)] = (val, size)

    def copymem(self, st, dst, src, n):
        dr, do = split(dst)
        sr, so = split(src)
        if dr is sr and do == so:
            return
        cells = {}
        for (r, o), c in st.mem.items():
            if r is sr and so <= o < so + n:
                cells[o - so] = c
        for (r, o) in [k for k in st.mem if k[0] is dr and do <= k[1] < do + n]:
            del st.mem[(r, o)]
        if n <= 512:
            o = 0
            while o < n:
                if o in cells:
                    st.mem[(dr, do + o)] = cells[o]
                    s = max(1, cells[o][1])
                    o += s
                else:
                    nx = min([k for k in cells if k > o] + [n])
                    s = min(8 - (o % 8), nx - o)
                    st.mem[(dr, do + o)] = (mk("init", ptr(src, o)), s)
                    o += s

    def swapmem(self, st, a, b, n):
        t = mk("al", mk("ctx", None, "swap", 0), 0, "swap")
        self.copymem(st, t, a, n)
        self.copymem(st, a, b, n)
        self.copymem(st, b, t, n)
        self.kill_root(st, t)

    def zeromem(self, st, dst, n):
        dr, do = split(dst)
        for k in [k for k in st.mem if k[0] is dr and do <= k[1] < do + n]:
            del st.mem[k]
        if n <= 512:
            for o in range(0, n, 8):
                st.mem[(dr, do + o)] = (C(0), min(8, n - o))

    def kill_root(self, st, root):
        for k in [k for k in st.mem if k[0] is root]:
            del st.mem[k]

    def havoc(self, st, addr, ctxkey):
        """opaque code may have written the object at addr (only locals with tracked cells)"""
        root, off = split(addr)
        self.forget_queries(st, lambda c: c is addr or root.k == "al" and split(c)[0] is root)
        if root.k != "al":
            return
        for k in [k for k in st.mem if k[0] is root and k[1] >= off]:
            v, s = st.mem[k]
            st.mem[k] = (mk("hav", ctxkey, k[1], root), s)

    # ---------------------------------------------------------- running
    def skey(self, st):
        """states with different keys are never joined"""
        return (st.locks, frozenset(st.cl.items()), self.rule.part(st))

    def run(self, fn, args=None, st=None):
        """analyse fn as an entry point"""
        st = st or State()
        if args is None:
            args = [mk("arg", i, a[2] or ("sret" if a[3] else "")) for i, a in enumerate(fn.args)]
        ctx = mk("ctx", None, fn.name, 0)
        self.stack = []
        self.sargs = []
        self.frames = []
        self.steps = 0
        return self.call_fn(fn, args, st, ctx)

    def stack_repo(self):
        """innermost repository function on the call stack"""
        for f in reversed(self.stack):
            if self.p.is_repo(f):
                return f.q
        return self.stack[0].q if self.stack else "?"

    def path(self):
        return " -> ".join(f.q.replace("maf::messaging::", "").replace("maf::", "") for f in self.stack if self.p.is_repo(f)) if self.stack else ""

    def join(self, a, b, ctx, blk):
        s = State()
        s.locks = a.locks
        s.cl = dict(a.cl)
        s.exc = a.exc if a.exc is b.exc else mk("exc", "joined", None)
        fresh = set()
        for k in a.mem.keys() | b.mem.keys():
            x, y = a.mem.get(k), b.mem.get(k)
            if x == y:
                s.mem[k] = x
            else:
                if x is None or y is None:
                    z = x or y
                    iv = mk("init", ptr(k[0], k[1]))
                    if z[0] is iv:
                        continue
                    ph = mk("phi", ctx, blk, k[0], k[1])
                    s.mem[k] = (ph, z[1])
                else:
                    ph = joinval(x[0], y[0], ctx, blk, k[0], k[1])
                    s.mem[k] = (ph, max(x[1], y[1]))
                fresh.add(ph)
        for v, n in a.eq.items():
            if b.eq.get(v) == n:
                s.eq[v] = n
        s.ne = a.ne & b.ne
        # v==n on one side and v!=m (m!=n) on the other
        extra = set()
        for v, n in a.eq.items():
            for (w, m) in b.ne:
                if w is v and m != n:
                    extra.add((v, m))
        for v, n in b.eq.items():
            for (w, m) in a.ne:
                if w is v and m != n:
                    extra.add((v, m))
        if extra:
            s.ne = s.ne | extra
        for v, t in a.facts.items():
            if b.facts.get(v) == t:
                s.facts[v] = t
        if fresh and (s.eq or s.ne or s.facts):
            s.forget(lambda x: x in fresh)
        return s

    def live_at(self, fn, b, i):
        """SSA values needed from instruction i of block b on"""
        c = fn.liveat
        r = c.get((b, i))
        if r is None:
            r = set()
            blk = fn.blocks[b]
            for ins in blk[i:]:
                if ins[0] != "phi":
                    r.update(operands(ins))
            for x in fn.succs(b):
                r |= fn.live[x]
                for ins in fn.blocks[x]:
                    if ins[0] != "phi":
                        break
                    for val, pb in ins[2]:
                        if pb == b and isinstance(val, int):
                            r.add(val)
            if i == 0:
                for ins in blk:
                    if ins[0] != "phi":
                        break
                    r.add(ins[1])
            c[(b, i)] = r
        return r

    def gc(self, st, vals):
        """forget cells and facts that nothing can refer to any more"""
        R = set()
        for v in vals:
            R |= leaves(v)
        for fr in self.frames:
            R |= fr
        def flat(x):
            if isinstance(x, V):
                R.update(leaves(x))
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    flat(y)
        for k, x in st.cl.items():
            flat(k)
            flat(x)
        for m, _ in st.locks:
            R |= leaves(m)
        if st.exc is not None:
            R.add(st.exc)
        memo = {}

        def held(r):
            h = memo.get(r)
            if h is not None:
                return h
            k = r.k
            if k in ("arg", "g", "al"):
                h = True
            elif r in R:
                h = True
            elif k == "init":
                h = held(split(r.a[0])[0])
            elif k == "elem":
                h = r.a[1].k == "at" and r.a[1].a[1] in ("front", "back", "top") and held(split(r.a[0])[0])
            else:
                h = False
            memo[r] = h
            return h
        todo = list(st.mem.items())
        keep = {}
        while True:
            rest = []
            grew = False
            memo.clear()
            for it in todo:
                if held(it[0][0]):
                    keep[it[0]] = it[1]
                    n = len(R)
                    R |= leaves(it[1][0])
                    grew = grew or len(R) != n
                else:
                    rest.append(it)
            todo = rest
            if not grew or not todo:
                break
        memo.clear()
        if todo:
            for k, _ in todo:
                del st.mem[k]

        def alive(v):
            for x in leaves(v):
                if x.k in ("res", "heap", "phi", "hav", "stale", "iter", "elem", "arg0") and x not in R:
                    if x.k == "elem" and (held(x) or x.a[1] in R):
                        continue
                    if x.k == "iter" and x.a[2] == "end":
                        continue
                    return False
            return True
        for d in (st.eq, st.facts):
            kill = [v for v in d if not alive(v)]
            for v in kill:
                del d[v]
        if st.ne:
            bad = [t for t in st.ne if not alive(t[0])]
            if bad:
                st.ne = st.ne - frozenset(bad)

    def call_fn(self, fn, args, st, ctx, site=None):
        fn.prepare()
        self.analysed.add(fn.name)
        for a, v in zip(fn.args, args):
            if a[0] >= 0:
                t = self.p.types[a[0]]
                if a[1]:
                    self.observe(v, a[0])
                elif t["k"] == "ptr":
                    self.observe(v, t["to"])
        if fn.cls is not None and fn.cls >= 0 and fn.args:
            # 'this' (constructors and trivial methods may lack debug values)
            for a, v in zip(fn.args, args):
                if a[2] == "this":
                    self.observe(v, fn.cls)
        self.stack.append(fn)
        self.sargs.append(args)
        self.rule.on_enter(self, st, site, fn, args)
        regs0 = {i: v for i, v in enumerate(args)}
        exits = []
        blockstates = {}
        heap = []
        cnt = 0
        pend = {}

        def push(b, regs, s, pred, i=0):
            nonlocal cnt
            blk = fn.blocks[b]
            if i == 0:
                nr = None
                for ins in blk:
                    if ins[0] != "phi":
                        break
                    for val, pb in ins[2]:
                        if pb == pred:
                            if nr is None:
                                nr = dict(regs)
                            nr[ins[1]] = self.val(val, regs)
                            break
                if nr is not None:
                    regs = nr
            if i or fn.preds[b] > 1:
                live = self.live_at(fn, b, i)
                regs = {k: v for k, v in regs.items() if k in live}
                self.gc(s, regs.values())
                lst = blockstates.setdefault((b, i), {}).setdefault(self.skey(s), [])
                for (r2, s2) in lst:
                    if r2 == regs and s2.same(s):
                        return
                lim = self.KLOOP if b in fn.loops else self.K
                if len(lst) >= lim:
                    # join with the last one
                    r2, s2 = lst[-1]
                    js = self.join(s2, s, ctx, (b, i))
                    jr = {}
                    for k in regs:
                        if k in r2:
                            if r2[k] is regs[k]:
                                jr[k] = regs[k]
                            else:
                                jr[k] = joinval(r2[k], regs[k], ctx, (b, i), k, 0)
                    if self.dbg and fn.q == self.dbg:
                        print('JR', b, i, {k: (jr.get(k), r2.get(k), regs.get(k)) for k in jr.keys() | r2.keys() if jr.get(k) is not r2.get(k)}, js.same(s2), len(lst))
                    if jr == r2 and js.same(s2):
                        return
                    lst[-1] = (jr, js)
                    regs, s = jr, js
                else:
                    lst.append((regs, s))
            cnt += 1
            heapq.heappush(heap, (fn.rpo[b], i, cnt, b, regs, s))

        push(0, regs0, st, -1)
        while heap:
            _, i, _, b, regs, s = heapq.heappop(heap)
            # a joined successor may already subsume this entry; cheap check
            if i or fn.preds[b] > 1:
                lst = blockstates[(b, i)].get(self.skey(s), [])
                if not any(s is s2 for _, s2 in lst):
                    continue
            self.exec_block(fn, b, i, dict(regs), s.copy(), ctx, push, exits)
        self.stack.pop()
        self.sargs.pop()
        # drop the frame and merge exits
        out = {}
        for kind, val, s, line in exits:
            for k in [k for k in s.mem if k[0].k == "al" and k[0].a[0] is ctx]:
                del s.mem[k]
            if not self.stack:
                out.setdefault((kind, id(s)), []).append((kind, val, s, line))
                continue
            self.gc(s, [val] if isinstance(val, V) else [])
            kk = (kind, self.skey(s), val if (isinstance(val, V) and val.k == "c") or kind == "throw" else None)
            lst = out.setdefault(kk, [])
            for i, (k2, v2, s2, l2) in enumerate(lst):
                if v2 is val and s2.same(s):
                    break
            else:
                if len(lst) >= self.KRET:
                    k2, v2, s2, l2 = lst[-1]
                    js = self.join(s2, s, ctx, -1)
                    lst[-1] = (kind, v2 if v2 is val else mk("phi", ctx, -1, "ret", 0), js, line)
                else:
                    lst.append((kind, val, s, line))
        return [x for l in out.values() for x in l]

    def val(self, x, regs):
        if isinstance(x, int):
            return regs.get(x, UNDEF)
        t = x[0]
        if t == "c":
            return C(x[1])
        if t == "f":
            return mk("fn", x[1])
        if t == "g":
            return ptr(mk("g", x[1]), x[2])
        if t == "s":
            return mk("agg", *[self.val(y, regs) for y in x[1:]])
        if t == "z":
            return C(0)
        return UNDEF

    def kill_defs(self, st, regs, v):
        """v is (re)defined at its site: facts on the previous instance die"""
        if v in st.eq or st.ne or st.facts or st.eq:
            st.forget(lambda x: x is v)
        old = None
        for k, (w, s) in list(st.mem.items()):
            if v in leaves(w) and w.k != "c":
                if old is None:
                    old = True
                st.mem[k] = (w if w.k == "stale" else mk("stale", w), s)

    def exec_block(self, fn, b, start, regs, st, ctx, push, exits):
        blk = fn.blocks[b]
        i = 0
        n = len(blk)
        work = [(start, regs, st)]
        while work:
            i, regs, st = work.pop()
            dead = False
            while i < n:
                ins = blk[i]
                op = ins[0]
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget("analysis budget exhausted in %s (from %s)" % (fn.dem, self.stack[0].dem if self.stack else "?"))
                i += 1
                if op == "phi":
                    continue
                if op == "al":
                    v = mk("al", ctx, ins[1], ins[4])
                    if ins[3] >= 0:
                        self.observe(v, ins[3])
                    regs[ins[1]] = v
                    self.kill_root(st, v)
                elif op == "lend":
                    self.kill_root(st, self.val(ins[2], regs))
                elif op == "ld":
                    a = self.val(ins[2], regs)
                    site = Site(fn, ctx, (b, i), ins[6], ins)
                    if ins[5]:
                        v = mk("res", ctx, (b, i), "atomic_load", (a,))
                        self.kill_defs(st, regs, v)
                    else:
                        v = self.load(st, a, ins[3], ins[4])
                    self.rule.on_load(self, st, site, a, v, ins[3], ins[5])
                    self.deref(st, a)
                    regs[ins[1]] = v
                elif op == "st":
                    a = self.val(ins[2], regs)
                    v = self.val(ins[3], regs)
                    site = Site(fn, ctx, (b, i), ins[6], ins)
                    self.rule.on_store(self, st, site, a, v, ins[4], ins[5])
                    self.deref(st, a)
                    self.write(st, a, v, ins[4])
                    self.escapes(st, (v,))
                elif op == "gep":
                    base = self.val(ins[2], regs)
                    v = base
                    for ix, stride in ins[4]:
                        iv = self.val(ix, regs)
                        if iv.k == "c":
                            v = ptr(v, iv.a[0] * stride)
                        else:
                            v = mk("idx", v, iv, stride)
                    v = ptr(v, ins[3])
                    regs[ins[1]] = v
                elif op == "cast":
                    a = self.val(ins[3], regs)
                    o, sb, db = ins[2], ins[4], ins[5]
                    if o in ("trunc", "zext", "sext"):
                        if a.k == "c":
                            if o == "trunc":
                                a = C(sext(a.a[0], db)) if db > 1 else C(a.a[0] & 1)
                            elif o == "zext":
                                a = C(a.a[0] & ((1 << sb) - 1))
                        elif min(sb, db) <= 1 or (sb <= 8 and db <= 8):
                            pass
                        else:
                            a = mk("cast", o, a, sb, db)
                    regs[ins[1]] = a
                elif op == "icmp":
                    x, y = self.val(ins[3], regs), self.val(ins[4], regs)
                    if x.k == "typeid":
                        x, y = y, x
                    if x.k == "sel" and y.k == "typeid" and x.a[0].k == "exc" and x.a[0].a[1] is not None and y.a[0] != "?":
                        # which handler takes an exception of known type
                        regs[ins[1]] = C(int(self.derives(x.a[0].a[1], y.a[0]) == (ins[2] == "eq")))
                        continue
                    regs[ins[1]] = icmp(ins[2], x, y)
                elif op == "bin":
                    regs[ins[1]] = binop(ins[2], self.val(ins[3], regs), self.val(ins[4], regs))
                elif op == "sel":
                    c = self.val(ins[2], regs)
                    k = st.known(c)
                    x, y = self.val(ins[3], regs), self.val(ins[4], regs)
                    if k is None:
                        s2 = st.copy()
                        r2 = dict(regs)
                        if s2.assume(c, False):
                            r2[ins[1]] = y
                            work.append((i, r2, s2))
                        if not st.assume(c, True):
                            dead = True
                            break
                        regs[ins[1]] = x
                    else:
                        regs[ins[1]] = x if k else y
                elif op == "ev":
                    a = self.val(ins[2], regs)
                    for ix in ins[3]:
                        if a.k == "agg" and ix < len(a.a):
                            a = a.a[ix]
                        elif a.k == "agg":
                            a = UNDEF
                        else:
                            a = mk("field", a, ix)
                    regs[ins[1]] = a
                elif op == "iv":
                    a = self.val(ins[2], regs)
                    x = self.val(ins[3], regs)
                    ix = ins[4][0]
                    l = list(a.a) if a.k == "agg" else []
                    while len(l) <= ix:
                        l.append(UNDEF)
                    l[ix] = x
                    regs[ins[1]] = mk("agg", *l)
                elif op == "lp":
                    e = st.exc or mk("exc", "?", None)
                    regs[ins[1]] = mk("agg", e, mk("sel", e))
                elif op == "cas":
                    a, e, nv = (self.val(x, regs) for x in ins[2:5])
                    site = Site(fn, ctx, (b, i), ins[5], ins)
                    v = mk("res", ctx, (b, i), "atomic_cas", (a, e, nv))
                    self.kill_defs(st, regs, v)
                    self.rule.on_store(self, st, site, a, nv, 0, 1)
                    regs[ins[1]] = mk("agg", mk("field", v, 0), mk("field", v, 1))
                elif op == "rmw":
                    a, nv = self.val(ins[3], regs), self.val(ins[4], regs)
                    site = Site(fn, ctx, (b, i), ins[5], ins)
                    v = mk("res", ctx, (b, i), "atomic_" + ins[2], (a, nv))
                    self.kill_defs(st, regs, v)
                    self.rule.on_store(self, st, site, a, v, 0, 1)
                    regs[ins[1]] = v
                elif op == "unk":
                    regs[ins[1]] = mk("res", ctx, (b, i), "unk", ())
                elif op == "br":
                    push(ins[2], regs, st, b)
                    dead = True
                    break
                elif op == "cbr":
                    c = self.val(ins[2], regs)
                    k = st.known(c)
                    site = Site(fn, ctx, (b, i), ins[5], ins)
                    for truth, dst in ((True, ins[3]), (False, ins[4])):
                        if k is not None and k != truth:
                            continue
                        s2 = st.copy()
                        if s2.assume(c, truth):
                            self.rule.on_branch(self, s2, site, c, truth)
                            push(dst, regs, s2, b)
                    dead = True
                    break
                elif op == "sw":
                    c = self.val(ins[2], regs)
                    site = Site(fn, ctx, (b, i), ins[5] if len(ins) > 5 else 0, ins)
                    for cv, dst in ins[4]:
                        s2 = st.copy()
                        if s2.assume(icmp("eq", c, C(cv)), True):
                            self.rule.on_branch(self, s2, site, icmp("eq", c, C(cv)), True)
                            push(dst, regs, s2, b)
                    s2 = st.copy()
                    ok = True
                    for cv, dst in ins[4]:
                        ok = ok and s2.assume(icmp("eq", c, C(cv)), False)
                    if ok:
                        for cv, dst in ins[4]:
                            self.rule.on_branch(self, s2, site, icmp("eq", c, C(cv)), False)
                        push(ins[3], regs, s2, b)
                    dead = True
                    break
                elif op == "ret":
                    v = self.val(ins[2], regs) if ins[2] is not None else None
                    self.rule.on_return(self, st, Site(fn, ctx, (b, i), ins[3], ins), fn, v)
                    exits.append(("ret", v, st, ins[3]))
                    dead = True
                    break
                elif op == "resume":
                    v = self.val(ins[2], regs)
                    exits.append(("throw", st.exc, st, ins[3]))
                    dead = True
                    break
                elif op == "unreach":
                    dead = True
                    break
                elif op == "call":
                    site = Site(fn, ctx, (b, i), ins[7], ins)
                    self.sites += 1
                    live = self.live_at(fn, b, i)
                    if ins[5] >= 0 or ins[6] >= 0:
                        live = live | self.live_at(fn, b, i - 1)
                    fr = set()
                    for k in live:
                        x = regs.get(k)
                        if x is not None:
                            fr |= leaves(x)
                    self.frames.append(fr)
                    res = self.do_call(fn, ins, regs, st, ctx, site)
                    self.frames.pop()
                    cont = []
                    for kind, v, s2 in res:
                        if kind == "ret":
                            cont.append((v, s2))
                        elif kind == "throw":
                            if ins[4]:
                                continue
                            if ins[6] >= 0:
                                s2.exc = v or mk("exc", "?", None)
                                if self.caught_here(fn, ins[6], s2.exc):
                                    push(ins[6], regs, s2, b)
                                else:
                                    exits.append(("throw", s2.exc, s2, ins[7]))
                            else:
                                s2.exc = v or mk("exc", "?", None)
                                exits.append(("throw", s2.exc, s2, ins[7]))
                    if ins[5] >= 0:
                        for v, s2 in cont:
                            r2 = dict(regs) if len(cont) > 1 else regs
                            if ins[1] >= 0:
                                r2[ins[1]] = v if v is not None else UNDEF
                            push(ins[5], r2, s2, b)
                        dead = True
                        break
                    if not cont:
                        dead = True
                        break
                    if len(cont) > 1:
                        for v, s2 in cont:
                            r2 = dict(regs)
                            if ins[1] >= 0:
                                r2[ins[1]] = v if v is not None else UNDEF
                            push(b, r2, s2, -1, i)
                        dead = True
                        break
                    v, st = cont[0]
                    if ins[1] >= 0:
                        regs[ins[1]] = v if v is not None else UNDEF
                else:
                    raise Exception("unknown op " + op)
            if not dead and i >= n:
                pass

    def deref(self, st, a):
        """an address that was accessed is not null"""
        r = a.a[0] if a.k == "p" else a
        if r.k in ("al", "heap", "g", "c", "fn", "elem"):
            return
        if (r, 0) not in st.ne:
            st.ne = st.ne | {(r, 0)}

    def write(self, st, a, v, size):
        self.store(st, a, v, size)
        # facts about the old content of the cell are about a symbol, not the cell: keep

    def caught_here(self, fn, b, exc):
        for ins in fn.blocks[b]:
            if ins[0] == "lp":
                if ins[2]:
                    return True
                for t in ins[3]:
                    if t == "*" or exc.a[1] is None or self.derives(exc.a[1], t):
                        return True
                return not ins[3]
        return True

    def derives(self, t, base, d=0):
        if t == base:
            return True
        if d > 8:
            return False
        g = self.p.globals.get(t)
        for r in (g or {}).get("refs", []):
            if r != t and self.derives(r, base, d + 1):
                return True
        if g is None or "refs" not in g:
            # std exception hierarchy (external typeinfo)
            std = {"_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt12future_error": ["_ZTISt11logic_error"],
                   "_ZTISt11logic_error": ["_ZTISt9exception"], "_ZTISt13runtime_error": ["_ZTISt9exception"],
                   "_ZTISt12system_error": ["_ZTISt13runtime_error"], "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
                   "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt17bad_function_call": ["_ZTISt9exception"]}
            return any(self.derives(x, base, d + 1) for x in std.get(t, []))
        return False

    # ---------------------------------------------------------- calls
    def opaque_call(self, site, q, args, st, throws=None, ret=True):
        ins = site.ins
        self.opaque[q] = self.opaque.get(q, 0) + 1
        out = []
        v = None
        if ins[1] >= 0:
            v = mk("res", site.ctx, site.idx, q, tuple(args))
            self.kill_defs(st, None, v)
        if throws and throws in self.rule.throws and not ins[4]:
            s2 = st.copy()
            out.append(("throw", mk("exc", throws + ":" + q, None), s2))
        out.insert(0, ("ret", v, st))
        return out

    def do_call(self, fn, ins, regs, st, ctx, site):
        args = [self.val(x, regs) for x in ins[3]]
        cal = ins[2]
        f = self.p.fns.get(cal) if isinstance(cal, str) else None
        if f is None or not CONT.match(f.q) and not (f.blocks and self.p.is_repo(f)):
            self.escapes(st, args)
        targets = None
        if not isinstance(cal, str):
            cv = self.val(cal, regs)
            if cv.k == "fn":
                cal = cv.a[0]
            else:
                if len(ins) > 10:
                    targets = ins[10][3]
                    return self.vcall(fn, ins, regs, st, ctx, site, args, cv, ins[10])
                r = self.rule.on_indirect(self, st, site, cv, args)
                if r is not None:
                    return r
                for a in args:
                    if isinstance(a, V):
                        self.havoc(st, a, mk("site", site.ctx, site.idx))
                v = mk("res", ctx, site.idx, "(*callback)", (cv,) + tuple(args))
                self.kill_defs(st, regs, v)
                out = [("ret", v, st)]
                if "user" in self.rule.throws and not ins[4]:
                    out.append(("throw", mk("exc", "user", None), st.copy()))
                return out
        return self.call_named(cal, args, st, ctx, site)

    def call_named(self, cal, args, st, ctx, site):
        f = self.p.fns.get(cal)
        q = f.q if f else cal
        r = self.rule.on_call(self, st, site, q, args)
        if r is None:
            m = self.models.get(q)
            if m is not None:
                r = m(self, st, site, f, q, args)
            if r is None:
                r = self.pattern_model(st, site, f, q, args)
            if r is None:
                if f is not None and f.blocks and self.should_inline(f, q):
                    nctx = mk("ctx", ctx, f.name, site.idx)
                    if len(self.stack) < self.MAXDEPTH and sum(1 for x in self.stack if x is f) < 2:
                        return [(k, v, s) for k, v, s, _ in self.call_fn(f, args, st, nctx, site)]
                r = self.default_opaque(f, q, args, st, site)
        if self.after is not None:
            for k, v, s in r:
                if k == "ret":
                    self.after(self, s, site, q, args, v)
        return r

    def default_opaque(self, f, q, args, st, site):
        noret = f is not None and f.j["noret"]
        key = mk("site", site.ctx, site.idx)
        for i, a in enumerate(args):
            if isinstance(a, V):
                ro = f is not None and i < len(f.args) and f.args[i][6]
                if not ro and not (f is not None and is_const_ref(self.p, f, i)):
                    self.havoc(st, a, key)
        if noret:
            if "throw" in q or q.startswith("std::__throw"):
                return self.explicit_throw(st, site, q) if "std" in self.rule.throws else []
            return []
        thr = None
        if f is None or not f.nounwind:
            thr = "std" if q.startswith("std::") else "ext"
        return self.opaque_call(site, q, args, st, thr)

    def explicit_throw(self, st, site, q, ti=None):
        return [("throw", mk("exc", "throw:" + q, ti), st)]

    def should_inline(self, f, q):
        if SKIP.match(q):
            return False
        if self.p.is_repo(f) and "3rdparty" not in f.file:
            return True
        if q.startswith("std::") or q.startswith("__gnu_cxx::"):
            if INLINE_STD.match(q):
                return True
            if "$_" in f.dem or "lambda" in f.dem or "_ZZ" in f.name:
                return not CONT.match(q)
            return False
        if f.j["internal"]:
            return True
        return "$_" in f.dem or "lambda" in f.dem

    def vcall(self, fn, ins, regs, st, ctx, site, args, cv, info):
        tid, slot, targets = info[1], info[2], info[3]
        # the object: the vtable pointer the callee was loaded through was loaded from it
        obj = args[0] if args else None
        if targets and self.p.fns[targets[0]].args and self.p.fns[targets[0]].args[0][3] and len(args) > 1:
            obj = args[1]
        elif cv.k == "init":
            r = split(cv.a[0])[0]
            if r.k == "init":
                obj = r.a[0]
        self.vobj = obj
        root, off = split(obj) if isinstance(obj, V) else (None, 0)
        q = "virtual:" + tid + "@%d" % slot
        if targets:
            q = "virtual:" + self.p.fns[targets[0]].q.split("::")[-1] + ":" + tid[4:]
        r = self.rule.on_call(self, st, site, "virtual", [tid, slot, targets] + args)
        if r is not None:
            return r
        out = []
        pol = getattr(self.rule, "vpolicy", None)
        tg = targets
        if targets and root is not None and off == 0:
            t = self.typeof(root)
            if t >= 0:
                k = [x for x in targets if self.p.isa(self.p.fns[x].cls, t) or self.p.isa(t, self.p.fns[x].cls)]
                targets = k or targets
        tg = targets
        if pol:
            self.vst = st
            tg = pol(self, tid, slot, targets, args)
        if not tg:
            f0 = self.p.fns.get(targets[0]) if targets else None
            for i, a in enumerate(args):
                if isinstance(a, V) and not (f0 is not None and is_const_ref(self.p, f0, i)):
                    self.havoc(st, a, mk("site", site.ctx, site.idx))
            return self.opaque_call(site, q, args, st, "user")
        for t in tg:
            s2 = st.copy() if len(tg) > 1 else st
            out += self.call_named(t, args, s2, ctx, site)
        return out

    # ----------------------------------------------------- std models
    def pattern_model(self, st, site, f, q, args):
        m = LOCKCLS.match(q)
        if m:
            return self.model_mutex(st, site, m.group(1), m.group(2), args)
        m = SPTR.match(q)
        if m:
            return self.model_sptr(st, site, f, m.group(1), m.group(2), args)
        m = ITER_CLS.match(q)
        if m:
            return self.model_iter(st, site, f, m.group(1), m.group(3), args)
        m = CONT.match(q)
        if m and not INLINE_STD.match(q):
            return self.model_cont(st, site, f, m.group(1), m.group(2), args)
        if q.startswith("maf::logging"):
            if f is not None and f.args and f.args[0][3]:
                return self.opaque_call(site, q, args, st)
            return self.opaque_call(site, q, args, st)
        return None

    def model_mutex(self, st, site, cls, op, args):
        a = args[0]
        if op in ("lock", "lock_shared"):
            self.lock(st, site, a, cls + (":s" if op == "lock_shared" else ""))
            return [("ret", None, st)]
        if op in ("unlock", "unlock_shared"):
            self.unlock(st, site, a)
            return [("ret", None, st)]
        if op.startswith("try_lock"):
            s2 = st.copy()
            self.lock(st, site, a, cls)
            return [("ret", TRUE, st), ("ret", NULL, s2)]
        if op in ("mutex", "recursive_mutex", "shared_mutex") or op.startswith("~"):
            return [("ret", None, st)]
        return None

    def lock(self, st, site, a, mode):
        self.rule.on_lock(self, st, site, a, mode)
        self.deref(st, a)
        st.locks = st.locks + ((a, mode),)
        self.refresh_guarded(st, a)

    def unlock(self, st, site, a):
        self.rule.on_unlock(self, st, site, a)
        l = list(st.locks)
        for i in range(len(l) - 1, -1, -1):
            if l[i][0] is a:
                del l[i]
                break
        st.locks = tuple(l)
        if split(a)[0].k != "al":
            self.refresh_queries(st, a, guard_region(self, a))

    def escapes(self, st, vs):
        """local containers whose address is handed out may change out of sight"""
        for a in vs:
            if isinstance(a, V) and split(a)[0].k == "al":
                for d in (st.eq, st.facts):
                    if any(x.k == "qry" and x.a[1] is a for v in d for x in leaves(v)):
                        self.forget_queries(st, lambda c: c is a)
                        break

    def forget_queries(self, st, pred):
        def dep(x):
            return x.k == "qry" and pred(x.a[1])
        for d in (st.eq, st.facts):
            for v in [v for v in d if any(dep(x) for x in leaves(v))]:
                del d[v]
        bad = [t for t in st.ne if any(dep(x) for x in leaves(t[0]))]
        if bad:
            st.ne = st.ne - frozenset(bad)

    def refresh_queries(self, st, m, region):
        if region is not None:
            r, lo, hi = region

            def own(c):
                rr, oo = split(c)
                return rr is r and lo <= oo < hi
        else:
            root = split(m)[0]

            def own(c):
                return split(c)[0] is root
        self.forget_queries(st, lambda c: own(c) or any(own(y) for y in leaves(c)))

    def refresh_guarded(self, st, m):
        """after (re)acquiring m, what is known about data other threads may change under m is void"""
        root, off = split(m)
        if root.k == "al":
            return
        region = guard_region(self, m)
        self.refresh_queries(st, m, region)
        if region is None:
            return
        r, lo, hi = region

        def inreg(x):
            if x.k == "init":
                rr, oo = split(x.a[0])
                return rr is r and lo <= oo < hi
            if x.k in ("res", "elem", "iter"):
                for y in leaves(x):
                    if y is not x and y.k in ("p",) or y is r:
                        rr, oo = split(y)
                        if rr is r and lo <= oo < hi and not (y is r and lo > 0):
                            return True
            return False
        st.forget(inreg)
        for k in [k for k in st.mem if k[0] is r and lo <= k[1] < hi]:
            del st.mem[k]

    def model_sptr(self, st, site, f, cls, op, args):
        p = self.p
        weak = "weak" in cls
        if not args:
            return None
        a = args[0]
        sret = f is not None and f.args and f.args[0][3]
        if op == "operator bool":
            return [("ret", icmp("ne", self.load(st, a, 8, "p"), NULL), st)]
        if op in ("operator->", "get", "operator*", "_M_get"):
            v = self.load(st, a, 8, "p")
            if f is not None and f.j.get("dty"):
                rt = f.j["dty"][0]
                if rt >= 0 and p.types[rt]["k"] == "ptr":
                    self.observe(v, p.types[rt]["to"])
            return [("ret", v, st)]
        if op in ("lock",) and weak:
            dst, src = args[0], args[1]
            w = self.load(st, src, 8, "p")
            v = mk("res", site.ctx, site.idx, "weak_lock", (src, w))
            self.kill_defs(st, None, v)
            ty = self.sp_elem(f)
            if ty >= 0:
                self.observe(v, ty)
            self.set_sp(st, dst, v)
            return [("ret", None, st)]
        if op == "expired" and weak:
            return self.opaque_call(site, "weak_expired", args, st)
        if op == "use_count" or op == "unique":
            return self.opaque_call(site, "use_count", args, st)
        if op.startswith("~"):
            return [("ret", None, st)]
        base = cls.strip("_")
        nm = strip_targs(op)
        if nm in ("shared_ptr", "__shared_ptr", "weak_ptr", "__weak_ptr", "unique_ptr", "__shared_ptr_access"):
            if nm == "__shared_ptr_access":
                return [("ret", None, st)]
            # constructor kinds by argument type
            if len(args) == 1:
                self.set_sp(st, a, NULL)
                return [("ret", None, st)]
            at = self.argtype(f, 1)
            kind = self.ptr_kind(at, f, 1)
            if kind == "smart":
                src = args[1]
                v = self.load(st, src, 8, "p")
                if len(args) > 2 and args[2].k != "u" and "shared" in nm and self.ptr_kind(self.argtype(f, 2), f, 2) == "raw":
                    v = args[2]  # aliasing constructor
                self.set_sp(st, a, v)
                if self.is_rvalue(f, 1) or (src.k == "al" and cls == "unique_ptr"):
                    self.set_sp(st, src, NULL)
                return [("ret", None, st)]
            if kind == "raw":
                self.set_sp(st, a, args[1])
                return [("ret", None, st)]
            if kind == "null":
                self.set_sp(st, a, NULL)
                return [("ret", None, st)]
            # make_shared tag construction etc.
            return None
        if op == "operator=" or op.startswith("operator="):
            src = args[1]
            kind = self.ptr_kind(self.argtype(f, 1), f, 1)
            if kind == "null" or (kind is None and src.k == "c"):
                self.set_sp(st, a, NULL)
            else:
                v = self.load(st, src, 8, "p")
                if self.is_rvalue(f, 1):
                    self.set_sp(st, src, NULL)
                self.set_sp(st, a, v)
            return [("ret", a, st)]
        if op == "reset" or nm == "reset":
            v = args[1] if len(args) > 1 else NULL
            if len(args) > 1 and v.k == "u":
                v = NULL
            self.set_sp(st, a, v)
            return [("ret", None, st)]
        if op == "release":
            v = self.load(st, a, 8, "p")
            self.set_sp(st, a, NULL)
            return [("ret", v, st)]
        if op == "swap":
            self.swapmem(st, args[0], args[1], 8 if cls == "unique_ptr" else 16)
            return [("ret", None, st)]
        return None

    def sp_elem(self, f):
        if f is None or f.cls is None or f.cls < 0:
            return -1
        ta = self.p.types[f.cls].get("ta", [])
        return self.p.rt(ta[0]) if ta else -1

    def set_sp(self, st, a, v):
        root, off = split(a)
        self.store(st, a, v, 8)

    def argtype(self, f, i):
        """debug type of IR argument i"""
        if f is None:
            return -1
        if i < len(f.args) and f.args[i][0] >= 0:
            return f.args[i][0]
        d = f.j.get("dty")
        if d:
            sr = 1 if f.args and f.args[0][3] else 0
            k = i - sr + 1
            if 0 <= k < len(d):
                return d[k]
        return -1

    def is_rvalue(self, f, i):
        t = self.argtype(f, i)
        return t >= 0 and self.p.types[t]["k"] == "ptr" and self.p.types[t]["tag"] == "DW_TAG_rvalue_reference_type"

    def ptr_kind(self, t, f, i):
        if t is None or t < 0:
            return None
        t = self.p.types[t]
        if t["k"] == "ptr":
            to = self.p.rt(t["to"])
            ref = "reference" in t["tag"]
            if not ref:
                return "raw"
            if to >= 0:
                tt = self.p.types[to]
                if tt["k"] == "class" and re.search(r"(shared|weak|unique|auto)_ptr$", tt["q"]):
                    return "smart"
                if tt["k"] == "ptr":
                    return "rawref"
            return None
        if t["k"] == "class" and re.search(r"(shared|weak|unique)_ptr$", t["q"]):
            return "smart"
        if t["k"] == "basic" or t["k"] == "fn":
            return "null"
        return None

    # iterators: pointer-sized handles into a container
    def model_iter(self, st, site, f, cls, op, args):
        a = args[0] if args else None
        op = strip_targs(op) if not op.startswith("operator") else op
        if op in ("operator*", "operator->"):
            sret = f is not None and f.args and f.args[0][3]
            it = self.load(st, a, 8, "p")
            v = self.elem_of(it)
            if f is not None and f.j.get("dty"):
                rt = f.j["dty"][0]
                if rt >= 0 and self.p.types[rt]["k"] == "ptr":
                    self.observe(v, self.p.types[rt]["to"])
            return [("ret", v, st)]
        if op.startswith("operator++") or op.startswith("operator--"):
            it = self.load(st, a, 8, "p")
            nit = mk("iter", self.iter_cont(it), mk("site", site.ctx, site.idx), "next")
            self.kill_defs(st, None, nit)
            self.kill_defs(st, None, mk("elem", self.iter_cont(it), nit))
            self.store(st, a, nit, 8)
            if len(args) > 1:
                return [("ret", it, st)]
            return [("ret", a, st)]
        if op in ("operator==", "operator!="):
            x, y = self.load(st, args[0], 8, "p"), self.load(st, args[1], 8, "p")
            return [("ret", icmp("eq" if op == "operator==" else "ne", norm_end(x), norm_end(y)), st)]
        if op == "base":
            return [("ret", a, st)]
        last = cls.split("::")[-1]
        if op == last or op.startswith("_"):
            if len(args) == 2:
                at = self.argtype(f, 1)
                if at >= 0 and self.p.types[at]["k"] == "ptr" and "reference" in self.p.types[at]["tag"]:
                    self.store(st, a, self.load(st, args[1], 8, "p"), 8)
                else:
                    self.store(st, a, args[1], 8)
                return [("ret", None, st)]
            if len(args) == 1 and f is not None and f.blocks and op == last:
                self.store(st, a, NULL, 8)
                return [("ret", None, st)]
        return None

    def elem_of(self, it):
        if it.k == "field" and it.a[1] == 0 and it.a[0].k == "res" and re.search(r"map::(try_emplace|emplace|insert_or_assign)$", it.a[0].a[2]) and len(it.a[0].a[3]) > 1:
            # the element an insertion has found or made
            c, k = it.a[0].a[3][:2]
            it = mk("iter", c, mk("site", it.a[0].a[0], it.a[0].a[1]), "find", k)
        return mk("elem", self.iter_cont(it), it)

    def iter_cont(self, it):
        if it.k == "iter":
            return it.a[0]
        if it.k == "stale":
            return self.iter_cont(it.a[0])
        if it.k == "phi":
            return mk("contof", it)
        return mk("contof", it)

    def model_cont(self, st, site, f, cls, op, args):
        a = args[0] if args else None
        if op.startswith("~"):
            return [("ret", None, st)]
        sret = bool(f is not None and f.args and f.args[0][3])
        nm = op if op.startswith("operator") else strip_targs(op)
        cont = args[1] if sret else a
        ins = site.ins
        isctor = nm == cls.split("::")[-1]
        if cls == "basic_string":
            self.model_string(st, site, f, nm, args, isctor)
        elif (isctor or nm == "operator=") and len(args) >= 2 and isinstance(args[1], V) and not sret and self.same_class(f, 1, cls):
            self.havoc(st, a, mk("site", site.ctx, site.idx))
            self.mutated(st, a)
            self.store(st, a, mk("contcopy", self.origin(st, args[1])), 8)
            self.mutated(st, args[1])
            if isctor:
                return self.opaque_call(site, "std::%s::%s" % (cls, nm), args, st, "std" if not (f is not None and f.nounwind) else None)
            self.opaque_call(site, "std::%s::operator=" % cls, args, st)
            return [("ret", a, st)]
        if nm in ("begin", "cbegin"):
            if st.eq.get(mk("qry", "size", cont)) == 0 and split(cont)[0].k == "al":
                return self.ret_iter(st, site, mk("iter", cont, None, "end"), sret, args)
            v = mk("iter", cont, mk("site", site.ctx, site.idx), "begin")
            self.kill_defs(st, None, v)
            return self.ret_iter(st, site, v, sret, args)
        if nm in ("end", "cend"):
            return self.ret_iter(st, site, mk("iter", cont, None, "end"), sret, args)
        if nm in ("find", "lower_bound", "upper_bound") and cls not in ("basic_string", "basic_string_view"):
            v = mk("iter", cont, mk("site", site.ctx, site.idx), "find", self.canon(st, args[-1]))
            self.kill_defs(st, None, v)
            self.kill_defs(st, None, mk("elem", cont, v))
            return self.ret_iter(st, site, v, sret, args)
        if nm in ("count", "contains") and cls in ("map", "set", "unordered_map", "unordered_set", "multimap", "multiset") and ins[1] >= 0 and len(args) == 2:
            v = mk("iter", cont, mk("site", site.ctx, site.idx), "find", self.canon(st, args[-1]))
            self.kill_defs(st, None, v)
            b = neg(icmp("eq", v, mk("iter", cont, None, "end")))
            return [("ret", b if nm == "contains" else mk("cast", "zext", b), st)]
        if nm == "swap" and len(args) == 2 and cls != "basic_string" and not sret:
            return self.model_swap(st, site, cls, args)
        if nm in MUTATORS:
            base = cont
            self.mutated(st, base)
            for x in args:
                if isinstance(x, V) and nm not in ("push_back", "emplace_back", "insert", "emplace", "push_front", "emplace_front"):
                    c = st.mem.get(split(x))
                    if c is not None and c[0].k == "contcopy":
                        del st.mem[split(x)]
        if nm in GROWS and split(cont)[0].k == "al" and cls in SIZED:
            st.assume(icmp("eq", mk("qry", "size", cont), NULL), False)
        if nm == "erase" and ins[1] >= 0 and ins[9] == "p":
            v = mk("iter", cont, mk("site", site.ctx, site.idx), "erase")
            self.kill_defs(st, None, v)
            return self.ret_iter(st, site, v, sret, args)
        if nm in ("front", "back", "top", "at", "operator[]", "emplace_back", "emplace_front") and ins[1] >= 0 and cls not in ("basic_string", "basic_string_view"):
            # the elements of an array stay where they are
            key = mk("at", mk("site", site.ctx, site.idx) if cls != "array" else NULL, nm, *[self.canon(st, x) for x in args[1:2]])
            v = mk("elem", cont, key)
            if nm not in ("front", "back", "top"):
                self.kill_defs(st, None, v)
            rt = f.j.get("dty", [-1])[0] if f is not None else -1
            if rt >= 0 and self.p.types[rt]["k"] == "ptr":
                self.observe(v, self.p.types[rt]["to"])
            return [("ret", v, st)]
        if nm in ("size", "length") and ins[1] >= 0:
            return [("ret", mk("qry", "size", cont), st)]
        if nm == "empty" and ins[1] >= 0:
            return [("ret", icmp("eq", mk("qry", "size", cont), NULL), st)]
        key = mk("site", site.ctx, site.idx)
        if (isctor or sret) and cls != "basic_string":
            self.havoc(st, a, key)
            if isctor and len(args) == 1 and split(a)[0].k == "al" and cls in SIZED:
                # a container made here has no elements until something is done with it
                self.forget_queries(st, lambda c: c is a)
                st.assume(icmp("eq", mk("qry", "size", a), NULL), True)
        if nm == "operator=" and ins[1] >= 0:
            self.opaque_call(site, "std::%s::operator=" % cls, args, st)
            return [("ret", a, st)]
        thr = "std" if not (f is not None and f.nounwind or nm in NOTHROW) else None
        return self.opaque_call(site, "std::%s::%s" % (cls, nm), args, st, thr)

    def model_swap(self, st, site, cls, args):
        """a local container swapped with another one then holds what that one held"""
        held = [self.origin(st, x) for x in args]
        r = self.opaque_call(site, "std::%s::swap" % cls, args, st)
        for x, o in zip(args, reversed(held)):
            self.mutated(st, x)
            if split(x)[0].k in ("al", "heap"):
                self.havoc(st, x, mk("site", site.ctx, site.idx))
                if o not in args or split(o)[0].k not in ("al", "heap"):
                    self.store(st, x, mk("contcopy", o), 8)
        return r

    def same_class(self, f, i, cls):
        t = self.argtype(f, i)
        if t >= 0 and self.p.types[t]["k"] == "ptr" and "reference" in self.p.types[t]["tag"]:
            to = self.p.rt(self.p.types[t]["to"])
            return to >= 0 and self.p.types[to].get("q") in ("std::" + cls, "std::__cxx11::" + cls)
        return False

    def origin(self, st, cont):
        """the container a container is a whole copy of"""
        if isinstance(cont, V) and split(cont)[0].k in ("al", "heap"):
            v = self.load(st, cont, 8, "p")
            if v.k == "contcopy":
                return v.a[0]
        return cont

    def canon(self, st, a):
        """a local copy of a string stands for the string it copies"""
        if isinstance(a, V) and split(a)[0].k in ("al", "heap"):
            c = st.mem.get(split(a))
            if c is not None and c[0].k == "init" and c[1] == 8:
                return c[0].a[0]
        return a

    def model_string(self, st, site, f, nm, args, isctor):
        """the content of a string is kept in its first word"""
        a = args[0]
        if (isctor or nm in ("operator=", "assign")) and len(args) >= 2 and isinstance(args[1], V):
            if self.same_class(f, 1, "basic_string") and (len(args) == 2 or isctor and len(args) == 3):
                self.store(st, a, self.load(st, args[1], 8, "p"), 8)
            else:
                self.store(st, a, mk("str", *[x for x in args[1:] if isinstance(x, V)][:2]), 8)
        elif isctor or nm in MUTATORS or nm in ("replace", "push_back"):
            self.store(st, a, mk("str", mk("site", site.ctx, site.idx)), 8)
        elif nm == "swap" and len(args) == 2:
            self.swapmem(st, a, args[1], 8)

    def mutated(self, st, cont):
        """queries on the container made so far are void"""
        def dep(x):
            return x.k == "res" and x.a[3] and x.a[3][0] is cont and isinstance(x.a[2], str) and x.a[2].startswith("std::") \
                or x.k == "qry" and x.a[1] is cont
        st.forget(dep)

    def ret_iter(self, st, site, v, sret, args):
        if sret:
            self.store(st, args[0], v, 8)
            return [("ret", None, st)]
        if site.ins[9] == "a":
            return [("ret", mk("agg", v, UNDEF), st)]
        return [("ret", v, st)]


def joinval(x, y, ctx, blk, k, o):
    """either of two values; two positions in one container stay a position in it"""
    ph = mk("phi", ctx, blk, k, o)
    if x.k == "iter" and y.k == "iter" and x.a[0] is y.a[0]:
        return mk("iter", x.a[0], ph, "join")
    return ph


def m_begin_end(E, st, site, f, q, args):
    sret = bool(f is not None and f.args and f.args[0][3])
    cont = args[1] if sret else args[0]
    if q.endswith("begin"):
        v = mk("iter", cont, mk("site", site.ctx, site.idx), "begin")
        E.kill_defs(st, None, v)
    else:
        v = mk("iter", cont, None, "end")
    return E.ret_iter(st, site, v, sret, args)


def m_type_index(E, st, site, f, q, args):
    if len(args) == 2 and isinstance(args[1], V):
        rt = f.args[1][0] if f is not None and len(f.args) > 1 else -1
        v = args[1]
        tt = E.p.types[E.p.rt(rt)] if rt >= 0 else {}
        if tt.get("k") == "ptr" and E.p.types[E.p.rt(tt["to"])].get("q") == "std::type_index":
            v = E.load(st, v, 8, "p")
        E.store(st, args[0], v, 8)
        return [("ret", None, st)]
    return None


def norm_end(it):
    return it


def params(dem):
    """parameter types of a demangled function name"""
    e = dem.rfind(")")
    d, k = 0, e
    while k >= 0:
        d += (dem[k] in ")>") - (dem[k] in "(<" and dem[k - 1:k + 1] != "->")
        if d == 0:
            break
        k -= 1
    out, cur, d = [], "", 0
    for c in dem[k + 1:e]:
        d += (c in "(<[{") - (c in ")>]}")
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()] if cur.strip() else out


def is_const_ref(p, f, i):
    """argument i is only read: a reference to a constant, or the object of a constant member function"""
    r = f.cref
    if r is None:
        ps = params(f.dem)
        sr = 1 if f.args and f.args[0][3] else 0
        n = len(f.args) - sr - len(ps)
        r = frozenset()
        if n in (0, 1) and "(" in f.dem:
            r = frozenset([sr + n + j for j, x in enumerate(ps) if x.endswith(" const&")] + ([sr] if n == 1 and f.name.startswith("_ZNK") else []))
        f.cref = r
    return i in r


def sext(n, bits):
    n &= (1 << bits) - 1
    if n >> (bits - 1):
        n -= 1 << bits
    return n


SWAP = {"sgt": "slt", "ugt": "ult", "sge": "sle", "uge": "ule"}


def icmp(p, a, b):
    if p == "ne":
        return neg(icmp("eq", a, b))
    if p in SWAP:
        return icmp(SWAP[p], b, a)
    if p == "sle":
        return neg(icmp("slt", b, a))
    if p == "ule":
        return neg(icmp("ult", b, a))
    if a.k == "c" and b.k == "c":
        x, y = a.a[0], b.a[0]
        if p == "eq":
            return C(int(x == y))
        if p == "slt":
            return C(int(x < y))
        if p == "ult":
            return C(int((x & (2**64 - 1)) < (y & (2**64 - 1))))
    if p == "ult" and a.k == "c" and a.a[0] == 0:
        return neg(icmp("eq", b, a))
    if p == "ult" and b.k == "c" and b.a[0] == 1:
        return icmp("eq", a, NULL)
    if p == "eq":
        if a.k == "c" or (b.k != "c" and a.n > b.n):
            a, b = b, a
        if b.k == "c" and b.a[0] == 0:
            if a.k in ("al", "heap", "g", "fn") or (a.k == "p" and a.a[0].k in ("al", "heap", "g")):
                return NULL
            if a.k in ("icmp", "not"):
                return neg(a)
        if a is b:
            return TRUE
        x, y = (v.a[0] if v.k == "p" else v for v in (a, b))
        if x.k == "al" and y.k == "arg" or x.k == "arg" and y.k == "al":
            return NULL     # what an entry point is given is none of its own variables
        if a.k == "sel" and b.k == "typeid" or a.k == "typeid" and b.k == "sel":
            return mk("icmp", "eq", a, b)
        # strip value-preserving extensions against constants
        if b.k == "c" and a.k == "cast" and a.a[0] in ("zext", "sext"):
            return icmp("eq", a.a[1], b)
    return mk("icmp", p, a, b)


def neg(v):
    if v.k == "c":
        return C(int(not v.a[0]))
    if v.k == "not":
        return v.a[0]
    return mk("not", v)


def binop(op, a, b):
    if a.k == "c" and b.k == "c":
        x, y = a.a[0], b.a[0]
        try:
            r = {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y}.get(op)
            if op == "shl" and 0 <= y < 64:
                r = x << y
            if r is not None:
                return C(sext(r, 64))
        except Exception:
            pass
    if op == "add":
        if b.k == "c" and b.a[0] == 0:
            return a
        if a.k == "c" and a.a[0] == 0:
            return b
    if op == "sub" and b.k == "c" and b.a[0] == 0:
        return a
    if op == "xor" and b.k == "c" and b.a[0] in (1, -1) and (a.k in ("icmp", "not") or b.a[0] == 1):
        return neg(a)
    if op == "and" and b.k == "c" and b.a[0] in (1, -1, 255) and a.k in ("icmp", "not", "res"):
        return a
    if op == "or" and b.k == "c" and b.a[0] == 0:
        return a
    if op in ("add", "mul", "and", "or", "xor") and a.n > b.n:
        a, b = b, a
    return mk(op, a, b)


# ------------------------------------------------------------ guard table
# class -> (mutex member, guarded members or None for "every other member")
GUARDS = {}


def guard_region(E, m):
    """(root, lo, hi) of the data guarded by the mutex at address m, for wrapper classes"""
    ch = E.chain(m)
    root, off = split(m)
    acc = 0
    best = None
    t = E.typeof(root)
    if t >= 0 and E.p.types[t].get("q") in WRAP and not ch:
        pass
    pos = 0
    cur = [(E.p.types[t]["q"] if t >= 0 else "", 0, t)]
    for (c, mem, o, mt, ct) in ch:
        if c in WRAP:
            best = (pos, ct)
        pos += o
    if best is None:
        return None
    pos, ct = best
    q = E.p.types[ct]["q"]
    for mm in E.p.types[ct]["m"]:
        if mm[0] == WRAP[q][1]:
            mt = E.p.rt(mm[2])
            s = E.p.types[mt].get("s", 8) if mt >= 0 else 8
            return root, pos + mm[1], pos + mm[1] + max(1, s)
    return None


# wrapper class -> (mutex member, data member); discovered in maf.load from the class layouts
WRAP = {"maf::threading::Lockable": ("_mutex", "_protected"), "maf::threading::AtomicObject": ("mutex_", "data_")}


# ---------------------------------------------------------------- models
def m_new(E, st, site, f, q, args):
    v = mk("heap", site.ctx, site.idx)
    E.kill_root(st, v)
    E.kill_defs(st, None, v)
    out = [("ret", v, st)]
    if "alloc" in E.rule.throws:
        out.append(("throw", mk("exc", "alloc", "_ZTISt9bad_alloc"), st.copy()))
    return out


def m_nop(E, st, site, f, q, args):
    return [("ret", UNDEF, st)]


def m_memcpy(E, st, site, f, q, args):
    n = args[2].a[0] if args[2].k == "c" else 64
    E.rule.on_load(E, st, site, args[1], UNDEF, n, 0)
    E.rule.on_store(E, st, site, args[0], UNDEF, n, 0)
    if args[2].k == "c":
        E.copymem(st, args[0], args[1], n)
    else:
        E.havoc(st, args[0], mk("site", site.ctx, site.idx))
    return [("ret", args[0], st)]


def m_memset(E, st, site, f, q, args):
    n = args[2].a[0] if args[2].k == "c" else 64
    E.rule.on_store(E, st, site, args[0], UNDEF, n, 0)
    if args[1].k == "c" and args[1].a[0] == 0 and args[2].k == "c":
        E.zeromem(st, args[0], n)
    else:
        E.havoc(st, args[0], mk("site", site.ctx, site.idx))
    return [("ret", args[0], st)]


def m_function(E, st, site, f, q, args):
    """std::function copy/move constructor, other constructors are followed"""
    if len(args) == 2:
        t = E.argtype(f, 1)
        if t >= 0 and E.p.types[t]["k"] == "ptr":
            to = E.p.rt(E.p.types[t]["to"])
            if to >= 0 and E.p.types[to].get("q") == "std::function" and to == E.p.rt(f.cls):
                E.copymem(st, args[0], args[1], 32)
                if E.is_rvalue(f, 1):
                    E.store(st, ptr(args[1], 16), NULL, 8)
                    E.store(st, ptr(args[1], 24), NULL, 8)
                return [("ret", None, st)]
    return None


def m_function_swap(E, st, site, f, q, args):
    E.swapmem(st, args[0], args[1], 32)
    return [("ret", None, st)]


def m_function_assign(E, st, site, f, q, args):
    t = E.argtype(f, 1)
    if t >= 0 and E.p.types[t]["k"] == "ptr":
        to = E.p.rt(E.p.types[t]["to"])
        if to >= 0 and E.p.types[to].get("q") == "std::function":
            if E.is_rvalue(f, 1):
                E.copymem(st, args[0], args[1], 32)
                E.store(st, ptr(args[1], 16), NULL, 8)
                E.store(st, ptr(args[1], 24), NULL, 8)
            else:
                E.copymem(st, args[0], args[1], 32)
            return [("ret", args[0], st)]
    return None


def m_throw(E, st, site, f, q, args):
    ti = args[1].a[0] if len(args) > 1 and args[1].k == "g" else None
    return [("throw", mk("exc", "throw", ti), st)] if "throw" in E.rule.throws else []


def m_rethrow(E, st, site, f, q, args):
    return [("throw", st.exc or mk("exc", "rethrow", None), st)]


def m_begin_catch(E, st, site, f, q, args):
    return [("ret", args[0], st)]


def m_typeid(E, st, site, f, q, args):
    return [("ret", mk("typeid", args[0].a[0] if args[0].k == "g" else "?"), st)]


def m_noreturn(E, st, site, f, q, args):
    return []


def m_atomic_load(E, st, site, f, q, args):
    v = mk("res", site.ctx, site.idx, "atomic_load", (args[0],))
    E.kill_defs(st, None, v)
    E.rule.on_load(E, st, site, args[0], v, 0, 1)
    return [("ret", v, st)]


def m_atomic_store(E, st, site, f, q, args):
    E.rule.on_store(E, st, site, args[0], args[1], 0, 1)
    return [("ret", args[1] if site.ins[1] >= 0 else None, st)]


def m_atomic_rmw(E, st, site, f, q, args):
    v = mk("res", site.ctx, site.idx, q, tuple(args))
    E.kill_defs(st, None, v)
    E.rule.on_store(E, st, site, args[0], v, 0, 1)
    return [("ret", v, st)]


def m_atomic_cas(E, st, site, f, q, args):
    """compare_exchange(this, expected&, desired, ...): forks success / failure"""
    s2 = st.copy()
    E.rule.on_store(E, st, site, args[0], args[2], 0, 1)
    n = 1
    E.store(s2, args[1], mk("res", site.ctx, site.idx, "atomic_seen", (args[0],)), 8)
    exp = E.load(st, args[1], 1)
    if exp.k == "c" and exp.a[0] in (0, 1):
        # a boolean that differs from the expected one is the other one
        t = E.argtype(f, 1)
        tt = E.p.types[E.p.rt(E.p.types[t]["to"])] if t >= 0 and E.p.types[t]["k"] == "ptr" and E.p.types[t]["to"] >= 0 else {}
        if tt.get("n") == "bool":
            E.store(s2, args[1], C(1 - exp.a[0]), 1)
    return [("ret", TRUE, st), ("ret", NULL, s2)]


def m_sft(E, st, site, f, q, args):
    """enable_shared_from_this<T>::shared_from_this(): a shared_ptr to the object itself"""
    sret = f.args and f.args[0][3]
    dst, this = args[0], args[1]
    v = this
    root, off = split(this)
    ta = E.p.types[f.cls].get("ta", []) if f.cls is not None and f.cls >= 0 else []
    if ta:
        tt = E.p.rt(ta[0])
        for m in E.p.types[tt].get("m", []):
            if m[0] == "<base>" and "enable_shared_from_this" in E.p.types[E.p.rt(m[2])].get("n", ""):
                v = ptr(this, -m[1])
        E.observe(v, tt)
    E.store(st, dst, v, 8)
    return [("ret", None, st)]


def m_make_shared(E, st, site, f, q, args):
    """find the constructor call in the allocation machinery and run it on a fresh object"""
    dst = args[0]
    h = mk("heap", site.ctx, site.idx)
    E.kill_root(st, h)
    E.kill_defs(st, None, h)
    ty = -1
    rt = f.j.get("dty", [-1])[0]
    if rt >= 0 and E.p.types[E.p.rt(rt)].get("ta"):
        ty = E.p.rt(E.p.types[E.p.rt(rt)]["ta"][0])
        E.observe(h, ty)
    con = find_construct(E.p, f)
    outs = [("ret", None, st)]
    if con is not None:
        nctx = mk("ctx", site.ctx, con.name, site.idx)
        E.frames.append({h})
        outs = [(k, v, s) for k, v, s, _ in E.call_fn(con, [h] + args[1:], st, nctx, site)]
        E.frames.pop()
    r = []
    for k, v, s in outs:
        if k == "ret":
            E.store(s, dst, h, 8)
            r.append(("ret", None, s))
        else:
            r.append((k, v, s))
    return r


_cons = {}


def find_construct(p, f):
    if f.name in _cons:
        return _cons[f.name]
    seen = {f.name}
    work = [f]
    res = None
    while work and res is None:
        g = work.pop(0)
        for blk in g.blocks or []:
            for ins in blk:
                if ins[0] == "call" and isinstance(ins[2], str):
                    h = p.fns.get(ins[2])
                    if h is None or h.name in seen:
                        continue
                    seen.add(h.name)
                    if h.q == "std::_Construct":
                        res = h
                        break
                    if h.q.startswith("std::") or h.q.startswith("__gnu_cxx::"):
                        work.append(h)
            if res:
                break
    _cons[f.name] = res
    return res


def m_construct(E, st, site, f, q, args):
    return None


def m_ident(E, st, site, f, q, args):
    return [("ret", args[0], st)]


def m_pairget(E, st, site, f, q, args):
    """std::get of a pair, as structured bindings use it"""
    m = re.search(r"__pair_get<(\d)", f.dem or "")
    t = E.argtype(f, 0)
    if not m or t < 0 or E.p.types[t]["k"] != "ptr" or not args:
        return None
    x = E.p.types[E.p.rt(E.p.types[t]["to"])]
    off = [y[1] for y in x.get("m", []) if y[0] == ("first", "second")[int(m.group(1))]]
    return [("ret", ptr(args[0], off[0]), st)] if off else None


def m_cv(E, st, site, f, q, args):
    op = q.split("::")[-1]
    n = len(args)
    if op == "wait" and n == 2 or op in ("wait_for", "wait_until") and n == 3:
        # the lock is released and re-acquired: knowledge about guarded data is void
        for (m, mode) in st.locks:
            E.refresh_guarded(st, m)
        return E.opaque_call(site, q, args, st)
    if op in ("notify_one", "notify_all"):
        return E.opaque_call(site, q, args, st)
    if op in ("wait", "wait_for", "wait_until") and f is not None and f.blocks:
        nctx = mk("ctx", site.ctx, f.name, site.idx)
        return [(k, v, s) for k, v, s, _ in E.call_fn(f, args, st, nctx, site)]
    return E.opaque_call(site, q, args, st)


def m_relop_free(E, st, site, f, q, args):
    """free operator==/!= on iterators and smart pointers"""
    if len(args) != 2:
        return None
    def cls(i):
        t = E.argtype(f, i)
        if t >= 0 and E.p.types[t]["k"] == "ptr":
            t = E.p.rt(E.p.types[t]["to"])
        return E.p.types[t].get("q", "") if t is not None and t >= 0 else ""
    c0 = cls(0)
    op = q.split("::")[-1]
    if re.search(r"(shared_ptr|unique_ptr)$", c0):
        c1 = cls(1)
        x = E.load(st, args[0], 8, "p")
        y = E.load(st, args[1], 8, "p") if re.search(r"(shared_ptr|unique_ptr)$", c1) else NULL
        return [("ret", icmp("eq" if op == "operator==" else "ne", x, y), st)]
    if c0 in ("std::basic_string", "std::__cxx11::basic_string") and cls(1) == c0:
        return [("ret", icmp("eq" if op == "operator==" else "ne", E.load(st, args[0], 8, "p"), E.load(st, args[1], 8, "p")), st)]
    if re.search(r"(_iterator|_List_iterator|_Rb_tree_iterator|_Rb_tree_const_iterator)$", c0):
        x, y = E.load(st, args[0], 8, "p"), E.load(st, args[1], 8, "p")
        return [("ret", icmp("eq" if op == "operator==" else "ne", x, y), st)]
    return E.opaque_call(site, q, args, st)


def m_thread(E, st, site, f, q, args):
    E.havoc(st, args[0], mk("site", site.ctx, site.idx))
    return E.opaque_call(site, q, args, st)


MODELS = {
    "std::type_index::type_index": m_type_index,
    "std::begin": m_begin_end, "std::end": m_begin_end, "std::cbegin": m_begin_end, "std::cend": m_begin_end,
    "operator new": m_new, "operator new[]": m_new, "_Znwm": m_new, "_Znam": m_new,
    "operator delete": m_nop, "operator delete[]": m_nop, "_ZdlPv": m_nop, "_ZdaPv": m_nop, "_ZdlPvm": m_nop,
    "std::function::function": m_function, "std::function::swap": m_function_swap, "std::function::operator=": m_function_assign,
    "std::function::~function": m_nop, "std::_Function_base::~_Function_base": m_nop,
    "__cxa_throw": m_throw, "__cxa_rethrow": m_rethrow, "__cxa_begin_catch": m_begin_catch, "__cxa_end_catch": m_nop,
    "__cxa_allocate_exception": m_new, "__cxa_free_exception": m_nop, "__clang_call_terminate": m_noreturn,
    "__assert_fail": m_noreturn, "abort": m_noreturn, "exit": m_noreturn,
    "std::terminate": m_noreturn,
    "std::operator==": m_relop_free, "std::operator!=": m_relop_free,
    "__gnu_cxx::operator==": m_relop_free, "__gnu_cxx::operator!=": m_relop_free,
    "std::condition_variable::wait": m_cv, "std::condition_variable_any::wait": m_cv,
    "std::condition_variable::wait_for": m_cv, "std::condition_variable_any::wait_for": m_cv,
    "std::condition_variable::wait_until": m_cv, "std::condition_variable_any::wait_until": m_cv,
    "std::condition_variable::notify_one": m_cv, "std::condition_variable_any::notify_one": m_cv,
    "std::condition_variable::notify_all": m_cv, "std::condition_variable_any::notify_all": m_cv,
    "std::enable_shared_from_this::shared_from_this": m_sft, "std::enable_shared_from_this::weak_from_this": m_sft,
    "std::make_shared": m_make_shared,
    "std::thread::thread": m_thread,
    "std::__invoke": None, "std::__pair_get::__get": m_pairget, "std::__pair_get::__move_get": m_pairget, "std::__pair_get::__const_get": m_pairget, "std::launder": m_ident,
}
for _c in ("atomic", "__atomic_base"):
    for _o in ("load", "operator bool", "operator int"):
        MODELS["std::%s::%s" % (_c, _o)] = m_atomic_load
    for _o in ("store", "operator="):
        MODELS["std::%s::%s" % (_c, _o)] = m_atomic_store
    for _o in ("exchange", "fetch_add", "fetch_sub", "operator++", "operator--", "operator+=", "operator-="):
        MODELS["std::%s::%s" % (_c, _o)] = m_atomic_rmw
    for _o in ("compare_exchange_strong", "compare_exchange_weak"):
        MODELS["std::%s::%s" % (_c, _o)] = m_atomic_cas
MODELS = {k: v for k, v in MODELS.items() if v is not None}


def m_llvm(E, st, site, f, q, args):
    return None


def engine_intrinsics():
    for n in ("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "memcpy", "memmove"):
        MODELS[n] = m_memcpy
    for n in ("llvm.memset.p0.i64", "memset"):
        MODELS[n] = m_memset
    MODELS["llvm.eh.typeid.for"] = m_typeid
    MODELS["llvm.threadlocal.address.p0"] = m_ident
    MODELS["llvm.eh.typeid.for.p0"] = m_typeid


engine_intrinsics()
