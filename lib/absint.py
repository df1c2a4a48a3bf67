"""Disjunctive abstract interpretation of C functions over a domain of
access-path values (copy / constant propagation with branch facts), with
bounded trace partitioning and inlining of callees chosen by the client.

It is a dataflow analysis: states are joined at merge points once a block has
more than `maxs` of them, everything a loop may change is havocked at its head
and each loop is analysed to a fixpoint.  No solver is involved: a branch is
dropped only when its condition folds to a constant or contradicts a recorded
(in)equality fact."""
import itertools
from prog import strip, walk, callee_name, show, AnalysisError

C0, C1 = ("c", 0), ("c", 1)


def isc(t):
    return t[0] == "c"


TYPEW = {"unsigned int": (0, 32), "unsigned long": (0, 64), "unsigned short": (0, 16), "unsigned char": (0, 8),
         "int": (1, 32), "long": (1, 64), "short": (1, 16), "signed char": (1, 8), "char": (1, 8), "long long": (1, 64),
         "unsigned long long": (0, 64), "_Bool": (0, 1)}


def wrapint(v, ty):
    t = ty[6:] if ty.startswith("const ") else ty
    w = TYPEW.get(t)
    if w is None:
        if t.startswith("enum "):
            w = (0, 32) if v >= 0 else (1, 32)
        else:
            return v
    s, n = w
    if t == "_Bool":
        return int(v != 0)
    v &= (1 << n) - 1
    if s and v >> (n - 1):
        v -= 1 << n
    return v


def fold(op, a, b, ty):
    try:
        if op == "+": r = a + b
        elif op == "-": r = a - b
        elif op == "*": r = a * b
        elif op == "/": r = (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)) if b else None
        elif op == "%": r = a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)) if b else None
        elif op == "&": r = a & b
        elif op == "|": r = a | b
        elif op == "^": r = a ^ b
        elif op == "<<": r = a << b if 0 <= b < 64 else None
        elif op == ">>": r = a >> b if 0 <= b < 64 else None
        elif op == "==": r = int(a == b)
        elif op == "!=": r = int(a != b)
        elif op == "<": r = int(a < b)
        elif op == "<=": r = int(a <= b)
        elif op == ">": r = int(a > b)
        elif op == ">=": r = int(a >= b)
        elif op == "&&": r = int(bool(a) and bool(b))
        elif op == "||": r = int(bool(a) or bool(b))
        else: return None
    except (OverflowError, ValueError):
        return None
    return None if r is None else wrapint(r, ty)


SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}


class State:
    __slots__ = ("mem", "cst", "neq", "rel", "cl", "ep")

    def __init__(self):
        self.mem, self.cst, self.neq, self.rel, self.cl, self.ep = {}, {}, {}, {}, None, 0

    def copy(self):
        s = State.__new__(State)
        s.mem, s.cst, s.neq, s.rel, s.cl, s.ep = dict(self.mem), dict(self.cst), dict(self.neq), dict(self.rel), self.cl, self.ep
        return s

    def key(self):
        return (self.cl, self.ep, frozenset(self.mem.items()), frozenset(self.cst.items()), frozenset(self.neq.items()), frozenset(self.rel.items()))

    # ---- facts ----
    def val(self, t):
        c = self.cst.get(t)
        return ("c", c) if c is not None else t

    def truth(self, t):
        """True / False / None for the truth value of term t."""
        t = self.val(t)
        k = t[0]
        if k == "c":
            return t[1] != 0
        if k in ("s", "fn", "adr", "new", "newin"):
            return True
        if k == "op1" and t[1] == "!":
            x = self.truth(t[2])
            return None if x is None else not x
        if 0 in self.neq.get(t, ()):
            return True
        if k == "op":
            op, a, b = t[1], self.val(t[2]), self.val(t[3])
            if op in NEG:
                return self.cmp(op, a, b)
            if op == "&" and isc(b) and b[1] == 0:
                return False
            if op == "|" and (isc(b) and b[1] or isc(a) and a[1]):
                return True
        return None

    def cmp(self, op, a, b):
        if isc(a) and isc(b):
            return bool(fold(op, a[1], b[1], "int"))
        if a == b and a[0] != "any":
            return op in ("==", "<=", ">=")
        if isc(a):
            a, b, op = b, a, SWAP[op]
        if op in ("==", "!="):
            eq = None
            if isc(b):
                if b[1] in self.neq.get(a, ()):
                    eq = False
                elif b[1] == 0 and a[0] in ("s", "fn", "adr", "new", "newin"):
                    eq = False
                elif b[1] == 0:
                    x = self.truth(a) if a[0] in ("op", "op1") else None
                    if x is not None:
                        eq = not x
            elif a[0] in ("fn", "s", "gadr") and b[0] == a[0]:
                eq = False
            elif a[0] == "adr" and b[0] == "adr" and a[1][0] == "gv" and b[1][0] == "gv":
                eq = a[1] == b[1]
            else:
                eq = self.rel.get(("==", a, b))
                if eq is None:
                    eq = self.rel.get(("==", b, a))
            if eq is None:
                return None
            return eq if op == "==" else not eq
        if op in (">", ">="):
            a, b, op = b, a, SWAP[op]
        r = self.rel.get((op, a, b))
        if r is not None:
            return r
        # a<b known from !(b<=a)
        r = self.rel.get(("<=" if op == "<" else "<", b, a))
        if r is not None:
            return not r
        return None

    def assume(self, t, truth):
        """Refine by t being truthy/falsy. False if contradictory."""
        cur = self.truth(t)
        if cur is not None:
            return cur == truth
        t = self.val(t)
        k = t[0]
        if k == "op1" and t[1] == "!":
            return self.assume(t[2], not truth)
        if k == "op" and t[1] in NEG:
            op, a, b = t[1], self.val(t[2]), self.val(t[3])
            if not truth:
                op = NEG[op]
            return self.assume_cmp(op, a, b)
        if k == "op" and not truth:
            op, a, b = t[1], t[2], t[3]
            if op in ("-", "^") and not isc(a):
                return self.assume_cmp("==", self.val(a), self.val(b))
            if op in ("|", "||"):
                return self.assume(a, False) and self.assume(b, False)
        if k == "op" and truth and (t[1] == "&&" or t[1] == "&" and boolean(t[2]) and boolean(t[3])):
            return self.assume(t[2], True) and self.assume(t[3], True)
        if truth:
            self.neq[t] = frozenset(self.neq.get(t, frozenset()) | {0})
        else:
            self.cst[t] = 0
        return True

    def _zero(self, t):
        if t[1] == "|":
            return self.assume(t[2], False) and self.assume(t[3], False)
        return self.assume_cmp("==", self.val(t[2]), self.val(t[3]))

    def assume_cmp(self, op, a, b):
        if isc(a):
            a, b, op = b, a, SWAP[op]
        if isc(b):
            if op == "==":
                if b[1] in self.neq.get(a, ()):
                    return False
                if a[0] in ("op", "op1") and b[1] == 0:
                    if a[0] == "op" and a[1] in ("-", "^", "|") and not isc(a[2]):
                        self.cst[a] = 0
                        return self._zero(a)
                    if a[0] == "op" and a[1] in NEG or a[0] == "op1" and a[1] == "!":
                        return self.assume(a, False)
                self.cst[a] = b[1]
                return True
            if op == "!=":
                if b[1] == 0 and (a[0] == "op" and a[1] in NEG or a[0] == "op1" and a[1] == "!"):
                    return self.assume(a, True)
                self.neq[a] = frozenset(self.neq.get(a, frozenset()) | {b[1]})
                return True
        if op in ("==", "!="):
            self.rel[("==", a, b)] = op == "=="
            return True
        if op in (">", ">="):
            a, b, op = b, a, SWAP[op]
        self.rel[(op, a, b)] = True
        return True


def boolean(t):
    return t[0] == "op" and t[1] in NEG or t[0] == "op1" and t[1] == "!"


def mentions(t, pred):
    if not isinstance(t, tuple):
        return False
    if pred(t):
        return True
    return any(isinstance(x, tuple) and mentions(x, pred) for x in t)


def subst(t, m):
    if t in m:
        return m[t]
    if not isinstance(t, tuple):
        return t
    r = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return m.get(r, r)


def deref(t):
    if t[0] == "adr":
        return t[1]
    return ("deref", t)


def adr(loc):
    if loc[0] == "deref":
        return loc[1]
    return ("adr", loc)


class Frame:
    __slots__ = ("F", "id", "depth", "chain")

    def __init__(self, F, depth, chain):
        self.F, self.depth, self.chain = F, depth, chain
        self.id = depth


class Client:
    """Override what an analysis needs."""
    maxs = 64          # states kept apart per block
    maxdepth = 6       # inlining depth
    recursion = 0      # how often a function may occur again in a chain of inlined calls
    unroll = 0         # iterations of loops with constant conditions executed as such
    trust_assert = True

    def inline(self, ip, name, F, frame):
        return False

    def pure(self, name):
        """No effect on memory the analysis tracks and result a function of its arguments."""
        return False

    def call(self, ip, st, c, name, args, frame):
        """Return None for default handling, else [(state, value)]."""
        return None

    def store(self, ip, st, loc, val, line, frame):
        pass

    def load(self, ip, st, loc, frame):
        return None

    def branch(self, ip, st, term, truth, line, frame):
        """Called before a branch is taken; may return False to drop it."""
        return True

    def ret(self, ip, st, val, line, frame):
        pass


class Interp:
    def __init__(self, P, client):
        self.P, self.cl = P, client
        self.fresh = itertools.count()
        self.n_states = 0
        self.lines = set()

    # ---------------- memory ----------------
    def field(self, loc, rec, name):
        R = self.P.records.get(rec)
        if R is not None:
            f = R.by.get(name)
            if f is not None and f[3] == 0 and f[2] is None:
                t = f[1][6:] if f[1].startswith("const ") else f[1]
                if t.startswith(("struct ", "union ")) and not t.endswith(("*", "]", "* const")):
                    return loc   # aggregate at offset 0: same location
        return ("f", loc, rec + "." + name)

    def read(self, st, loc, frame=None):
        v = self.cl.load(self, st, loc, frame)
        if v is not None:
            return v
        m = st.mem
        v = m.get(loc)
        if v is not None:
            return st.val(v)
        # an enclosing aggregate was stored?
        path, l = [], loc
        while l[0] in ("f", "ix"):
            path.append((l[0], l[2]))
            l = l[1]
            v = m.get(l)
            if v is not None and l[0] == "deref" and path[-1][0] == "ix" and v[0] != "agg":
                # p[0] was stored, p[i] is read
                i = path[-1][1]
                if isc(i) and i != C0:
                    continue
                return ("ld", loc, "part")
            if v is not None:
                r = self.project(v, path[::-1])
                if r is not None:
                    return st.val(r)
                return ("ld", loc, "part")
        if l[0] == "gv":
            g = self.ginit(l, path[::-1])
            if g is not None:
                return g
        if l[0] in ("deref", "gv", "sv", "rv") and st.ep:
            return st.val(("ld", loc, st.ep))
        return st.val(("ld", loc))

    def project(self, v, path):
        for kind, key in path:
            if v[0] == "ld":
                v = ("ld", (kind, v[1], key)) + v[2:]
            elif v[0] == "agg":
                d = dict(v[1])
                k = key if kind == "f" else key
                if k in d:
                    v = d[k]
                elif v[2] == "zero":
                    v = C0
                else:
                    return None
            elif v == C0:
                v = C0   # zero-filled
            else:
                return ("proj", v, key)
        return v

    def ginit(self, l, path):
        """Value from the initialiser of an effectively constant global."""
        v = self.P.var(l[1], l[2] if len(l) > 2 else None)
        if v is None or v["init"] is None:
            return None
        t = v["type"]
        if not (t.startswith("const ") or " const" in t or self.never_written(v)):
            return None
        e = strip(v["init"])
        for kind, key in path:
            e = strip(e)
            if e[0] == "L":
                e = strip(e[2])
            if e[0] == "iv":
                return C0
            if kind == "f":
                if e[0] != "R":
                    return None
                n = key.split(".")[-1]
                for x in e[2]:
                    if x[1] == n:
                        e = x[2]
                        break
                else:
                    # elided offset-0 aggregates
                    e2 = self._descend(e, n)
                    if e2 is None:
                        return C0 if e[2] == [] else None
                    e = e2
            else:
                if not isc(key):
                    return None
                if e[0] == "s":
                    s = e[2] + "\0"
                    return ("c", ord(s[key[1]])) if 0 <= key[1] < len(s) else None
                if e[0] != "I":
                    return None
                if key[1] < 0:
                    return None
                if key[1] >= len(e[2]):
                    return C0
                e = e[2][key[1]]
                if e is None:
                    return C0
        e = strip(e)
        return self.cexpr(e)

    def _descend(self, e, n):
        if e[0] != "R" or not e[2]:
            return None
        sub = strip(e[2][0][2])
        if sub[0] != "R":
            return None
        for x in sub[2]:
            if x[1] == n:
                return x[2]
        return self._descend(sub, n)

    def cexpr(self, e):
        """Constant initialiser expression to a term, or None."""
        k = e[0]
        if k == "i" or k == "e":
            return ("c", e[2] if k == "i" else e[3])
        if k == "s":
            return ("s", e[2])
        if k == "iv":
            return C0
        if k == "v":
            if e[4] == "f":
                return ("fn", e[2])
            if e[4] == "g" and e[1].endswith("]"):
                return ("adr", ("ix", ("gv", e[2]), C0))
            return None
        if k == "u" and e[2] == "&":
            x = strip(e[3])
            if x[0] == "v":
                return ("fn", x[2]) if x[4] == "f" else ("adr", ("gv", x[2]))
            if x[0] == "x":
                i = self.cexpr(strip(x[3]))
                b = strip(x[2])
                if i is not None and b[0] == "v":
                    return ("adr", ("ix", ("gv", b[2]), i))
            return None
        if k == "u" and e[2] in ("-", "~", "!", "+"):
            x = self.cexpr(strip(e[3]))
            if x is not None and isc(x):
                return ("c", wrapint({"-": lambda v: -v, "~": lambda v: ~v, "!": lambda v: int(not v), "+": lambda v: v}[e[2]](x[1]), e[1]))
            return None
        if k == "b":
            a, b = self.cexpr(strip(e[3])), self.cexpr(strip(e[4]))
            if a is not None and b is not None and isc(a) and isc(b):
                r = fold(e[2], a[1], b[1], e[1])
                return None if r is None else ("c", r)
            return None
        if k == "?":
            a = self.cexpr(strip(e[2]))
            if a is not None and isc(a):
                return self.cexpr(strip(e[3] if a[1] else e[4]))
            return None
        if k in ("z", "o"):
            v = e[3] if k == "z" else e[4]
            return None if v is None else ("c", v)
        if k == "k":
            return self.cexpr(strip(e))
        return None

    def never_written(self, v):
        P = self.P
        if not hasattr(P, "_written"):
            w = set()
            for F in P.all:
                for x in walk(F.body):
                    if x[0] == "a" or (x[0] == "u" and x[2] in ("++p", "--p", "p++", "p--", "&")):
                        l = strip(x[3])
                        addr = x[0] == "u" and x[2] == "&"
                        first = True
                        while l is not None and l[0] in ("m", "x"):
                            if l[0] == "m" and l[5]:
                                l = None
                                break
                            if l[0] == "x" and not l[2][1].endswith("]"):
                                # indexing a pointer variable writes elsewhere
                                b = strip(l[2])
                                if not (b[0] == "v" and b[1].endswith("]")):
                                    l = None
                                    break
                            l = strip(l[2])
                            first = False
                        if l is not None and l[0] == "v" and l[4] == "g":
                            if addr and "const" in x[1]:
                                continue
                            w.add(l[2])
                    elif x[0] == "c":
                        for a, t in zip(x[4], x[6]):
                            a = strip(a)
                            if a is not None and a[0] == "v" and a[4] == "g" and a[1].endswith("]") and not t.startswith("const"):
                                w.add(a[2])
            P._written = w
        return v["name"] not in P._written

    def write(self, st, loc, val, line, frame):
        self.cl.store(self, st, loc, val, line, frame)
        m = st.mem
        kill = []
        fk = loc[2] if loc[0] == "f" else None
        root = loc
        while root[0] in ("f", "ix"):
            root = root[1]
        for l in m:
            if l == loc:
                continue
            # descendants of loc
            x = l
            d = False
            while x[0] in ("f", "ix"):
                y, x = x, x[1]
                if x == loc:
                    d = not (loc[0] == "deref" and y[0] == "ix" and isc(y[2]) and y[2] != C0 and val[0] != "agg")
                    break
            if d:
                kill.append(l)
                continue
            if root[0] == "deref":
                # may alias: same field through another base, or an index of the same array kind
                r = l
                while r[0] in ("f", "ix"):
                    r = r[1]
                if r[0] != "deref" and not (r[0] in ("gv", "sv")):
                    continue
                if fk is not None and l[0] == "f" and l[2] == fk and l[1] != loc[1]:
                    if self.distinct(st, l[1], loc[1]):
                        continue
                    kill.append(l)
                elif loc[0] == "ix" and l[0] == "ix" and l[1] == loc[1] and not (isc(l[2]) and isc(loc[2])):
                    kill.append(l)
                elif loc[0] == "deref" and l[0] == "deref" and not self.distinct(st, l, loc):
                    kill.append(l)
            elif loc[0] == "ix" and l[0] == "ix" and l[1] == loc[1] and not (isc(l[2]) and isc(loc[2])):
                kill.append(l)
        for l in kill:
            del m[l]
        m[loc] = val

    def distinct(self, st, a, b):
        """Two access-path bases that certainly denote different objects."""
        ra, rb = a, b
        # same array, different constant elements
        x, y = a, b
        while x[0] == y[0] == "f" and x[2] == y[2]:
            x, y = x[1], y[1]
        if x[0] == y[0] == "f" and x[1] == y[1] and "." in x[2] and "." in y[2]:
            # different members of one object
            (rx, _, fx), (ry, _, fy) = x[2].rpartition("."), y[2].rpartition(".")
            R = self.P.records.get(rx)
            if rx == ry and R is not None and fx in R.by and fy in R.by and R.by[fx][3] != R.by[fy][3]:
                return True
        if x[0] == y[0] == "ix" and x[1] == y[1] and isc(x[2]) and isc(y[2]) and x[2] != y[2]:
            return True
        if x[0] == "ix" and x[1] == y and isc(x[2]) and x[2] != C0 or y[0] == "ix" and y[1] == x and isc(y[2]) and y[2] != C0:
            return True
        while ra[0] in ("f", "ix"):
            ra = ra[1]
        while rb[0] in ("f", "ix"):
            rb = rb[1]
        if ra[0] == "deref" and rb[0] == "deref":
            ta, tb = ra[1], rb[1]
            if ta[0] in ("new", "newin") and tb != ta or tb[0] in ("new", "newin") and ta != tb:
                return True
            return st.cmp("==", ta, tb) is False
        if ra[0] == "gv" and rb[0] == "gv":
            return ra != rb
        return False

    def clobber(self, st, site, keep=None):
        """Unknown call: forget everything reachable by others."""
        st.ep = site
        for l in list(st.mem):
            r = l
            while r[0] in ("f", "ix"):
                r = r[1]
            if r[0] != "var":
                if keep is not None and keep(l):
                    continue
                del st.mem[l]

    # ---------------- expressions ----------------
    def ev(self, e, st, fr):
        """-> list of (state, value)"""
        e = strip2(e)
        k = e[0]
        if k == "i":
            return [(st, ("c", e[2]))]
        if k == "e":
            return [(st, ("c", e[3]))]
        if k == "s":
            return [(st, ("s", e[2]))]
        if k == "f":
            return [(st, ("flt", e[2]))]
        if k == "v":
            if e[4] == "f":
                return [(st, ("fn", e[2]))]
            loc = self.varloc(e, fr)
            if e[1].endswith("]"):
                return [(st, ("adr", ("ix", loc, C0)))]
            return [(st, self.read(st, loc, fr))]
        if k in ("m", "x"):
            out = []
            for s, l in self.lv(e, st, fr):
                if e[1].endswith("]"):
                    out.append((s, ("adr", ("ix", l, C0))))
                else:
                    out.append((s, self.read(s, l, fr)))
            return out
        if k == "k":
            out = []
            for s, v in self.ev(e[2], st, fr):
                if isc(v):
                    v = ("c", wrapint(v[1], e[1]))
                elif e[1] == "_Bool" or e[1] == "const _Bool":
                    x = s.truth(v)
                    if x is not None:
                        v = C1 if x else C0
                out.append((s, v))
            return out
        if k == "c":
            return self.callx(e, st, fr)
        if k == "u":
            return self.unary(e, st, fr)
        if k == "b":
            return self.binary(e, st, fr)
        if k == "a":
            return self.assign(e, st, fr)
        if k == "?":
            out = []
            for s, v in self.ev(e[2], st, fr):
                for s2, tr in self.fork(s, v, 0, fr):
                    out += self.ev(e[3] if tr else e[4], s2, fr)
            return out
        if k == "z":
            return [(st, ("c", e[3]) if e[3] is not None else ("sizeof", e[2]))]
        if k == "o":
            return [(st, ("c", e[4]) if e[4] is not None else ("offsetof", e[2], e[3]))]
        if k == "L":
            loc = ("cl", id(e), fr.id)
            out = []
            for s, v in self.ev(e[2], st, fr):
                self.write(s, loc, v, 0, fr)
                out.append((s, v))
            return out
        if k == "R":
            outs = [(st, ())]
            for x in e[2]:
                nxt = []
                for s, acc in outs:
                    for s2, v in self.ev(x[2], s, fr):
                        rec = e[1].replace("const ", "").replace("struct ", "").replace("union ", "")
                        l = self.field(("rv",), rec, x[1])
                        if l == ("rv",):   # offset-0 aggregate: flatten
                            add = tuple(v[1]) if v[0] == "agg" else (("<base>", v),)
                        else:
                            add = ((l[2], v),)
                        nxt.append((s2, acc + add))
                outs = nxt
            return [(s, ("agg", acc, "zero")) for s, acc in outs]
        if k == "I":
            outs = [(st, ())]
            if len(e[2]) > 64:
                return [(st, ("any", "initlist"))]
            for i, x in enumerate(e[2]):
                if x is None:
                    continue
                nxt = []
                for s, acc in outs:
                    for s2, v in self.ev(x, s, fr):
                        nxt.append((s2, acc + ((("c", i), v),)))
                outs = nxt
            return [(s, ("agg", acc, "zero")) for s, acc in outs]
        if k == "iv":
            return [(st, C0)]
        if k == "va":
            return [(st, ("va", next(self.fresh)))]
        if k == "S":
            return [(st, ("any", next(self.fresh)))]
        return [(st, ("any", next(self.fresh)))]

    def varloc(self, e, fr):
        if e[4] == "g":
            f = fr.F.file if fr is not None else None
            if f is not None and (f, e[2]) in self.P.svars:
                return ("gv", e[2], f)
            return ("gv", e[2])
        if e[4] == "s":
            return ("sv", fr.F.key, e[2], e[3])
        return ("var", fr.id, e[3], e[2])

    def lv(self, e, st, fr):
        e = strip(e)
        k = e[0]
        if k == "v":
            return [(st, self.varloc(e, fr))]
        if k == "m":
            if e[5]:
                return [(s, self.field(deref(v), e[4], e[3])) for s, v in self.ev(e[2], st, fr)]
            return [(s, self.field(l, e[4], e[3])) for s, l in self.lv(e[2], st, fr)]
        if k == "x":
            out = []
            for s, b in self.ev(e[2], st, fr):
                for s2, i in self.ev(e[3], s, fr):
                    out.append((s2, deref(self.padd(b, i))))
            return out
        if k == "u" and e[2] == "*":
            return [(s, deref(v)) for s, v in self.ev(e[3], st, fr)]
        if k == "L":
            loc = ("cl", id(e), fr.id)
            out = []
            for s, v in self.ev(e[2], st, fr):
                self.write(s, loc, v, 0, fr)
                out.append((s, loc))
            return out
        if k == "c":
            out = []
            for s, v in self.ev(e, st, fr):
                loc = ("rv", v)
                s.mem[loc] = v
                out.append((s, loc))
            return out
        if k in ("a", "?"):
            out = []
            for s, v in self.ev(e, st, fr):
                loc = ("rv", v)
                s.mem[loc] = v
                out.append((s, loc))
            return out
        return [(st, ("deref", ("any", next(self.fresh))))]

    def padd(self, p, i, sub=False):
        """Pointer plus index."""
        if i == C0:
            return p
        if p[0] == "adr" and p[1][0] == "ix":
            L, j = p[1][1], p[1][2]
        else:
            L, j = deref(p), C0
        if isc(i) and isc(j):
            n = ("c", j[1] - i[1] if sub else j[1] + i[1])
        elif j == C0 and not sub:
            n = i
        else:
            n = ("op", "-" if sub else "+", j, i)
        if n == C0 and L[0] == "deref":
            return L[1]
        return ("adr", ("ix", L, n))

    def unary(self, e, st, fr):
        op = e[2]
        if op == "&":
            x = strip(e[3])
            if x[0] == "v" and x[4] == "f":
                return [(st, ("fn", x[2]))]
            return [(s, adr(l)) for s, l in self.lv(x, st, fr)]
        if op == "*":
            out = []
            for s, v in self.ev(e[3], st, fr):
                if v[0] == "fn":
                    out.append((s, v))
                elif e[1].endswith("]"):
                    out.append((s, ("adr", ("ix", deref(v), C0))))
                else:
                    out.append((s, self.read(s, deref(v), fr)))
            return out
        if op in ("p++", "p--", "++p", "--p"):
            out = []
            for s, l in self.lv(e[3], st, fr):
                old = self.read(s, l, fr)
                new = self.arith("+" if "+" in op else "-", old, C1, e[1])
                s = s.copy()
                self.write(s, l, new, e[4], fr)
                out.append((s, old if op[0] == "p" else new))
            return out
        out = []
        for s, v in self.ev(e[3], st, fr):
            v = s.val(v)
            if op == "!":
                t = s.truth(v)
                if t is not None:
                    r = C0 if t else C1
                elif v[0] == "op" and v[1] in NEG:
                    r = ("op", NEG[v[1]], v[2], v[3])
                else:
                    r = ("op1", "!", v)
            elif isc(v):
                r = ("c", wrapint({"-": -v[1], "~": ~v[1], "+": v[1]}.get(op, v[1]), e[1]))
            elif op == "+":
                r = v
            else:
                r = ("op1", op, v)
            out.append((s, r))
        return out

    def arith(self, op, a, b, ty, st=None):
        if isc(a) and isc(b):
            r = fold(op, a[1], b[1], ty)
            if r is not None:
                return ("c", r)
        if ty.endswith("*") or ty.endswith("* const"):
            if op == "+":
                if isc(a) and a != C0 and not isc(b):
                    a, b = b, a
                return self.padd(a, b)
            if op == "-":
                return self.padd(a, b, True)
        if op in ("+", "|", "^") and b == C0:
            return a
        if op in ("+", "|", "^") and a == C0:
            return b
        if op in ("-", "<<", ">>") and b == C0:
            return a
        if op == "&" and (a == C0 or b == C0):
            return C0
        if op in ("*",) and (a == C0 or b == C0):
            return C0
        if op == "*" and b == C1:
            return a
        if op == "*" and a == C1:
            return b
        if a == b and op in ("&", "|"):
            return a
        if op in ("+", "*", "&", "|", "^") and isc(a):
            a, b = b, a
        if op == "&" and isc(b) and a[0] == "op" and len(a) == 4 and isc(a[3]):
            if a[1] == "&":
                m = a[3][1] & b[1]
                return C0 if m == 0 else ("op", "&", a[2], ("c", m))
            if a[1] == "|" and a[3][1] & b[1] == b[1]:
                return b
            if a[1] == "|" and a[3][1] & b[1] == 0:
                return ("op", "&", a[2], b)
        return ("op", op, a, b)

    def binary(self, e, st, fr):
        op = e[2]
        if op in ("&&", "||"):
            out = []
            for s, v in self.ev(e[3], st, fr):
                for s2, tr in self.fork(s, v, 0, fr):
                    if (op == "&&") == tr:
                        for s3, w in self.ev(e[4], s2, fr):
                            t = s3.truth(w)
                            if t is not None:
                                out.append((s3, C1 if t else C0))
                            else:
                                out.append((s3, w if w[0] == "op" and w[1] in NEG else ("op", "!=", w, C0)))
                    else:
                        out.append((s2, C0 if op == "&&" else C1))
            return out
        if op == ",":
            out = []
            for s, _ in self.ev(e[3], st, fr):
                out += self.ev(e[4], s, fr)
            return out
        out = []
        for s, a in self.ev(e[3], st, fr):
            for s2, b in self.ev(e[4], s, fr):
                a2, b2 = s2.val(a), s2.val(b)
                if op in NEG:
                    r = s2.cmp(op, a2, b2)
                    if r is None:
                        out.append((s2, ("op", op, a2, b2)))
                    else:
                        out.append((s2, C1 if r else C0))
                else:
                    r = self.arith(op, a2, b2, e[1])
                    out.append((s2, s2.val(r)))
        return out

    def assign(self, e, st, fr):
        out = []
        if e[2] == "=":
            for s, v in self.ev(e[4], st, fr):
                for s2, l in self.lv(e[3], s, fr):
                    s2 = s2.copy()
                    t = e[3][1]
                    if isc(v):
                        v2 = ("c", wrapint(v[1], t))
                    elif t in ("_Bool",) and s2.truth(v) is not None:
                        v2 = C1 if s2.truth(v) else C0
                    else:
                        v2 = v
                    self.write(s2, l, v2, e[5], fr)
                    out.append((s2, v2))
            return out
        op = e[2][:-1]
        for s, v in self.ev(e[4], st, fr):
            for s2, l in self.lv(e[3], s, fr):
                old = self.read(s2, l, fr)
                new = self.arith(op, s2.val(old), s2.val(v), e[3][1])
                s2 = s2.copy()
                self.write(s2, l, new, e[5], fr)
                out.append((s2, new))
        return out

    def fork(self, st, v, line, fr):
        """-> [(state, bool)] of feasible truth values of v."""
        t = st.truth(v)
        if t is not None:
            return [(st, t)]
        out = []
        for tr in (True, False):
            s = st.copy()
            if s.assume(v, tr) and self.cl.branch(self, s, v, tr, line, fr):
                out.append((s, tr))
        return out

    def callx(self, e, st, fr):
        name = callee_name(e)
        outs = [(st, ())]
        for a in e[4]:
            nxt = []
            for s, acc in outs:
                for s2, v in self.ev(a, s, fr):
                    nxt.append((s2, acc + (v,)))
            outs = nxt
        res = []
        for s, args in outs:
            if name is not None:
                res += self.docall(e, s, name, args, fr)
                continue
            for s0, fv in self.ev(e[3], s, fr):
                n = None
                if fv[0] == "fn":
                    n = fv[1]
                elif fv[0] == "ld" and fv[1][0] == "f":
                    n = "*" + fv[1][2]     # call through a function pointer member
                res += self.docall(e, s0, n, args, fr)
        return res

    def docall(self, e, s, n, args, fr):
        r = self.cl.call(self, s, e, n, args, fr)
        if r is not None:
            return r
        F = self.P.resolve(n, fr.F.file) if n and n[0] != "*" else None
        if n in self.P.noreturn:
            return []
        if F is not None and fr.depth < self.cl.maxdepth and fr.chain.count(F.key) <= self.cl.recursion and self.cl.inline(self, n, F, fr):
            return [(s2, v if v is not None else ("void",)) for s2, v in self.run(F, args, s, fr)]
        if n == "__builtin_expect":
            return [(s, args[0])]
        if n in ("strcmp", "streq") and args[0][0] == "s" and args[1][0] == "s":
            eq = args[0] == args[1]
            return [(s, ("c", int(eq) if n == "streq" else (0 if eq else (1 if args[0][1] > args[1][1] else -1))))]
        if n == "strlen" and args[0][0] == "s":
            return [(s, ("c", len(args[0][1])))]
        if n in ("memcpy", "memmove", "__builtin_memcpy") and len(args) == 3:
            s = s.copy()
            src = deref(args[1])
            v = self.read(s, src, fr)
            self.write(s, deref(args[0]), v, e[2], fr)
            return [(s, args[0])]
        if n in ("memset", "__builtin_memset") and len(args) == 3:
            s = s.copy()
            self.write(s, deref(args[0]), C0 if args[1] == C0 else ("any", next(self.fresh)), e[2], fr)
            return [(s, args[0])]
        if n is not None and (self.cl.pure(n)):
            return [(s, s.val(("call", n) + tuple(args) + ((("ep", s.ep),) if s.ep else ())))]
        if n in PURELIB:
            return [(s, s.val(("call", n) + tuple(args)))]
        s = s.copy()
        # locals whose address is passed may change
        for a in args:
            if a[0] == "adr":
                r = a[1]
                while r[0] in ("f", "ix"):
                    r = r[1]
                if r[0] in ("var", "cl"):
                    for l in list(s.mem):
                        x = l
                        while x[0] in ("f", "ix"):
                            x = x[1]
                        if x == r:
                            del s.mem[l]
                    s.mem[r] = ("any", "esc", e[2], fr.id, a)
        site = (fr.F.key, e[2], n)
        self.clobber(s, site)
        return [(s, ("call", n or "?", *args, ("site", fr.F.key, e[2], id(e))))]

    # ---------------- functions ----------------
    def run(self, F, args, st, caller=None):
        """-> [(state, return value or None)]"""
        depth = caller.depth + 1 if caller is not None else 0
        fr = Frame(F, depth, (caller.chain if caller is not None else ()) + (F.key,))
        g = self.P.cfg(F)
        s = st.copy()
        # drop stale locals of an earlier activation at this depth
        for l in list(s.mem):
            r = l
            while r[0] in ("f", "ix"):
                r = r[1]
            if r[0] == "var" and r[1] == depth:
                del s.mem[l]
        for (n, i, t), v in zip(F.params, args):
            s.mem[("var", depth, i, n)] = ("c", wrapint(v[1], t)) if isc(v) else v
        order = {b: i for i, b in enumerate(g.rpo())}
        rets = []
        instates = {g.entry: [(s, None)]}
        seen = {}
        count = {}
        work = {g.entry}
        guard = 0
        while work:
            b = min(work, key=lambda x: order[x])
            work.discard(b)
            pend = instates.pop(b, [])
            blk = g.blocks[b]
            head = b in g.heads
            states = []
            for s, src in pend:
                if head:
                    backedge = src in g.heads[b] if src is not None else False
                    if self.cl.unroll:
                        it = s.mem.get(("iter", depth, b), 0) if backedge else 0
                        if it < self.cl.unroll:
                            s = s.copy()
                            s.mem[("iter", depth, b)] = it + 1
                        else:
                            s = self.havoc(s, g, b, fr)
                    else:
                        s = self.havoc(s, g, b, fr)
                k = s.key()
                sk = seen.setdefault(b, set())
                if k in sk:
                    continue
                sk.add(k)
                states.append(s)
            if not states:
                continue
            count[b] = count.get(b, 0) + len(states)
            if count[b] > self.cl.maxs and not (self.cl.unroll and count[b] < self.cl.maxs * 8):
                states = self.merge(states, fr)
                # merged states may be known already
                ns = []
                for s in states:
                    k = s.key()
                    if ("m", k) in seen[b]:
                        continue
                    seen[b].add(("m", k))
                    ns.append(s)
                states = ns
                if count[b] > max(self.cl.maxs * 40, 600):
                    raise AnalysisError(f"state explosion in {F.name} ({F.loc})")
            for s in states:
                self.n_states += 1
                outs = [s]
                for it in blk.items:
                    nxt = []
                    for s1 in outs:
                        if it[0] == "D":
                            loc = ("var", depth, it[2], it[1])
                            if it[4] is None:
                                s2 = s1.copy()
                                for l in list(s2.mem):
                                    if l == loc or l[0] in ("f", "ix") and rootof(l) == loc:
                                        del s2.mem[l]
                                s2.mem[loc] = ("undef", depth, it[2])
                                nxt.append(s2)
                            else:
                                for s2, v in self.ev(it[4], s1, fr):
                                    s2 = s2.copy()
                                    for l in list(s2.mem):
                                        if l[0] in ("f", "ix") and rootof(l) == loc:
                                            del s2.mem[l]
                                    if isc(v):
                                        v = ("c", wrapint(v[1], it[3]))
                                    s2.mem[loc] = v
                                    nxt.append(s2)
                        elif it[0] == "X":
                            nxt += [s2 for s2, _ in self.ev(it[1], s1, fr)]
                        else:
                            if it[1] is None:
                                self.cl.ret(self, s1, None, it[2], fr)
                                rets.append((s1, None))
                            else:
                                for s2, v in self.ev(it[1], s1, fr):
                                    if isc(v):
                                        v = ("c", wrapint(v[1], F.ret))
                                    elif F.ret == "_Bool" and s2.truth(v) is not None:
                                        v = C1 if s2.truth(v) else C0
                                    self.cl.ret(self, s2, v, it[2], fr)
                                    rets.append((s2, v))
                    outs = nxt
                t = blk.term
                for s1 in outs:
                    if t[0] == "jmp":
                        instates.setdefault(t[1], []).append((s1, b))
                        work.add(t[1])
                    elif t[0] == "br":
                        for s2, v in self.ev(t[1], s1, fr):
                            for s3, tr in self.fork(s2, v, t[4], fr):
                                d = t[2] if tr else t[3]
                                instates.setdefault(d, []).append((s3, b))
                                work.add(d)
                    elif t[0] == "sw":
                        for s2, v in self.ev(t[1], s1, fr):
                            for s3, d in self.switch(s2, v, t, fr):
                                instates.setdefault(d, []).append((s3, b))
                                work.add(d)
            guard += 1
            if guard > 20000:
                raise AnalysisError(f"no fixpoint in {F.name} ({F.loc})")
        return self.joinrets(rets, fr)

    def joinrets(self, rets, fr):
        seen, out = set(), []
        for s, v in rets:
            # forget the frame's locals
            s = s.copy()
            for l in list(s.mem):
                r = rootof(l)
                if r[0] in ("var", "cl", "iter") and (r[1] == fr.id if r[0] != "cl" else r[2] == fr.id):
                    del s.mem[l]
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        return out

    def switch(self, s, v, t, fr):
        v = s.val(v)
        cases, default, line = t[2], t[3], t[4]
        if isc(v):
            for lo, hi, b in cases:
                if lo is not None and lo <= v[1] <= hi:
                    return [(s, b)]
            return [(s, default)]
        out = []
        d = s.copy()
        ok = True
        for lo, hi, b in cases:
            if lo is None:
                continue
            if lo == hi:
                s2 = s.copy()
                if s2.assume_cmp_safe("==", v, ("c", lo)) and self.cl.branch(self, s2, ("op", "==", v, ("c", lo)), True, line, fr):
                    out.append((s2, b))
                if not d.assume_cmp_safe("!=", v, ("c", lo)):
                    ok = False
            else:
                out.append((s.copy(), b))
        if ok and self.cl.branch(self, d, ("default", v), True, line, fr):
            out.append((d, default))
        return out

    def loopmods(self, g, head, F):
        """What a loop may modify: (local var ids, field keys, anything-called)."""
        key = ("mods", head)
        c = getattr(g, "mods", None)
        if c is None:
            g.mods = c = {}
        if head in c:
            return c[head]
        vars_, fields, other = set(), set(), False
        for b in g.heads[head]:
            blk = g.blocks[b]
            es = []
            for it in blk.items:
                if it[0] == "D":
                    vars_.add(it[2])
                    if it[4] is not None:
                        es.append(it[4])
                elif it[1] is not None:
                    es.append(it[1])
            if blk.term[0] in ("br", "sw"):
                es.append(blk.term[1])
            for e in es:
                for x in walk(e):
                    l = None
                    if x[0] == "a":
                        l = strip(x[3])
                    elif x[0] == "u" and x[2] in ("p++", "p--", "++p", "--p", "&"):
                        l = strip(x[3])
                        if x[2] == "&" and l[0] != "v" and not (l[0] in ("m", "x")):
                            continue
                    elif x[0] == "c":
                        other = True
                        continue
                    if l is None:
                        continue
                    base = l
                    if base[0] == "m":
                        fields.add(base[4] + "." + base[3])
                    while base is not None and base[0] in ("m", "x"):
                        if base[0] == "m" and base[5]:
                            base = None
                            break
                        if base[0] == "x":
                            other = True
                        base = strip(base[2])
                    if base is not None and base[0] == "v":
                        vars_.add(base[3])
                    elif l[0] != "m":
                        other = True
        c[head] = (vars_, fields, other)
        return c[head]

    def havoc(self, st, g, head, fr):
        vars_, fields, other = self.loopmods(g, head, fr.F)
        s = st.copy()
        dep = fr.id
        for l in list(s.mem):
            r = rootof(l)
            if r[0] == "var" and r[1] == dep and r[2] in vars_:
                del s.mem[l]
                if l == r:
                    s.mem[l] = ("phi", fr.F.key, head, l[2])
            elif r[0] in ("deref", "gv", "sv") and l[0] == "f" and l[2] in fields:
                del s.mem[l]
        for v in vars_:
            pass

        def isphi(t):
            return t[0] == "phi" and t[1] == fr.F.key and t[2] == head
        for d in (s.cst, s.neq, s.rel):
            for k in list(d):
                if mentions(k, isphi):
                    del d[k]
        # values that mention the phi of an earlier iteration are stale
        for l, v in list(s.mem.items()):
            if mentions(l, isphi) or (mentions(v, isphi) and not (v[0] == "phi" and l[0] == "var" and v == ("phi", fr.F.key, head, l[2]))):
                del s.mem[l]
                if l[0] == "var":
                    s.mem[l] = ("stale", fr.F.key, head, l[2])
        return s

    def merge(self, states, fr):
        """Join states that agree on the client's state."""
        groups = {}
        for s in states:
            groups.setdefault((s.cl, s.ep), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                out += g
                continue
            r = g[0].copy()
            for s in g[1:]:
                for l in list(r.mem):
                    if s.mem.get(l) != r.mem[l]:
                        if l[0] == "var":
                            r.mem[l] = ("joined", l)
                        else:
                            del r.mem[l]
                for d1, d2 in ((r.cst, s.cst), (r.rel, s.rel)):
                    for k in list(d1):
                        if d2.get(k) != d1[k]:
                            del d1[k]
                for k in list(r.neq):
                    x = r.neq[k] & s.neq.get(k, frozenset())
                    if k in s.cst and s.cst[k] not in r.neq[k]:
                        x = r.neq[k]
                    if x:
                        r.neq[k] = x
                    else:
                        del r.neq[k]
            # a joined local differs per path: facts about it are void
            for d in (r.cst, r.neq, r.rel):
                for k in list(d):
                    if mentions(k, lambda t: t[0] == "joined"):
                        del d[k]
            out.append(r)
        return out


def _safe(self, op, a, b):
    a, b = self.val(a), self.val(b)
    c = self.cmp(op, a, b)
    if c is not None:
        return c
    return self.assume_cmp(op, a, b)


State.assume_cmp_safe = _safe


def rootof(l):
    while l[0] in ("f", "ix"):
        l = l[1]
    return l


def strip2(e):
    # casts matter for constants only; keep them
    return e


PURELIB = {"strcmp", "strlen", "memcmp", "strncmp", "strchr", "strstr", "isdigit", "toupper", "tolower", "__ctype_b_loc", "strcasecmp", "streq"}
