"""Finite models of a function: the function is interpreted over every small
model in which what it reads of its arguments (fields, results of other
functions) takes every combination of a few values.  Nothing is executed: the
interpreter works on the control-flow graph, and functions it does not enter
are uninterpreted symbols of the model (equal arguments give equal results)."""
import random
import re
from prog import strip, walk, callee_name


class Infeasible(Exception):
    pass


class Beyond(Exception):
    pass


class Retry(Exception):
    pass


INT = {"char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "short": (16, 1), "unsigned short": (16, 0), "int": (32, 1),
       "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0)}
WIDE = 1 << 32


def unq(t):
    t = re.sub(r"\b(const|volatile|restrict)\b", " ", t)
    return re.sub(r"\s+", " ", t).replace(" *", "*").strip()


def ptype(t):
    """Pointer or array type?"""
    u = unq(t)
    return u.endswith("*") or u.endswith("]") or "(*" in u


def wrap(v, t):
    u = unq(t)
    if u in ("bool", "_Bool"):
        return 1 if v else 0
    if u in ("float", "double", "long double"):
        return float(v)
    b = INT.get(u)
    if b is None:
        b = (32, 0) if u.startswith("enum") else None
    if b is None or isinstance(v, tuple):
        return v
    v = int(v) & ((1 << b[0]) - 1)
    if b[1] and v >> (b[0] - 1):
        v -= 1 << b[0]
    return v


class Model:
    """One choice sequence; `choose` replays the prefix and then takes the first option."""

    def __init__(self, prefix):
        self.prefix, self.trace = prefix, []
        self.memo, self.toks, self.null = {}, {}, {}
        self.flags, self.reads = [], None
        self.preds = []
        self.n = 0
        self.rng = None

    def choose(self, n):
        i = len(self.trace)
        if self.rng is not None:
            return self.rng.randrange(n)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n))
        return c


def models(run, limit):
    """Calls run(model) for every choice sequence; returns the number of models, and whether
    all were covered (otherwise a fixed pseudo-random selection of the rest was)."""
    prefix, n = [], 0
    while True:
        m = Model(prefix)
        try:
            if run(m) is True:
                return n + 1, True
        except Infeasible:
            pass
        n += 1
        t = m.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return n, True
        if n >= limit:
            rng = random.Random(1)
            for i in range(limit):
                m = Model([])
                m.rng = rng
                try:
                    if run(m) is True:
                        return n + i + 1, False
                except Infeasible:
                    pass
            return n + limit, False
        prefix = [c for c, _ in t[:-1]] + [t[-1][0] + 1]


class FModel:
    MAXSTEPS = 400

    def __init__(self, P, root, equality=False, twin=False, small=(), axioms=(), unique=(), size=3):
        self.unique, self.size = set(unique), size
        self.P, self.root, self.equality, self.twin = P, root, equality, twin
        self.small, self.axioms = set(small), axioms
        self.consts, self.differences = {}, set()
        self.opaque = set()

    # ---- the model ---------------------------------------------------
    def fresh(self, M, key, t, consts=()):
        if self.twin:
            key = _twin(key)
        if M.reads is not None:
            M.reads.append(key)
        if key in M.memo:
            return M.memo[key]
        u = unq(t)
        if u == "void":
            v = 0
        elif u in ("bool", "_Bool"):
            v = M.choose(2)
        elif u in ("float", "double", "long double"):
            dom = [0.0, 0.5, 1.0][:self.size] + sorted(x for x in consts if isinstance(x, float))[:2]
            v = dom[M.choose(len(dom))]
        elif ptype(t):
            if u.endswith("]"):
                v = ("&", key)
            else:
                l = M.toks.setdefault(u, [])
                i = M.choose(min(len(l) + 1, self.size))
                if i == len(l):
                    M.n += 1
                    l.append(("P", M.n))
                v = l[i]
        elif u in INT or u.startswith("enum"):
            dom = [0, 1, 2][:self.size]
            if u in INT and INT[u][0] == 64 and not (key[0] == "call" and key[1] in self.small):
                dom = [0, 1, WIDE] if self.size > 2 else [0, WIDE]
            for c in sorted(x for x in consts if not isinstance(x, float)):
                if c not in dom and len(dom) < self.size + 2:
                    dom.append(c)
            if u == "unsigned int" and key[0] == "x" and "unsigned int" in self.differences:
                dom[-1] = (1 << 32) - 1      # a word of a bit set may have any value
            if key[0] == "call" and key[1] in self.unique:
                used = {v for k, v in M.memo.items() if k[:2] == key[:2]}
                dom = [x for x in range(len(used) + self.size) if x not in used][:self.size]
                v = dom[M.choose(len(dom))]
            else:
                v = wrap(dom[M.choose(len(dom))], t)
        elif u.startswith(("struct", "union")):
            v = ("S", key)
        else:
            raise Beyond("a value of type " + u)
        M.memo[key] = v
        for ax in self.axioms:
            ax(M, key)
        return v

    def isnull(self, M, p):
        if p == 0:
            return True
        if p[0] in ("O", "&", "F"):
            return False
        if p not in M.null:
            v = M.choose(2)
            if v and any(M.null.values()):
                raise Infeasible()
            M.null[p] = bool(v)
        return M.null[p]

    def deref(self, M, p):
        if not isinstance(p, tuple):
            if p == 0:
                raise Infeasible()
            raise Beyond("a number used as an address")
        if p[0] == "P":
            if M.null.get(p):
                raise Infeasible()
            M.null[p] = False
        return p

    # ---- locations -----------------------------------------------------
    def loc(self, M, e, fr):
        k = e[0]
        if k == "v":
            if e[4] in ("l", "p"):
                return ("l", fr["n"], e[3])
            return ("g", e[2])
        if k == "m":
            f = f"{e[4]}.{e[3]}"
            if e[5]:
                b = self.deref(M, self.ev(M, e[2], fr))
                if b[0] == "&":
                    b = b[1]
                return ("f", b, f)
            x = strip_par(e[2])
            if x[0] in ("v", "m", "x") or x[0] == "u" and x[2] == "*":
                return ("f", self.loc(M, x, fr), f)
            v = self.ev(M, x, fr)
            if isinstance(v, tuple) and v[0] == "S":
                return ("f", v[1], f)
            raise Beyond("a member of a temporary")
        if k == "x":
            b = self.deref(M, self.ev(M, e[2], fr))
            i = self.ev(M, e[3], fr)
            return self.index(b, i)
        if k == "u" and e[2] == "*":
            return self.index(self.deref(M, self.ev(M, e[3], fr)), 0)
        if k == "k":
            return self.loc(M, e[2], fr)
        raise Beyond("a location of kind " + k)

    def index(self, b, i):
        if b[0] == "&":
            l = b[1]
            if l[0] == "x":
                return ("x", l[1], l[2] + i)
            if l[0] in ("l", "f", "g", "call", "out") and i == 0 and not self.isarr(l):
                return l
            return ("x", l, i)
        return ("x", b, i)

    def isarr(self, l):
        return l in self.arrs

    arrs = frozenset()

    def load(self, M, l, t, fr):
        if l in fr["env"]:
            return fr["env"][l]
        if l[0] == "l":
            raise Infeasible()           # an unset local
        # members of a local that was set as a whole
        path, b = [], l
        while b[0] in ("f", "x") and isinstance(b[1], tuple):
            path.append((b[0], b[2]))
            b = b[1]
            if b in fr["env"]:
                v = fr["env"][b]
                if isinstance(v, tuple) and v[0] in ("S", "out"):
                    l = v[1]
                    for kd, x in reversed(path):
                        l = (kd, l, x)
                    return self.load(M, l, t, fr)
                break
        if b[0] == "l":
            raise Infeasible()
        if unq(t).endswith("]"):
            return ("&", l)
        if unq(t).startswith(("struct", "union")) and not ptype(t):
            return ("S", l)
        return self.fresh(M, l, t, self.consts.get(fr["f"].key, ()))

    # ---- expressions -----------------------------------------------------
    def truth(self, M, v):
        if isinstance(v, tuple):
            return not self.isnull(M, v)
        return bool(v)

    def ev(self, M, e, fr):
        k = e[0]
        if k == "i":
            return e[2] if not ptype(e[1]) else 0
        if k == "f":
            return float(re.sub(r"[fFlL]$", "", str(e[2])))
        if k == "e":
            return e[3] if isinstance(e[3], int) else self.P.econst[e[2]][0]
        if k == "s":
            return ("&", ("str", e[2]))
        if k == "z":
            return e[3]
        if k in ("v", "m", "x"):
            if k == "v" and e[4] == "f":
                return ("F", e[2])
            l = self.loc(M, e, fr)
            if unq(e[1]).endswith("]"):
                return ("&", l)
            return self.load(M, l, e[1], fr)
        if k == "k":
            v = self.ev(M, e[2], fr)
            if unq(e[1]) == "void":
                return 0
            if isinstance(v, tuple):
                if ptype(e[1]) or v[0] in ("S",):
                    return v
                if unq(e[1]) in ("bool", "_Bool"):
                    return int(self.truth(M, v))
                return v                # an address as a number
            if ptype(e[1]):
                return v
            if isinstance(v, float) and unq(e[1]) in INT:
                if v != int(v) and strip_par(e[2])[0] == "b" and strip_par(e[2])[2] == "-":
                    M.flags.append((e, "lost"))
                v = int(v)
            w = wrap(v, e[1])
            b = INT.get(unq(e[1]))
            if b and b[1] and b[0] <= 32 and (w > 0) - (w < 0) != (v > 0) - (v < 0):
                M.flags.append((e, "lost"))
            return w
        if k == "u":
            return self.unary(M, e, fr)
        if k == "b":
            return self.binary(M, e, fr)
        if k == "a":
            return self.assign(M, e, fr)
        if k == "?":
            return self.ev(M, e[3] if self.truth(M, self.ev(M, e[2], fr)) else e[4], fr)
        if k == "c":
            return self.call(M, e, fr)
        raise Beyond("an expression of kind " + k)

    def unary(self, M, e, fr):
        op = e[2]
        if op == "*":
            x = self.loc(M, e, fr)
            if unq(e[1]).endswith("]"):
                return ("&", x)
            return self.load(M, x, e[1], fr)
        if op == "&":
            l = self.loc(M, strip_par(e[3]), fr)
            if l[0] == "x" and l[2] == 0:
                b = l[1]
                return b if b[0] in ("O", "P", "&") else ("&", l)
            return ("&", l)
        if op in ("++p", "--p", "p++", "p--", "++", "--") or op.startswith(("++", "--", "p+", "p-")):
            l = self.loc(M, e[3], fr)
            v = self.load(M, l, e[3][1], fr)
            d = 1 if "+" in op else -1
            if isinstance(v, tuple):
                n = ("&", self.index(v, d))
            else:
                n = wrap(v + d, e[3][1])
            fr["env"][l] = n
            return n if op.endswith("p") else v
        v = self.ev(M, e[3], fr)
        if op == "!":
            return int(not self.truth(M, v))
        if isinstance(v, tuple):
            raise Beyond("arithmetic on an address")
        if op == "-":
            return wrap(-v, e[1])
        if op == "~":
            return wrap(~v, e[1])
        if op in ("+", "__extension__"):
            return v
        raise Beyond("the operator " + op)

    def binary(self, M, e, fr):
        op = e[2]
        if op == "&&":
            return int(self.truth(M, self.ev(M, e[3], fr)) and self.truth(M, self.ev(M, e[4], fr)))
        if op == "||":
            return int(self.truth(M, self.ev(M, e[3], fr)) or self.truth(M, self.ev(M, e[4], fr)))
        if op == ",":
            self.ev(M, e[3], fr)
            return self.ev(M, e[4], fr)
        return self.arith(M, op, self.ev(M, e[3], fr), self.ev(M, e[4], fr), e, fr)

    def arith(self, M, op, a, b, e, fr):
        pa, pb = isinstance(a, tuple), isinstance(b, tuple)
        if pa or pb:
            if op in ("==", "!="):
                if pa and pb:
                    if a != b and (a[0] == "P" or b[0] == "P") and M.null.get(a) and M.null.get(b):
                        raise Infeasible()
                    r = a == b
                elif 0 in (a, b):
                    r = self.isnull(M, a if pa else b)
                else:
                    r = False
                return int(r == (op == "=="))
            if op in ("<", ">", "<=", ">=", "-") and pa and pb:
                if a == b:
                    return 0 if op in ("<", ">", "-") else 1
                la, lb = (a[1] if a[0] == "&" else ("x", a, 0)), (b[1] if b[0] == "&" else ("x", b, 0))
                if la[0] == "x" and lb[0] == "x" and la[1] == lb[1]:
                    a, b = la[2], lb[2]
                    return int(a < b if op == "<" else a > b if op == ">" else a <= b if op == "<=" else a >= b) if op != "-" else a - b
                M.flags.append((e, "address"))
                r = M.choose(2)
                return r if op != "-" else (1 if r else -1)
            if op in ("+", "-"):
                p, i = (a, b) if pa else (b, a)
                return ("&", self.index(p, i if op == "+" else -i))
            M.flags.append((e, "address"))
            return self.fresh(M, ("addr", op, a, b), e[1])
        if op == "==":
            return int(a == b)
        if op == "!=":
            return int(a != b)
        if op == "<":
            return int(a < b)
        if op == ">":
            return int(a > b)
        if op == "<=":
            return int(a <= b)
        if op == ">=":
            return int(a >= b)
        if op in ("+", "-", "*"):
            r = a + b if op == "+" else a - b if op == "-" else a * b
        elif op in ("/", "%"):
            if b == 0:
                raise Infeasible()
            if isinstance(a, float) or isinstance(b, float):
                r = a / b
            else:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                r = q if op == "/" else a - q * b
        elif op == "&":
            r = a & b
        elif op == "|":
            r = a | b
        elif op == "^":
            r = a ^ b
        elif op in ("<<", ">>"):
            if b < 0 or b > 63:
                raise Infeasible()
            r = a << b if op == "<<" else a >> b
        else:
            raise Beyond("the operator " + op)
        return wrap(r, e[1])

    def assign(self, M, e, fr):
        op = e[2]
        l = self.loc(M, e[3], fr)
        v = self.ev(M, e[4], fr)
        if op != "=":
            v = self.arith(M, op[:-1], self.load(M, l, e[3][1], fr), v, e, fr)
        if not isinstance(v, tuple) and not ptype(e[3][1]):
            if isinstance(v, float) and unq(e[3][1]) in INT:
                v = int(v)
            v = wrap(v, e[3][1])
        if l[0] == "g" or _root(l)[0] != "l":
            raise Beyond("a write to memory")
        for x in [x for x in fr["env"] if x != l and _within(x, l)]:
            del fr["env"][x]
        fr["env"][l] = v
        return v

    # ---- calls -----------------------------------------------------------
    def call(self, M, c, fr):
        n = callee_name(c)
        if n in self.P.noreturn:
            raise Infeasible()
        args = [self.ev(M, a, fr) for a in c[4]]
        two = len({r for a in c[4] for r in self.roles(a, fr)}) >= 2
        if n in ("strcmp", "memcmp", "strncmp", "strcasecmp", "__builtin_memcmp", "__builtin_strcmp"):
            x = [self.fresh(M, ("bytes", n, a) + tuple(args[2:]), "int") for a in args[:2]]
            if args[0] == args[1]:
                return 0
            return (x[0] > x[1]) - (x[0] < x[1])
        if n == "tarval_cmp":
            x = [self.fresh(M, ("tv", a), "int") for a in args[:2]]
            return {-1: "ir_relation_less", 0: "ir_relation_equal", 1: "ir_relation_greater"} and self.P.econst[
                "ir_relation_less" if x[0] < x[1] else "ir_relation_equal" if x[0] == x[1] else "ir_relation_greater"][0]
        F = self.P.resolve(n, fr["f"].file) if n else None
        if F is not None and F.body is not None and fr["d"] < 5 and not F.variadic and len(args) == len(F.params):
            if two and (F.static or F.inline or F.file == fr["f"].file) or F.name in getattr(self, "enter", ()):
                return self.func(M, F, args, fr["d"] + 1, [self.roles(a, fr) for a in c[4]])
        n = n and n.rstrip("_")
        outs = False
        for a in args:
            if isinstance(a, tuple) and a[0] == "&" and _root(a[1])[0] == "l":
                outs = True
        if outs:
            ins = tuple(a for a in args if not (isinstance(a, tuple) and a[0] == "&" and _root(a[1])[0] == "l"))
            for i, a in enumerate(args):
                if isinstance(a, tuple) and a[0] == "&" and _root(a[1])[0] == "l":
                    for x in [x for x in fr["env"] if _within(x, a[1])]:
                        del fr["env"][x]
                    fr["env"][a[1]] = ("out", ("out", n or "?", i, ins))
            key = ("call", n or "?", ins)
        else:
            key = ("call", n or show_callee(c), tuple(args))
        if unq(c[1]) == "void":
            return 0
        if two:
            if self.equality and n is None:
                # an equality predicate of another check (or of the caller's elements)
                x = [self.fresh(M, ("attr", key[1], a), "int") for a in args[-2:]]
                return int(x[0] == x[1])
            self.opaque.add(n or "a function pointer")
            v = self.fresh(M, key, c[1])
            M.preds.append((key[1], v))
            return v
        v = key
        if outs and unq(c[1]).startswith("struct"):
            return ("S", key)
        return self.fresh(M, v, c[1], self.consts.get(fr["f"].key, ()))

    def roles(self, e, fr):
        out = set()
        for x in walk(e):
            if x[0] == "v" and x[4] in ("l", "p"):
                out |= fr["roles"].get(x[3], frozenset())
        return out

    def taint(self, F, proles):
        r = {p[1]: frozenset(x) for p, x in zip(F.params, proles)}
        g = self.P.cfg(F)
        asg = []
        for b in g.blocks:
            for it in b.items:
                if it[0] == "D" and it[4] is not None:
                    asg.append((it[2], it[4]))
                for x in ([it[4]] if it[0] == "D" and it[4] is not None else [it[1]] if it[0] in ("X", "RET") and it[1] is not None else []):
                    for y in walk(x):
                        if y[0] == "a":
                            l = strip(y[3])
                            while l[0] in ("m", "x"):
                                l = strip(l[2])
                            if l[0] == "v":
                                asg.append((l[3], y[4]))
                        if y[0] == "c":
                            for a in y[4]:
                                a2 = strip(a)
                                if a2[0] == "u" and a2[2] == "&":
                                    l = strip(a2[3])
                                    while l[0] in ("m", "x"):
                                        l = strip(l[2])
                                    if l[0] == "v":
                                        for o in y[4]:
                                            if o is not a:
                                                asg.append((l[3], o))
        ch = True
        while ch:
            ch = False
            for v, e in asg:
                s = set(r.get(v, ()))
                for x in walk(e):
                    if x[0] == "v" and x[4] in ("l", "p"):
                        s |= r.get(x[3], frozenset())
                if s != set(r.get(v, ())):
                    r[v] = frozenset(s)
                    ch = True
        return r

    def func(self, M, F, args, depth=0, proles=None):
        if F.key not in self.consts:
            cs = set()
            for x in walk(F.body):
                if x[0] == "i" and isinstance(x[2], int) and 0 <= x[2] < 1 << 16:
                    cs.add(x[2])
                elif x[0] == "e":
                    cs.add(self.P.econst[x[2]][0])
            cs = cs if len(cs) <= 4 else set(sorted(cs)[:4])
            for x in walk(F.body):
                if x[0] == "f":
                    v = abs(float(re.sub(r"[fFlL]$", "", str(x[2]))))
                    if v:
                        cs.add(0.75 * v)
                elif x[0] == "k" and x[1] and INT.get(unq(x[1]), (64, 0))[0] < 32 and x[2][0] != "i" and INT.get(unq(x[2][1] or ""), (0, 0))[0] >= 32:
                    cs.add(1 << 16)
                elif x[0] == "b" and x[2] == "-":
                    self.differences.add(unq(x[1]))
            self.consts[F.key] = cs
        self.calls = getattr(self, "calls", 0) + 1
        fr = {"n": self.calls, "d": depth, "env": {}, "f": F}
        key = (F.key, tuple(frozenset(x) for x in proles or ()))
        tc = self.__dict__.setdefault("_taint", {})
        if key not in tc:
            tc[key] = self.taint(F, proles or [{i} for i in range(len(F.params))])
        fr["roles"] = tc[key]
        for p, a in zip(F.params, args):
            fr["env"][("l", fr["n"], p[1])] = a if isinstance(a, tuple) or ptype(p[2]) else wrap(a, p[2])
        g = self.P.cfg(F)
        b, steps = g.entry, 0
        while True:
            steps += 1
            if steps > self.MAXSTEPS:
                raise Infeasible()
            blk = g.blocks[b]
            for it in blk.items:
                if it[0] == "D":
                    l = ("l", fr["n"], it[2])
                    for x in [x for x in fr["env"] if _within(x, l)]:
                        del fr["env"][x]
                    if it[4] is not None:
                        if it[4][0] in ("R", "I"):
                            raise Beyond("an initialiser list")
                        v = self.ev(M, it[4], fr)
                        fr["env"][l] = v if isinstance(v, tuple) or ptype(it[3]) else wrap(int(v) if isinstance(v, float) and unq(it[3]) in INT else v, it[3])
                elif it[0] == "X":
                    self.ev(M, it[1], fr)
                elif it[0] == "RET":
                    if it[1] is None:
                        return 0
                    v = self.ev(M, it[1], fr)
                    if isinstance(v, float) and unq(F.ret) in INT:
                        v = int(v)
                    return v if isinstance(v, tuple) or ptype(F.ret) else wrap(v, F.ret)
            t = blk.term
            if t[0] == "jmp":
                b = t[1]
            elif t[0] == "br":
                b = t[2] if self.truth(M, self.ev(M, t[1], fr)) else t[3]
            elif t[0] == "sw":
                v = self.ev(M, t[1], fr)
                b = self.switch(t, v)
            elif t[0] == "stop":
                raise Infeasible()
            else:
                return 0

    def switch(self, t, v):
        dflt = None
        for c, s in t[2]:
            if c is None:
                dflt = s
            elif isinstance(c, (tuple, list)) and len(c) == 2:
                if c[0] <= v <= c[1]:
                    return s
            elif c == v:
                return s
        if dflt is None:
            raise Infeasible()
        return dflt


def strip_par(e):
    while e[0] == "k":
        e = e[2]
    return e


def show_callee(c):
    from prog import show
    return show(c[3])


def _root(l):
    while l[0] in ("f", "x") and isinstance(l[1], tuple):
        l = l[1]
    return l


def _within(x, l):
    while True:
        if x == l:
            return True
        if x[0] in ("f", "x") and isinstance(x[1], tuple):
            x = x[1]
        else:
            return False


def _twin(k):
    if k == ("O", 1):
        return ("O", 0)
    if isinstance(k, tuple):
        return tuple(_twin(x) for x in k)
    return k
