"""Constant propagation of a format string through the function that interprets
it: which variable arguments does it fetch, and which operands does it name?"""
from prog import strip, walk, callee_name, AnalysisError

T = None
MAXSTEPS = 20000
INNER = 4000


class Beyond(Exception):
    pass


class FmtFlow:
    """Values: int, ("p", text, offset), ("&", cell), None (unknown)."""

    def __init__(self, P, note=(), full=False):
        self.full = full
        self.P, self.note = P, set(note)
        self.steps = 0

    def char(self, p):
        if p[2] < 0 or p[2] > len(p[1]):
            raise Beyond()
        return ord(p[1][p[2]]) if p[2] < len(p[1]) else 0

    def run(self, F, args):
        """-> set of event tuples of the paths that return."""
        self.steps = 0
        res = self.func(F, args, (), 0)
        return {ev for ev, _, _ in res}

    def func(self, F, args, ev, depth, cells=None):
        g = self.P.cfg(F)
        env = dict(cells or {})
        for p, a in zip(F.params, args):
            env[(depth, p[1])] = a
        work, seen, out = [(g.entry, env, ev)], set(), []
        limit = MAXSTEPS if depth == 0 else min(MAXSTEPS, self.steps + INNER)
        while work:
            b, env, ev = work.pop()
            k = (b, frozenset(env.items()), ev)
            if k in seen:
                continue
            seen.add(k)
            self.steps += 1
            if self.steps > limit:
                raise AnalysisError(f"the interpretation of a format by {F.name} does not end")
            blk = g.blocks[b]
            sts = [(env, ev)]
            ret = []
            for it in blk.items:
                nx = []
                for e, v in sts:
                    if it[0] == "D":
                        if it[4] is None:
                            e = dict(e)
                            e.pop((depth, it[2]), None)
                            nx.append((e, v))
                        else:
                            for e2, v2, x in self.ev(it[4], e, v, F, depth):
                                e2 = dict(e2)
                                e2[(depth, it[2])] = conv(x, it[3])
                                nx.append((e2, v2))
                    elif it[0] == "RET":
                        if it[1] is None:
                            ret.append((e, v, T))
                        else:
                            ret += self.ev(it[1], e, v, F, depth)
                    else:
                        nx += [(e2, v2) for e2, v2, _ in self.ev(it[1], e, v, F, depth)]
                sts = nx
            for e, v, x in ret:
                out.append((v, {c: y for c, y in e.items() if c[0] < depth}, x))
            t = blk.term
            if t is None:
                for e, v in sts:
                    out.append((v, {c: y for c, y in e.items() if c[0] < depth}, T))
                continue
            if t[0] in ("stop", "ret"):
                if t[0] == "ret" and not ret:
                    for e, v in sts:
                        out.append((v, {c: y for c, y in e.items() if c[0] < depth}, T))
                continue
            for e, v in sts:
                if t[0] == "jmp":
                    work.append((t[1], e, v))
                    continue
                for e2, v2, x in self.ev(t[1], e, v, F, depth):
                    if t[0] == "br":
                        if x is T or truth(x):
                            work.append((t[2], e2, v2))
                        if x is T or not truth(x):
                            work.append((t[3], e2, v2))
                    else:
                        if x is T:
                            work += [(s, e2, v2) for s in set(blk.succs())]
                        else:
                            d = [s for lo, hi, s in t[2] if lo <= x <= hi]
                            work.append((d[0] if d else t[3], e2, v2))
        return out

    def ev(self, e, env, ev, F, d):
        if e is None:
            return [(env, ev, T)]
        k = e[0]
        R = lambda x: [(env, ev, x)]
        if k == "k":
            out = []
            for n, v, x in self.ev(e[2], env, ev, F, d):
                if isinstance(x, int):
                    x = cast(x, e[1])
                out.append((n, v, x))
            return out
        if k == "i":
            return R(e[2])
        if k == "s":
            return R(("p", e[2], 0))
        if k == "e":
            return R(self.P.econst.get(e[2], (None,))[0])
        if k == "v":
            if e[4] == "f":
                return R(("fn", e[2]))
            return R(env.get((d, e[3]), T) if e[4] in ("l", "p") else self.const(e, env, F, d))
        if k == "z":
            return R(e[3] if isinstance(e[3], int) else T)
        if k == "m":
            b = strip(e[2])
            if b[0] == "v" and b[4] == "p":
                r = env.get((d, b[3]), T)
                if isinstance(r, tuple) and r[0] == "rec":
                    return R(dict(r[1]).get(e[3], T))
            return R(self.const(e, env, F, d))
        if k == "x":
            return [(n2, v2, self.idx(x, y)) for n, v, x in self.ev(e[2], env, ev, F, d) for n2, v2, y in self.ev(e[3], n, v, F, d)]
        if k == "u":
            op = e[2]
            if op == "&":
                l = strip(e[3])
                if l[0] == "v" and l[4] in ("g", "s"):
                    return R(("gv", F.key if l[4] == "s" else "", l[3]))
                if l[0] == "v" and l[4] in ("l", "p"):
                    return R(("&", (d, l[3])))
                return [(n, v, T) for n, v, _ in self.ev(l, env, ev, F, d)]
            if op in ("++p", "p++", "--p", "p--"):
                out = []
                for n, v, c, x in self.lv(e[3], env, ev, F, d):
                    y = add(x, 1 if "+" in op else -1)
                    if c is not None:
                        n = dict(n)
                        n[c] = y
                    out.append((n, v, x if op[0] == "p" else y))
                return out
            out = []
            for n, v, x in self.ev(e[3], env, ev, F, d):
                if op == "*":
                    y = n.get(x[1], T) if isinstance(x, tuple) and x[0] == "&" else self.char(x) if isinstance(x, tuple) else T
                elif x is T:
                    y = T
                elif op == "!":
                    y = int(not truth(x))
                elif not isinstance(x, int):
                    y = T
                else:
                    y = -x if op == "-" else ~x if op == "~" else x
                out.append((n, v, y))
            return out
        if k == "a":
            out = []
            for n, v, y in self.ev(e[4], env, ev, F, d):
                for n2, v2, c, x in self.lv(e[3], n, v, F, d):
                    z = conv(y if e[2] == "=" else binop(e[2][:-1], x, y), e[1])
                    if c is not None:
                        n2 = dict(n2)
                        n2[c] = z
                    out.append((n2, v2, z))
            return out
        if k == "b":
            out = []
            op = e[2]
            for n, v, x in self.ev(e[3], env, ev, F, d):
                if op == "&&" and x is not T and not truth(x):
                    out.append((n, v, 0))
                    continue
                if op == "||" and x is not T and truth(x):
                    out.append((n, v, 1))
                    continue
                for n2, v2, y in self.ev(e[4], n, v, F, d):
                    if op in ("&&", "||"):
                        z = T if y is T else int(truth(y)) if x is not T else (T if truth(y) == (op == "&&") else int(op == "||"))
                    else:
                        z = y if op == "," else binop(op, *arith(x, e[3][1], y, e[4][1]))
                    out.append((n2, v2, z))
                    if op in ("&&", "||") and x is T:
                        out.append((n, v, T))
            return uniq(out)
        if k == "?":
            out = []
            for n, v, c in self.ev(e[2], env, ev, F, d):
                if c is T or truth(c):
                    out += self.ev(e[3], n, v, F, d)
                if c is T or not truth(c):
                    out += self.ev(e[4], n, v, F, d)
            return uniq(out)
        if k == "va":
            return [(env, ev + (("arg", e[1]),), T)]
        if k == "c":
            return self.call(e, env, ev, F, d)
        sts = [(env, ev, T)]
        for y in e[2:]:
            if isinstance(y, list) and y and isinstance(y[0], str):
                sts = uniq([(n2, v2, T) for n, v, _ in sts for n2, v2, _ in self.ev(y, n, v, F, d)])
        return sts

    def const(self, e, env, F, d):
        i = self.init(e, env, F, d)
        if i is None or strip(i)[0] in ("I", "R", "L"):
            return T
        return self.ev(i, {}, (), F, d)[0][2]

    def init(self, e, env, F, d):
        """The initializer of an object of constant content."""
        e = strip(e)
        if e[0] == "v":
            if e[4] == "s":
                return next((x[4] for D in walk(F.body) if D[0] == "D" for x in D[2] if x[2] == e[3]), None)
            if e[4] == "g":
                v = self.P.svars.get((F.file, e[2])) or next((w for w in self.P.vars.get(e[2], []) if w["init"]), None)
                return v and v["init"] or None
            return None
        if e[0] == "m" and not e[5]:
            b = self.init(e[2], env, F, d)
            b = strip(b) if b else None
            if b and b[0] == "R":
                return next((f[2] for f in b[2] if f[1] == e[3]), None)
            return None
        if e[0] == "x":
            b = self.init(e[2], env, F, d)
            b = strip(b) if b else None
            i = self.ev(e[3], env, (), F, d)[0][2]
            if b and b[0] in ("I", "L") and isinstance(i, int):
                el = next((y for y in b[1:] if isinstance(y, list) and (not y or isinstance(y[0], list))), None)
                return el[i] if el is not None and 0 <= i < len(el) else None
        return None

    def lv(self, e, env, ev, F, d):
        """-> (env, ev, cell or None, value)"""
        e = strip(e)
        if e[0] == "v" and e[4] in ("l", "p"):
            c = (d, e[3])
            return [(env, ev, c, env.get(c, T))]
        if e[0] == "u" and e[2] == "*":
            out = []
            for n, v, x in self.ev(e[3], env, ev, F, d):
                c = x[1] if isinstance(x, tuple) and x[0] == "&" else None
                out.append((n, v, c, n.get(c, T) if c else T))
            return out
        return [(n, v, None, T) for n, v, _ in self.ev(e, env, ev, F, d)]

    def idx(self, x, y):
        if isinstance(x, tuple) and x[0] == "p" and isinstance(y, int):
            return self.char(("p", x[1], x[2] + y))
        return T

    def relevant(self, G, xs, va, env, d):
        """Is the callee a part of the interpreter: one that fetches arguments, moves through the
        format, computes a number from known ones, or names operands?"""
        if va:
            return any(x[0] == "va" for x in walk(G.body))
        isp = lambda x: isinstance(x, tuple) and x[0] == "p"
        if any(isinstance(x, int) for x in xs) and self.notes(G):
            return True
        if len(str(G.body)) > 20000:
            return False
        if any(isinstance(x, tuple) and x[0] == "&" and isp(env.get(x[1], T)) for x in xs):
            return True
        return G.ret != "void" and (any(isp(x) for x in xs) or bool(xs) and all(isinstance(x, int) for x in xs))

    def notes(self, G):
        return any(x in self.note for x in refs(G))

    def call(self, e, env, ev, F, d):
        sts = [(env, ev, ())]
        for a in e[4]:
            sts = [(n2, v2, xs + (x,)) for n, v, xs in sts for n2, v2, x in self.ev(a, n, v, F, d)]
        name = callee_name(e)
        if name in self.P.noreturn:
            return []
        va = any("__va_list_tag" in str(strip(a)[1]) for a in e[4])
        G = self.P.resolve(name, F.file) if name else None
        out = []
        for n, v, xs in sts:
            if name in self.note:
                v = v + (("ref", name) + tuple(xs if self.full else [x for x in xs if isinstance(x, int)]),)
            p = xs[0] if xs else T
            q = xs[1] if len(xs) > 1 else T
            isp = isinstance(p, tuple) and p[0] == "p"
            r = T
            if name in ("strcspn", "strspn") and isp and isinstance(q, tuple) and q[0] == "p":
                t = p[1][p[2]:]
                i = 0
                while i < len(t) and (t[i] in q[1][q[2]:]) == (name == "strspn"):
                    i += 1
                r = i
            elif name == "strlen" and isp:
                r = len(p[1]) - p[2]
            elif name in ("strchr", "strchrnul", "__builtin_strchr") and isp and isinstance(q, int):
                i = p[1].find(chr(q & 255), p[2]) if q else len(p[1])
                r = ("p", p[1], i) if i >= 0 else ("p", p[1], len(p[1])) if name == "strchrnul" else 0
            elif name in ("isdigit", "isalpha", "isupper", "islower") and isinstance(p, int):
                r = int(getattr(chr(p), name)())
            elif name == "__ctype_b_loc":
                r = T
            elif G is not None and not G.variadic and d < 6 and self.relevant(G, xs, va, n, d):
                mark = self.steps
                try:
                    for v2, n2, x in self.func(G, xs, v, d + 1, n):
                        out.append((n2, v2, x))
                    continue
                except AnalysisError:
                    # a callee which neither fetches arguments nor names operands may be unknown
                    if va or d == 0 and self.steps > MAXSTEPS or any(x in self.note for x in refs(G)):
                        raise
                self.steps = mark
                n = dict(n)
                for x in xs:
                    if isinstance(x, tuple) and x[0] == "&":
                        n[x[1]] = T
            elif any(isinstance(x, tuple) and x[0] == "&" for x in xs):
                n = dict(n)
                for x in xs:
                    if isinstance(x, tuple) and x[0] == "&":
                        n[x[1]] = T
            out.append((n, v, r))
        return uniq(out)



def refs(G):
    return {callee_name(x) for x in walk(G.body) if x[0] == "c"} if len(str(G.body)) < 20000 else ()


def truth(x):
    return bool(x) if isinstance(x, int) else True


def cast(x, ty):
    m = {"unsigned char": (8, 0), "char": (8, 1), "signed char": (8, 1), "bool": (1, 0), "_Bool": (1, 0), "unsigned int": (32, 0), "int": (32, 1),
         "unsigned short": (16, 0), "short": (16, 1), "unsigned long": (64, 0), "long": (64, 1)}.get(ty.replace("const ", ""))
    if m is None:
        return x
    if m[0] == 1:
        return int(x != 0)
    x &= (1 << m[0]) - 1
    return x - (1 << m[0]) if m[1] and x >> (m[0] - 1) else x


def conv(x, ty):
    return cast(x, ty) if isinstance(x, int) else x


def arith(x, tx, y, ty):
    """The usual arithmetic conversions (only the unsigned ones matter)."""
    ts = {tx.replace("const ", ""), ty.replace("const ", "")}
    if isinstance(x, int) and isinstance(y, int):
        for t in ("unsigned long", "unsigned int"):
            if t in ts:
                return cast(x, t), cast(y, t)
    return x, y


def add(x, n):
    if isinstance(x, int):
        return x + n
    if isinstance(x, tuple) and x[0] == "p":
        return ("p", x[1], x[2] + n)
    return T


def binop(op, x, y):
    if x is T or y is T:
        return T
    if isinstance(x, tuple) or isinstance(y, tuple):
        if op == "+":
            return add(x, y) if isinstance(y, int) else add(y, x) if isinstance(x, int) else T
        if op == "-":
            if isinstance(y, int):
                return add(x, -y)
            return x[2] - y[2] if isinstance(x, tuple) and x[0] == y[0] == "p" and x[1] == y[1] else T
        if op in ("==", "!="):
            if isinstance(x, int) or isinstance(y, int):
                return int(op == "!=")
            return int((x == y) == (op == "=="))
        if op in ("<", "<=", ">", ">=") and isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "p" and x[1] == y[1]:
            x, y = x[2], y[2]
        else:
            return T
    try:
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x // y, "%": lambda: x % y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                "<<": lambda: x << y, ">>": lambda: x >> y, "==": lambda: int(x == y), "!=": lambda: int(x != y), "<": lambda: int(x < y), "<=": lambda: int(x <= y),
                ">": lambda: int(x > y), ">=": lambda: int(x >= y)}[op]()
    except (KeyError, ZeroDivisionError, ValueError):
        return T


def uniq(sts):
    seen, out = set(), []
    for n, v, x in sts:
        k = (frozenset(n.items()), v, x)
        if k not in seen:
            seen.add(k)
            out.append((n, v, x))
    return out
