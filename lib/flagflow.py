"""Dataflow of failure indications: which functions report a problem, and
whether every path that reports one also makes its result (or the flag it
shares with its caller) say so.

State: (the last function on this path that reported a problem, values 0/1 of boolean locations).
Joins are set unions, so the correlation of the two is kept; loops are run to
the fixpoint of this finite domain."""
from prog import strip, walk, callee_name, show

T = "T"


class Flow:
    """fails: callee key -> ("ret", failing value) or ("marks", {(param index | None, suffix/global): value})."""

    def __init__(self, P, isreport, limit=4096):
        self.P, self.isreport, self.limit = P, isreport, limit
        self.sum = {}
        self.methods = set()     # fields through which verifiers are called

    # ---- locations ----
    def loc(self, e, fr):
        e = strip(e)
        if e is None:
            return None
        if e[0] == "v":
            if e[4] in ("g",):
                return (("g", e[2]), "")
            if e[4] == "s":
                return (("g", fr["F"].key + str(e[3])), "")
            return (("l", e[3]), "")
        if e[0] == "m":
            b = self.ptr(e[2], fr) if e[5] else self.loc(e[2], fr)
            return None if b is None else (b[0], b[1] + "." + e[3])
        if e[0] == "u" and e[2] == "*":
            return self.ptr(e[3], fr)
        return None

    def ptr(self, e, fr):
        """The location a pointer expression points to."""
        e = strip(e)
        if e[0] == "u" and e[2] == "&":
            return self.loc(e[3], fr)
        if e[0] == "v" and e[4] in ("l", "p"):
            if e[4] == "l" and e[3] in fr["alias"]:
                return self.ptr(fr["alias"][e[3]], fr)
            return (("d", e[3]), "")
        if e[0] == "v" and e[4] == "g":
            return (("dg", e[2]), "")
        return None

    # ---- values ----
    def ev(self, e, st, fr):
        """-> [(state, value)]"""
        e = strip(e)
        if e is None:
            return [(st, T)]
        k = e[0]
        if k == "i":
            return [(st, 1 if e[2] else 0)]
        if k == "e":
            v = self.P.econst.get(e[2], (None,))[0]
            return [(st, T if v is None else 1 if v else 0)]
        if k in ("v", "m") or k == "u" and e[2] == "*":
            r = [st]
            if k == "u":
                r = [s for s, _ in self.ev(e[3], st, fr)]
            elif k == "m":
                r = [s for s, _ in self.ev(e[2], st, fr)]
            l = self.loc(e, fr)
            return [(s, self.get(s, l) if l else T) for s in r]
        if k == "u":
            op = e[2]
            out = []
            for s, v in self.ev(e[3], st, fr):
                if op == "!":
                    v = T if v == T else 1 - v
                elif op in ("p++", "++p", "p--", "--p"):
                    l = self.loc(e[3], fr)
                    if l:
                        s = self.set(s, l, T)
                    v = T
                elif op not in ("+", "-"):
                    v = T
                out.append((s, v))
            return out
        if k == "a":
            out = []
            for s, v in self.ev(e[4], st, fr):
                for s2, old in self.ev(e[3], s, fr):
                    if e[2] == "=":
                        n = v
                    elif e[2] == "&=":
                        n = 0 if v == 0 or old == 0 else 1 if v == 1 and old == 1 else T
                    elif e[2] == "|=":
                        n = 1 if v == 1 or old == 1 else 0 if v == 0 and old == 0 else T
                    else:
                        n = T
                    l = self.loc(e[3], fr)
                    if l:
                        s2 = self.set(s2, l, n)
                    out.append((s2, n))
            return out
        if k == "b":
            out = []
            op = e[2]
            for s, a in self.ev(e[3], st, fr):
                if op == "&&" and a == 0 or op == "||" and a == 1:
                    out.append((s, a))
                    continue
                for s2, b in self.ev(e[4], s, fr):
                    if op in ("&&", "&"):
                        v = 0 if a == 0 or b == 0 else 1 if a == 1 and b == 1 else T
                    elif op in ("||", "|"):
                        v = 1 if a == 1 or b == 1 else 0 if a == 0 and b == 0 else T
                    elif op == ",":
                        v = b
                    elif op == "!=" and b == 0 or op == "==" and b == 1 and boolish(e[3]):
                        v = a
                    elif op == "==" and b == 0 or op == "!=" and b == 1 and boolish(e[3]):
                        v = T if a == T else 1 - a
                    else:
                        v = T
                    out.append((s2, v))
            return out
        if k == "?":
            out = []
            for s, c in self.ev(e[2], st, fr):
                if c != 0:
                    out += self.ev(e[3], s, fr)
                if c != 1:
                    out += self.ev(e[4], s, fr)
            return out
        if k == "c":
            return self.callx(e, st, fr)
        if k == "z":
            return [(st, T)]
        # anything else: effects of the sub-expressions
        sts = [st]
        for x in e[1:]:
            if isinstance(x, list):
                for y in ([x] if x and isinstance(x[0], str) else [y for y in x if isinstance(y, list)]):
                    if y and isinstance(y[0], str):
                        sts = [s for s0 in sts for s, _ in self.ev(y, s0, fr)]
        return [(s, T) for s in sts]

    def callx(self, e, st, fr):
        sts = [st]
        for a in e[4]:
            sts = [s for s0 in sts for s, _ in self.ev(a, s0, fr)]
        sts = uniq(sts)
        n = callee_name(e)
        if n in self.P.noreturn:
            return []
        F = self.P.resolve(n, fr["F"].file) if n else None
        out = []
        for s in sts:
            # locals whose address escapes to an unknown callee
            if self.isreport(e, F, fr["F"]):
                out.append((((n or 'report'), s[1]), T))
                continue
            key = F.key if F else None
            if n is None:
                m = strip(e[3])
                while m[0] == "u" and m[2] == "*":
                    m = strip(m[3])
                if m[0] == "m" and m[3] in self.methods:
                    out += [((m[3], s[1]), 0), (s, 1)]
                    continue
            sm = self.sum.get(key)
            if sm is not None:
                if sm[0] == "ret":
                    out += [((n, s[1]), sm[1]), (s, 1 - sm[1])]
                else:
                    out.append((s, T))
                    s2 = (n, s[1])
                    for (p, suf), v in sm[1].items():
                        if isinstance(p, int):
                            l = self.ptr(e[4][p], fr) if p < len(e[4]) else None
                            if l is not None:
                                s2 = self.set(s2, (l[0], l[1] + suf), v)
                        else:
                            s2 = self.set(s2, (p, suf), v)
                    out.append((s2, T))
                continue
            # a verifier passed as callback
            cur = [s]
            for a in e[4]:
                for fn in fnames(a):
                    G = self.P.resolve(fn, fr["F"].file)
                    sm = self.sum.get(G.key) if G else None
                    if sm is None:
                        continue
                    nxt = list(cur)
                    for s1 in cur:
                        s2 = (fn, s1[1])
                        if sm[0] == "marks":
                            for (p, suf), v in sm[1].items():
                                if isinstance(p, int):
                                    l = self.ptr(e[4][-1], fr)
                                    if l is not None:
                                        s2 = self.set(s2, (l[0], l[1] + suf), v)
                                else:
                                    s2 = self.set(s2, (p, suf), v)
                        nxt.append(s2)
                    cur = uniq(nxt)
            out += [(s1, T) for s1 in cur]
        return out

    @staticmethod
    def get(s, l):
        v = s[1].get(l)
        if v is None:
            return 0 if (l[0], "*") in s[1] else T
        return v

    @staticmethod
    def set(s, l, v):
        d = dict(s[1])
        if v == T:
            if (l[0], "*") in d:
                d[l] = T
            else:
                d.pop(l, None)
        else:
            d[l] = v
        return (s[0], d)

    # ---- functions ----
    def run(self, F, init=None):
        """-> [(event, return value, memory)] over all paths."""
        g = self.P.cfg(F)
        alias = {}
        multi = set()
        for b in g.blocks:
            for it in b.items:
                if it[0] == "D" and it[4] is not None and it[3].endswith(("*", "* const")):
                    alias[it[2]] = it[4]
                if it[0] != "D":
                    for x in walk(it[1]) if it[1] else ():
                        if x[0] == "a" and strip(x[3])[0] == "v":
                            multi.add(strip(x[3])[3])
        for m in multi:
            alias.pop(m, None)
        fr = {"F": F, "alias": alias}
        rets = []
        seen = {}
        work = [(g.entry, (False, dict(init or {})))]
        n = 0
        while work:
            b, st = work.pop()
            k = (st[0], frozenset(st[1].items()))
            if k in seen.setdefault(b, set()):
                continue
            seen[b].add(k)
            n += 1
            if n > self.limit * 8:
                raise RuntimeError(f"too many states in {F.name}")
            blk = g.blocks[b]
            sts = [st]
            rv = None
            for it in blk.items:
                nxt = []
                for s in sts:
                    if it[0] == "D":
                        nxt += self.decl(it, s, fr)
                    elif it[0] == "RET":
                        if it[1] is None:
                            rets.append((s, None))
                        else:
                            rets += self.ev(it[1], s, fr)
                    else:
                        nxt += [s2 for s2, _ in self.ev(it[1], s, fr)]
                sts = uniq(nxt)
            t = blk.term
            if t is None or t[0] == "stop" or t[0] == "ret":
                if t is None:
                    rets += [(s, None) for s in sts]
                continue
            if t[0] == "jmp":
                work += [(t[1], s) for s in sts]
            elif t[0] == "br":
                for s in sts:
                    for s2, v in self.ev(t[1], s, fr):
                        if v != 0:
                            work.append((t[2], self.learn(s2, t[1], 1, fr)))
                        if v != 1:
                            work.append((t[3], self.learn(s2, t[1], 0, fr)))
            else:
                for s in sts:
                    for s2, v in self.ev(t[1], s, fr):
                        for x in blk.succs():
                            work.append((x, s2))
        return rets

    def learn(self, s, e, v, fr):
        e = strip(e)
        if e[0] in ("v", "m") or e[0] == "u" and e[2] == "*":
            if e[1] in ("bool", "int", "_Bool", "const bool", "bool const"):
                l = self.loc(e, fr)
                if l and l not in s[1]:
                    return self.set(s, l, v)
        return s

    def decl(self, it, s, fr):
        _, name, vid, ty, init = it[:5]
        l = (("l", vid), "")
        if init is None:
            d = {k: v for k, v in s[1].items() if k[0] != l[0]}
            return [(s[0], d)]
        i = strip(init)
        if i[0] in ("R", "I", "L"):
            d = {k: v for k, v in s[1].items() if k[0] != l[0]}
            if i[0] == "R":
                d[(l[0], "*")] = 0      # members not mentioned are zero
            s = (s[0], d)
            sts = [s]
            if i[0] == "R":
                for f in i[2]:
                    nxt = []
                    for s0 in sts:
                        for s1, v in self.ev(f[2], s0, fr):
                            nxt.append(self.set(s1, (l[0], "." + f[1]), v))
                    sts = uniq(nxt)
                return sts
            return sts
        return [(self.set(s1, l, v), 0)[0] for s1, v in self.ev(init, s, fr)]


def boolish(e):
    return strip(e)[1] in ("bool", "_Bool")


def fnames(e):
    e = strip(e)
    if e[0] == "v" and e[4] == "f":
        return [e[2]]
    if e[0] == "u" and e[2] == "&":
        return fnames(e[3])
    if e[0] == "?":
        return fnames(e[3]) + fnames(e[4])
    return []


def uniq(sts):
    seen, out = set(), []
    for s in sts:
        k = (s[0], frozenset(s[1].items()))
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out
