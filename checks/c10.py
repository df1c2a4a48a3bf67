"""C10: scratch resources of graphs are reserved and freed in pairs, without conflicts."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from prog import Program, AnalysisError, walk, strip, callee_name, show
from report import Report, main

META = {
    "title": "Graph scratch resources and optimisation settings are returned on every path",
    "statement": "A function that reserves scratch resources of a graph (node links, visited flags, block marks, Phi lists, loop links; ir_reserve_resources) or of the program (type links, type visited flags, entity links; irp_reserve_resources) frees exactly these again on every path to its end, early returns included, or hands them to the partner that frees them on every path of the caller; it never frees what was not reserved. A resource is never reserved while it is held: neither by the function itself, nor by a function it calls (directly or as a callback of a walker) while it holds it. Likewise a pass that changes an optimisation setting (set_optimize, set_opt_cse, ...) or the current graph for its own work puts the value it found back on every path, so that no pass changes what the following ones do.",
    "over": ["programs", "histories"],
    "quant": "for every input program and every sequence of passes",
    "why": "A leaked or doubly used resource corrupts the data of another pass (or stops the debug library) only when the rare path and the other pass meet; a lost setting silently changes all later optimisations.",
    "files": ["ir/ir/irgraph_t.h", "ir/ir/irgwalk.c", "ir/opt/", "ir/ana/", "ir/lower/", "ir/be/", "ir/ir/irflag.c"],
    "mech": [("resources", "calls of ir_reserve_resources and ir_free_resources"), ("settings", "calls of set_optimize, set_opt_*, save/restore_optimization_state, assignments of current_ir_graph")],
    "technique": "interprocedural typestate dataflow (reserved resources per graph, saved settings) with effect summaries, plus a may-reserve effect analysis through calls and callbacks",
    "note": "Graphs are identified by the expressions that denote them; two different expressions are taken for different graphs except where only one candidate is reserved. Analyses computed only on demand count as present if the function requested them before (and the out edges in back-end passes).",
}
RES = {"ir_reserve_resources": 1, "ir_reserve_resources_": 1, "ir_free_resources": -1, "ir_free_resources_": -1,
       "irp_reserve_resources": 1, "irp_reserve_resources_": 1, "irp_free_resources": -1, "irp_free_resources_": -1}
MAXSTATES = 400
NOTHING = ((None, frozenset(), frozenset()),)


class Res:
    """Dataflow of reserved (graph, resource) pairs.
    State: (held, required, facts): frozensets; required: freed without having been reserved here."""

    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.bits = {n: v[0] for n, v in P.econst.items() if n.startswith("IR_RESOURCE_") and v[0] and v[0] & (v[0] - 1) == 0}
        if len(self.bits) < 6:
            raise AnalysisError("the resources are not known")
        # the resources of the program, kept apart from those of the graphs
        self.bits.update({n: v[0] << 32 for n, v in P.econst.items() if n.startswith("IRP_RESOURCE_") and v[0] and v[0] & (v[0] - 1) == 0})
        self.callers = {}
        self.taken = set()
        for F in P.all:
            called = set()
            for x in walk(F.body):
                if x[0] == "c":
                    n = callee_name(x)
                    G = P.resolve(n, F.file) if n else None
                    if G is not None:
                        self.callers.setdefault(G.key, set()).add(F.key)
                        called.add(id(strip(x[3])))
        self.byKey = {F.key: F for F in P.all}
        self.sum = {}
        self.relevant = self.find()

    def prim(self, F):
        return F.name in RES

    def find(self):
        """Functions that reserve or free, and all that may call them."""
        direct = {F.key for F in self.P.all if not self.prim(F) and any(x[0] == "c" and callee_name(x) in RES for x in walk(F.body))}
        out, work = set(direct), list(direct)
        while work:
            k = work.pop()
            for c in self.callers.get(k, ()):
                if c not in out:
                    out.add(c)
                    work.append(c)
        self.direct = direct
        return out

    # ---- keys of graphs ----
    def key(self, e, F, depth=0):
        e = strip(e)
        if depth > 6:
            return ("?",)
        if e[0] == "v":
            if e[4] == "p":
                if self.written(F, e[3], e[4]):
                    return ("?",)
                return ("p", [p[1] for p in F.params].index(e[3]))
            if e[4] == "l":
                d = self.single(F, e[3])
                if d is not None:
                    return self.key(d, F, depth + 1)
                return ("l", e[3])
            if e[4] in ("g", "s"):
                return ("g", e[2])
        if e[0] == "m":
            return ("m", e[3], self.key(e[2], F, depth + 1))
        if e[0] == "c":
            n = (callee_name(e) or "?").rstrip("_")
            if n in ("get_irn_irg", "get_Block_irg"):
                return ("irgof",)
            if n == "get_irp":
                return ("g", "irp")
            if n in ("get_current_ir_graph",):
                return ("g", "current_ir_graph")
            return ("c", n) + tuple(self.key(a, F, depth + 1) for a in e[4])
        if e[0] == "u" and e[2] == "&":
            return self.key(e[3], F, depth + 1)
        return ("?",)

    def written(self, F, vid, kind):
        return vid in self.wr(F)

    def wr(self, F):
        c = self.__dict__.setdefault("_wr", {})
        if F.key not in c:
            s = {}
            for x in walk(F.body):
                if x[0] == "a" or x[0] == "u" and x[2] in ("&", "++p", "p++", "--p", "p--"):
                    l = strip(x[3])
                    if l[0] == "v" and l[4] in ("l", "p"):
                        s.setdefault(l[3], []).append(x[4] if x[0] == "a" and x[2] == "=" else None)
            c[F.key] = s
        return c[F.key]

    def single(self, F, vid):
        c = self.__dict__.setdefault("_si", {})
        if F.key not in c:
            s = {}
            for x in walk(F.body):
                if x[0] == "D":
                    for d in x[2]:
                        if d[4] is not None:
                            s.setdefault(d[2], []).append(d[4])
            for v, w in self.wr(F).items():
                s.setdefault(v, []).extend(w)
            c[F.key] = s
        v = c[F.key].get(vid, [])
        return v[0] if len(v) == 1 else None

    def subst(self, k, args, F):
        """Key of a callee in terms of its caller."""
        if k[0] == "p":
            return self.key(args[k[1]], F) if k[1] < len(args) else ("?",)
        if k[0] == "m":
            b = self.subst(k[2], args, F)
            return ("?",) if b == ("?",) else ("m", k[1], b)
        if k[0] == "c":
            a = tuple(self.subst(y, args, F) for y in k[2:])
            return ("?",) if ("?",) in a else ("c", k[1]) + a
        if k[0] == "l":
            return ("?",)
        return k

    def mask(self, e, F, facts):
        e = strip(e)
        if e[0] == "i":
            return e[2]
        if e[0] == "e":
            return self.P.econst[e[2]][0]
        if e[0] == "b" and e[2] in ("|", "&"):
            a, b = self.mask(e[3], F, facts), self.mask(e[4], F, facts)
            return None if a is None or b is None else a | b if e[2] == "|" else a & b
        if e[0] == "u" and e[2] == "~":
            a = self.mask(e[3], F, facts)
            return None if a is None else ~a & 0xffffffff
        if e[0] == "v" and e[4] in ("l", "p"):
            d = dict(facts).get(("val", e[3]))
            if d is not None:
                return d
            d = self.single(F, e[3])
            return self.mask(d, F, facts) if d is not None else None
        if e[0] == "v":
            v = self.P.svars.get((F.file, e[2])) or next((w for w in self.P.vars.get(e[2], []) if w["init"]), None)
            return self.mask(v["init"], F, facts) if v and v["init"] else None
        return None

    def resmask(self, c, F, facts):
        m = self.mask(c[4][1], F, facts)
        return m << 32 if m is not None and callee_name(c).startswith("irp_") else m

    # ---- transfer ----
    def reserve(self, F, st, k, m, line):
        held, req, facts = st
        for n, b in sorted(self.bits.items()):
            if m & b:
                if (k, n) in held and k != ("?",):
                    self.problem(F, f"twice/{n}", line, f"reserves {n}, which is still reserved on this path: the debug library stops, otherwise its holder's data is overwritten")
                if (k, n) in req:
                    req = req - {(k, n)}
                else:
                    held = held | {(k, n)}
        return held, req, facts

    def free(self, F, st, k, m, line):
        held, req, facts = st
        for n, b in sorted(self.bits.items()):
            if m & b:
                if (k, n) in held:
                    held = held - {(k, n)}
                    continue
                c = [h for h in held if h[1] == n]
                if len(c) == 1:
                    held = held - {c[0]}
                elif (k, n) in req:
                    self.problem(F, f"freed/{n}", line, f"frees {n} twice")
                else:
                    req = req | {(k, n)}
        return held, req, facts

    def problem(self, F, key, line, text):
        self.bad.setdefault((F.key, key), (F, line, text))

    def calls(self, e):
        """Calls in evaluation order (approximately: arguments first)."""
        out = []

        def go(x):
            if not isinstance(x, list):
                return
            for y in x:
                go(y)
            if x and x[0] == "c" and isinstance(x[1], str):
                out.append(x)
        go(e)
        return out

    def item(self, F, it, st):
        e = it[4] if it[0] == "D" else it[1]
        if e is None:
            if it[0] == "D":
                st = self.kill(st, it[2])
            return [st]
        sts = [st]
        for x in self.calls(e):
            n = callee_name(x)
            if n in self.P.noreturn:
                return []
            for s in sts:
                if s[0]:
                    self.under.setdefault((F.key, id(x)), [F, x, set()])[2].add(s[0])
            if n in RES and len(x[4]) == 2:
                nx = []
                for s in sts:
                    m = self.resmask(x, F, s[2])
                    k = self.key(x[4][0], F)
                    if m is None:
                        raise AnalysisError(f"{F.name}:{x[2]}: the resources are not constant")
                    self.sites.add((F.key, x[2]))
                    nx.append((self.reserve if RES[n] > 0 else self.free)(F, s, k, m, x[2]))
                sts = nx
                continue
            G = self.P.resolve(n, F.file) if n else None
            if G is not None:
                sts = [y for s in sts for y in self.apply(F, s, self.sum.get(G.key, NOTHING), x)]
        # assignments
        for y in walk(e):
            if y[0] == "a" or y[0] == "u" and y[2] in ("++p", "p++", "--p", "p--", "&"):
                l = strip(y[3])
                if l[0] == "v" and l[4] in ("l", "p"):
                    v = y[4] if y[0] == "a" and y[2] == "=" else None
                    if y[0] == "a" and y[2] in ("|=", "&="):
                        v = ["b", y[1], y[2][0], y[3], y[4]]
                    sts = [self.assign(F, s, l[3], v) for s in sts]
        if it[0] == "D":
            sts = [self.assign(F, s, it[2], e) for s in sts]
        if it[0] == "RET":
            sts = [(s[0], s[1], s[2] | {(("ret", ""), self.truth(e, s))}) for s in sts]
        return sts

    def truth(self, e, st):
        e = strip(e)
        if e[0] == "i":
            return bool(e[2])
        if e[0] == "e":
            return bool(self.P.econst[e[2]][0])
        f = dict(st[2])
        if e[0] == "v":
            v = f.get(("val", e[3]))
            return bool(v) if v is not None else f.get(("truth", e[3]))
        if e[0] == "c":
            return f.get(("call", id(e)))
        if e[0] == "u" and e[2] == "!":
            t = self.truth(e[3], st)
            return None if t is None else not t
        return None

    def apply(self, F, st, variants, x):
        out = []
        for t, h, r in variants:
            s = st
            for k, b in sorted(r, key=str):
                s = self.free(F, s, self.subst(k, x[4], F), self.bits[b], x[2])
            for k, b in sorted(h, key=str):
                s = self.reserve(F, s, self.subst(k, x[4], F), self.bits[b], x[2])
            if t is not None:
                s = s[0], s[1], frozenset(f for f in s[2] if f[0] != ("call", id(x))) | {(("call", id(x)), t)}
            out.append(s)
        return out

    def kill(self, st, vid):
        return st[0], st[1], frozenset(f for f in st[2] if f[0][1] != vid)

    def assign(self, F, st, vid, e):
        e = strip(e) if e is not None else None
        m = self.mask(e, F, st[2]) if e is not None and e[0] in ("i", "e", "b") else None
        st = self.kill(st, vid)
        if e is not None:
            if m is not None:
                return st[0], st[1], st[2] | {(("val", vid), m)}
            t = self.truth(e, st)
            if t is not None:
                st = st[0], st[1], st[2] | {(("truth", vid), t)}
        return st

    def branch(self, F, e, st):
        """-> (states if true, states if false)"""
        e = strip(e)
        neg = False
        while e[0] == "u" and e[2] == "!":
            e, neg = strip(e[3]), not neg
        if e[0] == "b" and e[2] in ("!=", "==") and strip(e[4])[0] == "i" and strip(e[4])[2] == 0:
            neg ^= e[2] == "=="
            e = strip(e[3])
        if e[0] == "c":
            t = self.truth(e, st)
            if t is not None:
                return ([st], []) if t != neg else ([], [st])
            return [st], [st]
        if e[0] == "m" and not any(y[0] == "c" for y in walk(e)) and not self.writes(F, e[3]):
            # a field this function does not write answers the same each time
            base = {y[3] for y in walk(e) if y[0] == "v" and y[4] in ("l", "p")}
            f = dict(st[2])
            if len(base) == 1:
                k = ("field:" + show(e), min(base))
                if k in f:
                    return ([st], []) if f[k] != neg else ([], [st])
                a = (st[0], st[1], st[2] | {(k, True)})
                b = (st[0], st[1], st[2] | {(k, False)})
                return ([b], [a]) if neg else ([a], [b])
        if e[0] == "v" and e[4] in ("l", "p"):
            f = dict(st[2])
            v = f.get(("val", e[3]))
            t = f.get(("truth", e[3])) if v is None else bool(v)
            if t is not None:
                return ([st], []) if t != neg else ([], [st])
            a = (st[0], st[1], st[2] | {(("truth", e[3]), True)})
            b = (st[0], st[1], st[2] | {(("truth", e[3]), False)})
            return ([b], [a]) if neg else ([a], [b])
        return [st], [st]

    def writes(self, F, field):
        return any(x[0] == "a" and strip(x[3])[0] == "m" and strip(x[3])[3] == field for x in walk(F.body))

    def fnref(self, e, F):
        e = strip(e)
        if e[0] == "u" and e[2] == "&":
            e = strip(e[3])
        if e[0] == "v" and e[4] == "f":
            return self.P.resolve(e[2], F.file)
        return None

    def doomed(self, F):
        """The calls after which every path ends in panic()."""
        if not any(x[0] == "c" and callee_name(x) in self.P.noreturn for x in walk(F.body)):
            return ()
        g = self.P.cfg(F)
        succ = {}
        for i, b in enumerate(g.blocks):
            succ[i] = list(b.succs())
        stop = {i for i, b in enumerate(g.blocks) if b.term and b.term[0] == "stop" or any(callee_name(x) in self.P.noreturn for it in b.items for x in self.calls((it[4] if it[0] == "D" else it[1]) or []))}
        live = {i for i in succ if not succ[i] and i not in stop}
        ch = True
        while ch:
            n = len(live)
            live |= {i for i in succ if i not in stop and any(j in live for j in succ[i])}
            ch = len(live) != n
        out = set()
        for i, b in enumerate(g.blocks):
            if i not in live:
                for it in b.items:
                    out |= {id(x) for x in self.calls((it[4] if it[0] == "D" else it[1]) or [])}
        return out

    def conflicts(self):
        """Resources reserved by a callee or callback while they are held."""
        may = {}      # function -> {(key, resource)}: reserved at some point of its execution
        hold = {}     # (function, parameter) -> {(key, resource)}: held while the function the parameter refers to runs
        sites = {}    # function -> [(call, held by the function itself)]
        for F in self.P.all:
            if not self.prim(F):
                dead = self.doomed(F)
                sites[F.key] = [x for x in walk(F.body) if x[0] == "c" and not (callee_name(x) in RES) and id(x) not in dead]
        own = {}
        for F in self.P.all:
            for x in walk(F.body):
                if x[0] == "c" and RES.get(callee_name(x), 0) > 0 and len(x[4]) == 2 and not self.prim(F):
                    m = self.resmask(x, F, ())
                    k = self.key(x[4][0], F)
                    for n, b in self.bits.items():
                        if m is not None and m & b and k != ("?",):
                            own.setdefault(F.key, set()).add((k, n, self.guard(F)))
        under = {k: set().union(*v[2]) for k, v in self.under.items()}
        ch = True
        may = {k: set(v) for k, v in own.items()}
        rounds = 0
        while ch:
            ch = False
            rounds += 1
            if rounds > 60:
                raise AnalysisError("the transitive reservations do not converge")
            for F in self.P.all:
                if F.key not in sites:
                    continue
                cur = may.setdefault(F.key, set())
                n0 = len(cur)
                for x in sites[F.key]:
                    n = callee_name(x)
                    G = self.P.resolve(n, F.file) if n else None
                    H = under.get((F.key, id(x)), set())
                    if G is None:
                        c = strip(x[3])
                        if c[0] == "u" and c[2] == "*":
                            c = strip(c[3])
                        if c[0] == "v" and c[4] == "p" and H:
                            i = [p[1] for p in F.params].index(c[3])
                            s = hold.setdefault((F.key, i), set())
                            if not H <= s:
                                s |= H
                                ch = True
                        continue
                    for k, r, gd in may.get(G.key, ()):
                        k = self.subst(k, x[4], F)
                        if k != ("?",) and depth(k) < 4:
                            cur.add((k, r, gd or self.guard(F)))
                    for j, a in enumerate(x[4]):
                        h = hold.get((G.key, j))
                        got = set(H) if self.iscb(G, j) else set()
                        if h:
                            got |= {(self.subst(k, x[4], F), r) for k, r in h}
                        a = strip(a)
                        if a[0] == "v" and a[4] == "p" and got:
                            i = [p[1] for p in F.params].index(a[3])
                            s = hold.setdefault((F.key, i), set())
                            if not got <= s:
                                s |= got
                                ch = True
                        C = self.fnref(a, F)
                        if C is not None:
                            for k, r, gd in may.get(C.key, ()):
                                if k[0] in ("g", "irgof"):
                                    cur.add((k, r, gd or self.guard(F)))
                if len(cur) != n0:
                    ch = True
        out = []
        for F in self.P.all:
            for x in sites.get(F.key, ()):
                n = callee_name(x)
                G = self.P.resolve(n, F.file) if n else None
                if G is None:
                    continue
                H = under.get((F.key, id(x)), set())
                for k, r, gd in sorted(may.get(G.key, ()), key=str):
                    k2 = self.subst(k, x[4], F)
                    for hk, hr in H:
                        self.pairs += hr == r
                        if hr == r and self.same(hk, k2) and not self.present(F, x, gd):
                            out.append((F, x, G, r, f"calls {G.name} while it holds {r}"))
                for j, a in enumerate(x[4]):
                    C = self.fnref(a, F)
                    if C is None:
                        continue
                    got = {(self.subst(k, x[4], F), r) for k, r in hold.get((G.key, j), ())}
                    if self.iscb(G, j):
                        got |= H
                    for k, r, gd in may.get(C.key, ()):
                        for hk, hr in got:
                            self.pairs += hr == r
                            if hr == r and (self.same(hk, k) or k[0] in ("irgof", "g")) and not self.present(F, x, gd):
                                out.append((F, x, C, r, f"passes {C.name} to {G.name}, which calls it while {r} is held"))
        return out

    pairs = 0
    TESTS = ("irg_has_properties", "irg_has_properties_", "edges_activated", "edges_activated_", "edges_activated_kind", "edges_activated_kind_")

    def guard(self, F):
        """Does the function compute its analysis only if it is not there already?  -> its key"""
        c = self.__dict__.setdefault("_gd", {})
        if F.key not in c:
            c[F.key] = None
            for b in self.P.cfg(F).blocks:
                if b.term and b.term[0] == "br" and any(x[0] == "c" and callee_name(x) in self.TESTS for x in walk(b.term[1])):
                    c[F.key] = F.key
        return c[F.key]

    def closure(self, F):
        c = self.__dict__.setdefault("_cl", {})
        if F.key not in c:
            seen, work = set(), [F]
            while work:
                G = work.pop()
                if G.key in seen:
                    continue
                seen.add(G.key)
                for x in walk(G.body):
                    if x[0] == "c":
                        n = callee_name(x)
                        H = self.P.resolve(n, G.file) if n else None
                        if H is not None and H.key not in seen:
                            work.append(H)
            c[F.key] = seen
        return c[F.key]

    def present(self, F, site, gd):
        """Is the analysis behind this guard known to be available at the call?"""
        if gd is None:
            return False
        if "ir/be/" in F.file and "edges" in self.byKey[gd].name:
            return True            # code selection and scheduling leave the out edges activated
        for x in walk(F.body):
            if x[0] == "c" and x is not site and x[2] < site[2]:
                n = callee_name(x)
                H = self.P.resolve(n, F.file) if n else None
                if H is not None and gd in self.closure(H):
                    return True
        return False

    def same(self, a, b):
        return a == b and a != ("?",) or ("irgof",) in (a, b) and ("?",) not in (a, b)

    def iscb(self, G, j):
        """Is parameter j of G a function that G calls (directly or by passing it on)?"""
        c = self.__dict__.setdefault("_cb", {})
        k = (G.key, j)
        if k in c:
            return c[k]
        c[k] = False
        if j >= len(G.params):
            return False
        v = G.params[j][1]
        for x in walk(G.body):
            if x[0] != "c":
                continue
            f = strip(x[3])
            if f[0] == "u" and f[2] == "*":
                f = strip(f[3])
            if f[0] == "v" and f[4] == "p" and f[3] == v:
                c[k] = True
                break
            n = callee_name(x)
            H = self.P.resolve(n, G.file) if n else None
            if H is not None and any(strip(a)[0] == "v" and strip(a)[4] == "p" and strip(a)[3] == v and self.iscb(H, i) for i, a in enumerate(x[4])):
                c[k] = True
                break
        return c[k]

    def func(self, F):
        g = self.P.cfg(F)
        start = (frozenset(), frozenset(), frozenset())
        seen = {}
        work = [(g.entry, start)]
        exits = {}
        while work:
            b, st = work.pop()
            s = seen.setdefault(b, set())
            if st in s:
                continue
            if len(s) > MAXSTATES:
                st = (st[0], st[1], frozenset(f for f in st[2] if f[0][0] == "orig"))
                if st in s:
                    continue
                if len(s) > 2 * MAXSTATES:
                    raise AnalysisError(f"{F.name}: too many states")
            s.add(st)
            blk = g.blocks[b]
            sts = [st]
            line = blk.line
            for it in blk.items:
                line = it[-1] or line
                sts = [n for s2 in sts for n in self.item(F, it, s2)]
            t = blk.term
            if t is None or t[0] == "ret":
                for s2 in sts:
                    exits.setdefault((dict(s2[2]).get(("ret", "")), s2[0], s2[1]), line or F.line)
                continue
            if t[0] == "stop":
                continue
            for s2 in sts:
                if t[0] == "jmp":
                    work.append((t[1], s2))
                elif t[0] == "br":
                    for s3 in self.item(F, ("X", t[1], line), s2):
                        a, c = self.branch(F, t[1], s3)
                        work += [(t[2], y) for y in a] + [(t[3], y) for y in c]
                else:
                    for s3 in self.item(F, ("X", t[1], line), s2):
                        work += [(y, s3) for y in set(blk.succs())]
        return exits

    def merge(self, F, ex):
        """Exit states -> summary: one effect, or one for each truth value of the result."""
        effects = {y[1:] for y in ex}
        if len(effects) <= 1:
            return tuple((None,) + y for y in effects) or NOTHING
        by = {}
        for t, h, r in ex:
            by.setdefault(t, set()).add((h, r))
        if None not in by and all(len(v) == 1 for v in by.values()):
            return tuple((t,) + next(iter(v)) for t, v in sorted(by.items()))
        a = min(effects, key=lambda s: len(s[0]) + len(s[1]))
        o = max(effects, key=lambda s: len(s[0]) + len(s[1]))
        d = sorted({n for _, n in (o[0] ^ a[0]) | (o[1] ^ a[1])})
        self.problem(F, f"paths/{','.join(d)}", next(l for y, l in ex.items() if y[1:] == o), f"some paths to the end leave {', '.join(d)} reserved and others do not")
        return ((None,) + a,)

    def run(self):
        """Summaries bottom-up over the functions that matter."""
        self.bad, self.sites, self.under = {}, set(), {}
        todo = [self.byKey[k] for k in sorted(self.direct)]
        done = 0
        queue, inq = list(todo), {F.key for F in todo}
        while queue:
            F = queue.pop(0)
            inq.discard(F.key)
            if self.prim(F):
                continue
            for k in [k for k in self.bad if k[0] == F.key]:
                del self.bad[k]
            ex = self.func(F)
            eff = self.merge(F, ex)
            done += 1
            if done > 4000:
                raise AnalysisError("the summaries do not converge")
            if self.sum.get(F.key, NOTHING) != eff:
                self.sum[F.key] = eff
                for c in self.callers.get(F.key, ()):
                    if c not in inq:
                        inq.add(c)
                        queue.append(self.byKey[c])
            else:
                self.sum[F.key] = eff
        for k, v in sorted(self.sum.items()):
            F = self.byKey[k]
            h, r = set().union(*[y[1] for y in v]), set().union(*[y[2] for y in v])
            if (h or r) and not self.callers.get(k):
                for _, n in sorted(h, key=str):
                    self.problem(F, f"kept/{n}", F.line, f"leaves {n} reserved when it ends")
                for _, n in sorted(r, key=str):
                    self.problem(F, f"notheld/{n}", F.line, f"frees {n}, which it never reserved")
        return self.bad


class Settings(Res):
    """Optimisation settings and the current graph: a function that changes one puts the value it found back.
    held: changed settings; required: settings it restores from a value saved elsewhere."""

    def __init__(self, P):
        Res.__init__(self, P, None)

    def find(self):
        F = self.P.funcs.get("set_optimize")
        if F is None:
            raise AnalysisError("set_optimize not found")
        self.home = {F.file, self.P.funcs["set_current_ir_graph"].file if "set_current_ir_graph" in self.P.funcs else F.file}
        self.getter = {"get_optimize": "optimize", "get_current_ir_graph": "current_ir_graph", "save_optimization_state": "*"}
        self.setter = {"set_optimize": "optimize", "set_current_ir_graph": "current_ir_graph", "restore_optimization_state": "*"}
        for G in self.P.funcs.values():
            if G.file == F.file and G.name.startswith("set_opt_"):
                self.setter[G.name] = G.name[8:]
                self.getter["get_opt_" + G.name[8:]] = G.name[8:]
        if len(self.setter) < 6:
            raise AnalysisError("the optimisation settings are not known")
        self.getter.update({n + "_": v for n, v in list(self.getter.items())})
        self.direct = {G.key for G in self.P.all if not self.prim(G) and (any(x[0] == "c" and callee_name(x) in self.setter or self.curset(x) for x in walk(G.body)))}
        # functions stored in a field of a constant record are called through it
        self.fields = {}
        for v in list(self.P.svars.values()) + [w for l in self.P.vars.values() for w in l]:
            if v["init"]:
                for r in walk(v["init"]):
                    if r[0] == "R":
                        for f in r[2]:
                            x = strip(f[2])
                            if x is not None and x[0] == "v" and x[4] == "f":
                                G = self.P.resolve(x[2], v["file"] if "file" in v else "")
                                if G is not None:
                                    self.fields.setdefault(f[1], set()).add(G.key)
        for G in self.P.all:
            for x in walk(G.body):
                if x[0] == "c":
                    c = strip(x[3])
                    if c[0] == "u" and c[2] == "*":
                        c = strip(c[3])
                    if c[0] == "m":
                        for k in self.fields.get(c[3], ()):
                            self.callers.setdefault(k, set()).add(G.key)
        # variables that only ever hold a saved value
        self.saved = {}
        for G in self.P.all:
            for x in walk(G.body):
                if x[0] == "a" and strip(x[3])[0] == "v" and strip(x[3])[4] in ("g", "s"):
                    k = (strip(x[3])[2], G.file if (G.file, strip(x[3])[2]) in self.P.svars else "")
                    self.saved.setdefault(k, set()).add(self.reads(x[4]))
        return self.direct

    def prim(self, F):
        return F.file in self.home

    def curset(self, x):
        return x[0] == "a" and strip(x[3])[0] == "v" and strip(x[3])[4] == "g" and strip(x[3])[2] == "current_ir_graph"

    def reads(self, e):
        """The setting whose value the expression is."""
        e = strip(e) if e is not None else None
        if e is None:
            return None
        if e[0] == "c":
            return self.getter.get(callee_name(e))
        if e[0] == "v" and e[4] == "g" and e[2] == "current_ir_graph":
            return "current_ir_graph"
        return None

    def set(self, F, st, S, e, line):
        held, req, facts = st
        e = strip(e)
        if e[0] == "u" and e[2] == "&":
            e = strip(e[3])
        ok = e[0] == "v" and e[4] in ("l", "p") and (("orig", e[3]), S) in facts
        if e[0] == "v" and e[4] in ("g", "s"):
            w = self.saved.get((e[2], F.file)) or self.saved.get((e[2], ""))
            if w == {S}:
                ok = True
                if ("", S) not in held:
                    req = req | {("", S)}
        if ok:
            return frozenset(h for h in held if not (S == "*" and h[1] != "current_ir_graph" or h[1] == S)), req, facts
        self.sites.add((F.key, line))
        return held | {("", S)}, req, facts

    def item(self, F, it, st):
        e = it[4] if it[0] == "D" else it[1]
        sts = [st]
        if e is None:
            return [self.kill(st, it[2])] if it[0] == "D" else [st]
        for x in self.calls(e):
            n = callee_name(x)
            if n in self.P.noreturn:
                return []
            if n in self.setter and x[4]:
                sts = [self.set(F, s, self.setter[n], x[4][0], x[2]) for s in sts]
                continue
            if self.getter.get(n) == "*" and x[4]:
                a = strip(x[4][0])
                if a[0] == "u" and a[2] == "&" and strip(a[3])[0] == "v":
                    v = strip(a[3])[3]
                    sts = [(s[0], s[1], self.kill(s, v)[2] | ({(("orig", v), "*")} if not any(h[1] != "current_ir_graph" for h in s[0]) else set())) for s in sts]
                continue
            G = self.P.resolve(n, F.file) if n else None
            gs = [G.key] if G is not None else []
            c = strip(x[3])
            if c[0] == "u" and c[2] == "*":
                c = strip(c[3])
            if G is None and c[0] == "m":
                gs = self.fields.get(c[3], ())
            if gs:
                sts = [y for s in sts for y in self.apply(F, s, self.join([self.sum.get(g, NOTHING) for g in gs]), x)]
        for y in walk(e):
            if self.curset(y):
                sts = [self.set(F, s, "current_ir_graph", y[4], it[-1]) for s in sts]
            elif y[0] == "a" or y[0] == "u" and y[2] in ("++p", "p++", "--p", "p--"):
                l = strip(y[3])
                if l[0] == "v" and l[4] in ("l", "p"):
                    sts = [self.save(s, l[3], y[4] if y[0] == "a" and y[2] == "=" else None) for s in sts]
        if it[0] == "D":
            sts = [self.save(s, it[2], e) for s in sts]
        if it[0] == "RET":
            sts = [(s[0], s[1], s[2] | {(("ret", ""), self.truth(e, s))}) for s in sts]
        return sts

    def join(self, vs):
        by = {}
        for v in vs:
            for t, h, r in v:
                o = by.get(t)
                by[t] = (h, r) if o is None else (o[0] | h, o[1] & r)
        if None in by and len(by) > 1:
            h = frozenset().union(*[y[0] for y in by.values()])
            r = frozenset.intersection(*[y[1] for y in by.values()])
            return ((None, h, r),)
        return tuple((t,) + y for t, y in sorted(by.items(), key=str))

    def merge(self, F, ex):
        return self.join([tuple(ex)]) if ex else NOTHING

    def apply(self, F, st, variants, x):
        out = []
        for t, h, r in variants:
            held = st[0] - r | h
            s = held, st[1] | {y for y in r if y not in st[0]}, st[2]
            if t is not None:
                s = s[0], s[1], frozenset(f for f in s[2] if f[0] != ("call", id(x))) | {(("call", id(x)), t)}
            out.append(s)
        return out


    def save(self, st, vid, e):
        S = self.reads(e)
        st = self.kill(st, vid)
        t = self.truth(e, st) if e is not None else None
        if t is not None:
            st = st[0], st[1], st[2] | {(("truth", vid), t)}
        if S and not any(h[1] == S for h in st[0]):
            st = st[0], st[1], st[2] | {(("orig", vid), S)}
        elif e is not None and strip(e)[0] == "v" and strip(e)[4] in ("l", "p"):
            st = st[0], st[1], st[2] | {(("orig", vid), f[1]) for f in st[2] if f[0] == ("orig", strip(e)[3])}
        return st

    def branch(self, F, e, st):
        return Res.branch(self, F, e, st)

    def problem(self, F, key, line, text):
        if key.startswith("notheld"):
            return
        text = text.replace("reserved", "changed").replace("leaves", "leaves the setting") if not key.startswith("paths") else text.replace("leave ", "leave the setting ").replace("reserved", "changed")
        self.bad.setdefault((F.key, "setting/" + key), (F, line, text))


def depth(k):
    return 1 + max([depth(y) for y in k if isinstance(y, tuple)], default=0)


def run():
    rep = Report("C10", "what is reserved or changed is returned on every path and never reserved twice", META["note"])
    P = Program("debug")
    R = Res(P, rep)
    bad = R.run()
    for (k, key), (F, line, text) in sorted(bad.items()):
        rep.bad(f"{F.name}/{key}", f"{F.loc.rsplit(chr(58), 1)[0]}:{line}", f"{F.name}: {text}")
    S = Settings(P)
    for (k, key), (F, line, text) in sorted(S.run().items()):
        rep.bad(f"{F.name}/{key}", f"{F.loc.rsplit(chr(58), 1)[0]}:{line}", f"{F.name}: {text}")
    rep.count("setting_functions", len(S.sum))
    rep.count("setting_sites", len(S.sites))
    for k in S.sum:
        rep.ok(f"{k} is balanced")
    for F, x, G, r, text in R.conflicts():
        rep.bad(f"{F.name}/{G.name}/{r}", f"{F.loc.rsplit(chr(58), 1)[0]}:{x[2]}", f"{F.name}: {text}, {G.name} reserves it too")
    rep.count("pairs", R.pairs)
    rep.count("sites", len(R.sites))
    rep.count("functions", len(R.sum))
    for k in R.sum:
        rep.ok(f"{k} is balanced")
    rep.floor("sites", 120)
    rep.floor("functions", 60)
    rep.floor("setting_functions", 8)
    return rep.finish()


if __name__ == "__main__":
    main("C10", run)
