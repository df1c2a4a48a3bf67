"""C15: no pass leaves a graph claiming a property (dominance, no Bads, ...) that the pass may have destroyed."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from prog import Program, AnalysisError, walk, callee_name, strip, short, show
from report import Report, main
from flagflow import Flow, fnames, uniq, T
from absint import Interp, Client, State, deref

META = {
    "title": "No pass goes on claiming a graph property that its changes may have destroyed",
    "statement": "A transformation that reports what it preserved (confirm_irg_properties) never reports as preserved, on any path on which it may have changed the graph, a property that such a change destroys: after it created blocks or jumps, set predecessors of blocks or turned a jump into a Bad, the graph does not go on claiming consistent dominance, postdominance, dominance frontiers or loop information; after it created a Bad it does not claim to have no Bads, after a Tuple no Tuples, after a Return neither one Return only nor maximally many - unless it recomputed the property after the change. Nor does such a transformation return after such a change without reporting at all. confirm_irg_properties() keeps exactly those claims it is told were preserved, clear_irg_properties() drops and add_irg_properties() adds exactly the given ones, and irg_has_properties() answers yes exactly if all of the given ones are claimed. So irg_has_properties() never answers yes for information that is stale, and assure_irg_properties() recomputes it.",
    "over": ["inputs", "histories"],
    "quant": "for every graph, every pass that confirms properties and every path through it",
    "why": "A stale claim shows only in a later pass, on a graph where the earlier pass changed something and the later one asks for exactly that property; the tests run no such combination and the verifier does not recompute the claims.",
    "files": ["ir/ir/irgraph.c", "ir/opt", "ir/lower", "ir/ana", "ir/be"],
    "mech": [("claims", "ir/ir/irgraph.c confirm_irg_properties, assure_irg_properties"), ("passes", "ir/opt/*.c, ir/lower/*.c callers of confirm_irg_properties")],
    "technique": "interprocedural path-sensitive dataflow: a change event (constructor or setter of the class, through any callee) correlated with the flags that record it, up to the confirming call, whose property mask is evaluated; abstract interpretation of the claim operations for every property",
    "note": "Changes behind walkers count through the functions handed to them; flags that record a change (locals, environment fields, return values) are followed. Passes that never call confirm_irg_properties, node constructors (local optimisation inside them may create a Bad) and helpers without a graph parameter are not judged. Where a flag's value after a change is not known, both outcomes of the mask are intersected (no alarm). A mask that is no constant expression is taken to preserve nothing.",
}

CF = ("CONSISTENT_DOMINANCE", "CONSISTENT_POSTDOMINANCE", "CONSISTENT_DOMINANCE_FRONTIERS", "CONSISTENT_LOOPINFO")
K = ("new_r_", "new_rd_", "new_d_", "new_")
CLASSES = {
    # what changes -> (functions that do it, properties that are gone then)
    "control flow": ({k + n for k in K for n in ("Block", "Jmp", "Cond", "Switch", "IJmp")} | {"new_r_immBlock", "part_block", "part_block_edges", "set_Block_cfgpred"}, CF),
    "a Bad": ({"new_r_Bad", "new_Bad", "new_rd_Bad"}, ("NO_BADS",)),
    "a Return": ({k + "Return" for k in K}, ("ONE_RETURN", "MANY_RETURNS")),
    "a Tuple": ({k + "Tuple" for k in K} | {"turn_into_tuple"}, ("NO_TUPLES",)),
}
ADD, CLEAR, CONFIRM = "add_irg_properties", "clear_irg_properties", "confirm_irg_properties"


def uniq2(l):
    out = []
    for x in l:
        if x not in out:
            out.append(x)
    return out


BAD = ("new_r_Bad", "new_Bad", "new_rd_Bad")


def mentions_x(a):
    """a jump that becomes a Bad"""
    return any(x[0] == "v" and x[2] == "mode_X" or x[0] == "c" and callee_name(x) == "get_modeX" for x in walk(a))


def base(n):
    return n.strip("_") if n else n


class PFlow(Flow):
    def __init__(self, P, isreport, bits, adders, confirmers):
        super().__init__(P, isreport, 600)
        self.bits, self.adders, self.confirmers = bits, adders, confirmers
        self.found = None
        self.wr, self.own, self.graph, self.funcs, self.lost = {}, {}, {}, {}, set()
        self.plain, self.var = set(), {}     # functions that make a change unreported; what they leave in flags then

    def mask(self, e, st, fr):
        """-> [(state, mask)]; where the condition is not known, what both sides keep"""
        e = strip(e)
        if e[0] == "?":
            out = []
            for s, c in self.ev(e[2], st, fr):
                a = self.mask(e[3], s, fr) if c != 0 else []
                b = self.mask(e[4], s, fr) if c != 1 else []
                if a and b:
                    m = a[0][1] & b[0][1]
                    for _, x in a + b:
                        m &= x
                    out.append((s, m))
                else:
                    out += a + b
            return out
        if e[0] == "b" and e[2] in ("|", "&"):
            out = []
            for s, a in self.mask(e[3], st, fr):
                for s2, b in self.mask(e[4], s, fr):
                    out.append((s2, a | b if e[2] == "|" else a & b))
            return out
        if e[0] == "u" and e[2] == "~":
            return [(s, ~a) for s, a in self.mask(e[3], st, fr)]
        if e[0] == "i":
            return [(st, e[2])]
        if e[0] == "e":
            v = self.P.econst.get(e[2], (None,))[0]
            return [(st, v if v is not None else 0)]
        if e[0] == "k":
            return self.mask(e[2], st, fr)
        return [(st, 0)]

    def ev(self, e, st, fr):
        e = strip(e)
        if e is not None and e[0] == "u" and e[2] in ("p++", "++p", "++", "++x", "x++"):
            l = self.loc(e[3], fr)
            return [(self.set(s, l, 1) if l else s, T) for s, _ in super(PFlow, self).ev(e[3], st, fr)]     # counts what happened
        if e is not None and e[0] == "a" and e[2] == "+=" and strip(e[4])[0] == "i":
            l = self.loc(e[3], fr)
            if l and strip(e[4])[2] > 0:
                return [(self.set(st, l, 1), T)]
        if e is not None and e[0] == "b" and e[2] in (">", "<", ">=", "<="):
            x, y = (e[3], e[4]) if e[2][0] == ">" else (e[4], e[3])
            k = strip(y)
            if k[0] == "i" and (k[2] == 0 and len(e[2]) == 1 or k[2] == 1 and len(e[2]) == 2):
                return self.ev(x, st, fr)
        if e is not None and e[0] == "b" and e[2] in ("==", "!=") and "*" in str(strip(e[3])[1]) and strip(e[4])[0] != "i":
            # a new node is none of the old ones
            out = []
            for s, v in self.ev(e[3], st, fr):
                for s2, w in self.ev(e[4], s, fr):
                    out.append((s2, (1 if e[2] == "!=" else 0) if s2[0] and 1 in (v, w) and v != w and 0 not in (v, w) else T))
            return uniq2(out) if T not in [v for _, v in out] else super().ev(e, st, fr)
        return super().ev(e, st, fr)

    def learn(self, s, e, v, fr):
        x = strip(e)
        if v == 1 and x[0] == "b" and x[2] in ("<", "!=", ">"):
            l = self.loc(x[4] if x[2] != ">" else x[3], fr)
            b = strip(x[4] if x[2] != ">" else x[3])
            if l and b[0] == "v" and x[2] != "!=" and any(t in b[1] for t in ("int", "long", "size_t", "unsigned")) and l not in s[1]:
                return self.set(s, l, 1)
        return super().learn(s, e, v, fr)

    def forget(self, e, F, st, fr):
        """after a change, a callee that may set a flag is taken to have set it"""
        todo = [F] if F is not None else []
        for a in e[4]:
            todo += [G for fn in fnames(a) for G in [self.P.resolve(fn, fr["F"].file)] if G is not None]
        ptrs = {l[0] for a in e[4] for l in [self.ptr(a, fr)] if l}
        for G in todo:
            ws = self.writes(G)
            for l in [l for l, v in st[1].items() if v == 0] + [l for l in sorted(self.lost, key=str) if l not in st[1]]:
                f = l[1].rpartition(".")[2]
                if l[1] == "*":
                    continue
                for z in ((("p", f),) if l[0] in ptrs else ()) + ((("g", l[0][1], f),) if l[0][0] == "g" else (("p", f),) if l[0][0] == "dg" else ()):
                    if z in ws and ("1",) + z in ws:
                        st = self.set(st, l, 1 if st[0] else T)
                        self.lost.add(l)
        return st

    def writes(self, F):
        """the globals (with field) and fields behind pointers that F or its callees write"""
        if F.key not in self.wr:
            self.wr[F.key] = set()
            todo, seen, w = [F.key], set(), set()
            while todo:
                k = todo.pop()
                if k in seen:
                    continue
                seen.add(k)
                if k not in self.own:
                    o = set()
                    for x in walk(self.funcs[k].body):
                        t = x[3] if x[0] == "a" else x[3] if x[0] == "u" and ("++" in x[2] or "--" in x[2]) else None
                        if t is None:
                            continue
                        t = strip(t)
                        f = t[3] if t[0] == "m" else ""
                        r, direct = t, True
                        while r[0] in ("m", "x", "u"):
                            direct = direct and not (r[0] == "m" and r[5]) and r[0] != "u"
                            r = strip(r[3] if r[0] == "u" else r[2])
                        ts = ()
                        if direct and r[0] == "v" and r[4] in ("g", "s"):
                            ts = (("g", r[2], f), ("g", self.funcs[k].key + str(r[3]), f))
                        elif not direct or r[0] != "v":
                            ts = (("p", f),)
                        o.update(ts)
                        c = strip(x[4]) if x[0] == "a" else None
                        if c is None or not (x[2] == "=" and (c[0] == "i" and not c[2] or c[0] == "e" and not self.P.econst.get(c[2], (0,))[0])):
                            o.update(("1",) + t for t in ts)     # may become nonzero
                    self.own[k] = o
                w |= self.own[k]
                todo += self.graph.get(k, ())
            self.wr[F.key] = w
        return self.wr[F.key]

    def callx(self, e, st, fr):
        n0 = callee_name(e)
        F0 = self.P.resolve(n0, fr["F"].file) if n0 else None
        if F0 is not None and F0.key in self.var:
            sts = [st]
            for a in e[4]:
                sts = uniq([s for s0 in sts for s, _ in self.ev(a, s0, fr)])
            return [(x, 1 if "*" in F0.ret else T) for s in sts for x in self.apply(F0, s, lambda i: e[4][i] if i < len(e[4]) else None, e, fr)]
        out = self.callx1(e, self.forget(e, F0, st, fr), fr)
        if "*" in str(e[1]) and (base(n0) in self.prims or F0 is not None and (F0.key in self.plain or F0.key in self.sum)):
            out = [(s, 1 if s[0] and not st[0] and v == T else v) for s, v in out]    # a changed graph: a new node
        for a in e[4]:
            for fn in fnames(a):
                G = self.P.resolve(fn, fr["F"].file)
                if G is None or G.key not in self.plain:
                    continue
                if G.key in self.var:
                    new = self.apply(G, st, lambda i: e[4][-1], e, fr)
                else:
                    new = [(fn, self.forget(e, G, st, fr)[1])]
                out = out + [(s, T) for s in new]
        return out

    def apply(self, G, st, arg, e, fr):
        """the states after a call of G that makes a change"""
        out = []
        for d in self.var[G.key]:
            s = (G.name, st[1])
            for (p, suf), v in d.items():
                if isinstance(p, int):
                    a = arg(p)
                    l = self.ptr(a, fr) if a is not None else None
                    if l is None:
                        continue
                    s = self.set(s, (l[0], l[1] + suf), v)
                else:
                    s = self.set(s, (p, suf), v)
            out.append(s)
        return out

    def callx1(self, e, st, fr):
        n = base(callee_name(e))
        if n in (CONFIRM, CLEAR, ADD) and len(e[4]) == 2:
            out = []
            for s, m in self.mask(e[4][1], st, fr):
                if n == CONFIRM:
                    if self.found is not None:
                        self.found.append((e, s, m))
                    s = (False, s[1])
                elif n == CLEAR and m & self.bits:
                    s = (False, s[1])
                out.append((s, T))
            return out
        F = self.P.resolve(callee_name(e), fr["F"].file) if callee_name(e) else None
        if F is not None and F.key in self.adders:
            return [((False, s[1]), v) for s, v in super().callx(e, st, fr)]
        return super().callx(e, st, fr)


def callees(P, F):
    """functions F calls directly or hands to a callee"""
    out = set()
    for x in walk(F.body):
        if x[0] == "c":
            n = callee_name(x)
            G = P.resolve(n, F.file) if n else None
            if G is not None and G.body is not None:
                out.add(G.key)
            for a in x[4]:
                for fn in fnames(a):
                    G = P.resolve(fn, F.file)
                    if G is not None and G.body is not None:
                        out.add(G.key)
    return out


def analyse(P, rep, what, prims, props, graph, funcs):
    bits = 0
    for p in props:
        bits |= P.econst["IR_GRAPH_PROPERTY_" + p][0]
    def calls(F, name):
        return [x for x in walk(F.body) if x[0] == "c" and base(callee_name(x)) == name]
    def const(x):
        m = strip(x[4][1])
        return m[0] == "e" and P.econst.get(m[2], (0,))[0] & bits
    adders = {k for k, F in funcs.items() if any(const(x) for x in calls(F, ADD) if len(x[4]) == 2)}
    confirmers = {k for k, F in funcs.items() if calls(F, CONFIRM)}
    def event(e):
        n = base(callee_name(e))
        return n in prims or props is CF and n in BAD and any(mentions_x(a) for a in e[4])
    isprim = lambda e, G, F: event(e)
    # who may do it without confirming
    may = {k for k, F in funcs.items() if any(x[0] == "c" and event(x) for x in walk(F.body)) and base(F.name) not in prims}
    cons = lambda n: base(n).startswith(("new_r_", "new_rd_", "new_d_", "new_bd_", "get_")) or base(n) in ("optimize_node", "optimize_in_place", "optimize_in_place_2")
    may = {k for k in may if not cons(funcs[k].name)}
    todo = list(may)
    up = {}
    for k, cs in graph.items():
        for c in cs:
            up.setdefault(c, set()).add(k)
    while todo:
        c = todo.pop()
        if c in confirmers:
            continue
        for k in up.get(c, ()):
            if k not in may and base(funcs[k].name) not in prims and not cons(funcs[k].name):
                may.add(k)
                todo.append(k)
    fl = PFlow(P, isprim, bits, adders, confirmers)
    fl.graph, fl.funcs, fl.prims = graph, funcs, prims
    plain = fl.plain
    def isreport(e, G, F):
        return isprim(e, G, F) or G is not None and G.key in plain
    fl.isreport = isreport
    inner = [k for k in may if k not in confirmers]
    for rnd in range(8):
        ch = False
        for k in inner:
            F = funcs[k]
            try:
                r = fl.run(F)
            except RuntimeError:
                if F.ret != "void":
                    continue
                sm = "plain"
                r = None
            if r is not None:
                ev = [(s, v) for s, v in r if s[0]]
                if not ev:
                    continue
                m, vs = None, []
                for s, v in ev:
                    d = {}
                    for (q, suf), x in s[1].items():
                        if q[0] == "d":
                            i = [j for j, p in enumerate(F.params) if p[1] == q[1]]
                            if i:
                                d[i[0], suf] = x
                        elif q[0] in ("g", "dg"):
                            d[q, suf] = x
                    if d not in vs:
                        vs.append(d)
                    d = {a: b for a, b in d.items() if b in (0, 1)}
                    m = d if m is None else {a: b for a, b in m.items() if d.get(a) == b}
                if F.ret != "void" and all(v == 1 for _, v in ev):
                    sm = ("ret", 1)
                elif m:
                    sm = ("marks", m)
                elif any(v == T for _, v in ev) and not F.ret.endswith("*") and F.ret != "void":
                    continue    # the result may tell, in a way that is not understood
                else:
                    sm = "plain"
            if sm == "plain":
                if r is not None and len(vs) <= 8:
                    if fl.var.get(k) != vs:
                        fl.var[k] = vs
                        ch = True
                else:
                    fl.var.pop(k, None)
                if k not in plain:
                    plain.add(k)
                    fl.sum.pop(k, None)
                    ch = True
            elif k not in plain and fl.sum.get(k) != sm:
                fl.sum[k] = sm
                ch = True
        if not ch:
            break
    bad = []
    for k in sorted(confirmers):
        F = funcs[k]
        fl.found = []
        try:
            r = fl.run(F)
        except RuntimeError:
            rep.note(f"{F.name}: too many states") if hasattr(rep, "note") else None
            continue
        found, fl.found = fl.found, None
        hit = {}
        for e, s, m in found:
            if s[0] and m & bits:
                hit.setdefault(e[2], (s[0], m & bits))
        left = {s[0] for s, _ in r if s[0]}
        bad.append((F, k in may, hit, left, len(found)))
    return may, plain, fl, bad


def run():
    rep = Report("C15", "confirm_irg_properties() after a change keeps none of the properties the change destroys; no confirming pass returns unconfirmed after a change",
                 "For each kind of change (control flow, Bad, Return, Tuple): every function that may make it without confirming was summarised (always reported by a flag, a result, or not at all), then each function calling confirm_irg_properties was followed along all its paths, with the flags, to each confirming call (mask evaluated) and to its returns.",
                 assumptions=["a callee that makes a change on some path is taken to make it, unless a flag or its result tells"])
    P = Program()
    primitives(rep, P)
    funcs = {F.key: F for F in P.all if F.body is not None}
    graph = {k: callees(P, F) for k, F in funcs.items()}
    for what, (prims, props) in CLASSES.items():
        may, plain, fl, bad = analyse(P, rep, what, prims, props, graph, funcs)
        rep.count("functions that may change " + what if what == "control flow" else "functions that may create " + what, len(may))
        for F, inmay, hit, left, n in bad:
            if not inmay:
                continue
            rep.count("passes that change and confirm")
            rep.count("confirmations reached", n)
            names = lambda m: ", ".join(p for p in props if P.econst["IR_GRAPH_PROPERTY_" + p][0] & m)
            for l, (e, m) in sorted(hit.items()):
                rep.bad(f"{what}/{F.name}", f"{short(F.file)}:{l}", f"{F.name} confirms {names(m)} on a path where it may have changed or created {what} ({says(e)})")
            if left and any("struct ir_graph*" in p[2] or "struct ir_graph *" in p[2] for p in F.params):
                e = sorted(left, key=str)[0]
                rep.bad(f"unconfirmed {what}/{F.name}", f"{short(F.file)}:{F.line}", f"{F.name} returns without confirming properties on a path where it may have changed or created {what} ({says(e)})")
            elif not hit:
                rep.ok(f"{short(F.file)}: {F.name}: {what}")
    rep.floor("passes that change and confirm", 25)
    rep.floor("confirmations reached", 30)
    rep.floor("functions that may change control flow", 50)
    return rep.finish()


class Ops(Client):
    maxs = 40

    def inline(self, ip, n, F, fr):
        return "irg" in n and "properties" in n

    def call(self, ip, st, cx, n, args, fr):
        if n in ip.P.noreturn or n == "__assert_fail":
            return []
        F = ip.P.resolve(n, fr.F.file) if n else None
        if n and ("irg" in n and "properties" in n or F is not None and F.static and F.file == fr.F.file):
            return None
        return [(st, ("call", n or "?", next(ip.fresh)))]


def primitives(rep, P):
    """what the three operations leave claimed, and what the query answers, for every single property"""
    bits = {n: v[0] for n, v in P.econst.items() if n.startswith("IR_GRAPH_PROPERTY_")}
    full = 0
    for b in bits.values():
        full |= b
    irg = ("s", "IRG")
    for op, want in (("confirm_irg_properties", lambda old, p: old & p), (CLEAR, lambda old, p: old & ~p), (ADD, lambda old, p: old | p), ("irg_has_properties", None)):
        F = P.resolve(op, None) or next((G for G in P.all if G.name == op), None)
        if F is None or F.body is None:
            raise AnalysisError(f"{op} not found")
        for old in (full, 0, full & 0x5555):
            for n, b in sorted(bits.items()):
                for p in (b, full & ~b):
                    ip = Interp(P, Ops())
                    st = State()
                    l = ip.field(deref(irg), "ir_graph", "properties")
                    st.mem[l] = ("c", old)
                    for s, v in ip.run(F, [irg, ("c", p)], st):
                        new = s.val(ip.read(s, l))
                        key, at = f"{op}/{n}", f"{short(F.file)}:{F.line}"
                        rep.count("claims after an operation")
                        if new[0] != "c" or want is None and (v is None or s.truth(v) is None):
                            raise AnalysisError(f"what {op} leaves claimed is not known")
                        if want is not None and (new[1] ^ want(old, p)) & full:
                            x = [m for m, c in sorted(bits.items()) if (new[1] ^ want(old, p)) & c]
                            rep.bad(key, at, f"{op}() leaves {x[0]} {'claimed' if new[1] & bits[x[0]] else 'unclaimed'} (claimed before: {old:#x}, argument {p:#x})")
                        elif want is None and bool(s.truth(v)) != (old & p == p):
                            rep.bad(key, at, f"{op}() answers {s.truth(v)} when {old:#x} is claimed and {p:#x} asked for")
                        else:
                            rep.ok()
    rep.floor("claims after an operation", 150)


def says(e):
    return str(e)[:80]


if __name__ == "__main__":
    main("C15", run)
