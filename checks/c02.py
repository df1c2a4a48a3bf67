"""C02: hash functions are consistent with the equality of the tables they are used with."""
import sys
import re
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from prog import Program, short, AnalysisError, calls, callee_name, strip, walk
from report import Report, main
from eqv import EqClient, paths, known_equal, leaves
from absint import Interp, Client, State, subst, mentions
import ops
from c01 import IdClient

META = {
    "title": "Equal keys have equal hashes in every hash table",
    "statement": "Whenever two keys of a hash table compare equal, the hash values passed when inserting and looking them up are equal too, so a lookup finds what was inserted. "
                 "This covers every table with its own comparison function: interned identifiers, constants (tarvals), value numbering of IR and back-end nodes, "
                 "symbol tables of the importer, and the tables of the analyses, optimisations, lowering and register allocation.",
    "over": ["inputs", "histories"],
    "quant": "every pair of equal keys of every comparison-function hash table and every insert/lookup site",
    "why": "A hash that reads something the comparison ignores only shows as a sporadic missed lookup (duplicate tarvals or idents, lost CSE), depending on addresses and table sizes.",
    "files": ["ir/tv/tv.c", "ir/ident/ident.c", "ir/ir/irop.c", "ir/opt/iropt.c", "ir/opt/combo.c", "ir/opt/gvn_pre.c", "ir/opt/ldstopt.c", "ir/lower/lower_dw.c", "ir/be/beuses.c", "ir/be/beloopana.c", "ir/adt/pmap.c", "ir/ir/irio.c", "ir/tr/tr_inheritance.c"],
    "mech": [("hash argument at each set/pset search", "every set_find/set_insert/pset_find/pset_insert call"), ("comparison functions", "the functions passed to new_set/new_pset"), ("node hash callbacks", "set_op_hash in ir/ir/irop.c and back ends")],
    "technique": "abstract interpretation of hash expressions and comparison functions, congruence of the hash terms under the equalities the comparison establishes",
    "note": "At every insert/lookup site the hash term is computed from the key and must be congruent on each path on which the table's comparison function reports equality. Mixing functions (hash_ptr, hash_str, hash_data, hash_combine) are taken as functions of their arguments. Tables whose comparison function cannot be associated with a site only have the pointer hash accepted.",
}

import os
DEBUG = os.environ.get("DEBUG")
OPQ = {"hash_ptr", "hash_str", "hash_combine", "hash_data", "strcmp", "streq", "memcmp"}
SEARCH = {"_set_search": 3, "_pset_search": 2}
NODEFN = {"get_Const_tarval", "get_Proj_num", "get_Proj_num_", "get_Const_tarval_"}


class SiteClient(Client):
    maxs = 2
    maxdepth = 4

    def __init__(self, P, unroll=0):
        self.P, self.sites, self.unroll = P, [], unroll

    def inline(self, ip, n, F, fr):
        return n not in OPQ and n not in NODEFN and not has_loop(F) and (F.file.endswith(".h") and F.inline and len(str(F.body)) < 3000 or "hash" in n.lower() or F.static and small(F))

    def pure(self, n):
        return True

    def call(self, ip, st, c, n, args, fr):
        if n in SEARCH:
            self.sites.append((fr.F, c, st.copy(), args))
            return [(st, ("any", "found", fr.F.key, c[2]))]
        return None


SMALL = {}


def small(F):
    """A helper that only computes a value."""
    if F.key not in SMALL:
        SMALL[F.key] = F.ret in ("unsigned int", "unsigned long", "size_t", "unsigned") and len(str(F.body)) < 2500 and not any(callee_name(c) in SEARCH for c in calls(F.body))
    return SMALL[F.key]


def has_loop(F):
    return any(x[0] in ("FOR", "W", "DO") for x in walk(F.body))


def rectype(t):
    t = t.replace("const ", "").replace(" const", "").strip()
    if t.startswith("struct ") and t.endswith("*") and not t.endswith("**"):
        return t[7:-1].strip()
    return None


def cong(st, a, b, attrs=()):
    """a == b follows from the facts in st by congruence."""
    if known_equal(st, a, b):
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple) or a[0] != b[0]:
        return False
    for x, y in attrs:
        # the attribute comparison callback established equality of everything below the attributes
        if a[0] in ("ld", "call") and subst(a, {x: y}) == b and (a[0] == "call" and a[1].rstrip("_") in ("get_Const_tarval", "get_Proj_num") or mentions(a, lambda t: t[0] == "f" and t[2] == "ir_node.attr")):
            return True
    if a[0] == "op" and a[1] == b[1]:
        if cong(st, a[2], b[2], attrs) and cong(st, a[3], b[3], attrs):
            return True
        if a[1] in ("+", "*", "^", "&", "|") and cong(st, a[2], b[3], attrs) and cong(st, a[3], b[2], attrs):
            return True
        return False
    if a[0] == "op1":
        return a[1] == b[1] and cong(st, a[2], b[2], attrs)
    if a[0] == "call":
        if a[1] != b[1] or len(a) != len(b):
            return False
        if a[1] in ("hash_str", "hash_data", "strlen"):
            f = content_equal(st, a[2], b[2])
            # equal bytes over the hashed length (equal lengths are part of the byte comparison's precondition)
            if f and (all(cong(st, x, y, attrs) for x, y in zip(a[3:], b[3:])) or f[1] == "memcmp" and len(a) > 3 and f[4] in (a[3], b[3])):
                return True
        return all(x == y or isinstance(x, tuple) and cong(st, x, y, attrs) for x, y in zip(a[2:], b[2:]))
    if a[0] in ("ld", "proj"):
        return cloc(st, a[1], b[1], attrs) and a[2:] == b[2:]
    if a[0] == "adr":
        return cloc(st, a[1], b[1], attrs)
    return a == b


def cloc(st, a, b, attrs):
    if a == b:
        return True
    if a[0] != b[0]:
        return False
    if a[0] == "f":
        return a[2] == b[2] and cloc(st, a[1], b[1], attrs)
    if a[0] == "ix":
        return cloc(st, a[1], b[1], attrs) and cong(st, a[2], b[2], attrs)
    if a[0] == "deref":
        return cong(st, a[1], b[1], attrs)
    return False


def content_equal(st, a, b):
    for t, v in st.cst.items():
        if t[0] == "call" and t[1] in ("strcmp", "memcmp", "strncmp") and v == 0 and (t[2], t[3]) in ((a, b), (b, a)):
            return t
    for t, v in list(st.neq.items()):
        if t[0] == "call" and t[1] == "streq" and 0 in v and (t[2], t[3]) in ((a, b), (b, a)):
            return t
    return None


def attr_facts(st):
    out = []
    for t in list(st.neq):
        if t[0] == "call" and t[1] == "*ir_op_ops.attrs_equal" and 0 in st.neq[t]:
            out += [(t[2], t[3]), (t[3], t[2])]
    for t, v in st.cst.items():
        if t[0] == "call" and t[1] == "*ir_op_ops.attrs_equal" and v:
            out += [(t[2], t[3]), (t[3], t[2])]
    return out


class CmpClient(EqClient):
    def __init__(self, P, nelts=None):
        super().__init__(P, opaque=OPQ | NODEFN | {"block_dominates", "block_postdominates", "ir_deepest_common_dominator", "skip_Id"}, nelts=nelts)

    def inline(self, ip, n, F, fr):
        return n not in self.opaque

    def call(self, ip, st, c, n, args, fr):
        return None


def free(t, out, bound):
    """Atoms of a term that are not the key or constants."""
    if t in bound:
        return
    k = t[0]
    if k in ("p", "any", "phi", "site"):
        out.add(t)
        return
    if k in ("c", "s", "fn"):
        return
    if k == "var" or k == "sv" or k == "gv":
        if k == "var":
            out.add(t)
        return
    for x in t[1:]:
        if isinstance(x, tuple):
            free(x, out, bound)


def run():
    P = Program("release")
    rep = Report("C02", "hash(a) == hash(b) follows by congruence on every path on which compare(a, b) reports equality, at every insert and lookup", META["note"])
    # ---- comparison functions of the tables, by the member/variable they are assigned to
    tables = {}       # table name -> set of cmp (name, file)
    bytype = {}       # key record -> set of cmp
    for F in P.all:
        for holder, c in creations(F.body):
            n = callee_name(c)
            a = strip(c[4][0])
            while a[0] == "u" and a[2] == "&":
                a = strip(a[3])
            if a[0] != "v" or a[4] != "f":
                continue
            if a[2] in ("memcmp",):
                tables.setdefault((n, holder), set()).add(("memcmp", None))
                continue
            G = P.resolve(a[2], F.file)
            if G is None:
                raise AnalysisError(f"comparison function {a[2]} not found")
            rep.count("tables")
            if holder:
                tables.setdefault((n, holder), set()).add((G.name, G.file))
            for T in keytypes(P, G):
                bytype.setdefault(T, set()).add((G.name, G.file))
    cache = {}

    def cmppaths(nf, nelts=None):
        if (nf, nelts) not in cache:
            G = P.resolve(nf[0], nf[1]) or P.func(nf[0])
            cache[nf, nelts] = (G, paths(P, G, [("p", i) for i in range(len(G.params))], CmpClient(P, nelts), want=False))
        return cache[nf, nelts]
    forms = {}
    # ---- insert / lookup sites
    for F in P.all:
        cs = [c for c in calls(F.body) if callee_name(c) in SEARCH]
        if not cs or F.name in SEARCH or F.file.endswith(("adt/pset.c", "adt/set.c", "adt/pset.h", "adt/set.h")):
            continue
        res = None
        for ms in (2, 16):
            cl = SiteClient(P)
            cl.maxs = ms
            ip = Interp(P, cl)
            ip.run(F, [("p", i) for i in range(len(F.params))], State())
            seen = {}
            for G, c, st, args in cl.sites:
                if G is F:
                    seen.setdefault(id(c), []).append((c, st, args))
            rec = Recorder()
            for occ in seen.values():
                for c, st, args in occ:
                    site(P, rec, F, c, st, args, tables, bytype, cmppaths)
            if res is None or len(rec.badkeys) < len(res.badkeys):
                res = rec
            if not rec.badkeys:
                break
        rep.count("sites", len(seen))
        res.replay(rep)
        for t, d in res.forms.items():
            forms.setdefault(t, {}).update(d)
    for (cf, kind), d in forms.items():
        agree(rep, cf, d)
    nodes(P, rep)
    rep.floor("tables", 20)
    rep.floor("sites", 60)
    return rep.finish()


def normal(g):
    """Fields of a key that is built in place are fields of the key."""
    if not isinstance(g, tuple):
        return g
    if g[0] == "proj" and g[1][0] in ("undef", "joined"):
        return ("ld", ("f", ("deref", ("p", "K")), g[2]))
    g = tuple(normal(x) for x in g)
    if g[0] == "op" and g[1] in ("+", "*", "^", "&", "|") and str(g[2]) > str(g[3]):
        g = (g[0], g[1], g[3], g[2]) + g[4:]
    return g


def consts(st, key, K):
    """Fields of the key with a constant value."""
    loc = key[1] if key[0] == "adr" else ("deref", key)
    out = {}
    for l, v in st.mem.items():
        if v[0] == "c" and l[0] == "f" and l[1] == loc:
            out[("ld", ("f", ("deref", K), l[2]))] = v
        if l == loc and v[0] == "agg":
            for f, w in v[1]:
                if w[0] == "c" and isinstance(f, str):
                    out[("ld", ("f", ("deref", K), f))] = w
    return out


def evalc(g, cs):
    if g in cs:
        return cs[g]
    if g[0] == "op":
        a, b = evalc(g[2], cs), evalc(g[3], cs)
        if a[0] == "c" and b[0] == "c" and g[1] in ("+", "*", "^", "-", "&", "|"):
            return ("c", eval(f"{a[1]} {g[1]} {b[1]}"))
        r = ("op", g[1], a, b) + g[4:]
        if g[1] == "+" and ("c", 0) in (a, b):
            return a if b == ("c", 0) else b
        return normal(r)
    if g[0] in ("call", "op1"):
        return tuple(evalc(x, cs) if isinstance(x, tuple) else x for x in g)
    return g


def agree(rep, cf, d):
    """All sites of the tables with one comparison function compute the same hash from the key."""
    sites = list(d.items())
    # the most general form: the one with the fewest constant key fields
    ref = min(sites, key=lambda x: len(x[1][1]))
    for (where, _i, k), (gs, cs) in sites:
        A = {evalc(g, cs) for g in gs}
        B = {evalc(g, cs) for g in ref[1][0]}
        if A == B or len(gs) > 1 or len(ref[1][0]) > 1:
            rep.ok()
            rep.count("sites_agreeing")
        else:
            rep.bad(f"{k}:agree", where, f"the hash is computed differently from the one at {ref[0][0]}, although both tables compare keys with {cf[0]}")


class Recorder:
    """Collects the verdicts of one function so that it can be repeated with more precision."""

    def __init__(self):
        self.log, self.badkeys, self.forms = [], set(), {}

    def hashof(self, cf, kind, F, c, where, k, g, cs):
        d = self.forms.setdefault((cf, kind), {}).setdefault((where, id(c), k), [set(), cs])
        d[0].add(normal(g))
        d[1] = {x: y for x, y in cs.items() if d[1].get(x) == y}

    def ok(self, *a):
        self.log.append(("ok", a))

    def count(self, *a):
        self.log.append(("count", a))

    def bad(self, *a):
        self.badkeys.add(a[:2])
        self.log.append(("bad", a))

    def replay(self, rep):
        for k, a in self.log:
            getattr(rep, k)(*a)


def creations(body):
    """(name of the member or variable a new table is stored in, creating call)"""
    done = set()
    for x in walk(body):
        if x[0] == "a" and x[2] == "=":
            l, r = strip(x[3]), x[4]
            nm = l[3] if l[0] == "m" else (l[2] if l[0] == "v" else None)
        elif x[0] == "D":
            for d in x[2]:
                if d[4] is not None:
                    for c in calls(d[4]):
                        if callee_name(c) in ("new_set", "new_pset") and id(c) not in done:
                            done.add(id(c))
                            yield d[1], c
            continue
        else:
            continue
        for c in calls(r):
            if callee_name(c) in ("new_set", "new_pset") and id(c) not in done:
                done.add(id(c))
                yield nm, c
    for c in calls(body):
        if callee_name(c) in ("new_set", "new_pset") and id(c) not in done:
            yield None, c


def keytypes(P, G):
    out = set()
    for x in walk(G.body):
        if x[0] == "k":
            T = rectype(x[1])
            if T:
                out.add(T)
        elif x[0] == "D":
            for d in x[2]:
                T = rectype(d[3])
                if T and d[4] is not None and strip(d[4])[0] == "v":
                    out.add(T)
    return out


def tablename(t):
    if t[0] == "ld":
        l = t[1]
        if l[0] == "f":
            return l[2].split(".")[-1]
        if l[0] in ("gv", "sv"):
            return l[1]
    return None


def site(P, rep, F, c, st, args, tables, bytype, cmppaths):
    kind = callee_name(c)
    h, key, where = args[SEARCH[kind]], args[1], f"{short(F.file)}:{c[2]}"
    K = ("p", "K")
    T = rectype(c[4][1][1])
    name = tablename(args[0])
    # the comparison functions this table may have
    new = "new_set" if kind == "_set_search" else "new_pset"
    cands = set()
    if args[0][0] == "call" and args[0][1] in ("new_pset", "new_set") and args[0][2][0] == "fn":
        n = args[0][2][1]
        G = P.resolve(n, F.file)
        cands = {(G.name, G.file)} if G is not None else {(n, None)}
    elif (new, name) in tables:
        cands = tables[new, name]
        if T and len(cands) > 1:
            cands = {x for x in cands if T in keytypes(P, P.resolve(x[0], x[1]) or P.func(x[0]))} or cands
    elif kind == "_set_search" and T in bytype:
        cands = bytype[T]
    if len(cands) > 1:
        cands = {x for x in cands if x[1] == F.file} or cands
    k = f"{F.name}:{name or T or 'table'}"
    if ("memcmp", None) in cands:
        if h == ("call", "hash_data", key, args[2]):
            rep.ok({"site": where, "table": name, "equality": "memcmp over the whole key"})
        else:
            rep.bad(k, where, f"the key is compared byte by byte, but its hash is not computed from exactly those bytes")
        return
    m = {}
    if key[0] == "adr":
        m = fieldmap(st, key[1], K)
        m[key] = K
    else:
        m = fieldmap(st, ("deref", key), K)
        m[key] = K
    g = subst(h, m)
    fr = set()
    free(g, fr, {K})
    if fr:
        if DEBUG:
            print(where, "FREE", [str(x)[:100] for x in fr], "M", {str(a)[:60]: str(b)[:60] for a, b in m.items()}, "H", str(h)[:300])
        # values stored into the key are also readable through it
        rep.bad(k, where, f"the hash passed for table {name or ''} depends on a value that is not part of the key ({T or 'pointer'})")
        return
    if changing(g):
        rep.bad(k, where, f"the hash passed for table {name or ''} depends on {changing(g)}, which changes while the key is in the table")
        return
    for cf in cands:
        rep.hashof(cf, kind, F, c, where, k, g, consts(st, key, K))
    ptrhash = ("call", "hash_ptr", K)
    if not cands:
        if g == ptrhash:
            rep.ok()
            rep.count("pointer_tables")
        else:
            rep.count("unassociated")
        return
    if any(True for t in allterms(g) if t[0] == "call" and t[1] == "*ir_op_ops.hash" and t[2] == K):
        rep.ok()     # node hash callback: decided per opcode below
        rep.count("node_tables")
        return
    for cf in cands:
        G, ps = cmppaths(cf)
        if g[0] == "call" and g[1] not in OPQ and g[2:] == (K,):
            loop_hash(P, rep, k, where, F, g[1], G, ps)
            continue
        ha, hb = subst(g, {K: ("p", 0)}), subst(g, {K: ("p", 1)})
        bad = [s for s in ps if not cong(s, ha, hb, attr_facts(s))]
        if not ps:
            raise AnalysisError(f"{G.name} never reports equality")
        if bad:
            if DEBUG:
                print(where, "H", str(ha)[:300], "R", [str(x)[:200] for x in bad[0].rel], "C", [str(x)[:200] for x in bad[0].cst])
            rep.bad(k, where, f"two keys that {G.name} ({G.loc}) reports equal may get different hashes here")
        else:
            rep.ok({"site": where, "table": name, "compare": G.name, "paths": len(ps)})


# state of a node that changes while the node is in a table
CHANGES = re.compile(r"^(get_irn_n_edges(_kind)?|get_irn_link|get_irn_visited|irn_visited|get_irn_out_edge_first(_kind)?|get_irn_n_outs|get_Block_block_visited|get_Block_dom_depth|get_Block_dom_tree_pre_num|get_Phi_next|get_irn_dbg_info)_?$")
CHFIELD = {"ir_node.link", "ir_node.visited", "ir_node.edge_info", "irn_edge_info_t.out_count", "irn_edge_info_t.outs_head", "ir_node.o", "ir_node.dbi"}


def changing(g):
    """what a hash reads that may change between insertion and lookup"""
    for t in allterms(g):
        if t[0] == "call" and isinstance(t[1], str) and CHANGES.match(t[1]):
            return t[1]
        if t[0] == "f" and len(t) == 3 and t[2] in CHFIELD:
            return t[2]
    return None


def loop_hash(P, rep, k, where, F, fn, G, ps):
    """A hash function that iterates over the key: everything it reads must be below what the comparison compares."""
    H = P.resolve(fn, F.file)
    if H is None:
        raise AnalysisError(f"hash function {fn} not found")
    rd = set()
    for x in walk(H.body):
        if x[0] == "m" and strip(x[2])[0] == "v" and strip(x[2])[4] == "p":
            rd.add(x[3])
    for s in ps:
        cmpd = set()
        for t, v in list(s.cst.items()) + [(r, 0) for r in s.rel if r[0] == "=="]:
            for u in allterms(t):
                if len(u) == 3 and u[0] == "f" and u[1] in (("deref", ("p", 0)), ("deref", ("p", 1))):
                    cmpd.add(u[2].split(".")[-1])
        if rd - cmpd:
            rep.bad(k, where, f"{fn} ({H.loc}) reads {', '.join(sorted(rd - cmpd))}, which {G.name} ({G.loc}) does not compare")
            return
    rep.ok({"site": where, "hash": fn, "compare": G.name, "reads": sorted(rd)})


def allterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from allterms(x)


def fieldmap(st, loc, K):
    m = {}
    for l, v in st.mem.items():
        p, x = [], l
        while x != loc and x[0] in ("f", "ix"):
            p.append(x)
            x = x[1]
        if x != loc:
            continue
        if not p:
            # whole object stored
            if v[0] == "agg":
                for f, w in v[1]:
                    if w[0] != "c" and isinstance(f, str):
                        m.setdefault(w, ("ld", ("f", ("deref", K), f)))
            continue
        k = ("deref", K)
        for y in reversed(p):
            k = (y[0], k, y[2])
        if v[0] == "c":
            continue
        m.setdefault(v, ("ld", k))
    return m


class HashClient(IdClient):
    """Node hash functions: node accessors opaque, one run per global-CSE setting."""

    def __init__(self, P, nelts, gcse, cfop):
        super().__init__(P, nelts=nelts)
        self.gcse, self.cfop = gcse, cfop

    def inline(self, ip, n, F, fr):
        return n not in OPQ

    def call(self, ip, st, c, n, args, fr):
        m = n.rstrip("_") if n else None
        if m == "get_opt_global_cse":
            return [(st, ("c", self.gcse))]
        if m == "is_cfop":
            return [(st, ("c", self.cfop))]
        if m == "get_irn_n" and args[1] == ("c", -1):
            return [(st, ("call", "get_nodes_block", args[0]))]
        return super().call(ip, st, c, n, args, fr)


def nodes(P, rep):
    """Node hash callbacks against the identity comparison of the value table."""
    reg = ops.registry(P)
    fns = {"default_hash_node": None}
    dflt = default_hash(P)
    fns = {dflt: ["(default)"]}
    for n, o in reg.ops.items():
        if o.get("hash"):
            fns.setdefault(o["hash"][1], []).append(n)
    cmpf = None
    for F in P.all:
        for c in calls(F.body):
            if callee_name(c) == "new_pset" and any(h == "value_table" for h, c2 in creations(F.body) if c2 is c):
                G = P.resolve(strip_fn(c[4][0]), F.file)
                if G is None:
                    continue
                states = paths(P, G, [("p", 0), ("p", 1)], IdClient(P, nelts=2), want=False)
                for fn, names in fns.items():
                    H = P.func(fn)
                    rep.count("node_hashes")
                    ok = True
                    for gcse in (0, 1):
                        for cfop in (0, 1):
                            ip = Interp(P, HashClient(P, 2, gcse, cfop))
                            for st, v in ip.run(H, [("p", 0)], State()):
                                if changing(v):
                                    ok = False
                                w = subst(v, {("p", 0): ("p", 1)})
                                for s in states:
                                    if s.cmp("==", ("p", 0), ("p", 1)) is True:
                                        continue
                                    g = s.truth(("call", "get_opt_global_cse"))
                                    if g is not None and g != bool(gcse):
                                        continue
                                    # control flow nodes are always pinned
                                    if cfop and s.truth(("call", "get_irn_pinned", ("p", 0))) is False:
                                        continue
                                    if cfop and not any(mentions(k, lambda t: t == ("call", "get_irn_pinned", ("p", 0))) for k in list(s.cst) + list(s.neq)):
                                        if g is None and not known_equal(s, ("call", "get_nodes_block", ("p", 0)), ("call", "get_nodes_block", ("p", 1))):
                                            continue
                                    if g is None and not gcse:
                                        continue
                                    if not cong(s, v, w, attr_facts(s)):
                                        ok = False
                    if ok:
                        rep.ok({"hash": fn, "compare": G.name, "opcodes": names[:5]})
                    else:
                        rep.bad(f"node:{fn}:{G.name}", H.loc, f"{fn} ({', '.join(names[:4])}) may differ for two nodes that {G.name} reports identical")
    rep.floor("node_hashes", 4)


def strip_fn(a):
    a = strip(a)
    while a[0] == "u" and a[2] == "&":
        a = strip(a[3])
    return a[2] if a[0] == "v" and a[4] == "f" else None


def default_hash(P):
    """The hash callback a new opcode starts with."""
    F = P.func("new_ir_op")
    for x in walk(F.body):
        if x[0] == "a" and strip(x[3])[0] == "m" and strip(x[3])[3] == "hash":
            n = strip_fn(x[4])
            if n:
                return n
    raise AnalysisError("default hash callback not found")


if __name__ == "__main__":
    main("C02", run)
