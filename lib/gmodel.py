"""Abstract interpretation over a given small graph: the functions under analysis are evaluated from their source,
the accessors of the graph and the containers are answered from the graph. Nodes are distinct addresses."""
from absint import Interp, Client, State, isc, C0, C1
from prog import AnalysisError

BASE = 0x10000


class Graph:
    """nodes: name -> {op, ins, block, ...}"""
    def __init__(self, nodes, **attr):
        self.nodes = nodes
        self.num = {n: BASE + 64 * i for i, n in enumerate(nodes)}
        self.byaddr = {a: n for n, a in self.num.items()}
        self.attr = attr

    def t(self, n):
        return C0 if n is None else ("c", self.num[n])

    def node(self, t):
        return self.byaddr.get(t[1]) if t[0] == "c" else None

    def get(self, t, a, d=None):
        n = self.node(t)
        return d if n is None else self.nodes[n].get(a, d)


def lookup(st, k):
    for e in st.cl:
        if e[0] == k:
            return e[1]
    return None


def put(st, k, v):
    s = st.copy()
    s.cl = frozenset([e for e in s.cl if e[0] != k] + [(k, v)])
    return s


def c(v):
    return ("c", int(v))


class Model(Client):
    maxs, maxdepth, unroll, recursion = 2000, 8, 40, 3

    def __init__(self, P, G, file, extra=None, mem=None):
        self.P, self.G, self.extra, self.mem = P, G, extra or {}, mem or {}
        self.files = {file}
        self.unknown = set()

    def inline(self, ip, n, F, fr):
        return F.file in self.files

    def load(self, ip, st, loc, fr):
        if loc in self.mem:
            return self.mem[loc]
        return None

    def walk(self, ip, st, fr, nodes, fns, env):
        """Every node: first the function before, then the one behind its operands (any order is allowed)."""
        for n in nodes:
            for f in fns:
                if f == C0:
                    continue
                if f[0] != "fn":
                    raise AnalysisError("a walker callback is not understood")
                F = self.P.resolve(f[1], fr.F.file)
                out = []
                for s in [st] if isinstance(st, State) else st:
                    out += [s2 for s2, _ in ip.run(F, [self.G.t(n), env], s, fr)]
                st = out
        return [(s, ("void",)) for s in ([st] if isinstance(st, State) else st)]

    def call(self, ip, st, cx, n, args, fr):
        if n is None:
            return [(st, ("call", "?") + tuple(args))]
        if n.startswith("__assert") or n in self.P.noreturn or n == "panic":
            return []
        m = n.strip("_")
        G = self.G
        for k in (n, m):
            if k in self.extra:
                v = self.extra[k]
                if callable(v):
                    v = v(self, ip, st, args, fr)
                    if isinstance(v, list):
                        return v
                return [(st, v)]
        a = args[0] if args else None
        if m in ("irg_walk_graph", "irg_walk_anchors", "irg_walk_in_or_dep_graph", "irg_walk_topological"):
            return self.walk(ip, st, fr, G.attr.get("walk", list(G.nodes)), args[1:3], args[3])
        if m in ("irg_block_walk_graph",):
            return self.walk(ip, st, fr, G.attr.get("blockwalk", [x for x in G.nodes if G.nodes[x]["op"] == "Block"]), args[1:3], args[3])
        # containers
        if m in ("pmap_create", "pmap_create_ex", "pset_new"):
            return [(st, ("new", m, cx[2]))]
        if m == "pmap_insert":
            return [(put(st, ("map", args[0], args[1]), args[2]), ("void",))]
        if m in ("pmap_get", "pmap_find"):
            return [(st, lookup(st, ("map", args[0], args[1])) or C0)]
        if m == "pmap_contains":
            return [(st, c(lookup(st, ("map", args[0], args[1])) is not None))]
        if m in ("ir_nodeset_insert",):
            return [(put(st, ("set", args[0], args[1]), C1), c(lookup(st, ("set", args[0], args[1])) is None))]
        if m in ("ir_nodeset_contains",):
            return [(st, c(lookup(st, ("set", args[0], args[1])) is not None))]
        if m in ("ir_nodeset_init", "ir_nodeset_destroy", "pmap_destroy", "ir_nodeset_init_size"):
            s = st.copy()
            s.cl = frozenset(e for e in s.cl if not (e[0][0] in ("set", "map") and e[0][1] == a))
            return [(s, ("void",))]
        if m == "ir_nodeset_remove":
            s = st.copy()
            s.cl = frozenset(e for e in s.cl if e[0] != ("set", args[0], args[1]))
            return [(s, ("void",))]
        if m in ("bitset_set", "bitset_clear", "bitset_flip"):
            k = ("bit", args[0], args[1])
            return [(put(st, k, c({"bitset_set": 1, "bitset_clear": 0}.get(m, lookup(st, k) in (None, C0)))), ("void",))]
        if m == "bitset_is_set":
            return [(st, lookup(st, ("bit", args[0], args[1])) or C0)]
        if m in ("bitset_init", "alloca", "builtin_alloca", "bitset_total_size", "bitset_obstack_alloc", "bitset_malloc"):
            return [(st, ("new", m, cx[2]))]
        # the graph
        nm = G.node(a) if a is not None else None
        if nm is not None:
            nd = G.nodes[nm]
            if len(args) == 1 and m.startswith("is_") and m[3:4].isupper():
                return [(st, c(nd["op"] == m[3:]))]
            if m == "get_irn_opcode":
                return [(st, c(self.P.econst["iro_" + nd["op"]][0]))]
            if m in ("get_irn_arity", "get_Block_n_cfgpreds", "get_Phi_n_preds", "get_End_n_keepalives", "get_Sync_n_preds"):
                return [(st, c(len(nd["ins"])))]
            if m == "get_Block_cfgpred_block" and isc(args[1]) and 0 <= args[1][1] < len(nd["ins"]):
                p = nd["ins"][args[1][1]]
                return [(st, C0 if G.nodes[p]["op"] == "Bad" else G.t(G.nodes[p]["block"]))]
            if m in ("get_irn_n", "get_Block_cfgpred", "get_Phi_pred", "get_End_keepalive", "get_Sync_pred") and isc(args[1]):
                if not 0 <= args[1][1] < len(nd["ins"]):
                    return []
                return [(st, G.t(nd["ins"][args[1][1]]))]
            if m in ("get_nodes_block", "get_block", "get_block_const"):
                return [(st, G.t(nd["block"]))]
            if m == "get_Proj_num":
                return [(st, c(nd["pn"]))]
            if m in ("get_Proj_pred",):
                return [(st, G.t(nd["ins"][0]))]
            if m == "skip_Proj":
                return [(st, G.t(nd["ins"][0]) if nd["op"] == "Proj" else a)]
            if m in ("skip_Tuple", "skip_Id"):
                return [(st, a)]
            if m in ("get_irn_irg",):
                return [(st, ("new", "graph"))]
            if m == "get_irn_idx":
                return [(st, c(list(G.nodes).index(nm)))]
            if m == "is_unknown_jump":
                return [(st, c(nd["op"] in ("IJmp", "ASM")))]
            if m == "is_cfop":
                return [(st, c(nd.get("cfop", nd["op"] in ("Jmp", "Cond", "Switch", "Return", "IJmp", "Raise"))))]
            if m == "get_Block_matured":
                return [(st, c(nd.get("matured", 1)))]
        if m.startswith("get_irg_") and m[8:] in G.attr:
            return [(st, G.t(G.attr[m[8:]]))]
        if n in ("fputs", "fprintf", "ir_fprintf", "ir_vfprintf", "vfprintf", "fputc", "ir_printf", "printf"):
            return [(st, C0)]
        F = self.P.resolve(n, fr.F.file)
        if F is not None and F.file in self.files:
            return None
        self.unknown.add(n)
        return [(st, ("call", n) + tuple(args))]


def verdicts(P, F, args, model):
    """Set of truth values of the result (None: undecided)."""
    st = State()
    st.cl = frozenset()
    ip = Interp(P, model)
    res = ip.run(F, args, st)
    return {s.truth(v) if v is not None else None for s, v in res}
