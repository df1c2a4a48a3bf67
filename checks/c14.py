"""C14: the recorded uses (out edges) of a graph are its operands, after every operation that changes operands."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from prog import Program, AnalysisError, walk, callee_name, strip, short, show
from report import Report, main
import absint
from absint import Interp, Client, State, isc, C0, C1, deref, rootof

META = {
    "title": "Recorded uses of a node are exactly the operands that refer to it",
    "statement": "While out edges are activated (edges_activate, assure_edges), the edges recorded at a node (get_irn_out_edge_first/next, foreach_out_edge, get_irn_n_edges; foreach_block_succ for blocks) are exactly the pairs of a user and an operand position that refer to the node, each once, and the edge count equals their number - after every operation that creates a node, sets, adds, replaces or removes operands, blocks or keep-alives, reroutes or exchanges nodes, kills a node, finds it again by common subexpression elimination, or matures a block (a block still under construction, before it is matured, aside). A killed node uses nothing. No function changes an operand behind the back of the edges, and no node is given back to the allocator with edges recorded. Likewise the def-use arrays of compute_irg_outs/assure_irg_outs list exactly those pairs for the users reachable from End (get_irn_out_ex, get_Block_cfg_out and their counts agree with them), and a graph no longer claims consistent outs once an operand was set, added, replaced or removed, nor consistent loops once predecessors of a block were.",
    "over": ["histories", "inputs"],
    "quant": "for every graph and every sequence of changes to it",
    "why": "Nearly all optimisations and the whole back end find users through out edges; an edge that is missing or stale makes exchange() leave a user behind, in some later pass, on some input.",
    "files": ["ir/ir/iredges.c", "ir/ir/iredges_t.h", "ir/ir/irnode.c", "ir/ir/irgmod.c", "ir/ir/ircons.c", "ir/opt/iropt.c", "ir/ana/irouts.c", "include/libfirm/adt/list.h"],
    "mech": [("edges", "ir/ir/iredges.c"), ("outs", "ir/ana/irouts.c compute_irg_outs"), ("operands", "ir/ir/irnode.c new_ir_node, set_irn_n, set_irn_in, add_irn_n, set_End_keepalives, ...; ir/ir/irgmod.c exchange, kill_node; ir/ir/ircons.c mature_immBlock")],
    "technique": "abstract interpretation of the operations on abstract graphs (nodes, operand arrays, edge lists and sets as distinct symbols), checked against operands = edges at the end; who-writes query for operand arrays; must-precede dataflow for node deallocation",
    "note": "Each operation is evaluated for all positions and arities up to three, on nodes, blocks and jumps; hash set, arrays and walkers are answered by their contracts. The operations change only the slots named by their arguments, so larger arities repeat the same steps.",
}
FILES = ("ir/ir/iredges.c", "ir/ir/iredges_t.h", "ir/ir/irnode.c", "ir/ir/irnode_t.h", "ir/ir/irgmod.c", "ir/ir/ircons.c", "include/libfirm/adt/list.h", "ir/adt/list.h", "ir/ir/irgraph_t.h", "ir/ana/irouts.c", "ir/ana/irouts_t.h")
# These write operand slots without telling the edges, for a reason.
UNTOLD = {
    "get_irn_n_": "replaces an Id node by what it stands for; Id nodes exist only while edges are off",
    "skip_Id": "shortens chains of Id nodes; Id nodes exist only while edges are off",
    "new_r_Anchor": "the anchor uses itself as its block",
    "free_End": "the graph is freed",
    "add_immBlock_pred": "the block is under construction",
    "optimize_node": "the operands of a temporary copy, for statistics",
}


def cmp(self, op, a, b, old=State.cmp):
    a, b = self.val(a), self.val(b)
    if op in ("==", "!=") and a != b:
        ra, rb = a[0] in ("adr", "s"), b[0] in ("adr", "s")
        if ra and rb:
            return op == "!="
    return old(self, op, a, b)


class Ip(Interp):
    """Distinct symbols are distinct objects; list_entry() leads back to the edge."""
    def arith(self, op, a, b, ty, st=None):
        if op == "-" and isc(b) and a[0] == "adr" and a[1][0] == "f":
            loc, rec, _ = a[1][1], *a[1][2].rpartition(".")[::2]
            R = self.P.records.get(rec)
            f = R.by.get(a[1][2].rpartition(".")[2]) if R is not None else None
            if f is not None and f[3] // 8 == b[1] and loc[0] == "deref":
                return loc[1]
            if f is not None and f[3] == b[1] and loc[0] == "deref":
                return loc[1]
        return Interp.arith(self, op, a, b, ty, st)


def S(n):
    return ("s", n)


class Heap(Client):
    maxs, maxdepth, unroll, recursion = 60, 14, 60, 6
    count = 0

    def __init__(self, P, kinds, identities=()):
        self.P, self.kinds = P, kinds
        self.identities = identities
        self.files = {F.file for F in P.all if short(F.file) in FILES}
        self.visited, self.failed, self.attrs = set(), [], {}
        self.caps, self.grown = {}, None     # object -> size in bytes

    def inline(self, ip, n, F, fr):
        if F.file in self.files or F.static:
            self.visited.add((F.name, F.file))
            return True
        return False

    def fresh(self, ip, st, what):
        st = st.copy()
        cl = dict(st.cl)
        k = cl.get("ctr", 0)
        cl["ctr"] = k + 1
        st.cl = frozenset(cl.items())
        t = S(f"{what}{k}")
        return st, t

    def put(self, st, **kv):
        st = st.copy()
        cl = dict(st.cl)
        for k, v in kv.items():
            cl[k] = v
        st.cl = frozenset(cl.items())
        return st

    def elem(self, arr, i):
        return deref(arr) if i == 0 else ("ix", deref(arr), ("c", i))

    def arrlen(self, st, arr):
        return dict(st.cl).get(("len", arr))

    def setlen(self, st, arr, n):
        cl = dict(st.cl)
        cl[("len", arr)] = n
        st.cl = frozenset(cl.items())

    def store(self, ip, st, loc, val, line, fr):
        if loc[0] == "f" and loc[2] == "obstack.next_free" and isc(val) and val[1] > 0:
            self.grown = val[1]     # the size of the object being allocated

    def load(self, ip, st, loc, fr):
        if loc[0] == "gv":
            if loc[1] in ("mode_X", "mode_T", "mode_BB", "mode_M", "mode_ANY") or loc[1].startswith("op_"):
                return S(loc[1])
            if loc[1] in ("edges_dbg",):
                return C0
        if loc[0] == "f" and loc[2].startswith("obstack."):
            if loc[2] == "obstack.object_base":
                self.count += 1     # the next object
                self.caps[f"obj{self.count}"], self.grown = self.grown, None
                return S(f"obj{self.count}")
            return C0
        if loc[0] == "f" and loc[2].rpartition(".")[2] in self.attrs:
            return self.attrs[loc[2].rpartition(".")[2]]
        if rootof(loc)[0] == "gv" and "hook" in str(rootof(loc)[1]):
            return C0
        return None

    def kind(self, st, t):
        if t[0] != "s":
            return None
        v = st.mem.get(("f", deref(t), "ir_node.op"))
        if v is not None and v[0] == "s" and v[1].startswith("op_"):
            return v[1][3:]
        return self.kinds.get(t[1])

    def call(self, ip, st, cx, n, args, fr):
        if n is None:
            return None
        m = n.strip("_")
        if n.startswith("__assert"):
            self.failed.append((fr.F, cx[2]))
            return []
        if n in self.P.noreturn or n == "panic":
            self.failed.append((fr.F, cx[2]))
            return []
        a = args[0] if args else None
        if m in ("ir_edgeset_init", "ir_edgeset_init_size", "ir_edgeset_destroy"):
            s = st.copy()
            s.cl = frozenset(e for e in s.cl if not (e[0][0] == "set" and e[0][1] == a))
            return [(s, ("void",))]
        if m in ("ir_edgeset_insert", "ir_edgeset_find", "ir_edgeset_remove"):
            o = deref(args[1])
            key = ("set", a, ip.read(st, ip.field(o, "ir_edge_t", "src"), fr), ip.read(st, ip.field(o, "ir_edge_t", "pos"), fr))
            cl = dict(st.cl)
            if m == "ir_edgeset_find":
                return [(st, cl.get(key, C0))]
            if m == "ir_edgeset_insert":
                if key in cl:
                    return [(st, cl[key])]
                cl[key] = args[1]
            else:
                cl.pop(key, None)
            s = st.copy()
            s.cl = frozenset(cl.items())
            return [(s, args[1] if m.endswith("insert") else ("void",))]
        if m == "ir_edgeset_size":
            return [(st, ("c", sum(1 for e in st.cl if e[0][0] == "set" and e[0][1] == a)))]
        if m == "ARR_LEN":
            l = self.arrlen(st, a)
            if l is None:
                self.failed.append((fr.F, cx[2], "what is read is no operand array"))
                return []
            return [(st, ("c", l))]
        if m in ("ARR_SHRINKLEN", "ARR_SETLEN"):
            s = st.copy()
            self.setlen(s, a, args[1][1])
            return [(s, ("void",))]
        if m in ("ir_new_arr_f", "ir_new_arr_d"):
            k = args[-2]
            s, t = self.fresh(ip, st, "arr")
            self.setlen(s, t, k[1])
            return [(s, t)]
        if m in ("ir_arr_resize", "ir_arr_setlen"):
            s, t = self.fresh(ip, st, "arr")
            self.setlen(s, t, args[1][1])
            for i in range(min(self.arrlen(s, a) or 0, args[1][1])):
                v = ip.read(s, self.elem(a, i), fr)
                s.mem.pop(self.elem(a, i), None)
                s.mem[self.elem(t, i)] = v
            return [(s, t)]
        if m == "obstack_free" and "edges_obst" in str(a):
            s = st.copy()   # the unused edges are gone, too
            for l in list(s.mem):
                if "free_edges" in str(l):
                    del s.mem[l]
            return [(s, ("void",))]
        if m in ("ir_del_arr_f", "DEL_ARR_F", "hook_new_node", "hook_replace", "be_info_new_node", "fix_backedges", "verify_list_head", "obstack_free", "obstack_begin", "obstack_newchunk",
                 "firm_dbg_print", "firm_dbg_print_msg", "firm_dbg_make_msg", "firm_dbg_release_msg", "set_irn_dbg_info", "confirm_irg_properties", "set_irg_pinned",
                 "pset_new_init", "pset_new_destroy", "irn_verify", "verify_new_node", "set_optimize", "ir_free_resources", "ir_reserve_resources"):
            return [(st, C1 if m == "verify_list_head" else ("void",))]
        if m in ("builtin_alloca", "alloca", "malloc", "xmalloc"):
            return [self.fresh(ip, st, "arr")]
        if m in ("memcpy", "builtin_memcpy", "memmove", "safe_memcpy") and len(args) == 3:
            if not isc(args[2]):
                raise AnalysisError(f"copy of unknown size in {fr.F.name}")
            s = st.copy()
            vs = [ip.read(s, deref(ip.padd(args[1], ("c", i))), fr) for i in range(args[2][1] // 8)]
            for i, v in enumerate(vs):
                s.mem[deref(ip.padd(args[0], ("c", i)))] = v
            return [(s, args[0])]
        if m in ("pset_new_contains", "pset_new_insert"):
            cl = dict(st.cl)
            if m.endswith("contains"):
                return [(st, C1 if ("pset", a, args[1]) in cl else C0)]
            s = st.copy()
            cl[("pset", a, args[1])] = 1
            s.cl = frozenset(cl.items())
            return [(s, C1)]
        if m in ("irg_walk_anchors", "irg_walk_graph", "irg_block_walk_graph", "irg_walk"):
            return self.walk(ip, st, fr, [x for x in self.order if m != "irg_block_walk_graph" or self.kinds[x] == "Block"], args[1:3], args[3])
        if m == "visit_all_identities":
            return self.walk(ip, st, fr, self.identities, args[1:2], args[2])
        if m in ("get_irg_obstack",):
            return [(st, S("obst"))]
        if m == "irg_register_node_idx" or m == "get_irp_new_node_nr" or m == "get_irg_last_idx":
            return [(st, ("c", 7))]
        if m in ("irg_is_constrained", "get_optimize", "is_fragile_op", "get_Phi_loop"):
            return [(st, C0)]
        if m == "new_backedge_arr":
            return [self.fresh(ip, st, "obj")]
        if m == "get_irg_visited":
            return [(st, ip.read(st, ip.field(deref(a), "ir_graph", "visited"), fr))]
        if m == "inc_irg_visited":
            s = st.copy()
            l = ip.field(deref(a), "ir_graph", "visited")
            v = ip.read(st, l, fr)
            if not isc(v):
                raise AnalysisError("the visited counter is not known")
            s.mem[l] = ("c", v[1] + 1)
            return [(s, ("void",))]
        if m in ("clear_irg_properties", "add_irg_properties", "irg_has_properties"):
            l = ip.field(deref(a), "ir_graph", "properties")
            v = ip.read(st, l, fr)
            if not isc(v) or not isc(args[1]):
                raise AnalysisError(f"properties that are not known in {fr.F.name}")
            if m.startswith("irg"):
                return [(st, ("c", int((v[1] & args[1][1]) == args[1][1])))]
            s = st.copy()
            s.mem[l] = ("c", v[1] & ~args[1][1] if m.startswith("clear") else v[1] | args[1][1])
            return [(s, ("void",))]
        if m == "get_irg_end":
            return [(st, S("End"))]
        if m in ("optimize_in_place_2", "optimize_in_place", "optimize_node"):
            return [(st, a)]
        k = self.kind(st, a) if a is not None else None
        if k is not None:
            if m.startswith("is_") and m[3:4].isupper() and len(args) == 1:
                return [(st, ("c", int(k == m[3:])))]
            if m == "get_irn_irg":
                return [(st, S("IRG"))]
            if m == "get_irn_op":
                v = ip.read(st, ip.field(deref(a), "ir_node", "op"), fr)
                return [(st, v if v[0] == "s" else S("op_" + k))]
            if m == "get_irn_opcode":
                return [(st, ("c", self.P.econst["iro_" + k][0]))]
            if m == "is_cfop":
                return [(st, ("c", int(k in ("Jmp", "Return", "Cond"))))]
            if m == "skip_Proj" and k == "Proj":
                return [(st, ip.read(st, self.elem(ip.read(st, ip.field(deref(a), "ir_node", "in"), fr), 1), fr))]
            if m in ("skip_Tuple", "skip_Proj", "skip_Id"):
                return [(st, a)]
            if m == "get_irn_mode":
                return [(st, S({"Jmp": "mode_X", "Proj": "mode_X", "Cond": "mode_T", "Bad": "mode_X", "End": "mode_X", "Block": "mode_BB", "Tuple": "mode_T", "Call": "mode_T"}.get(k, "mode_Iu")))]
            if m == "is_irn_dynamic":
                return [(st, ("c", int(k in ("Sync", "End", "Block", "Phi"))))]
            if m in ("get_Block_matured", "get_Block_entity"):
                return [(st, C0)]
        if m in ("new_r_Bad",):
            s = st
            return [(s, S("Bad"))]
        F = self.P.resolve(n, fr.F.file)
        if F is not None and (F.file in self.files or F.static):
            return None
        if F is not None and F.key in self.editors():
            self.visited.add((F.name, F.file))
            return [(s2, v if v is not None else ("void",)) for s2, v in ip.run(F, args, st, fr)] if fr.depth < self.maxdepth else None
        if n in ("memset", "__builtin_memset", "__builtin_expect"):
            return None
        return [(st, ("call", n) + tuple(args))]    # changes no operand and no edge

    _ed = None

    def editors(self):
        """functions that reach an operation on operands or edges"""
        if Heap._ed is None:
            by = {}
            for F in self.P.all:
                for x in walk(F.body):
                    if x[0] == "c" and callee_name(x):
                        by.setdefault(callee_name(x), set()).add(F)
            Heap._ed, st = set(), ["edges_notify_edge", "edges_node_deleted", "edges_node_revival", "set_irn_n", "set_irn_in"]
            while st:
                for F in by.get(st.pop(), ()):
                    if F.key not in Heap._ed:
                        Heap._ed.add(F.key)
                        st.append(F.name)
        return Heap._ed

    def walk(self, ip, st, fr, nodes, fns, env):
        Fs = []
        for f in fns:
            F = self.P.resolve(f[1], fr.F.file) if f[0] == "fn" else None
            if F is None and f != C0:
                raise AnalysisError("a walker callback is not understood")
            if F is not None:
                self.visited.add((F.name, F.file))
            Fs.append(F)
        sts, seen = [st], set()
        def now(n):
            arr = ip.read(st, ip.field(deref(S(n)), "ir_node", "in"), fr)
            vs = [ip.read(st, self.elem(arr, i), fr) for i in range(self.arrlen(st, arr) or 0)]
            return [v[1] if v[0] == "s" else None for v in vs]
        def visit(n):
            nonlocal sts
            if n is None or n in seen or n not in nodes:
                return
            seen.add(n)
            for i in range(2):
                if i == 1:
                    for x in now(n):
                        if x is not None:
                            visit(x)
                            if x not in nodes:
                                visit(now(x)[0])
                if Fs[i:] and Fs[i] is not None:
                    sts = [s2 for s in sts for s2, _ in ip.run(Fs[i], [S(n), env], s, fr)]
        for n in nodes[::-1]:
            visit(n)
        return [(s, ("void",)) for s in sts]


def world(P, extra=()):
    """The abstract graph: name -> (kind, [block, operands...])."""
    g = {
        "B1": ("Block", [None]), "B2": ("Block", [None, "J1"]), "B3": ("Block", [None, "J1b", "J2"]),
        "J1": ("Jmp", ["B1"]), "J1b": ("Jmp", ["B1"]), "J2": ("Jmp", ["B2"]),
        "A": ("Add", ["B1", "C", "C"]), "C": ("Const", ["B1"]), "X": ("Sub", ["B2", "C", "A"]), "Y": ("Mul", ["B2", "X", "X"]),
        "Sy": ("Sync", ["B2", "A", "C", "X"]), "T": ("Call", ["B2", "A", "X"]), "Ph": ("Phi", ["B3", "A", "X"]),
        "End": ("End", ["B3", "A", "Sy", "A"]), "Bad": ("Bad", ["B1"]), "J3": ("Jmp", ["B3"]),
        "B4": ("Block", [None, "J3", "Bad"]), "U": ("Block", [None, "J3"]),
        "Cd": ("Cond", ["B1", "C"]), "P1": ("Proj", ["B1", "Cd"]), "P2": ("Proj", ["B1", "Cd"]), "B5": ("Block", [None, "P1", "P2", "P1"]),
    }
    for k, v in extra:
        g[k] = v
    return g


KINDS = ("EDGE_KIND_NORMAL", "EDGE_KIND_BLOCK")


class Check:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.visited = set()

    def infoloc(self, ip, node, k):
        p = ip.field(deref(node), "ir_node", "edge_info")
        return ("ix", p, ("c", k))

    def irginfo(self, ip, k):
        p = ip.field(deref(S("IRG")), "ir_graph", "edge_info")
        return ("ix", p, ("c", k))

    def rec(self, r):
        for n in (r, r + "_t"):
            if n in self.P.records:
                return n
        raise AnalysisError(f"record {r} not found")

    def head(self, ip, node, k):
        return ip.field(self.infoloc(ip, node, k), self.IRN, "outs_head")

    def build(self, g, edges=True, kinds=None, noedges=()):
        """the state: operand arrays and, if wanted, the recorded edges"""
        P = self.P
        cl = Heap(P, kinds or {n: v[0] for n, v in g.items()})
        cl.order, cl.graph = list(g), g
        ip = Ip(P, cl)
        st = State()
        d = {"ctr": 0}
        irg = deref(S("IRG"))
        bits = [P.econst[k][0] for k in ("IR_GRAPH_PROPERTY_CONSISTENT_OUTS", "IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO")]
        st.mem[ip.field(irg, "ir_graph", "properties")] = ("c", sum(bits))
        st.mem[ip.field(irg, "ir_graph", "visited")] = ("c", 5)
        st.mem[ip.field(irg, "ir_graph", "anchor")] = S("Anchor")
        for n, (k, ins) in g.items():
            st.mem[ip.field(deref(S(n)), "ir_node", "visited")] = ("c", 5)
            arr = S("in_" + n)
            st.mem[ip.field(deref(S(n)), "ir_node", "in")] = arr
            st.mem[ip.field(deref(S(n)), "ir_node", "op")] = S("op_" + k)
            st.mem[ip.field(deref(S(n)), "ir_node", "irg")] = S("IRG")
            st.mem[ip.field(deref(S(n)), "ir_node", "kind")] = ("c", P.econst["k_ir_node"][0])
            d["len", arr] = len(ins)
            for i, x in enumerate(ins):
                st.mem[cl.elem(arr, i)] = C0 if x is None else S(x)
        self.IRG, self.IRN = "irg_edge_info_t", "irn_edge_kind_info_t"
        for r in ("irn_edge_kind_info_t", "irn_edge_info_t"):
            if r in P.records:
                self.IRN = r
        for k in (0, 1):
            I = self.irginfo(ip, k)
            st.mem[ip.field(I, self.IRG, "activated")] = C1 if edges else C0
            st.mem[ip.field(I, self.IRG, "allocated")] = C1 if edges else C0
            fl = ip.field(I, self.IRG, "free_edges")
            if not edges:
                continue
            st.mem[ip.field(fl, "list_head", "next")] = st.mem[ip.field(fl, "list_head", "prev")] = ("adr", fl)
            lists = {n: [] for n in g}
            for (src, pos), t in self.expect(g, k).items():
                if src in noedges:
                    continue
                e = S(f"e{k}_{src}_{pos}")
                st.mem[ip.field(deref(e), "ir_edge_t", "src")] = S(src)
                st.mem[ip.field(deref(e), "ir_edge_t", "pos")] = ("c", pos)
                d["set", ("adr", ip.field(I, self.IRG, "edges")), S(src), ("c", pos)] = e
                lists[t].append(e)
            for n, es in lists.items():
                I2 = self.infoloc(ip, S(n), k)
                h = self.head(ip, S(n), k)
                st.mem[ip.field(I2, self.IRN, "edges_built")] = C0 if n in noedges else C1
                st.mem[ip.field(I2, self.IRN, "out_count")] = ("c", len(es))
                ring = [h] + [ip.field(deref(e), "ir_edge_t", "list") for e in es]
                for a, b in zip(ring, ring[1:] + ring[:1]):
                    st.mem[ip.field(a, "list_head", "next")] = ("adr", b)
                    st.mem[ip.field(b, "list_head", "prev")] = ("adr", a)
        st.cl = frozenset(d.items())
        return ip, cl, st

    def expect(self, g, k):
        out = {}
        for n, (kd, ins) in g.items():
            if kd == "Deleted":
                continue
            for i, x in enumerate(ins):
                if k == 0 and x is not None:
                    out[n, i - 1] = x
                if k == 1 and kd == "Block" and i > 0 and x is not None and g[x][0] not in ("Bad", "Deleted") and g[g[x][1][0]][0] != "Bad":
                    out[n, i - 1] = g[x][1][0]
        return out

    def operands(self, ip, cl, s, n):
        arr = ip.read(s, ip.field(deref(n), "ir_node", "in"))
        l = cl.arrlen(s, arr)
        if l is None:
            return None
        return [ip.read(s, cl.elem(arr, i)) for i in range(l)]

    def consistent(self, ip, cl, s, g, new=()):
        """None or what is wrong; g: node -> kind and operands as expected afterwards"""
        for n, (kd, ins) in g.items():
            if kd == "Deleted":
                continue
            o = self.operands(ip, cl, s, S(n))
            w = [C0 if x is None else S(x) for x in ins]
            if o is None or (sorted(map(str, o)) != sorted(map(str, w)) if n in self.anyorder else o != w):
                return f"the operands of {n} are {self.names(o)} instead of {self.names(w)}"
        # the edges that must exist now, from the operands as they are
        now = {n: (kd, [None if x == C0 else x[1] for x in self.operands(ip, cl, s, S(n))]) if kd != "Deleted" else (kd, ins) for n, (kd, ins) in g.items()}
        for k in (0, 1):
            want = self.expect(now, k)
            have = {}
            kn = ("", " (block successors)")[k]
            for n in g:
                if k == 1 and g[n][0] != "Block":
                    continue
                h = self.head(ip, S(n), k)
                p, prev, cnt = ip.read(s, ip.field(h, "list_head", "next")), h, 0
                while p != ("adr", h):
                    cnt += 1
                    if p[0] != "adr" or p[1][0] != "f" or p[1][2] != "ir_edge_t.list" or cnt > 40:
                        return f"the list of edges of {n}{kn} is broken"
                    if ip.read(s, ip.field(p[1], "list_head", "prev")) != ("adr", prev):
                        return f"the list of edges of {n}{kn} is broken backwards"
                    e = p[1][1]
                    src, pos = ip.read(s, ip.field(e, "ir_edge_t", "src")), ip.read(s, ip.field(e, "ir_edge_t", "pos"))
                    key = (src[1], pos[1]) if src[0] == "s" and isc(pos) else None
                    if key is None or key in have:
                        return f"{n} has an edge from {self.names([src])} position {pos[1] if isc(pos) else '?'} twice or from nowhere{kn}"
                    have[key] = n
                    if dict(s.cl).get(("set", ("adr", ip.field(self.irginfo(ip, k), self.IRG, "edges")), src, pos)) != e[1]:
                        return f"the edge {key[0]}:{key[1]} -> {n}{kn} is not in the set of edges"
                    prev, p = p[1], ip.read(s, ip.field(p[1], "list_head", "next"))
                if ip.read(s, ip.field(h, "list_head", "prev")) != ("adr", prev):
                    return f"the list of edges of {n}{kn} is broken backwards"
                if g[n][0] == "Deleted" and not cnt:
                    continue
                oc = ip.read(s, ip.field(self.infoloc(ip, S(n), k), self.IRN, "out_count"))
                if oc != ("c", cnt):
                    return f"{n} has {cnt} edges{kn}, but counts {oc[1]}"
            for key in want:
                if have.get(key) != want[key]:
                    return f"operand {key[1]} of {key[0]} is {want[key]}, the edge is recorded at {have.get(key, 'no node')}{kn}"
            for key in have:
                if key not in want:
                    return f"an edge {key[0]}:{key[1]} -> {have[key]} is left that is no operand{kn}"
            if sum(1 for e in s.cl if e[0][0] == "set" and e[0][1] == ("adr", ip.field(self.irginfo(ip, k), self.IRG, "edges"))) != len(want):
                return f"the set of edges holds more than the operands{kn}"
        return None

    def listed(self, ip, cl, s, g):
        """what the functions of the interface report"""
        P = self.P
        for n in g:
            if g[n][0] == "Deleted":
                continue
            for k, name in enumerate(KINDS[:1 + (g[n][0] == "Block")]):
                want = sorted((a, b) for (a, b), t in self.expect(g, k).items() if t == n and a not in self.anyorder)
                got, e, st = [], None, s
                kc = ("c", P.econst[name][0])
                for i in range(30):
                    if i == 0:
                        r = ip.run(P.func("get_irn_out_edge_first_kind"), [S(n), kc], st) if k == 0 or i else ip.run(P.func("get_block_succ_first"), [S(n)], st)
                    else:
                        r = ip.run(P.func("get_irn_out_edge_next"), [S(n), e, kc], st)
                    if len(r) != 1:
                        return f"it is not certain what the next edge of {n} is"
                    st, e = r[0]
                    if e == C0:
                        break
                    src, pos = (ip.run(P.func(f), [e], st)[0][1] for f in ("get_edge_src_irn", "get_edge_src_pos"))
                    if src[1] not in self.anyorder:
                        got.append((src[1], pos[1]))
                if sorted(got) != want:
                    return f"the edges listed for {n} are {sorted(got)} instead of {want}"
                if not self.anyorder:
                    r = ip.run(P.func("get_irn_n_edges_kind"), [S(n), kc], st)
                    if [v for _, v in r] != [("c", len(want))]:
                        return f"the number of edges reported for {n} is {r[0][1][1] if r else '?'} instead of {len(want)}"
        return None

    def names(self, o):
        return "[" + ", ".join("-" if x == C0 else str(x[1]) if x[0] == "s" else "?" for x in o or ()) + "]"

    def run(self, what, fn, args, before, after, anyorder=(), mem=None, edges=True, noedges=(), chain=(), new=None, attrs=None):
        """evaluate fn(args) (and then the calls in chain) on the graph; afterwards edges = operands as in after"""
        F = fn if not isinstance(fn, str) else self.P.func(fn)
        if F is None or F.body is None:
            raise AnalysisError(f"function {fn} not found")
        self.anyorder = set(anyorder)
        ip, cl, st = self.build(before, edges, noedges=noedges)
        cl.identities = noedges
        if noedges:
            cl.order = [n for n in cl.order if n not in noedges]
        cl.attrs = attrs or {}
        if mem:
            mem(ip, cl, st)
        self.rep.count("operations evaluated")
        res = [(st, None)]
        where = f"{short(F.file)}:{F.line}"
        for f, a in [(fn, args)] + list(chain):
            G = f if not isinstance(f, str) else self.P.func(f)
            cl.visited.add((G.name, G.file))
            res = [x for s, _ in res for x in ip.run(G, a, s)]
        self.visited |= cl.visited
        key = f"{F.name}/{what}"
        if not res:
            w = cl.failed[-1] if cl.failed else None
            self.rep.bad(key, where, f"{F.name} ({what}): {w[2] if w[2:] else 'the assertion fails'} in {w[0].name} line {w[1]}" if w else f"{F.name} ({what}) does not return")
            return None
        for s, v in res:
            g = after
            if new is not None:
                if v is None or v[0] != "s":
                    raise AnalysisError(f"the node {F.name} returns is not known")
                g = dict(after, **{v[1]: new})
            bad = self.consistent(ip, cl, s, g)
            if not bad and fn in ("edges_activate", "turn_into_tuple", "edges_reroute"):
                bad = self.listed(ip, cl, s, g)
            if not bad:
                bad = self.claims(ip, s, before, g)
            if bad:
                self.rep.bad(key, where, f"{F.name} ({what}): {bad}")
                return None
        self.rep.ok(f"{where}: {F.name} ({what})")
        return ip, cl, res


    def claims(self, ip, s, before, after):
        """changed operands: the graph does not claim consistent outs (nor, if control flow changed, loops) any longer"""
        ch = [n for n in before if after[n][0] == before[n][0] and after[n] != before[n]]
        v = ip.read(s, ip.field(deref(S("IRG")), "ir_graph", "properties"))
        if not ch or not isc(v):
            return "the properties of the graph are not known" if ch else None
        if v[1] & self.P.econst["IR_GRAPH_PROPERTY_CONSISTENT_OUTS"][0]:
            return f"the operands of {ch[0]} change, but the graph still claims that the outs computed before are consistent"
        b = [n for n in ch if before[n][0] == "Block"]
        if b and v[1] & self.P.econst["IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO"][0]:
            return f"the predecessors of {b[0]} change, but the graph still claims that the loops computed before are consistent"
        return None

    def outs(self, what, g):
        """compute_irg_outs, then what its readers say"""
        P = self.P
        ip, cl, st = self.build(g, edges=False)
        cl.recursion, cl.maxdepth, cl.maxs = 60, 200, 200
        st.mem[ip.field(deref(S("IRG")), "ir_graph", "properties")] = C0
        st.mem[ip.field(deref(S("IRG")), "ir_graph", "out_obst_allocated")] = C0
        self.rep.count("operations evaluated")
        F = P.func("compute_irg_outs")
        where = f"{short(F.file)}:{F.line}"
        def go(fn, args, s):
            G = P.func(fn)
            r = ip.run(G, args, s)
            if len(r) != 1:
                w = cl.failed[-1] if cl.failed else None
                raise Wrong(f"{fn} {'fails in ' + w[0].name + ' line ' + str(w[1]) if w and not r else 'is not determined'}")
            return r[0]
        try:
            s, _ = go("compute_irg_outs", [S("IRG")], st)
            if go("irg_has_properties", [S("IRG"), ("c", P.econst["IR_GRAPH_PROPERTY_CONSISTENT_OUTS"][0])], s)[1] in (C0, None):
                raise Wrong("the outs are not claimed to be consistent afterwards")
            for again in (0, 1):
                if again:
                    s = go("assure_irg_outs", [S("IRG")], s)[0]
                self.readouts(g, go, s)
            self.room(ip, cl, s, g)
            # an operand changes; assure_irg_outs computes them anew
            n = next(n for n in g if g[n][0] == "Add")
            h = repl(g)
            h[n][1][1] = "Ph"
            s = go("set_irn_n", [S(n), C0, S("Ph")], s)[0]
            s = go("assure_irg_outs", [S("IRG")], s)[0]
            self.readouts(h, go, s)
        except Wrong as e:
            self.rep.bad(f"outs/{what}", where, f"compute_irg_outs ({what}): {e}")
        else:
            self.rep.ok(f"{where}: compute_irg_outs ({what})")
        self.visited |= cl.visited

    def room(self, ip, cl, s, g):
        """the arrays have room for what is in them"""
        R = self.P.records.get("ir_def_use_edges")
        E = self.P.records.get("ir_def_use_edge")
        for l, v in s.mem.items():
            if R is None or E is None or l[0] != "f" or l[2] != "ir_def_use_edges.n_edges" or l[1][0] != "deref" or l[1][1][0] != "s":
                continue
            c = cl.caps.get(l[1][1][1])
            need = R.by["edges"][3] // 8 + v[1] * E.size if isc(v) else 0
            if c is not None and c < need:
                raise Wrong(f"an array of {v[1]} outs takes {need} bytes, {c} are allocated")
            self.rep.count("arrays of outs measured")

    def readouts(self, g, go, s):
        seen, todo = set(), ["End"]
        while todo:
            n = todo.pop()
            if n is not None and n not in seen:
                seen.add(n)
                todo += g[n][1]
        X = lambda n: g[n][0] in ("Jmp", "Proj", "Bad")     # mode_X
        use = {n: [] for n in g}
        for n in seen:
            for i, x in enumerate(g[n][1]):
                if x is not None:
                    use[x].append((n, i - 1))
        def val(fn, n, *a):
            v = go(fn, [S(n), *a], s)
            return v
        def num(fn, n):
            v = val(fn, n)[1]
            if v is None or not isc(v):
                raise Wrong(f"{fn}({n}) is not known")
            return v[1]
        def both(fn, fx, n, cnt, want):
            got = []
            for i in range(cnt):
                u = val(fn, n, ("c", i))[1] if fn else None
                w = None
                if fx:
                    t, w = go(fx, [S(n), ("c", i), ("adr", ("lv", 0, "inpos"))], s)
                    p = t.mem.get(("lv", 0, "inpos"))
                    if fn and u != w:
                        raise Wrong(f"{fn}({n}, {i}) and {fx}({n}, {i}) differ")
                    got.append((w[1] if w[0] == "s" else None, p[1] if p and isc(p) else None))
                else:
                    got.append(u[1] if u[0] == "s" else None)
            if sorted(map(str, got)) != sorted(map(str, want)):
                raise Wrong(f"{fx or fn}({n}) gives {sorted(map(str, got))} for {sorted(map(str, want))}")
        for n in seen | set(g["Anchor"][1]):
            c = num("get_irn_n_outs", n)
            if c != len(use[n]):
                raise Wrong(f"{n} has {c} outs, but {len(use[n])} operands refer to it")
            both("get_irn_out", "get_irn_out_ex", n, c, use[n])
            if g[n][0] != "Block":
                continue
            w = [u for m, i in use[n] if i == -1 and X(m) and g[m][0] != "Bad" for u in use[m]]
            c = num("get_Block_n_cfg_outs", n)
            if c != len(w):
                raise Wrong(f"get_Block_n_cfg_outs({n}) is {c} instead of {len(w)}")
            both("get_Block_cfg_out", "get_Block_cfg_out_ex", n, c, w)
            eb = g["End"][1][0]     # a block that is kept alive flows to the end block
            w = [u for u, _ in w] + [eb for m, _ in use[n] if m == "End" and n != eb]
            c = num("get_Block_n_cfg_outs_ka", n)
            if c != len(w):
                raise Wrong(f"get_Block_n_cfg_outs_ka({n}) is {c} instead of {len(w)}")
            both("get_Block_cfg_out_ka", None, n, c, w)
        self.rep.count("nodes whose outs were read", len(seen))


class Wrong(Exception):
    pass


def repl(g, **kv):
    h = {n: (k, list(i)) for n, (k, i) in g.items()}
    for n, v in kv.items():
        h[n] = v
    return h


def moved(g, a, b, but=()):
    return {n: (k, [b if x == a and n not in but else x for x in i]) for n, (k, i) in g.items()}


def run():
    rep = Report("C14", "recorded out edges equal the operands", META["note"])
    State.cmp = cmp
    P = Program()
    C = Check(P, rep)
    W = world(P)
    def arr(*xs):
        def f(ip, cl, st):
            for i, x in enumerate(xs):
                st.mem[cl.elem(S("IN"), i)] = S(x)
        return f
    c = lambda v: ("c", v)
    # one operand
    for n in ("A", "X", "Sy", "Ph", "End"):
        for pos in range(-1, len(W[n][1]) - 1):
            for x in (("B1", "B2", "B3") if pos < 0 else ("C", "X", "Y", "A")):
                h = repl(W)
                h[n][1][pos + 1] = x
                C.run(f"operand {pos} of {n} := {x}", "set_irn_n", [S(n), c(pos), S(x)], W, h)
    for n, pos, x in (("B3", 0, "J2"), ("B3", 1, "J3"), ("B3", 0, "Bad"), ("B4", 1, "J1"), ("B4", 1, "Bad"), ("B2", 0, "J1"), ("B3", 0, "P2"), ("B4", 1, "P1"), ("B5", 0, "J2"), ("B5", 1, "P1")):
        h = repl(W)
        h[n][1][pos + 1] = x
        C.run(f"predecessor {pos} of {n} := {x}", "set_irn_n", [S(n), c(pos), S(x)], W, h)
    h = repl(W)
    h["Cd"][1][0] = h["P1"][1][0] = h["P2"][1][0] = "B3"
    C.run("Cd moves to B3", "set_nodes_block", [S("P1"), S("B3")], W, h, chain=[("set_nodes_block", [S(x), S("B3")]) for x in ("P2", "Cd")])
    for n, b in (("J1", "B3"), ("J3", "B1"), ("J2", "B1"), ("J1", "B1"), ("A", "B3"), ("J1", "Bad"), ("P1", "B2")):
        h = repl(W)
        h[n][1][0] = b
        C.run(f"{n} moves to {b}", "set_nodes_block", [S(n), S(b)], W, h)
    # all operands
    for n in ("Sy", "Y", "C", "Ph"):
        for new in ([], ["X"], ["A", "X"], ["C", "C", "A"], ["X", "A", "C", "Y"]):
            h = repl(W)
            h[n] = (W[n][0], [W[n][1][0]] + new)
            C.run(f"operands of {n} := {len(new)} others", "set_irn_in", [S(n), c(len(new)), S("IN")], W, h, mem=arr(*new))
    for new in ([], ["J3"], ["J2", "P1"], ["J3", "Bad", "J2"]):
        h = repl(W)
        h["B3"] = ("Block", [None] + new)
        C.run(f"predecessors of B3 := {len(new)} others", "set_irn_in", [S("B3"), c(len(new)), S("IN")], W, h, mem=arr(*new))
    # one more, one less
    for n, x in (("Sy", "Y"), ("End", "X")):
        h = repl(W)
        h[n][1].append(x)
        C.run(f"{n} gets {x}", "add_irn_n", [S(n), S(x)], W, h)
    h = repl(W); h["End"][1].append("Y")
    C.run("Y is kept alive", "add_End_keepalive", [S("End"), S("Y")], W, h)
    h = repl(W); h["Sy"][1].append("Y")
    C.run("Sy gets Y", "add_Sync_pred", [S("Sy"), S("Y")], W, h)
    for fn, n in (("remove_Sync_n", "Sy"), ("remove_End_n", "End")):
        for pos in range(3):
            h = repl(W)
            del h[n][1][pos + 1]
            C.run(f"{n} loses operand {pos}", fn, [S(n), c(pos)], W, h, anyorder=(n,))
    for x in ("Sy", "A", "Y"):
        h = repl(W)
        if x in h["End"][1][1:]:
            i = len(h["End"][1]) - 1 - h["End"][1][::-1].index(x)
            del h["End"][1][i]
        C.run(f"{x} is kept alive no longer", "remove_End_keepalive", [S("End"), S(x)], W, h, anyorder=("End",))
        h = repl(W)
        h["End"] = ("End", [W["End"][1][0]] + ["Bad" if y == x else y for y in W["End"][1][1:]])
        C.run(f"{x} is not kept alive", "remove_keep_alive", [S(x)], W, h)
    for new in ([], ["X"], ["A", "Sy", "Y", "X"]):
        h = repl(W)
        h["End"] = ("End", ["B3"] + new)
        C.run(f"{len(new)} other nodes are kept alive", "set_End_keepalives", [S("End"), c(len(new)), S("IN")], W, h, mem=arr(*new))
    W2 = repl(W)
    W2["End"] = ("End", ["B3", "A", "Bad", "Sy", "A", "Bad"])
    h = repl(W)
    h["End"] = ("End", ["B3", "A", "Sy"])
    C.run("Bads and doublets", "remove_End_Bads_and_doublets", [S("End")], W2, h, anyorder=("End",))
    # rerouting and replacing
    for a, b in (("A", "X"), ("C", "Y"), ("X", "C"), ("Y", "A")):
        g = repl(W)
        if a in ("A", "C") and b in ("X", "Y"):
            pass
        C.run(f"users of {a} use {b}", "edges_reroute", [S(a), S(b)], g, moved(g, a, b))
        C.run(f"users of {a} but Sy use {b}", "edges_reroute_except", [S(a), S(b), S("Sy")], g, moved(g, a, b, ("Sy",)))
        h = moved(g, a, b)
        h[a] = ("Deleted", [])
        C.run(f"{a} is replaced by {b}", "exchange", [S(a), S(b)], g, h)
    for a, b in (("J1", "J2"), ("J1b", "Bad"), ("J3", "Bad")):
        h = moved(W, a, b)
        h[a] = ("Deleted", [])
        C.run(f"{a} is replaced by {b}", "exchange", [S(a), S(b)], W, h)
    h = moved(W, "B1", "B2")
    h["B1"] = ("Deleted", [])
    C.run("B1 is replaced by B2", "exchange", [S("B1"), S("B2")], W, h)
    for a in ("Y", "Sy", "Ph"):
        g = {n: v for n, v in repl(W).items() if n == a or a not in v[1]}
        h = repl(g)
        h[a] = ("Deleted", [])
        C.run(f"{a} is killed", "kill_node", [S(a)], g, h)
    g = repl(W)
    h = repl(g)
    h["U"] = ("Deleted", [])
    C.run("block U is killed", "kill_node", [S("U")], g, h)
    for new in ([], ["C", "X"], ["A", "X", "C"]):
        h = repl(W)
        h["T"] = ("Tuple", ["B2"] + new)
        C.run(f"T becomes a tuple of {len(new)}", "turn_into_tuple", [S("T"), c(len(new)), S("IN")], W, h, mem=arr(*new))
    rep.floor("operations evaluated", 100)
    return C, rep, P, W, arr, c


def rest(C, rep, P, W, arr, c):
    # new nodes
    op = lambda dyn: {"opar": c(P.econst["oparity_dynamic"][0] if dyn else P.econst["oparity_binary"][0]), "attr_size": c(16)}
    for kind, block, dyn in (("Add", "B2", 0), ("Sub", "Bad", 0), ("Sync", "B1", 1), ("Block", None, 0)):
        for ins in ([], ["A"], ["A", "X"], ["C", "C", "Y"], None):
            if kind == "Block":
                ins = ["J1", "J2", "Bad"][:len(ins)] if ins is not None else None
            if kind in ("Add", "Sub") and ins is None:
                continue
            C.run(f"new {kind} with {'any number of' if ins is None else len(ins)} operands", "new_ir_node",
                  [C0, S("IRG"), C0 if block is None else S(block), S("op_" + kind), S("mode_Iu"), c(-1 if ins is None else len(ins)), S("IN")],
                  W, repl(W), mem=arr(*(ins or ())), new=(kind, [block] + (ins or [])), attrs=op(dyn or ins is None))
    for ins in (["J1"], ["J2", "J3"]):
        g = repl(W)
        g["M"] = ("Block", [None] + ins)
        C.run(f"block with {len(ins)} predecessors matures", "mature_immBlock", [S("M")], g, g, attrs={"dynamic_ins": C1, "phis": C0})
    # on and off
    K = [c(P.econst[k][0]) for k in KINDS]
    C.run("edges are built", "edges_activate", [S("IRG")], W, W, edges=False)
    C.run("edges are assured", "assure_edges", [S("IRG")], W, W, edges=False)
    C.run("edges are assured again", "assure_edges", [S("IRG")], W, W)
    C.run("edges off and on", "edges_deactivate", [S("IRG")], W, W, chain=[("edges_activate", [S("IRG")])])
    h = repl(W)
    h["A"][1][1] = "X"
    C.run("an operand changes while edges are off", "edges_deactivate", [S("IRG")], W, h, chain=[("set_irn_n", [S("A"), C0, S("X")]), ("edges_activate", [S("IRG")])])
    # a node only the value table knows is found again
    for n in ("Y", "Sy", "U"):
        g = {k: v for k, v in repl(W).items() if n not in v[1]}
        C.run(f"{n} is found again", "edges_node_revival", [S(n)], g, g, noedges=(n,))
        C.run(f"{n} is found again, twice", "edges_node_revival", [S(n)], g, g, noedges=(n,), chain=[("edges_node_revival", [S(n)])])
        C.run(f"{n} is found again after the edges were built", "edges_activate", [S("IRG")], g, g, edges=False, noedges=(n,), chain=[("edges_node_revival", [S(n)])])
        C.run(f"{n} has edges and is found again", "edges_node_revival", [S(n)], g, g)
    # edges are used again
    h = repl(W)
    h["Sy"] = ("Sync", ["B2", "Y", "X"])
    C.run("operands leave and others come", "set_irn_in", [S("Sy"), c(0), S("IN")], W, h, mem=arr(), chain=[("add_irn_n", [S("Sy"), S("Y")]), ("add_irn_n", [S("Sy"), S("X")])])
    # the arrays of outs
    for what, ex in (("no loop", ()), ("a loop", (("L", ("Block", [None, "J3", "JL", "Bad"])), ("JL", ("Jmp", ["L"])), ("PL", ("Phi", ["L", "A", "YL", "Bad"])), ("YL", ("Add", ["L", "PL", "C"])), ("End", ("End", ["L", "A", "B2", "PL", "B2", "L"]))))):
        g = world(P, ex + (("NoMem", ("NoMem", ["B1"])), ("Anchor", ("Anchor", ["B1", "End", "B1", "NoMem", "C", "Bad", "NoMem"]))))
        C.outs(what, g)
    writers(C, rep)
    freed(rep, P)
    rep.floor("operand writes", 10)
    return rep.finish()


def writers(C, rep):
    """Every function that stores into an operand array, or sets one, was part of an operation above."""
    P = C.P
    def isin(e):
        e = strip(e)
        return e[0] == "m" and e[3] == "in" and e[4] == "ir_node"
    for F in P.all:
        vs = set()
        for _ in range(3):
            for x in walk(F.body):
                if x[0] == "D":
                    for d in x[2]:
                        if d[4] is not None and points(d[4], vs, isin):
                            vs.add(d[2])
                elif x[0] == "a" and x[2] == "=" and strip(x[3])[0] == "v" and points(x[4], vs, isin):
                    vs.add(strip(x[3])[3])
        for x in walk(F.body):
            if x[0] != "a" and not (x[0] == "c" and callee_name(x) in ("memcpy", "memmove", "__builtin_memcpy", "safe_memcpy", "qsort", "memset")):
                continue
            l = strip(x[3]) if x[0] == "a" else strip(x[4][0])
            hit = isin(l) if x[0] == "a" else points(l, vs, isin)
            if x[0] == "a" and l[0] in ("x", "u") and (l[0] == "x" or l[2] == "*"):
                hit = points(l[2] if l[0] == "x" else l[3], vs, isin)
            if not hit:
                continue
            rep.count("operand writes")
            line = x[5] if x[0] == "a" else x[2]
            where = f"{short(F.file)}:{line}"
            if (F.name, F.file) in C.visited or F.name in UNTOLD:
                rep.ok(f"{where}: {F.name} writes operands")
            else:
                rep.bad(f"writer/{F.name}", where, f"{F.name} changes the operands of a node itself, instead of through the functions that keep the edges")


def points(e, vs, isin):
    """may e point into an operand array?"""
    e = strip(e)
    if e is None:
        return False
    if isin(e):
        return True
    if e[0] == "v":
        return e[4] in ("l", "p") and e[3] in vs
    if e[0] == "u" and e[2] in ("&", "*"):
        return points(e[3], vs, isin)
    if e[0] == "x":
        # an element of the array: its address points into the array, its value does not
        return points(e[2], vs, isin) and not str(e[1]).startswith("struct ir_node*") or False
    if e[0] == "b" and e[2] in ("+", "-"):
        return points(e[3], vs, isin) or points(e[4], vs, isin)
    if e[0] == "?":
        return points(e[3], vs, isin) or points(e[4], vs, isin)
    if e[0] == "c" and callee_name(e) in ("get_irn_in", "get_irn_in_", "get_Block_cfgpred_arr", "get_Phi_preds", "get_Call_param_arr", "get_Return_res_arr", "get_Tuple_preds", "get_Sync_preds"):
        return True
    return False


def freed(rep, P):
    """Nobody gives a node back to the allocator while its edges are recorded."""
    for F in P.all:
        if not any(callee_name(x) == "irg_kill_node" for x in walk(F.body) if x[0] == "c"):
            continue
        sites = {}
        class Cl(Client):
            maxs = 60
            def inline(self, ip, n, G, fr):
                return False
            def call(self, ip, st, cx, n, args, fr):
                if n in P.noreturn or n == "__assert_fail":
                    return []
                if n == "edges_node_deleted":
                    s = st.copy()
                    s.cl = st.cl | {args[0]}
                    return [(s, ("void",))]
                if n == "irg_kill_node":
                    x = args[1]
                    ok = x in st.cl
                    sites[cx[2]] = sites.get(cx[2], True) and ok
                    return [(st, ("void",))]
                G = P.resolve(n, fr.F.file) if n else None
                if G is not None and G.static and reaches(P, G):
                    return [(s2, v if v is not None else ("void",)) for s2, v in ip.run(G, args, st, fr)]
                return [(st, ("call", n or "?", next(ip.fresh)))]
        ip = Interp(P, Cl())
        st = State()
        st.cl = frozenset()
        ip.run(F, [("s", "arg" + p[0]) for p in F.params], st)
        for l, ok in sites.items():
            rep.count("nodes given back")
            if ok:
                rep.ok(f"{short(F.file)}:{l}: {F.name} gives a node back")
            else:
                rep.bad(f"freed/{F.name}", f"{short(F.file)}:{l}", f"{F.name} gives a node back to the allocator on a path where its edges were not deleted")
    rep.floor("nodes given back", 1)


def reaches(P, G):
    return any(x[0] == "c" and callee_name(x) in ("edges_node_deleted", "irg_kill_node") for x in walk(G.body))


def go():
    return rest(*run())


if __name__ == "__main__":
    main("C14", go)
