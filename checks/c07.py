"""C07: copies of nodes, types, entities and graphs are complete and do not share arrays."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from prog import Program, short, AnalysisError, walk, strip, callee_name
from report import Report, main
from absint import Interp, Client, State, isc, deref, C0

META = {
    "title": "A copied node, type, entity, switch table or graph equals its original",
    "statement": "Copying a node (exact_copy, irn_copy_into_irg, graph copies, inlining, back-end copies) yields a node with the same opcode, mode, block, operands and debug information and with every attribute of the original, including register requirements and flags in the back end. Only state that belongs to one graph position is reset: Phi lists and links, back edge sets, visited marks, dominator information, known callees of a Call and the schedule entry. Arrays owned by a node (inline assembler constraints and clobbers, switch tables, back edge sets, back-end output information) are duplicated completely and never shared with the original. Cloned method types, entities and switch tables keep all properties of the original except those the clone function documents as changed, and copying a graph or inlining redirects every operand, every anchor and every frame entity to the copy.",
    "over": ["inputs", "programs"],
    "quant": "every operation with every attribute field, every array length, every graph",
    "why": "No unit test copies nodes; a forgotten field shows only when the optimisation that copies meets a node where the field is not zero.",
    "files": ["ir/ir/irop.c", "ir/ir/irnode.c", "ir/ir/irgraph.c", "ir/ir/irtools.c", "ir/be/benode.c", "ir/be/beinfo.c", "ir/tr/type.c", "ir/tr/entity.c", "ir/opt/opt_inline.c"],
    "mech": [("node copies", "ir/ir/irnode.c irn_copy_into_irg; ir/ir/irop.c copy_attr callbacks; ir/be/benode.c be_copy_attr"), ("clones", "ir/tr/type.c clone_type_method; ir/tr/entity.c clone_entity; ir/ir/irnode.c ir_switch_table_duplicate"), ("graphs", "ir/ir/irgraph.c create_irg_copy; ir/opt/opt_inline.c; ir/ir/irtools.c irn_rewire_inputs")],
    "technique": "copy propagation over access paths through the copy functions; every field of the result record is compared with the same field of the original",
    "note": "The field list comes from the record definitions, so a new field is included automatically. The list of fields that may be reset or must be fresh is part of the rule. Assumes the allocation functions return fresh memory.",
}

FRESH = {"constraints", "clobbers", "backedge", "table", "out_infos"}
ALLOC = ("ir_new_arr_d", "ir_new_arr_f", "xmalloc", "xcalloc", "new_backedge_arr", "new_type", "ir_new_switch_table")
# fields of a node's attributes that belong to one graph position
RESET = {"block_attr.phis", "block_attr.block_visited", "phi_attr.next", "call_attr.callee_arr", "block_attr.graph_arr"}
RESETREC = {"ir_dom_info"}


class C(Client):
    maxs = 64
    maxdepth = 8
    unroll = 5

    def __init__(self, P, calls=None, unroll=5):
        self.P, self.calls, self.unroll = P, calls or {}, unroll
        self.loops = []

    def store(self, ip, st, loc, val, line, fr):
        # an array filled element by element
        if loc[0] == "ix" and loc[1][0] == "deref" and loc[1][1][0] == "new" and val[0] == "ld" and val[1][0] == "ix" and val[1][2] == loc[2]:
            self.loops.append((loc[1][1], val[1][1]))

    def inline(self, ip, n, F, fr):
        return len(str(F.body)) < 20000

    def log(self, st, *e):
        s = st.copy()
        s.cl = (s.cl or ()) + (e,)
        return s

    def call(self, ip, st, c, n, args, fr):
        if n is None or n.startswith("*hook"):
            return [(st, ("void",))]
        m = n.strip("_")
        if n in self.calls or m in self.calls:
            v = self.calls.get(n, self.calls.get(m))
            return v(self, ip, st, args, fr) if callable(v) else [(st, v)]
        if n.startswith("__assert") or n == "panic":
            return []
        if n in ALLOC:
            return [(st, ("new", n, c[2]) + tuple(args))]
        if n.startswith("hook_") or n in ("add_compound_member", "set_type_alignment", "set_type_size", "set_type_dbg_info"):
            f = {"set_type_alignment": "align", "set_type_size": "size", "set_type_dbg_info": "dbi"}.get(n)
            if f and len(args) == 2:
                st = st.copy()
                ip.write(st, ("f", deref(args[0]), "ir_type." + f), args[1], c[2], fr)
            return [(st, ("void",))]
        if n == "get_irp_new_node_nr":
            return [(st, ("nr",))]
        if n in ("memcpy", "memset", "memmove") and len(args) == 3:
            st = self.log(st, n, args[0], args[1], args[2])
            t = strip(c[4][0])[1]
            R = self.P.records.get(t[:-1].replace("struct ", "").replace("union ", "").strip()) if t.endswith("*") else None
            if n == "memset" and R is not None and args[1] == C0 and args[2] == ("c", R.size):
                for l in leaves(self.P, ip, deref(args[0]), R.name):
                    ip.write(st, l, C0, c[2], fr)
                return [(st, args[0])]
            if n == "memset" and R is not None and isc(args[2]) and args[2][1] < R.size:
                return [(st, args[0])]
            if n == "memcpy" and args[0][0] == "new":
                return [(st, args[0])]
        return None


def leaves(P, ip, loc, rec):
    R = P.records.get(rec)
    if R is None:
        raise AnalysisError(f"record {rec} unknown")
    out = []
    for n, t, bw, off in R.fields:
        t = t[6:] if t.startswith("const ") else t
        l = ip.field(loc, rec, n)
        if t.startswith("struct ") and not t.endswith(("*", "]")):
            out += leaves(P, ip, l, t[7:])
        elif t.startswith("union ") and not t.endswith(("*", "]")) and any(f[0] in FRESH for f in getattr(P.records.get(t[6:]), "fields", ())):
            out += [ip.field(l, t[6:], f[0]) for f in P.records[t[6:]].fields if f[0] in FRESH]
        elif t.startswith("union ") and not t.endswith(("*", "]")):
            out.append(("f", loc, rec + "." + n) if l == loc else l)
        else:
            out.append(l)
    return out


def name(l):
    return l[2] if l[0] == "f" else str(l)[:60]


def recof(P, l):
    """Record chain above a leaf."""
    return l[2].split(".")[0] if l[0] == "f" else ""


def run1(P, F, args, c):
    st = State()
    st.cl = ()
    ip = Interp(P, c)
    return ip, ip.run(F, args, st)


def chk(rep, ok, key, where, msg):
    rep.count("fields")
    if ok:
        rep.ok()
    else:
        rep.bad(key, where, msg)
    return ok


def compare(P, rep, F, what, ip, st, new, old, rec, allow, fresh, key):
    """Every leaf of the record at new equals the one at old."""
    s0 = State()
    done = 0
    ln, lo = leaves(P, ip, new, rec), leaves(P, ip, old, rec)
    for a, b in zip(ln, lo):
        f = name(a)
        va, vb = ip.read(st, a), ip.read(s0, b)
        last = f.split(".")[-1]
        k = f"{key}/{f}"
        done += 1
        if f in allow:
            continue
        if last in fresh or f in fresh:
            chk(rep, va != vb and not (va[0] == "ld" and va[:2] == vb[:2]), k, F.loc, f"{what}: {f} of the copy is the array of the original")
            if va != vb:
                full(ip, rep, F, what, st, va, vb, f, k)
            continue
        same = va == vb or va == st.val(vb) or va[0] == "ld" and vb[0] == "ld" and va[1] == vb[1]
        chk(rep, same, k, F.loc, f"{what}: {f} is not copied (the copy has {'0' if va == C0 else str(va)[:80]})")
    return done


def full(ip, rep, F, what, st, va, vb, f, k):
    """The duplicate was filled from the original, all of it."""
    if va[0] == "new" and va[1] == "xmalloc" and st.val(va[-1]) == C0:
        return
    if any(a == va and b[0] == "deref" and b[1][:2] == vb[:2] for a, b in ip.cl.loops):
        chk(rep, True, k + "/content", F.loc, "")
        return
    ms = [e for e in st.cl if e[0] in ("memcpy", "memmove") and e[1] == va]
    if va[0] == "new" and va[1].startswith("ir_new_arr") or va[0] == "new" and va[1] == "xmalloc":
        cnt = va[-2:] if va[1].startswith("ir_new_arr") else va[-1:]
        ok = any(e[2] == vb or e[2][:2] == vb[:2] for e in ms)
        chk(rep, ok, k + "/content", F.loc, f"{what}: the new array {f} is not filled from the one of the original")
        if ok:
            e = [e for e in ms if e[2] == vb or e[2][:2] == vb[:2]][0]
            if va[1] == "xmalloc":
                chk(rep, e[3] == va[-1], k + "/length", F.loc, f"{what}: {str(e[3])[:60]} bytes of {f} are copied into an array of {str(va[-1])[:60]} bytes")
            else:
                # number of elements allocated appears in the copied size
                n = va[4] if len(va) > 4 else None
                chk(rep, n is not None and str(n) in str(e[3]) or isc(e[3]) and False, k + "/length", F.loc, f"{what}: the number of copied elements of {f} differs from the number allocated")


def ops(P):
    """op -> attribute record, op -> copy callback."""
    attr, cb, tag = {}, {}, {}
    for F in P.all:
        for x in walk(F.body):
            if x[0] == "a" and strip(x[4])[0] == "c" and callee_name(strip(x[4])) == "new_ir_op":
                l, c = strip(x[3]), strip(x[4])
                z = strip(c[4][-1])
                if l[0] == "v":
                    attr[l[2]] = (z[2] if z[0] == "z" else None, F)
            if x[0] == "c" and callee_name(x) == "new_ir_op":
                z = strip(x[4][-1])
                if z[0] == "z":
                    tag.setdefault(z[2], F)
            if x[0] == "c" and callee_name(x) == "set_op_copy_attr":
                a, b = strip(x[4][0]), strip(x[4][1])
                while b[0] == "u":
                    b = strip(b[3])
                if b[0] != "v":
                    continue
                cb.setdefault(b[2], []).append((a[2] if a[0] == "v" else None, F))
    return attr, cb, tag


def callbacks(P, rep):
    attr, cb, tag = ops(P)
    mid = {o: t for o, (t, F) in attr.items() if t and not any(a in F.file for a in ("/be/",))}
    rep.count("operations", len(attr))
    default = P.func("default_copy_attr")
    jobs = []      # (function, op, record)
    special = set()
    for fn, us in cb.items():
        for o, F in us:
            if o in mid:
                special.add(o)
    for o, t in sorted(mid.items()):
        fns = [fn for fn, us in cb.items() if any(u == o and "/be/" not in F.file for u, F in us)] or ["default_copy_attr"]
        for fn in fns:
            cand = [F for F in P.all if F.name == fn]
            for F in cand:
                jobs.append((F, o, t))
    seen = set()
    for F, o, t in jobs:
        if not t.startswith("struct ") or (F.key, t) in seen:
            continue
        seen.add((F.key, t))
        rec = t[7:]
        args = [("p", "irg"), ("p", "old"), ("p", "new")]
        ip, res = run1(P, F, args, C(P, {"get_irn_op": ("opd", "op"), "get_irn_op_": ("opd", "op"), "ir_switch_table_duplicate": dup}))
        if not res:
            raise AnalysisError(f"{F.name} never returns")
        for st, _ in res:
            if not notmt(st):
                continue
            base = lambda n: ("f", ("deref", ("p", n)), "ir_node.attr")
            allow = set(RESET)
            for l in leaves(P, ip, base("new"), rec):
                if recof(P, l) in RESETREC:
                    allow.add(name(l))
            compare(P, rep, F, f"copy of {o[3:]}", ip, st, base("new"), base("old"), rec, allow, FRESH, f"attr/{o}")
            # reset fields really are reset
            for l in leaves(P, ip, base("new"), rec):
                f = name(l)
                if (f in RESET or recof(P, l) in RESETREC) and f != "block_attr.graph_arr":
                    chk(rep, ip.read(st, l) == C0, f"reset/{f}", F.loc, f"copy of {o[3:]}: {f} still is the one of the original")
    # default: the size
    ip, res = run1(P, default, [("p", "irg"), ("p", "old"), ("p", "new")], C(P, {}))
    for st, _ in res:
        ms = [e for e in st.cl if e[0] in ("memcpy", "memmove")]
        for e in ms:
            chk(rep, "ir_op.attr_size" in str(e[3]) and e[3][0] == "ld", "default/size", default.loc, f"default_copy_attr copies {str(e[3])[:80]} bytes instead of the attribute size of the operation")
    # back end
    B = P.func("be_copy_attr")
    recs = sorted(t for t in tag if t.startswith("struct ") and t[7:] in P.records)
    ip, res = run1(P, B, [("p", "irg"), ("p", "old"), ("p", "new")], C(P, {}))
    for st, _ in res:
        if not notmt(st):
            continue
        for t in recs:
            compare(P, rep, B, f"back-end copy ({t})", ip, st, ("f", ("deref", ("p", "new")), "ir_node.attr"), ("f", ("deref", ("p", "old")), "ir_node.attr"), t[7:], set(), set(), f"be/{t}")
        info = lambda n: ("deref", ("ld", ("f", ("deref", ("p", n)), "ir_node.backend_info")))
        allow = {name(l) for l in leaves(P, ip, info("new"), "backend_info_t") if recof(P, l) == "sched_info_t"}
        if not allow:
            raise AnalysisError("no schedule information in backend_info_t")
        compare(P, rep, B, "back-end copy", ip, st, info("new"), info("old"), "backend_info_t", allow, FRESH if st.truth(ip.read(State(), ("f", info("old"), "backend_info_t.out_infos"))) is not False else set(), "be/info")
        for l in leaves(P, ip, info("new"), "backend_info_t"):
            if name(l) in allow:
                chk(rep, ip.read(st, l) == C0, f"be/sched/{name(l)}", B.loc, f"back-end copy: {name(l)} is not reset, the copy claims to be scheduled")


def notmt(st):
    """Not the path of an empty array (its duplicate is the shared empty array)."""
    return not any("arr_mt_descr" in str(v) for v in st.mem.values()) and not any("arr_mt_descr" in str(e) for e in st.cl)


def dup(c, ip, st, args, fr):
    return [(st, ("new", "ir_switch_table_duplicate") + tuple(args))]


def nodecopy(P, rep):
    F = P.func("irn_copy_into_irg")

    def mk(c, ip, st, args, fr):
        return [(c.log(st, "new", *args), ("new", "node"))]

    def cp(c, ip, st, args, fr):
        return [(c.log(st, "attr", *args), ("void",))]
    names = {n: ("get", n) for n in ("get_irn_op", "get_nodes_block", "get_irn_dbg_info", "get_irn_mode", "get_irn_in", "get_irn_arity", "get_irn_opcode")}
    calls = dict(names)
    calls.update({n + "_": v for n, v in names.items()})
    calls.update({"new_ir_node": mk, "copy_node_attr_": cp, "copy_node_attr": cp})
    for blk in (0, 1):
        calls["is_Block"] = calls["is_Block_"] = ("c", blk)
        ip, res = run1(P, F, [("p", "node"), ("p", "irg")], C(P, calls))
        if not res:
            raise AnalysisError("irn_copy_into_irg never returns")
        for st, v in res:
            new = [e for e in st.cl if e[0] == "new"]
            at = [e for e in st.cl if e[0] == "attr"]
            chk(rep, v == ("new", "node") and len(new) == 1, "node/result", F.loc, "irn_copy_into_irg does not return the one new node")
            if len(new) != 1:
                continue
            a = new[0][1:]
            want = [("dbg_info", ("get", "get_irn_dbg_info")), ("graph", ("p", "irg")), ("block", ("get", "get_nodes_block")), ("op", ("get", "get_irn_op")), ("mode", ("get", "get_irn_mode")), ("arity", ("get", "get_irn_arity")), ("operands", ("get", "get_irn_in"))]
            for (n, w), g in zip(want, a):
                ok = g == w or n == "block" and g == C0 or n == "operands" and "get_irn_in" in str(g) or n != "graph" and g[0] == "ld" and "'p', 'node'" in str(g)
                chk(rep, ok, f"node/{n}", F.loc, f"irn_copy_into_irg: the {n} of the copy is {str(g)[:60]}")
            chk(rep, any(g == ("get", "get_nodes_block") for g in (x[1 + 2] for x in new)) or blk or "op_Block" in str(st.rel) + str(st.cst) + str(st.neq), "node/blockcase", F.loc, "irn_copy_into_irg: a copy that is no Block has no block")
            chk(rep, len(at) == 1 and tuple(at[0][1:]) == (("p", "irg"), ("p", "node"), ("new", "node")), "node/attributes", F.loc, "irn_copy_into_irg does not copy the attributes from the node to its copy")
    E = P.func("exact_copy")
    got = []

    def into(c, ip, st, args, fr):
        return [(c.log(st, "into", *args), ("new", "node"))]
    ip, res = run1(P, E, [("p", "node")], C(P, {"irn_copy_into_irg": into, "get_irn_irg": ("get", "irg"), "get_irn_irg_": ("get", "irg")}))
    for st, v in res:
        e = [e for e in st.cl if e[0] == "into"]
        chk(rep, v == ("new", "node") and len(e) == 1 and e[0][1:] == (("p", "node"), ("get", "irg")), "exact_copy", E.loc, "exact_copy does not copy the node into its own graph")


def clones(P, rep):
    # method types
    F = P.func("clone_type_method")
    pn = [a[0] for a in F.params]
    ip, res = run1(P, F, [("p", "tp"), ("p", "var"), ("p", "props")], C(P, unroll=0))
    for st, v in res:
        if v is None or v[0] != "new":
            raise AnalysisError("clone_type_method: result not understood")
        new, old = deref(v), deref(("p", "tp"))
        # ir_type minus identity
        skip = {"ir_type.firm_tag", "ir_type.kind", "ir_type.visit", "ir_type.link", "ir_type.nr", "ir_type.pointer_to", "ir_type.attr", "ir_type.opcode", "ir_type.type_op", "ir_type.name", "ir_type.assoc_type", "ir_type.owner", "ir_type.higher_type"}
        if v[1] == "new_type":
            m = [a for a in v[3:] if "ir_type.mode" in str(a)]
            chk(rep, bool(m), "type/mode", F.loc, "clone_type_method: the clone is not created with the mode of the original")
            skip.add("ir_type.mode")
        compare(P, rep, F, "clone_type_method", ip, st, new, old, "ir_type", skip, set(), "type")
        na, oa = ("f", new, "ir_type.attr"), ("f", old, "ir_type.attr")
        compare(P, rep, F, "clone_type_method", ip, st, na, oa, "method_attr", {"method_attr.variadic", "method_attr.properties"}, {"method_attr.params", "method_attr.res_type"}, "type")
        for f, w in (("variadic", ("p", "var")), ("properties", ("p", "props"))):
            g = ip.read(st, ("f", na, "method_attr." + f))
            chk(rep, g == w, f"type/{f}", F.loc, f"clone_type_method: {f} is {str(g)[:60]}, not the argument")
    # entities
    F = P.func("clone_entity")
    kinds = {"is_method_entity": ("opd", "ismeth"), "is_method_entity_": ("opd", "ismeth")}
    ip, res = run1(P, F, [("p", "old"), ("p", "name"), ("p", "owner")], C(P, unroll=0))
    for st, v in res:
        if v is None or v[0] != "new":
            raise AnalysisError("clone_entity: result not understood")
        new, old = deref(v), deref(("p", "old"))
        own = {"ir_entity." + f for f in ("name", "ld_name", "owner", "nr", "visit", "usage", "overwrites", "overwrittenby", "attr")}
        compare(P, rep, F, "clone_entity", ip, st, new, old, "ir_entity", own, set(), "entity")
        for u in [f[1] for f in P.records["ir_entity"].fields if f[0] == "attr"]:
            U = P.records.get(u.replace("union ", ""))
            if U is None:
                raise AnalysisError(f"{u} unknown")
            for m, t, bw, off in U.fields:
                if t.startswith("struct "):
                    compare(P, rep, F, "clone_entity", ip, st, ("f", new, "ir_entity.attr"), ("f", old, "ir_entity.attr"), t[7:], {"method_ent_attr.param_access", "method_ent_attr.param_weight"}, set(), f"entity/{m}")
        for f, w in (("name", ("p", "name")), ("owner", ("p", "owner")), ("overwrites", C0), ("overwrittenby", C0), ("nr", ("nr",))):
            g = ip.read(st, ("f", new, "ir_entity." + f))
            chk(rep, g == w, f"entity/own/{f}", F.loc, f"clone_entity: {f} of the clone is {str(g)[:60]}")
    # switch tables
    F = P.func("ir_switch_table_duplicate")
    N = 3

    def nt(c, ip, st, args, fr):
        return [(c.log(st, "table", *args), ("new", "table"))]
    ip, res = run1(P, F, [("p", "irg"), ("p", "table")], C(P, {"ir_new_switch_table": nt, "ir_switch_table_get_n_entries": ("c", N), "ir_switch_table_get_n_entries_": ("c", N),
                                                                 "ir_switch_table_get_entry": entry, "ir_switch_table_get_entry_const": entry}))
    for st, v in res:
        t = [e for e in st.cl if e[0] == "table"]
        chk(rep, v == ("new", "table") and len(t) == 1 and t[0][1:] == (("p", "irg"), ("c", N)), "switch/table", F.loc, "ir_switch_table_duplicate does not return a new table of the same size in the given graph")
        for i in range(N):
            n, o = ("deref", ("new", "entry", ("c", i))), ("deref", ("p", "entry", ("c", i)))
            compare(P, rep, F, f"ir_switch_table_duplicate, entry {i} of {N}", ip, st, n, o, "ir_switch_table_entry", set(), set(), f"switch/{i}")


def entry(c, ip, st, args, fr):
    return [(st, ("new" if args[0] == ("new", "table") else "p", "entry", args[1]))]


def rewiring(P, rep):
    F = P.func("irn_rewire_inputs")
    N = 3

    def link(c, ip, st, args, fr):
        return [(st, ("link", args[0]))]

    def inp(c, ip, st, args, fr):
        return [(st, ("in", args[0], args[1]))]

    def blk(c, ip, st, args, fr):
        return [(st, ("block", args[0]))]

    def ev(n):
        def f(c, ip, st, args, fr):
            return [(c.log(st, n, *args), ("void",))]
        return f
    base = {"get_new_node": link, "get_irn_link": link, "get_irn_link_": link, "get_irn_n": inp, "get_irn_n_": inp, "get_irn_arity": ("c", N), "get_irn_arity_": ("c", N), "get_nodes_block": blk, "get_nodes_block_": blk,
            "set_irn_n": ev("set"), "set_nodes_block": ev("setblock"), "add_identities": ("void",)}
    for b in (0, 1):
        calls = dict(base)
        calls["is_Block"] = calls["is_Block_"] = ("c", b)
        calls["get_irn_opcode"] = calls["get_irn_opcode_"] = ("opd", "opcode")
        ip, res = run1(P, F, [("p", "node")], C(P, calls))
        if not res:
            raise AnalysisError("irn_rewire_inputs never returns")
        new = ("link", ("p", "node"))
        for st, _ in res:
            for i in range(N):
                w = ("set", new, ("c", i), ("link", ("in", ("p", "node"), ("c", i))))
                chk(rep, w in st.cl, f"rewire/{i}", F.loc, f"irn_rewire_inputs: operand {i} of {N} of the copy is not redirected to the copy of the operand")
            if not b:
                chk(rep, ("setblock", new, ("link", ("block", ("p", "node")))) in st.cl, "rewire/block", F.loc, "irn_rewire_inputs: the block of the copy is not the copy of the block")
            bad = [e for e in st.cl if e[0] in ("set", "setblock") and e[1] != new]
            chk(rep, not bad, "rewire/target", F.loc, "irn_rewire_inputs changes a node that is not the copy")
    # who copies nodes into another graph
    users = []
    for F in P.all:
        if F.name in ("exact_copy", "irn_copy_into_irg"):
            continue
        if any(x[0] == "c" and callee_name(x) == "irn_copy_into_irg" for x in walk(F.body)):
            users.append(F)
    rep.count("graph_copiers", len(users))
    for F in users:
        def cp(c, ip, st, args, fr):
            return [(c.log(st, "copy", *args), ("new", "copy"))]
        def owner(c, ip, st, args, fr):
            return [(st, ("frame",) if args[0] == ("ent",) else ("adr", ("owner",) + tuple(args)))]

        def frame(c, ip, st, args, fr):
            return [(st, ("frame",) if args[0] == ("oldirg",) else ("newframe",))]

        def same(c, ip, st, args, fr):
            return [(st, ("newirg",) if args[0] == ("new", "copy") else ("oldirg",))]
        calls = {"irn_copy_into_irg": cp, "is_Member": ("c", 1), "is_Member_": ("c", 1), "get_Member_entity": ("ent",), "get_Member_entity_": ("ent",), "get_entity_owner": owner, "get_entity_owner_": owner,
                 "is_frame_type": ("c", 1), "is_frame_type_": ("c", 1), "get_entity_link": elink, "get_entity_link_": elink, "get_irg_frame_type": frame, "get_irg_frame_type_": frame,
                 "set_Member_entity": ev("member"), "set_Member_entity_": ev("member"), "set_irn_link": ev("link"), "set_irn_link_": ev("link"), "set_new_node": ev("link"), "get_irn_irg": same, "get_irn_irg_": same}
        ip, res = run1(P, F, [("p", a[0]) for a in F.params], C(P, calls))
        for st, v in res:
            cs = [e for e in st.cl if e[0] == "copy"]
            if not cs:
                continue
            old, c = cs[0][1], ("new", "copy")
            linked = ("link", old, c) in st.cl or v == c or any(val == c and k[0] == "f" and k[2].endswith(".link") for k, val in st.mem.items())
            chk(rep, linked, f"copier/{F.name}/link", F.loc, f"{F.name}: the copy is not recorded at its original")
            e = [x for x in st.cl if x[0] == "member"]
            ok = any(x[1] == c and x[2] == ("elink", ("ent",)) for x in e) or any(val == ("elink", ("ent",)) and "member_attr.entity" in str(k) for k, val in st.mem.items())
            chk(rep, ok, f"copier/{F.name}/member", F.loc, f"{F.name}: a Member of the frame keeps the entity of the frame of the original graph")
    rewirers(P, rep)
    inlined(P, rep)
    # graph copies
    G = P.func("create_irg_copy")
    getters = {}
    for n in P.funcs:
        if n.startswith("get_irg_") and n.rstrip("_")[8:] in ("end_block", "end", "start_block", "start", "no_mem", "initial_mem", "frame", "args"):
            getters[n] = (lambda w: lambda c, ip, st, args, fr: [(st, ("irgget", w, args[0]))])(n.rstrip("_")[8:])
    calls = dict(getters)
    for n in list(P.funcs):
        if n.startswith("set_irg_") and n.rstrip("_")[8:] in ("end_block", "end", "start_block", "start", "no_mem", "initial_mem", "frame", "args"):
            calls[n] = ev(n.rstrip("_"))
    calls.update({"get_new_node": link, "get_irn_link": link, "get_irn_link_": link, "alloc_graph": ("new", "graph"), "clone_frame_type": clone, "irg_walk_anchors": ev("walk"), "irp_reserve_resources": ("void",), "irp_free_resources": ("void",), "ir_reserve_resources": ("void",), "ir_free_resources": ("void",)})
    ip, res = run1(P, G, [("p", "irg")], C(P, calls))
    g = ("new", "graph")
    for st, v in res:
        if v != g:
            raise AnalysisError(f"create_irg_copy: result {str(v)[:80]}")
        w = [e for e in st.cl if e[0] == "walk"]
        chk(rep, bool(w) and all(x[1] == ("p", "irg") for x in w) and w[0][4] == g, "graph/walk", G.loc, "create_irg_copy does not walk all anchors of the original to copy the nodes into the new graph")
        ft = ip.read(st, ("f", ("deref", g), "ir_graph.frame_type"))
        chk(rep, ft[0] == "cloned" and ft[1][0] == "ld" and ft[1][1] == ("f", ("deref", ("p", "irg")), "ir_graph.frame_type"), "graph/frame", G.loc, "create_irg_copy: the frame type of the copy is not a clone of the one of the original")
        an = ip.read(st, ("f", ("deref", g), "ir_graph.anchor"))
        chk(rep, an[0] == "link" and an[1][0] == "ld" and an[1][1] == ("f", ("deref", ("p", "irg")), "ir_graph.anchor"), "graph/anchor", G.loc, "create_irg_copy: the anchor of the copy is not the copy of the anchor")
        for e in st.cl:
            if e[0].startswith("set_irg_"):
                n = e[0][8:]
                chk(rep, e[1] == g and e[2] == ("link", ("irgget", n, ("p", "irg"))), f"graph/{n}", G.loc, f"create_irg_copy: {n} of the copy is {str(e[2])[:80]}")
        ps = ip.read(st, ("f", ("deref", g), "ir_graph.irg_pinned_state"))
        chk(rep, ps[0] == "ld" and ps[1] == ("f", ("deref", ("p", "irg")), "ir_graph.irg_pinned_state"), "graph/pinned", G.loc, "create_irg_copy: the pinned state is not copied")
    # frame types
    K = P.func("clone_frame_type")
    N = 3

    def mem(c, ip, st, args, fr):
        return [(st, ("member", args[1]))]

    def ce(c, ip, st, args, fr):
        return [(c.log(st, "clone", *args), ("cloned", args[0]))]
    calls = {"get_compound_n_members": ("c", N), "get_compound_n_members_": ("c", N), "get_compound_member": mem, "get_compound_member_": mem, "clone_entity": ce, "new_type_frame": ("new", "frame"), "set_entity_link": ev("elink"), "set_entity_link_": ev("elink"), "is_frame_type": ("c", 1), "is_frame_type_": ("c", 1), "irp_resources_reserved": ("c", -1), "get_entity_ident": ident, "get_entity_ident_": ident, "get_entity_name": ident}
    ip, res = run1(P, K, [("p", "type")], C(P, calls))
    for st, v in res:
        for i in range(N):
            m = ("member", ("c", i))
            cl = [e for e in st.cl if e[0] == "clone" and e[1] == m]
            chk(rep, len(cl) == 1 and cl[0][3] == v and cl[0][2] == ("ident", m), f"frame/{i}", K.loc, f"clone_frame_type: member {i} of {N} is not cloned into the new frame under its name")
            lk = ("elink", m, ("cloned", m)) in st.cl or any(val == ("cloned", m) and ".link" in str(k) for k, val in st.mem.items())
            chk(rep, lk, f"frame/link/{i}", K.loc, f"clone_frame_type: member {i} of {N} is not linked to its clone")
        chk(rep, v == ("new", "frame"), "frame/result", K.loc, "clone_frame_type does not return the new frame")


def fnarg(x):
    x = strip(x)
    while x[0] == "u":
        x = strip(x[3])
    return x[2] if x[0] == "v" and x[4] == "f" else None


def rewirers(P, rep):
    """A walk that copies nodes redirects the operands of every copy afterwards."""
    def direct(F, names):
        return any(x[0] == "c" and callee_name(x) in names for x in walk(F.body))

    def reach(F, names, d=3):
        if direct(F, names):
            return True
        return d > 0 and any(reach(G, names, d - 1) for x in walk(F.body) if x[0] == "c" and callee_name(x) for G in P.all if G.name == callee_name(x) and G.file == F.file)
    copies, done = {"exact_copy", "irn_copy_into_irg"}, set()
    for F in P.all:
        ws = [x for x in walk(F.body) if x[0] == "c" and (callee_name(x) or "").startswith(("irg_walk", "irg_block_walk"))]
        ws = [(x, [fnarg(a) for a in x[4]]) for x in ws]
        byname = lambda n: [G for G in P.all if G.name == n and (not G.static or G.file == F.file)]
        cw = [(x, fs) for x, fs in ws if any(n and any(direct(G, copies) and links(G) for G in byname(n)) for n in fs)]
        for x, fs in cw:
            rep.count("copy_walks")
            post = [G for _, gs in ws for n in gs if n for G in byname(n) if reach(G, {"irn_rewire_inputs"})]
            chk(rep, bool(post), f"walk/{F.name}", f"{F.file}:{x[2]}", f"{F.name} copies the nodes of a graph but never redirects the operands of the copies")
            for G in post:
                if G.key in done:
                    continue
                done.add(G.key)

                def rw(c, ip, st, args, fr):
                    return [(c.log(st, "rewire", *args), ("void",))]
                ip, res = run1(P, G, [("p", a[0]) for a in G.params], S(P, {"irn_rewire_inputs": rw}, G.file))
                for st, _ in res:
                    chk(rep, ("rewire", ("p", G.params[0][0])) in st.cl, f"post/{G.name}", G.loc, f"{G.name}: there is a path on which the operands of the copy are not redirected")


def links(F):
    return any(x[0] == "c" and (callee_name(x) or "").strip("_") in ("set_irn_link", "set_new_node") for x in walk(F.body)) or any(x[0] == "a" and strip(x[3])[0] == "m" and strip(x[3])[3] == "link" for x in walk(F.body))


def inlined(P, rep):
    """Inlining: every entity of the inlined frame is linked to a new entity of the frame of the caller."""
    N = 2

    def ev(n, r):
        def f(c, ip, st, args, fr):
            return [(c.log(st, n, *args), r(args))]
        return f

    def mem(c, ip, st, args, fr):
        return [(st, ("member", args[0], args[1]))]

    def frame(c, ip, st, args, fr):
        return [(st, ("frame", args[0]))]
    for par, maker in ((0, "clone_entity"), (1, "new_entity")):
        here = {F.name: F for F in P.all if F.file.endswith("opt_inline.c")}

        def calls_(F, d=3):
            r = {(callee_name(x) or "").strip("_") for x in walk(F.body) if x[0] == "c"}
            return r | {y for n in r if n in here and n != F.name and d for y in calls_(here[n], d - 1)}
        both = {n for n, F in here.items() if {maker, "set_entity_link"} <= calls_(F)}
        fs = [here[n] for n in sorted(both) if not any(callee_name(x) in both - {n} for x in walk(here[n].body) if x[0] == "c")]
        if not fs:
            raise AnalysisError(f"inlining does not use {maker}")
        for F in fs:
            calls = {"get_compound_n_members": ("c", N), "get_compound_member": mem, "get_irg_frame_type": frame, "is_parameter_entity": ("c", par), "clone_entity": ev("clone", lambda a: ("new", "ent", a[0])), "new_entity": ev("new", lambda a: ("new", "ent", a[0])), "set_entity_link": ev("elink", lambda a: ("void",)), "get_irn_irg": ("callerirg",)}
            ip, res = run1(P, F, [("p", a[0]) for a in F.params], S(P, calls, F.file))
            for st, v in res:
                ent = [e for e in st.cl if e[0] == "elink"]
                for i in range(N):
                    l = [e for e in ent if e[1][0] == "member" and e[1][2] == ("c", i) and e[2][:2] == ("new", "ent")]
                    chk(rep, bool(l), f"inline/{'parameter' if par else 'frame'}", F.loc, f"{F.name}: there is a path on which {'parameter' if par else 'frame'} entity {i} of {N} of the inlined graph gets no counterpart in the frame of the caller")


def bephi(P, rep):
    """Back-end copy callbacks put in front of the ones of the operation: requirements and output registers."""
    for F in P.all:
        if "/be/" not in F.file:
            continue
        for x in walk(F.body):
            if x[0] != "c" or callee_name(x) != "set_op_copy_attr":
                continue
            n, o = fnarg(x[4][1]), strip(x[4][0])
            if not n or o[0] != "v" or o[4] != "g" or not o[2].startswith("op_"):
                continue
            for G in [G for G in P.all if G.name == n and G.file == F.file]:
                rep.count("be_copy_callbacks")

                def ind(c, ip, st, args, fr):
                    return [(c.log(st, "old", *args), ("void",))]
                st0 = State()
                st0.cl = ()
                ip, res = run1(P, G, [("p", "irg"), ("p", "old"), ("p", "new")], BP(P, {"default_copy_attr": ind, "arch_get_irn_n_outs": ("c", 1)}))
                if not res:
                    raise AnalysisError(f"{n} never returns")
                for st, _ in res:
                    info = lambda m: ("deref", ("ld", ("f", ("deref", ("p", m)), "ir_node.backend_info")))
                    a, b = ("f", info("new"), "backend_info_t.in_reqs"), ("f", info("old"), "backend_info_t.in_reqs")
                    va, vb = ip.read(st, a), ip.read(State(), b)
                    chk(rep, va == vb or va[0] == "ld" and va[1] == b, f"{o[2]}/in_reqs", G.loc, f"{n}: the copy of a {o[2][3:]} has other register requirements than the original")
                    oa, ob = (ip.read(State(), ("f", info(m), "backend_info_t.out_infos")) for m in ("new", "old"))
                    ok = any(e[0] in ("memcpy", "memmove") and e[1][:2] == oa[:2] and e[2][:2] == ob[:2] for e in st.cl) or ip.read(st, ("deref", oa)) == ("ld", ("deref", ob))
                    ok = ok or any(k[0] == "ix" and k[1] == ("deref", oa) and v[0] == "ld" and v[1][0] == "ix" and v[1][1] == ("deref", ob) for k, v in st.mem.items())
                    chk(rep, ok, f"{o[2]}/out_infos", G.loc, f"{n}: the output registers of the copy of a {o[2][3:]} are not those of the original")
                    chk(rep, any(e[0] == "old" and e[1:] == (("p", "irg"), ("p", "old"), ("p", "new")) for e in st.cl), f"{o[2]}/chain", G.loc, f"{n}: the attributes of the operation are not copied")


class S(C):
    """Functions of other files stay opaque."""
    def __init__(self, P, calls, file):
        super().__init__(P, calls)
        self.mine = {G.name for G in P.all if G.file == file}

    def call(self, ip, st, c, n, args, fr):
        r = super().call(ip, st, c, n, args, fr)
        if r is None and n not in self.mine:
            return [(st, ("ret", n) + tuple(args))]
        return r


class BP(C):
    def call(self, ip, st, c, n, args, fr):
        if (n is None or n.startswith("*")) and len(args) == 3 and args[1] == ("p", "old"):
            return [(self.log(st, "old", *args), ("void",))]
        return super().call(ip, st, c, n, args, fr)


def ident(c, ip, st, args, fr):
    return [(st, ("ident", args[0]))]


def elink(c, ip, st, args, fr):
    return [(st, ("elink", args[0]))]


def clone(c, ip, st, args, fr):
    return [(st, ("cloned", args[0]))]


def run():
    P = Program("debug")
    rep = Report("C07", "field(copy) = field(original) for every field that is not per-position state", META["note"])
    callbacks(P, rep)
    nodecopy(P, rep)
    clones(P, rep)
    rewiring(P, rep)
    bephi(P, rep)
    rep.floor("copy_walks", 2)
    rep.floor("be_copy_callbacks", 1)
    rep.floor("fields", 200)
    rep.floor("operations", 45)
    rep.floor("graph_copiers", 1)
    return rep.finish()


if __name__ == "__main__":
    main("C07", run)
