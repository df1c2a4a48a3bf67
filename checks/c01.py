"""C01: nodes merged by value numbering agree in everything that distinguishes them."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from prog import Program, short, AnalysisError
from report import Report, main
from eqv import EqClient, paths, known_equal, leaves, locof
from absint import Interp, Client
import ops

META = {
    "title": "CSE merges two nodes only if they compute the same thing",
    "statement": "Value numbering never replaces one node by another unless both have the same opcode, mode, number of operands, "
                 "operands and (where the placement matters) block, and agree in every attribute that influences what the node computes "
                 "or what code is emitted for it. This covers all IR node kinds and the machine instructions of every back end, "
                 "including exception behaviour, volatility, alignment, types, entities, relations, constants, asm constraints, "
                 "clobbers, address modes, immediates, condition codes and sizes.",
    "over": ["inputs", "programs"],
    "quant": "every pair of nodes of every program, for each of the about 550 opcodes",
    "why": "A wrongly merged pair needs two nodes that differ only in one attribute of one opcode; tests sample a handful of opcodes and no test builds such pairs.",
    "files": ["ir/ir/irop.c", "ir/opt/iropt.c", "ir/be/benode.c", "ir/be/ia32/ia32_new_nodes.c", "ir/be/amd64/amd64_new_nodes.c", "ir/be/arm/arm_new_nodes.c", "ir/be/sparc/sparc_new_nodes.c", "ir/be/mips/mips_new_nodes.c", "ir/be/riscv/riscv_new_nodes.c"],
    "mech": [("attribute comparison callbacks", "set_op_attrs_equal registrations in ir/ir/irop.c and the generated back-end opcode tables"), ("identity comparison of the value table", "ir/opt/iropt.c identities_cmp")],
    "technique": "abstract interpretation of every attribute comparator (path-sensitive equality facts), checked against the record layout of the attribute",
    "note": "Every attribute field of every opcode must be provably equal on each path on which its comparator says equal; fields that cannot distinguish values are listed in the check with the reason. Trusts the clang front end and the table of exempt fields. Callees such as dominance queries are opaque.",
}

# fields that do not influence the computed value or the emitted code at the points where nodes are merged
EXEMPT = {
    "load_attr.type": "alias information only", "store_attr.type": "alias information only",
    "call_attr.callee_arr": "analysis result, only a cache of possible callees",
    "phi_attr.next": "temporary list", "phi_attr.u": "temporary data", "phi_attr.loop": "loop header marker of a data Phi, cannot differ for equal operands in one block",
    "arm_shifter_operand_t.shifter_op_input": "input number, determined by opcode, arity and shift modifier",
    "arm_attr_t.is_load_store": "set by the opcode",
    "ia32_attr_t.am_arity": "set by the opcode", "ia32_attr_t.is_commutative": "set by the opcode",
    "ia32_attr_t.is_reload": "statistics marker", "ia32_attr_t.is_spill": "statistics marker", "ia32_attr_t.is_remat": "statistics marker",
    "ia32_attr_t.exc_label": "set while emitting",
    "x86_addr_t.mem_input": "input number, determined by opcode, address variant and arity",
    "ia32_return_attr_t.emit_pop": "only one return per block",
    "sparc_jmp_cond_attr_t.annul_delay_slot": "set while filling delay slots, after the last value numbering",
    "sparc_load_store_attr_t.is_reg_reg": "determined by opcode and arity",
    "amd64_imm64_t.kind": "determined by the entity being present",
    "x87_attr_t.reg": "set by the x87 stack simulator, after the last value numbering", "x87_attr_t.res_in_reg": "set by the x87 stack simulator",
    "x87_attr_t.pop": "set by the x87 stack simulator", "x87_attr_t.reverse": "set by the x87 stack simulator",
}
# attribute record -> embedded part not used by that kind of node
UNUSED_PART = {
    ("ia32_immediate_attr_t", "attr"): "Const and Immediate nodes use only the immediate",
    ("amd64_switch_jmp_attr_t", "base.addr"): "a jump ends its block, there is no second one",
}
# field -> (guard field of the same record, values for which the field is meaningful)
GUARDED = {
    "x86_addr_t.base_input": ("variant", ["X86_ADDR_BASE", "X86_ADDR_BASE_INDEX"]),
    "x86_addr_t.index_input": ("variant", ["X86_ADDR_INDEX", "X86_ADDR_BASE_INDEX"]),
    "x86_addr_t.log_scale": ("variant", ["X86_ADDR_INDEX", "X86_ADDR_BASE_INDEX"]),
}
# back-end exception state: placement and exceptions are decided before code selection
BACKEND_EXC = "except_attr"
DEFAULT_OK = {"Block": "blocks are never merged", "Cond": "ends its block", "Switch": "ends its block"}
# pointers to arrays that are compared element by element
DEEP = {"asm_attr.constraints": "ir_asm_constraint", "asm_attr.clobbers": None}


def run():
    P = Program("release")
    rep = Report("C01", "every attribute field not exempted with a reason is established equal on every path on which the comparator registered for the opcode reports equality; "
                 "the identity comparison establishes opcode, mode, arity, operands, block and attributes", META["note"])
    reg = ops.registry(P)
    pairs = {}
    for n, o in reg.ops.items():
        rep.count("opcodes")
        f = o.get("attrs_equal")
        if f is not None and f[0] != "fn":
            raise AnalysisError(f"comparator of {n} not resolved: {f}")
        pairs.setdefault((o["attr"].split()[-1] if o["attr"] else None, f[1] if f else None), []).append(n)
    ip = Interp(P, Client())
    cache = {}
    A, B = ("deref", ("p", 0)), ("deref", ("p", 1))

    def known(fn, nelts=None):
        if (fn, nelts) not in cache:
            F = P.func(fn)
            cache[fn, nelts] = paths(P, F, [("p", 0), ("p", 1)], EqClient(P, nelts=nelts))
        return cache[fn, nelts]

    for (S, fn), names in pairs.items():
        if S is None:
            if fn is None or fn == "attrs_equal_false":
                continue
            check_be(P, rep, ip, reg, fn, names, known)
            continue
        if fn is None:
            for n in names:
                if n in DEFAULT_OK:
                    rep.ok()
                else:
                    rep.bad(f"{n}:no-comparator", reg.ops[n]["where"].replace("/repo/", ""), f"{n} has attributes ({S}) but no comparator: any two with equal operands are merged")
            continue
        F = P.func(fn)
        ps = known(fn)
        rep.count("comparators")
        rep.count("paths", len(ps))
        backend = "/be/" in F.file
        for path, t in leaves(P, S):
            q = f"{path[-1][0]}.{path[-1][1]}"
            dotted = ".".join(x[1] for x in path)
            rep.count("fields")
            if q in EXEMPT or any(s == S and (dotted == p or dotted.startswith(p + ".")) for s, p in UNUSED_PART):
                continue
            if backend and path[-1][0] == BACKEND_EXC:
                continue
            la = locof(ip, ("f", A, "ir_node.attr"), path)
            lb = locof(ip, ("f", B, "ir_node.attr"), path)
            if q in DEEP:
                deep(P, rep, ip, fn, F, names, q, la, lb, ps, known(fn, 2))
                continue
            miss = [s for s in ps if not field_equal(P, ip, s, path, t, la, lb)]
            if miss:
                rep.bad(f"{names[0]}:{q}", F.loc, f"{fn} reports two {', '.join(names[:4])} nodes equal although their {dotted} may differ")
            else:
                rep.ok({"comparator": fn, "field": q, "paths": len(ps), "opcodes": len(names)})
    identities(P, rep)
    rep.floor("opcodes", 450)
    rep.floor("comparators", 35)
    rep.floor("fields", 150)
    return rep.finish()


def field_equal(P, ip, s, path, t, la, lb):
    q = f"{path[-1][0]}.{path[-1][1]}"
    if t.startswith("union "):
        u = t.split()[-1]
        for n, ft, bw, off in P.records[u].fields:
            ls = leaves(P, u) if False else sub(P, u, n, ft)
            if all(known_equal(s, ("ld", locof(ip, la, p)), ("ld", locof(ip, lb, p))) for p, _ in ls):
                return True
        return False
    if known_equal(s, ("ld", la), ("ld", lb)):
        return True
    g = GUARDED.get(q)
    if g is not None:
        for l in (la, lb):
            base = l[1]
            gv = ("ld", ip.field(base, path[-1][0], g[0]))
            vals = [P.econst[v][0] for v in g[1]]
            v = s.val(gv)
            if v[0] == "c" and v[1] not in vals or all(x in s.neq.get(gv, ()) for x in vals):
                return True
    return False


def sub(P, u, n, ft):
    ft = ft.replace("const ", "")
    if ft.startswith("struct ") and not ft.endswith(("*", "]")):
        return [(((u, n),) + p, t) for p, t in leaves(P, ft.split()[-1])]
    return [(((u, n),), ft)]


def deep(P, rep, ip, fn, F, names, q, la, lb, ps, ps2):
    """Length and elements of a dynamic array compared."""
    elem = DEEP[q]

    def nelts(l):
        for s in ps:
            for k in list(s.rel) + list(s.cst):
                for x in terms(k):
                    if x[0] == "ld" and x[1][0] == "f" and x[1][2] == "ir_arr_descr.nelts" and mentions(x, ("ld", l)):
                        yield x
    na, nb = set(nelts(la)), set(nelts(lb))
    if not any(all(known_equal(s, x, y) for s in ps) for x in na for y in nb):
        rep.bad(f"{names[0]}:{q}:length", F.loc, f"{fn} reports two {names[0]} nodes equal although {q} may have different lengths")
    else:
        rep.ok({"comparator": fn, "field": q + " (length)"})
    fields = [((), None)] if elem is None else leaves(P, elem)
    for path, t in fields:
        for i in (0, 1):
            # the element, as an access path below the two array pointers
            x = el(ip, la, i, path)
            y = el(ip, lb, i, path)
            if ps2 and all(known_equal(s, x, y) for s in ps2):
                rep.ok()
            else:
                d = ".".join(p[1] for p in path)
                rep.bad(f"{names[0]}:{q}[]{d}", F.loc, f"{fn} reports two {names[0]} nodes equal although element {d or 'value'} of {q} may differ")
                break


def el(ip, l, i, path):
    b = ("deref", ("ld", l))
    b = b if i == 0 else ("ix", b, ("c", i))
    return ("ld", locof(ip, b, path))


def terms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from terms(x)


def mentions(t, x):
    return any(y == x for y in terms(t))


# back-end opcodes created through the common helper: attribute record per opcode
BE_ATTR = {"be_IncSP": "be_incsp_attr_t", "be_Relocation": "be_relocation_attr_t", "be_Asm": "be_asm_attr_t"}


def check_be(P, rep, ip, reg, fn, names, known):
    F = P.func(fn)
    A, B = ("deref", ("p", 0)), ("deref", ("p", 1))
    ps = known(fn)
    for n in names:
        if not n.startswith("be_"):
            continue
        rep.count("comparators")
        S = BE_ATTR.get(n)
        if S is not None:
            for path, t in leaves(P, S):
                rep.count("fields")
                if path[-1][0] == BACKEND_EXC:
                    continue
                la, lb = locof(ip, ("f", A, "ir_node.attr"), path), locof(ip, ("f", B, "ir_node.attr"), path)
                if all(known_equal(s, ("ld", la), ("ld", lb)) for s in ps):
                    rep.ok()
                else:
                    rep.bad(f"{n}:{S}.{path[-1][1]}", F.loc, f"{fn} reports two {n} nodes equal although their {path[-1][1]} may differ")
    if any(n in ("be_Copy", "be_Keep", "be_Perm", "be_CopyKeep", "be_Unknown", "be_IncSP") for n in names):
        # register requirements of the results
        ps2 = known(fn, 2)
        for i in (0, 1):
            for fld in ("reg", "req"):
                def loc(p):
                    bi = ("deref", ("ld", ("f", ("deref", ("p", p)), "ir_node.backend_info")))
                    oi = ("deref", ("ld", ("f", bi, "backend_info_t.out_infos")))
                    oi = oi if i == 0 else ("ix", oi, ("c", i))
                    return ("ld", ("f", oi, "reg_out_info_t." + fld))
                x, y = loc(0), loc(1)
                bad = [s for s in ps2 if not known_equal(s, x, y) and not (fld == "req" and req_equal(P, ip, s, x, y))]
                if bad or not ps2:
                    rep.bad(f"{names[0]}:out_infos.{fld}", F.loc, f"{fn} reports two nodes equal although the register {'requirement' if fld == 'req' else 'assignment'} of a result may differ")
                    break
                rep.ok()
        # register requirements of the operands: two operands
        ps3 = known(fn, 3)
        for i in (0, 1):
            def rq(p):
                bi = ("deref", ("ld", ("f", ("deref", ("p", p)), "ir_node.backend_info")))
                oi = ("deref", ("ld", ("f", bi, "backend_info_t.in_reqs")))
                return ("ld", oi if i == 0 else ("ix", oi, ("c", i)))
            x, y = rq(0), rq(1)
            if not ps3 or any(not known_equal(s, x, y) and not req_equal(P, ip, s, x, y) for s in ps3):
                rep.bad(f"{names[0]}:in_reqs", F.loc, f"{fn} reports two nodes equal although the register requirement of operand {i} may differ")
            else:
                rep.ok()


def req_equal(P, ip, s, x, y):
    a, b = ("deref", x), ("deref", y)
    for n, t, bw, off in P.records["arch_register_req_t"].fields:
        la, lb = ("ld", ip.field(a, "arch_register_req_t", n)), ("ld", ip.field(b, "arch_register_req_t", n))
        if known_equal(s, la, lb):
            continue
        if n == "limited":
            # same register sets: element 0 of the bit sets, or both unlimited
            ea, eb = ("ld", ("deref", la)), ("ld", ("deref", lb))
            if any(k[0] == "call" and la in k and lb in k and v for k, v in s.cst.items()) or any(k[0] == "call" and la in k and lb in k and 0 in v for k, v in s.neq.items()) \
               or known_equal(s, ea, eb) or any(mentions(k, la) and mentions(k, lb) for k in list(s.rel) + list(s.cst) + list(s.neq)) or s.truth(la) is True and s.truth(lb) is True:
                continue
        return False
    return True


class IdClient(EqClient):
    OPAQUE = {"get_irn_op", "get_irn_mode", "get_irn_arity", "get_nodes_block", "get_irn_pinned", "get_irn_n", "block_dominates", "block_postdominates",
              "ir_deepest_common_dominator", "get_opt_global_cse", "is_Block", "get_Block_dom_depth", "skip_Id"}

    def norm(self, n):
        m = n[:-1] if n.endswith("_") else n
        return m if m in self.OPAQUE else None

    def inline(self, ip, n, F, fr):
        return True

    def call(self, ip, st, c, n, args, fr):
        m = self.norm(n) if n else None
        if m is None:
            return None
        if m == "get_irn_op":
            return [(st, st.val(("ld", ("f", ("deref", args[0]), "ir_node.op"))))]
        if m == "get_irn_mode":
            return [(st, st.val(("ld", ("f", ("deref", args[0]), "ir_node.mode"))))]
        if m == "is_Block":
            return [(st, ("op", "==", st.val(("ld", ("f", ("deref", args[0]), "ir_node.op"))), ("ld", ("gv", "op_Block"))))]
        if m == "get_irn_arity" and self.nelts is not None:
            return [(st, ("c", self.nelts))]
        return [(st, st.val(("call", m) + tuple(args)))]


def identities(P, rep):
    """The comparison functions of the hash tables that number values."""
    cmpf = set()
    import prog

    def reaches(F, depth=0, seen=None):
        seen = seen if seen is not None else set()
        if F.key in seen or depth > 5:
            return False
        seen.add(F.key)
        for c in prog.calls(F.body):
            n = prog.callee_name(c)
            if n is None:
                if any(x[0] == "m" and x[3] == "attrs_equal" for x in prog.walk(c[3])):
                    return True
                continue
            G = P.resolve(n, F.file)
            if G is not None and reaches(G, depth + 1, seen):
                return True
        return False
    for F in P.all:
        for c in prog.calls(F.body):
            if prog.callee_name(c) in ("new_pset", "new_set") and c[4]:
                a = prog.strip(c[4][0])
                while a[0] == "u" and a[2] == "&":
                    a = prog.strip(a[3])
                if a[0] == "v" and a[4] == "f":
                    G = P.resolve(a[2], F.file)
                    if G is not None and reaches(G):
                        cmpf.add((a[2], F.file))
    rep.count("value_tables", len(cmpf))
    rep.floor("value_tables", 2)
    for name, file in sorted(cmpf):
        F = P.resolve(name, file) or P.func(name)
        args = [("p", i) for i in range(len(F.params))]
        ps = paths(P, F, args, IdClient(P), want=False)
        ps2 = paths(P, F, args, IdClient(P, nelts=2), want=False)
        # the nodes compared: the elements themselves or members of them
        p0, p1 = args[:2]
        for s in ps:
            for k in list(s.cst) + list(s.neq):
                if k[0] == "call" and k[1] == "*ir_op_ops.attrs_equal" and k[2] != k[3]:
                    p0, p1 = k[2], k[3]
        rep.count("paths", len(ps) + len(ps2))
        fld = lambda p, f: ("ld", ("f", ("deref", p), "ir_node." + f))
        call = lambda f, *a: ("call", f) + a
        blk0, blk1 = call("get_nodes_block", p0), call("get_nodes_block", p1)

        def need(what, pred, states):
            bad = [s for s in states if s.cmp("==", p0, p1) is not True and not pred(s)]
            if bad or not states:
                rep.bad(f"identity:{what}", F.loc, f"{name} reports two nodes identical although their {what} may differ")
            else:
                rep.ok({"comparison": name, "established": what, "paths": len(states)})
        need("opcode", lambda s: known_equal(s, fld(p0, "op"), fld(p1, "op")), ps)
        need("mode", lambda s: known_equal(s, fld(p0, "mode"), fld(p1, "mode")), ps)
        need("arity", lambda s: known_equal(s, call("get_irn_arity", p0), call("get_irn_arity", p1)), ps)
        for i in (0, 1) if p0[0] == "p" else ():
            need(f"operand {i}", lambda s: known_equal(s, call("get_irn_n", p0, ("c", i)), call("get_irn_n", p1, ("c", i))), ps2)

        def attrs(s):
            for k, v in list(s.cst.items()):
                if k[0] == "call" and k[1] == "*ir_op_ops.attrs_equal" and k[2:4] in ((p0, p1), (p1, p0)) and v:
                    return True
            for k, v in s.neq.items():
                if k[0] == "call" and k[1].startswith("*") and k[1].endswith(".attrs_equal") and k[2:4] in ((p0, p1), (p1, p0)) and 0 in v:
                    return True
            return False
        need("attributes", attrs, ps)

        def block(s):
            if known_equal(s, blk0, blk1):
                return True
            pinned = s.truth(call("get_irn_pinned", p0))
            gcse = s.truth(call("get_opt_global_cse"))
            if pinned is False and gcse is True:
                # one must dominate the other or postdominate the common dominator
                for k, v in list(s.neq.items()):
                    if k[0] == "call" and k[1] in ("block_dominates", "block_postdominates") and 0 in v:
                        return True
                return False
            return False
        if p0[0] != "p":
            pass    # partition refinement: operands and block are compared by their congruence classes
        elif any(block(s) for s in ps):
            need("block", block, ps)
        else:
            # values are compared across blocks (GVN): only sound when values that depend on their block are never equal
            phi = ("ld", ("gv", "op_Phi"))
            need("block of a Phi", lambda s: s.truth(("op", "==", fld(p0, "op"), phi)) is False or s.truth(("op", "==", fld(p1, "op"), phi)) is False, ps)
        isblk = ("op", "==", fld(p0, "op"), ("ld", ("gv", "op_Block")))
        need("being blocks", lambda s: s.truth(isblk) is False or s.truth(("op", "==", fld(p1, "op"), ("ld", ("gv", "op_Block")))) is False, ps)


if __name__ == "__main__":
    main("C01", run)
