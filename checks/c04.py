"""C04: constructors store every argument where the accessors read it."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from prog import Program, short, AnalysisError, walk
from report import Report, main
from absint import Interp, Client, State, isc, deref
from eqv import known_equal
import itertools, re

META = {
    "title": "Constructors store every argument where the accessors read it",
    "statement": "Every node constructor of the library interface (new_X, new_d_X, new_r_X, new_rd_X for all node kinds) builds a node of the requested opcode whose accessors return exactly what was passed: "
                 "the block, the debug information, every operand (get_X_<operand>), every element of a variable operand list, every attribute (get_X_<attribute>) and each constructor flag (volatile, unaligned, floats, throws_exception). "
                 "The same holds for the type and entity constructors, and for the constructors of every machine instruction, whose operand <name> must be input n_X_<name> of the instruction; "
                 "each machine instruction is created with exactly one register requirement per fixed input and one per output.",
    "over": ["inputs", "programs"],
    "quant": "every constructor (about 250 of the intermediate representation, about 600 of the machine instruction sets), all arguments and all combinations of flags",
    "why": "No test builds each node kind and reads everything back; swapped operands or a dropped flag of one rarely used constructor go unnoticed.",
    "files": ["scripts/ir_spec.py", "scripts/templates/gen_irnode.c", "scripts/irops.py", "ir/ir/ircons.c", "ir/ir/irnode.c", "ir/be/benode.c", "ir/tr/type.c", "ir/tr/entity.c", "ir/be/scripts/generate_new_opcodes.pl", "ir/be/ia32/ia32_spec.pl", "ir/be/amd64/amd64_spec.pl", "ir/be/arm/arm_spec.pl", "ir/be/sparc/sparc_spec.pl"],
    "mech": [("generated node constructors", "scripts/templates/gen_irnode.c"), ("machine instruction constructors", "ir/be/scripts/generate_new_opcodes.pl"), ("node creation", "ir/ir/irnode.c new_ir_node")],
    "technique": "abstract interpretation: each constructor is run on symbolic arguments, the accessors on the resulting abstract node",
    "note": "new_ir_node is modelled (its own body is checked separately to store opcode, mode, graph and operands); local optimisation after construction is taken to return an equivalent node and is not followed. "
            "Of a variable operand list the first element, the position and the length are checked. Operands that no accessor or slot name denotes are only counted.",
}

NOOP = {"verify_new_node", "irn_verify", "hook_new_node", "be_info_new_node", "edges_notify_edge_kind", "edges_notify_edge", "set_irp_new_node"}
INL_MAX = 9000


class C(Client):
    maxs = 40
    maxdepth = 9

    def __init__(self, P):
        self.P = P
        self.nodes = {}
        self.n = itertools.count()
        self.news = []
        self.copies = []
        self.info = []

    def inline(self, ip, n, F, fr):
        if n in ("skip_Id",) or "/adt/" in F.file or "/tv/" in F.file or n.startswith(("ir_new_arr", "_obstack", "obstack_", "new_tarval")):
            return False
        return len(str(F.body)) < INL_MAX and not has_loop(F)

    def pure(self, n):
        return True

    def call(self, ip, st, c, n, args, fr):
        if n in NOOP:
            return [(st, ("void",))]
        if n in ("optimize_node", "skip_Id", "optimize_in_place", "optimize_in_place_2"):
            return [(st, args[0])]
        if n in ("memcpy", "memmove", "__builtin_memcpy", "safe_memcpy") and len(args) == 3:
            self.copies.append((args[0], args[1], args[2]))
            s = st.copy()
            ip.write(s, deref(args[0]), ip.read(s, deref(args[1]), fr), c[2], fr)
            return [(s, args[0])]
        if n == "be_info_init_irn":
            self.info.append((args, st))
            return None
        if n == "new_ir_node":
            db, irg, block, op, mode, arity, inp = args
            s = st.copy()
            N = ("new", len(self.news))
            D = deref(N)

            def f(name):
                return ("f", D, "ir_node." + name)
            IN = ("newin", len(self.news))
            for k, v in (("op", op), ("mode", mode), ("irg", irg), ("in", IN), ("kind", ("c", self.P.econst["k_ir_node"][0]))):
                s.mem[f(k)] = v
            s.mem[f("dbi")] = db
            I = deref(IN)
            s.mem[I] = block
            # operands: what the caller's array holds at this point
            k = arity[1] if isc(arity) else 12
            base = deref(inp) if inp != ("c", 0) else None
            for i in range(max(k, 0)):
                if base is None:
                    break
                p = ip.padd(inp, ("c", i))
                v = ip.read(s, deref(p), fr)
                if not isc(arity) and v[0] == "ld" and v[1] == deref(p) and i:
                    break    # not written one by one: tail of a copied list
                s.mem[("ix", I, ("c", i + 1))] = v
            self.news.append((N, args, c[2], fr.F))
            return [(s, N)]
        return None


LOOP = {}


def has_loop(F):
    if F.key not in LOOP:
        LOOP[F.key] = any(x[0] in ("FOR", "W", "DO") for x in walk(F.body))
    return LOOP[F.key]


def evalall(P, c, F, args, st):
    return Interp(P, c).run(F, args, st)


# constructors without accessors by these names; parameter -> accessor
ACC = {
    ("Start", None): None,
    ("Proj", "irn_pred"): "get_Proj_pred", ("Proj", "num"): "get_Proj_num",
    ("Div", "pinned"): "get_irn_pinned", ("Mod", "pinned"): "get_irn_pinned",
}
FLAGS = {"cons_volatile": ("volatility", "volatility_is_volatile", "volatility_non_volatile"),
         "cons_unaligned": ("unaligned", "align_non_aligned", "align_is_aligned"),
         "cons_floats": ("irn_pinned", "op_pin_state_floats", "op_pin_state_pinned")}
VARLIST = {"Call": "get_Call_param", "Phi": "get_Phi_pred", "Sync": "get_Sync_pred", "Tuple": "get_Tuple_pred", "Return": "get_Return_res",
           "Block": "get_Block_cfgpred", "End": "get_End_keepalive", "ASM": "get_ASM_input", "Builtin": "get_Builtin_param"}


def run():
    P = Program("release")
    rep = Report("C04", "on the abstract node a constructor returns, get_X_<parameter> yields that parameter on every path", META["note"])
    base_new(P, rep)
    nodes(P, rep)
    others(P, rep)
    concrete(P, rep)
    machine(P, rep)
    be_nodes(P, rep)
    rep.floor("constructors", 180)
    rep.floor("operands_and_attributes", 700)
    rep.floor("combinations", 100)
    rep.floor("machine_constructors", 400)
    rep.floor("machine_operands", 700)
    return rep.finish()


def base_new(P, rep):
    """new_ir_node stores what the model says it stores."""
    F = P.func("new_ir_node")

    class B(Client):
        maxs = 60

        def pure(self, n):
            return True

        def store(self, ip, st, loc, val, line, fr):
            if val == ("p", "block") and loc[0] in ("deref", "ix", "f"):
                blk.append(loc[0] == "deref" or loc[0] == "ix" and loc[2] == ("c", 0))

        def call(self, ip, st, c, n, args, fr):
            if n in NOOP:
                return [(st, ("void",))]
            if n in ("memcpy", "memmove", "safe_memcpy"):
                copies.append((args, st.copy()))
                return [(st, args[0])]
            if n.startswith("set_irn_dbg_info") and args[1] == ("p", "dbi"):
                dbg.append(1)
            return None
    copies, dbg, blk = [], [], []
    ip = Interp(P, B())
    ps = [n for n, _, _ in F.params]
    want = {}
    for (n, i, t), role in zip(F.params, ("dbi", "irg", "block", "op", "mode", "arity", "in")):
        want[role] = ("p", role)
    for st, v in ip.run(F, [want[r] for r in ("dbi", "irg", "block", "op", "mode", "arity", "in")], State()):
        D = deref(v)
        for fld in ("op", "mode", "irg"):
            got = ip.read(st, ("f", D, "ir_node." + fld))
            chk(rep, got == want[fld], f"new_ir_node/{fld}", F.loc, f"new_ir_node does not store its {fld} argument in the node (it holds {str(got)[:80]})")
    chk(rep, blk and all(blk), "new_ir_node/block", F.loc, "new_ir_node does not store the block at position 0 of the operand array")
    # the debug information goes through set_irn_dbg_info
    direct = sum(1 for x in walk(F.body) if x[0] == "a" and x[3][0] == "m" and x[3][3] == "dbi")
    chk(rep, dbg or direct > 0, "new_ir_node/dbi", F.loc, "new_ir_node does not store the debug information")
    good = 0
    for a, st in copies:
        if a[1] == want["in"] and str(want["arity"]) in str(a[2]) and a[0][0] == "adr" and a[0][1][0] == "ix" and a[0][1][2] == ("c", 1):
            good += 1
    loops = any(x[0] == "FOR" for x in walk(F.body))
    chk(rep, good > 0 or not copies and loops, "new_ir_node/operands", F.loc, "new_ir_node does not copy the operands to positions 1..arity of the operand array")


def chk(rep, ok, key, where, msg, sample=None):
    if ok:
        rep.ok(sample)
    else:
        rep.bad(key, where, msg)
    return ok


def flavour(n):
    m = re.match(r"new_(rd_|r_|d_|)([A-Z]\w*)$", n)
    return m


def nodes(P, rep):
    for F in sorted(P.all, key=lambda f: f.name):
        m = flavour(F.name) or re.match(r"new_(rd_|r_|d_|)(immBlock)$", F.name)
        if not m or F.static or F.ret != "struct ir_node*" or m.group(2) + "_" in F.name:
            continue
        X = m.group(2)
        Xs = X
        if "op_" + X not in P.vars:
            if X in ("DivRL",):
                Xs = "Div"
            elif X in ("Const_long",):
                Xs = "Const"
            elif X in ("Phi_loop",):
                Xs = "Phi"
            elif X in ("immBlock", "Block_noopt"):
                Xs = "Block"
            else:
                continue
        if has_loop(F):
            rep.count("loops_not_decided")
            continue
        rep.count("constructors")
        flags = [i for i, p in enumerate(F.params) if p[2] == "enum ir_cons_flags"]
        combos = [None]
        if flags:
            bits = [P.econst[b][0] for b in ("cons_volatile", "cons_unaligned", "cons_floats", "cons_throws_exception")]
            combos = [sum(b for j, b in enumerate(bits) if k >> j & 1) for k in range(16)]
        for fl in combos:
            ctor(P, rep, F, Xs, flags[0] if flags else None, fl)


def ctor(P, rep, F, X, fpos, fl):
    args = [("p", n) for n, _, _ in F.params]
    if fpos is not None:
        args[fpos] = ("c", fl)
    c = C(P)
    s0 = State()
    # only nodes whose opcode leaves it open carry the attribute
    s0.assume(("op", "==", ("ld", ("f", ("deref", ("ld", ("gv", "op_" + X))), "ir_op.pin_state")), ("c", P.econst["op_pin_state_exc_pinned"][0])), True)
    res = evalall(P, c, F, args, s0)
    if not res:
        raise AnalysisError(f"{F.name} never returns")
    for st, N in res:
        key = F.name
        if N is None or N[0] != "new":
            # e.g. an existing node may be returned
            rep.count("paths_without_new_node")
            continue
        na = [x for x in c.news if x[0] == N][0][1]
        chk(rep, na[3] in (("ld", ("gv", "op_" + X)), ("ld", ("gv", "op_" + X), st.ep)) or str(("gv", "op_" + X)) in str(na[3]), key + "/op", F.loc, f"{F.name} does not create a node of opcode {X}")
        if not any(p[0] in ("dbgi", "db", "dbi") for p in F.params):
            chk(rep, na[0] in (("c", 0), ("null",)), key + "/dbgi", F.loc, f"{F.name} is given no debug information, but the node gets some: {str(na[0])[:60]}")
        fixedattrs(P, rep, c, F, X, st, N)
        narrowed(rep, F, st)
        # outputs
        outs = P.enums.get("pn_" + X)
        if outs is not None and X not in ("Start",):
            nout = sum(1 for k in outs["consts"] if not k[0].endswith("_max"))
            ist = "mode_T" in str(na[4])
            if nout > 1 or ist:
                chk(rep, ist and nout >= 1, key + "/mode", F.loc, f"{F.name}: a node with {nout} results {'must' if nout > 1 else 'must not'} have mode_T")
        for (pn, pi, pt), a in zip(F.params, args):
            if pn in ("irg",):
                if pt == "struct ir_graph*":
                    chk(rep, na[1] == a, f"{key}/{pn}", F.loc, f"{F.name} does not create the node in the given graph")
                continue
            if pn in ("dbgi", "db"):
                chk(rep, na[0] == a, f"{key}/dbgi", F.loc, f"{F.name} does not pass the debug information to the node")
                continue
            if pn == "block":
                chk(rep, na[2] == a, f"{key}/block", F.loc, f"{F.name} does not place the node in the given block")
                continue
            if pn == "arity":
                varlist(P, rep, c, F, X, st, N, na, args)
                continue
            if pn == "in" or a[0] == "c" and fpos is not None and pt == "enum ir_cons_flags":
                if pt == "enum ir_cons_flags":
                    flagcheck(P, rep, c, F, X, st, N, fl)
                continue
            if pn in ("n_constraints", "n_clobbers"):
                lens = str([str(x) for x in c.copies])
                chk(rep, f"('p', '{pn}')" in lens, f"{key}/{pn}", F.loc, f"{F.name} does not copy {pn} elements")
                continue
            if X == "Const" and pn in ("value", "mode"):
                ws = [w for _, w in result(P, c, "get_Const_tarval", N, st, F)]
                chk(rep, all(w[:2] == ("call", "new_tarval_from_long") and w[2:4] == (("p", "value"), ("p", "mode")) for w in ws), f"{key}/{pn}", F.loc, f"{F.name}: the constant is not new_tarval_from_long(value, mode)")
                continue
            g = accessor(P, X, pn, F)
            if g is None:
                rep.count("arguments_without_accessor")
                continue
            rep.count("operands_and_attributes")
            ws = result(P, c, g, N, st, F)
            bad = [w for s2, w in ws if not (w == a or known_equal(s2, w, a) or content(c, w, a) or boolish(s2, w, a))]
            chk(rep, not bad, f"{key}/{pn}", F.loc, f"{g} on a node built by {F.name} does not return the argument {pn}: it returns {str(bad[0])[:90] if bad else ''}", {"constructor": F.name, "argument": pn, "accessor": g})
        if F.name.startswith(("new_d_", "new_" + X)) and "block" not in [p[0] for p in F.params] and X not in ("Proj",) and not any(p[2] == "struct ir_graph*" for p in F.params):
            b = na[2]
            isfloat = X in ("Const", "Address", "Offset", "Size", "Align", "Unknown", "Dummy", "Bad", "NoMem", "Start", "End", "Block", "Anchor")
            cur = "current_ir_graph" in str(b) or "cur_block" in str(b)
            chk(rep, isfloat or cur, f"{key}/curblock", F.loc, f"{F.name} does not place the node in the current block")


# attributes that the name of a constructor fixes: name -> (accessor, accepted)
FIXED = {
    "DivRL": ("get_Div_no_remainder", True),
    "Phi_loop": ("get_Phi_loop", True),
    "Div": ("get_Div_no_remainder", False),
    "immBlock": ("get_Block_matured", False),
    "Block": ("get_Block_matured", True),
    "Block_noopt": ("get_Block_matured", True),
}


def fixedattrs(P, rep, c, F, X, st, N):
    n = re.sub(r"^new_(rd_|r_|d_|)", "", F.name)
    if n not in FIXED or P.resolve(FIXED[n][0]) is None:
        return
    g, want = FIXED[n]
    if n == "Div" and any(p[0] == "no_remainder" for p in F.params):
        return
    rep.count("fixed_attributes")
    bad = [w for s2, w in result(P, c, g, N, st, F) if w[0] == "c" and (w[1] != 0) != want or w[0] == "ld" and want]
    chk(rep, not bad, f"{F.name}/{g}", F.loc, f"{F.name}: {g} of the new node is {'zero' if want else 'set'}")


BITS = {"unsigned int": 32, "int": 32, "unsigned long": 64, "long": 64, "unsigned short": 16, "short": 16, "unsigned char": 8, "signed char": 8, "char": 8}


def narrowed(rep, F, st):
    """no conversion on the way to the object cuts a parameter"""
    if id(F) in DONE:
        return
    DONE.add(id(F))
    for x in walk(F.body):
        if x[0] == "k" and BITS.get(x[1]) and x[2][0] == "v" and x[2][4] == "p" and BITS.get(x[2][1], 0) > BITS[x[1]] and (BITS[x[1]] < 32 or F.name not in TRUNC):
            rep.bad(f"{F.name}/cast/{x[2][2]}", F.loc, f"{F.name} cuts the argument {x[2][2]} to {x[1]}")
        elif x[0] == "k":
            rep.count("conversions")


DONE = set()
# the index of the first variadic parameter is kept as an int
TRUNC = {"new_type_method", "new_type_method_"}


def boolish(st, w, a):
    return w == ("op", "!=", a, ("c", 0)) or w[0] == "c" and w[1] in (0, 1) and st.truth(a) is not None and int(st.truth(a)) == w[1]


def content(c, w, a):
    """A fresh copy of the array the argument points to (or the shared empty array)."""
    return any(d == w and s == a for d, s, _ in c.copies)


def accessor(P, X, pn, F):
    base = pn[4:] if pn.startswith("irn_") else pn
    for g in (ACC.get((X, pn)), f"get_{X}_{base}", f"get_irn_{base}", "get_Const_tarval" if X == "Const" and base == "tarval" else None):
        if g and P.resolve(g) is not None:
            return g
    return None


def result(P, c, g, N, st, F, *more):
    G = P.resolve(g)
    return [(s, w) for s, w in evalall(P, c, G, [N, *more], st)]


def varlist(P, rep, c, F, X, st, N, na, args):
    key = f"{F.name}/in"
    inarg = [a for (n, _, _), a in zip(F.params, args) if n == "in"]
    if not inarg:
        return
    inarg = inarg[0]
    ar = [a for (n, _, _), a in zip(F.params, args) if n == "arity"][0]
    # arity given to the node: arity + number of fixed operands
    fixed = sum(1 for n, _, _ in F.params if n.startswith("irn_"))
    want = ar if not fixed else ("op", "+", ar, ("c", fixed))
    chk(rep, na[5] == want, key + ".len", F.loc, f"{F.name}: the node gets {str(na[5])[:60]} operands, expected the {fixed} fixed operands and arity more")
    if fixed:
        cp = [x for x in c.copies if x[1] == inarg]
        ok = any(str(ar) in str(x[2]) for x in cp)
        chk(rep, ok, key + ".copy", F.loc, f"{F.name} does not copy arity elements of the operand list")
    elif na[6] == inarg:
        rep.ok()
    g = VARLIST.get(X)
    if g is None or P.resolve(g) is None:
        raise AnalysisError(f"no list accessor for {X}")
    rep.count("operands_and_attributes")
    ws = result(P, c, g, N, st, F, ("c", 0))
    bad = [w for s2, w in ws if not (w == ("ld", deref(inarg)) or w[0] == "ld" and w[1] == deref(inarg))]
    chk(rep, not bad, key, F.loc, f"{g}(node, 0) on a node built by {F.name} is not element 0 of the operand list: {str(bad[0])[:90] if bad else ''}")


def flagcheck(P, rep, c, F, X, st, N, fl):
    for f, (acc, on, off) in FLAGS.items():
        g = f"get_{X}_{acc}" if acc != "irn_pinned" else "get_irn_pinned"
        if P.resolve(g) is None:
            continue
        bit = P.econst[f][0]
        want = P.econst[on if fl & bit else off][0]
        if acc == "irn_pinned":
            # the opcode decides whether the attribute is looked at
            v = [s.mem.get(k) for s in [st] for k in s.mem if k[0] == "f" and k[2].endswith(".pinned") and str(N) in str(k)]
            ok = v and all(x == ("c", want) for x in v)
            if not v:
                continue
        else:
            ws = result(P, c, g, N, st, F)
            ok = all(w == ("c", want) for _, w in ws)
        rep.count("flag_cases")
        chk(rep, ok, f"{F.name}/{f}", F.loc, f"{F.name} with flags {fl}: {f} is not reflected by {g}")
    bit = P.econst["cons_throws_exception"][0]
    v = [st.mem.get(k) for k in st.mem if k[0] == "f" and k[2].endswith(".throws_exception") and str(N) in str(k)]
    if v:
        rep.count("flag_cases")
        chk(rep, all(x == ("c", 1 if fl & bit else 0) for x in v), f"{F.name}/cons_throws_exception", F.loc, f"{F.name} with flags {fl}: cons_throws_exception is not reflected")
    elif X in ("Load", "Store", "ASM", "CopyB"):
        if X in ("Load", "Store", "ASM"):
            rep.bad(f"{F.name}/cons_throws_exception", F.loc, f"{F.name} does not store whether the node may throw")


# other constructors: function -> accessor of each argument, by position
OTHERS = {
    "new_type_array": ["get_array_element_type", "get_array_size"],
    "new_type_pointer": ["get_pointer_points_to_type"],
    "new_type_primitive": ["get_type_mode"],
    "new_type_method": ["get_method_n_params", "get_method_n_ress", None, "get_method_calling_convention", "get_method_additional_properties"],
    "new_type_class": ["get_compound_ident"], "new_type_struct": ["get_compound_ident"], "new_type_union": ["get_compound_ident"], "new_type_segment": ["get_compound_ident"],
    "new_entity": ["get_entity_owner", "get_entity_ident", "get_entity_type"],
    "new_global_entity": ["get_entity_owner", "get_entity_ld_ident", "get_entity_type", "get_entity_visibility"],
    "new_parameter_entity": ["get_entity_owner", "get_entity_parameter_number", "get_entity_type"],
    "new_alias_entity": ["get_entity_owner", "get_entity_ident", "get_entity_alias", "get_entity_type", "get_entity_visibility"],
}


class C2(C):
    def inline(self, ip, n, F, fr):
        if "/adt/" in F.file or n.startswith(("hook_", "add_compound_member", "get_irp_new_node_nr")):
            return False
        return len(str(F.body)) < 30000     # the hook macros contain loops

    def call(self, ip, st, c, n, args, fr):
        if n and (n.startswith(("xmalloc", "xcalloc")) or n in ("malloc", "calloc")):
            self.news.append(n)
            return [(st, ("new", len(self.news)))]
        return C.call(self, ip, st, c, n, args, fr)


def others(P, rep):
    for fn, accs in OTHERS.items():
        F = P.resolve(fn)
        if F is None:
            continue
        rep.count("constructors")
        args = [("p", i) for i in range(len(F.params))]
        c = C2(P)
        narrowed(rep, F, None)
        res = evalall(P, c, F, args, State())
        if not res:
            raise AnalysisError(f"{fn} never returns")
        for i, g in enumerate(accs):
            if g is None:
                continue
            if i >= len(args) or P.resolve(g) is None:
                rep.count("arguments_without_accessor")
                continue
            rep.count("operands_and_attributes")
            bad = None
            a = args[i]
            for st, N in res:
                for s2, w in evalall(P, c, P.resolve(g), [N], st):
                    if not (w == a or known_equal(s2, w, a) or boolish(s2, w, a)):
                        bad = w
            pn = F.params[i][0]
            chk(rep, bad is None, f"{fn}/{pn}", F.loc, f"{g} on an object built by {fn} does not return the argument {pn}: {str(bad)[:90]}", {"constructor": fn, "argument": pn, "accessor": g})


def concrete(P, rep):
    """Constructors whose arguments are combined with others: all combinations of a few values."""
    def runs(fn, accs, cases, expect):
        F = P.resolve(fn)
        if F is None:
            return
        for case in cases:
            for g in accs:
                G = P.resolve(g)
                if G is None:
                    rep.count("arguments_without_accessor")
                    continue
                c = C2(P)
                args = [("p", i) if v is None else ("c", v) for i, v in enumerate(case)]
                rep.count("combinations")
                got = []
                for st, N in evalall(P, c, F, args, State()):
                    got += [w for _, w in evalall(P, c, G, [N], st)]
                chk(rep, got and expect(g, case, got), f"{fn}/{g}", F.loc, f"{fn}({', '.join('*' if v is None else str(v) for v in case)}): {g} yields {str(got[:2])[:60]}")

    def num(ws):
        return [w[1] for w in ws if w[0] == "c"] if all(w[0] == "c" for w in ws) else None

    def method(g, case, ws):
        v = num(ws)
        if v is None:
            return False
        if g == "is_method_variadic":
            return all((x != 0) == (case[2] != 0) for x in v)
        return all(x == case[0 if g == "get_method_n_params" else 1] for x in v)
    runs("new_type_method", ["get_method_n_params", "get_method_n_ress", "is_method_variadic"],
         [(a, b, k, None, None) for a in (0, 1, 2, 3, 7, 300) for b in (0, 1, 2, 3, 5) for k in (0, 1)], method)

    full = 0
    for n, v, *_ in P.enums["ir_linkage"]["consts"]:
        full |= v
    const = P.econst["IR_LINKAGE_CONSTANT"][0]

    def linkage(g, case, ws):
        v = num(ws)
        return v is not None and all(x in (case[4], case[4] | const) for x in v) and case[4] in v
    bits = [1 << i for i in range(full.bit_length()) if full >> i & 1]
    runs("new_global_entity", ["get_entity_linkage"], [(None, None, None, None, v) for v in [0, full] + bits + [a | b for a in bits for b in bits if a < b]], linkage)

    F = P.resolve("new_spillslot")
    if F is not None and len(F.params) == 3:
        for size in (1, 2, 3, 4, 8, 10, 16, 64):
            for po2 in range(0, 13):
                c = C2(P)
                for st, N in evalall(P, c, F, [("p", 0), ("c", size), ("c", po2)], State()):
                    rep.count("combinations")
                    al = [w for _, w in evalall(P, c, P.resolve("get_entity_alignment"), [N], st)]
                    chk(rep, al == [("c", 1 << po2)], "new_spillslot/alignment", F.loc, f"new_spillslot with an alignment of 2^{po2} gives the entity {str(al)[:40]}")
                    sz = [v for k, v in st.mem.items() if k[0] == "f" and k[2].endswith(".size") and str(N) in str(k)]
                    chk(rep, sz == [("c", size)], "new_spillslot/size", F.loc, f"new_spillslot of {size} bytes gives the entity {str(sz)[:40]}")


class CM(C):
    """Machine constructors: attribute initialisers are followed, the back-end information is not."""
    def inline(self, ip, n, F, fr):
        if n == "be_switch_attr_init":
            return True
        if n.startswith(("be_", "ir_")) and n != "be_get_info":
            return False
        return C.inline(self, ip, n, F, fr)


def slots(P, rep, F, N, st, pn, a, split):
    """An attribute is stored unchanged, completely, and not in the place of another one."""
    hits = [(l, v) for l, v in st.mem.items() if str(a) in str(v) and str(N) in str(l)]
    have = []
    others = [n for n, _, t in F.params if n != pn and t != "struct ir_node*"]
    for l, v in hits:
        rep.count("attribute_stores")
        fl = l[2] if l[0] == "f" else "?"
        same = v == a or v == ("ld", deref(a)) or v[0] == "ld" and v[1] == deref(a)
        chk(rep, same or split, f"{F.name}/{pn}/value", F.loc, f"{F.name} does not store its argument {pn} as given: {fl} holds {str(v)[:60]}")
        if fl == "?":
            continue
        rec, fn = fl.rsplit(".", 1)
        names = [x[0] for x in P.records[rec].fields] if rec in P.records else []
        mine = fn == pn or pn not in names and fn.split("_")[-1] == pn.split("_")[-1]
        if not mine:
            thief = [o for o in others if o == fn]
            chk(rep, not thief, f"{F.name}/{pn}/place", F.loc, f"{F.name} stores its argument {pn} in {fl}, the place of {thief[0] if thief else ''}")
            chk(rep, pn not in names, f"{F.name}/{pn}/own", F.loc, f"{F.name} stores its argument {pn} in {fl}, not in {rec}.{pn}")
        if v == a:
            for n, ft, bw, off in P.records[rec].fields if rec in P.records else ():
                if n == fn:
                    have.append((bw if bw is not None else bits(P, ft), fl))
    need = bits(P, [x[2] for x in F.params if x[0] == pn][0])
    have = [(w, fl) for w, fl in have if w and w > 1]
    if need and have:
        rep.count("attribute_widths")
        w, fl = max(have)
        chk(rep, w >= need or fl in NARROW, f"{F.name}/{pn}/width", F.loc, f"{F.name} stores its argument {pn} of {need} bits in {fl}, which keeps only {w}")


# fields that are narrower than the parameter on purpose
NARROW = {
    "arm_shifter_operand_t.shift_immediate": "a shift amount",
    "arm_shifter_operand_t.shifter_op_input": "the number of an input",
}


def bits(P, t):
    t = re.sub(r"^const | const$", "", t)
    if t in BITS:
        return BITS[t]
    if t.startswith("enum ") and t[5:] in P.enums:
        m = 0
        for n, val, *_ in P.enums[t[5:]]["consts"]:
            if val >= 0:
                m |= val
        return max(1, m.bit_length())
    return None


# back-end nodes every target uses: constructor -> accessor of each parameter
BE = {
    "be_new_IncSP": {"bl": "block", "old_sp": "be_get_IncSP_pred", "offset": "be_get_IncSP_offset", "no_align": "be_get_IncSP_no_align"},
    "be_new_d_Copy": {"dbgi": "dbgi", "block": "block", "op": "be_get_Copy_op"},
    "be_new_Copy": {"bl": "block", "op": "be_get_Copy_op"},
    "be_new_Relocation": {"dbgi": "dbgi", "irg": "irg", "kind": "be_get_Relocation_kind", "entity": "be_get_Relocation_entity", "mode": "mode"},
}


class CB(C):
    def inline(self, ip, n, F, fr):
        if n in ("be_info_init_irn", "keep_alive") or "/adt/" in F.file:
            return False
        return not has_loop(F) and len(str(F.body)) < INL_MAX


def be_nodes(P, rep):
    for fn, accs in BE.items():
        F = P.resolve(fn)
        if F is None:
            continue
        c = CB(P)
        args = [("p", n) for n, _, _ in F.params]
        for st, N in evalall(P, c, F, args, State()):
            if N[0] != "new":
                continue
            rep.count("be_constructors")
            na = [x for x in c.news if x[0] == N][0][1]
            for (pn, _, _), a in zip(F.params, args):
                g = accs.get(pn)
                if g in ("dbgi", "irg", "block", "mode"):
                    got = [na[("dbgi", "irg", "block", "op", "mode").index(g)]]
                elif g and P.resolve(g) is not None:
                    got = [w for s2, w in evalall(P, c, P.resolve(g), [N], st) if not known_equal(s2, w, a) and not boolish(s2, w, a)]
                else:
                    continue
                rep.count("be_operands")
                chk(rep, all(w == a for w in got), f"{fn}/{pn}", F.loc, f"{fn}: {g} of the new node is not the argument {pn}: {str(got)[:60]}")


def static_arrays(F):
    """Names of local arrays -> number of elements."""
    out = {}
    for x in walk(F.body):
        if x[0] == "D":
            for d in x[2]:
                m = re.search(r"\[(\d+)\]$", d[3])
                if m:
                    out[d[1]] = int(m.group(1))
    return out


def machine(P, rep):
    for F in sorted(P.all, key=lambda f: f.name):
        m = re.match(r"new_bd_(ia32|amd64|arm|sparc|mips|riscv|TEMPLATE)_(\w+)$", F.name)
        if not m or F.static or F.ret != "struct ir_node*":
            continue
        if has_loop(F):
            rep.count("loops_not_decided")
            continue
        rep.count("machine_constructors")
        args = [("p", n) for n, _, _ in F.params]
        c = CM(P)
        res = evalall(P, c, F, args, State())
        if not res:
            raise AnalysisError(f"{F.name} never returns")
        lens = static_arrays(F)
        for st, N in res:
            if N[0] != "new":
                rep.count("paths_without_new_node")
                continue
            na = [x for x in c.news if x[0] == N][0][1]
            mm = re.search(r"'op_(\w+)'", str(na[3]))
            if not mm:
                raise AnalysisError(f"{F.name}: unknown opcode {na[3]}")
            op = mm.group(1)
            chk(rep, F.name[7:] == op or F.name[7:].startswith(op + "_"), f"{F.name}/op", F.loc, f"{F.name} builds an instruction of opcode {op}")
            pos = 0
            memstr = " ".join(str(v) for k, v in st.mem.items() if str(N) in str(k)) + " " + " ".join(str(v) for k, v in st.mem.items() if k[0] == "f" and "backend_info" in str(k))
            dyn = False
            for (pn, _, pt), a in zip(F.params, args):
                if pn == "dbgi":
                    chk(rep, na[0] == a, f"{F.name}/dbgi", F.loc, f"{F.name} drops the debug information")
                elif pn == "block":
                    chk(rep, na[2] == a, f"{F.name}/block", F.loc, f"{F.name} does not place the instruction in the given block")
                elif pn == "arity":
                    dyn = True
                    chk(rep, na[5] == a, f"{F.name}/arity", F.loc, f"{F.name} does not give the instruction arity operands")
                elif pn == "in":
                    chk(rep, na[6] == a, f"{F.name}/in", F.loc, f"{F.name} does not use the operand list")
                elif pn == "in_reqs":
                    chk(rep, any(i[0][2] == a for i in c.info), f"{F.name}/in_reqs", F.loc, f"{F.name} does not use the given input requirements")
                elif pn == "n_res":
                    chk(rep, any(i[0][3] == a for i in c.info), f"{F.name}/n_res", F.loc, f"{F.name} does not use the given number of results")
                elif pt == "struct ir_node*":
                    en = P.econst.get(f"n_{op}_{pn}")
                    slot = en[0] if en else pos
                    rep.count("machine_operands")
                    got = st.mem.get(("ix", deref(("newin", int(N[1]))), ("c", slot + 1)))
                    chk(rep, got == a, f"{F.name}/{pn}", F.loc, f"{F.name}: operand {pn} is not input {slot} of the instruction", {"constructor": F.name, "operand": pn, "slot": slot})
                    pos += 1
                else:
                    rep.count("machine_attributes")
                    chk(rep, str(a) in memstr or len(res) > 1 and str(a) in str(st.key()), f"{F.name}/{pn}", F.loc, f"{F.name} does not store its argument {pn} in the instruction")
                    slots(P, rep, F, N, st, pn, a, len(res) > 1)
            if not dyn:
                chk(rep, na[5] == ("c", pos), f"{F.name}/nin", F.loc, f"{F.name} has {pos} operands but creates the instruction with {na[5]}")
            for a, _s in c.info[:1]:
                if not dyn:
                    n = reqlen(a[2], lens)
                    if n is not None:
                        rep.count("requirement_lists")
                        chk(rep, n == pos, f"{F.name}/reqs", F.loc, f"{F.name}: {n} input requirements for {pos} operands")
                outs = P.enums.get("pn_" + op)
                if isc(a[3]):
                    nres = a[3][1]
                    if outs is not None:
                        no = len(outs["consts"])
                        rep.count("result_lists")
                        chk(rep, no == nres, f"{F.name}/n_res", F.loc, f"{F.name} creates the instruction with {nres} results, pn_{op} names {no}")
                    have = {k[1][2][1] for k in st.mem if k[0] == "f" and k[2] == "reg_out_info_t.req" and k[1][0] == "ix" and isc(k[1][2])}
                    have |= {0 for k in st.mem if k[0] == "f" and k[2] == "reg_out_info_t.req" and k[1][0] != "ix"}
                    rep.count("output_requirements", nres)
                    chk(rep, set(range(nres)) <= have, f"{F.name}/outreqs", F.loc, f"{F.name}: results {sorted(set(range(nres)) - have)} get no register requirement")


def reqlen(t, lens):
    if t == ("c", 0):
        return 0
    if t[0] == "adr" and t[1][0] == "ix" and t[1][1][0] in ("sv", "var"):
        nm = [x for x in t[1][1] if isinstance(x, str) and x in lens]
        return lens[nm[-1]] if nm else None
    return None


if __name__ == "__main__":
    main("C04", run)
