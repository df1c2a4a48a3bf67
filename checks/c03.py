"""C03: attribute setters and getters of the public interface agree and do not interfere."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from prog import Program, short, AnalysisError, walk, api_names
from report import Report, main
from absint import Interp, Client, State, mentions
from eqv import known_equal

META = {
    "title": "A getter returns what the matching setter stored, and nothing else changes",
    "statement": "For every attribute with a setter and a getter in the library interface (set_X(obj, ..., value) / get_X(obj, ...) or is_X/has_X: IR nodes, graphs, types, entities, modes, program, optimisation flags, hooks), "
                 "get_X called right after set_X with the same object and index returns the stored value, for every object and value the setter accepts; "
                 "and setting one attribute does not change what the getter of another attribute of the same object returns.",
    "over": ["inputs", "histories"],
    "quant": "every setter/getter pair, every object, index and value; every pair of a setter and another getter on the same kind of object",
    "why": "The unit tests touch a handful of the several hundred accessors; a setter that writes the wrong field, slot or bit only shows in clients that read it back.",
    "files": ["ir/ir/irnode.c", "ir/ir/irgraph.c", "ir/ir/irgraph_t.h", "ir/ir/irprog.c", "ir/tr/type.c", "ir/tr/entity.c", "ir/ir/irflag.c", "ir/ir/irdump.c", "scripts/gen_ir.py", "scripts/irops.py", "ir/be/ia32/ia32_new_nodes.c"],
    "mech": [("attribute accessors", "set_*/get_* functions in ir/ and in the generated gen_irnode.c"), ("input slots", "pn/n_X enumerators used by set_irn_n/get_irn_n")],
    "technique": "abstract interpretation: each setter is run on symbolic arguments, the getter on the resulting abstract heap; results compared as terms",
    "note": "Predecessors are taken not to be Id nodes and never Deleted (the getters skip Id). Notification callees (edges, hooks) are taken not to write attributes. Loops make a setter out of scope. "
            "For enumeration valued attributes every enumerator is tried; out-of-range values are out of scope.",
}

MAX = 6000
# (setter, getter): not a pair, or the pair is documented to do something else
NOTPAIR = {
    ("set_Block_idom", "get_Block_idom"): "the getter represents an unreachable dominator by a Bad node",
    ("set_Block_ipostdom", "get_Block_ipostdom"): "the getter represents an unreachable postdominator by a Bad node",
    ("set_r_store", "get_r_store"): "the getter runs SSA construction on the block's value table",
    ("set_store", "get_store"): "the getter runs SSA construction on the block's value table",
    ("set_cg_irg_visited", "cg_irg_visited"): "a visited test",
    ("set_irn_visited", "irn_visited"): "a visited test",
    ("set_entity_visited", "entity_visited"): "a visited test",
    ("set_type_visited", "type_visited"): "a visited test",
    ("set_Block_block_visited", "Block_block_visited"): "a visited test",
}
# attribute values that have a meaning of their own
SPECIAL = {
    "set_irg_memory_disambiguator_options": "aa_opt_inherited",
}


# preconditions of setters, as a condition on the arguments
PRE = {
    # the ld name NULL stands for the entity's own name
    "set_entity_ld_ident": lambda P: ("op", "!=", ("p", 1), ("c", 0)),
    # only nodes whose opcode leaves it open carry the attribute
    "set_irn_pinned": lambda P: ("op", "==", ("ld", ("f", ("deref", ("ld", ("f", ("deref", ("p", 0)), "ir_node.op"))), "ir_op.pin_state")), ("c", P.econst["op_pin_state_exc_pinned"][0])),
}


class C(Client):
    maxs = 40
    maxdepth = 8

    def __init__(self):
        self.loops = False

    def inline(self, ip, n, F, fr):
        if n in ("skip_Id", "is_Id", "get_irn_pinned"):
            return n == "get_irn_pinned"
        return len(str(F.body)) < MAX and not has_loop(F)

    def pure(self, n):
        return True

    def call(self, ip, st, c, n, args, fr):
        if n == "skip_Id":
            return [(st, args[0])]
        return None


LOOP = {}


def has_loop(F):
    if F.key not in LOOP:
        LOOP[F.key] = any(x[0] in ("FOR", "W", "DO") for x in walk(F.body))
    return LOOP[F.key]


def norm(t):
    return t.replace("const ", "").replace(" const", "").strip()


def ptype(p):
    return norm(p[2])


def run_all(P, F, args, st):
    return Interp(P, C()).run(F, args, st)


def match(F, G):
    """Position of the value parameter of setter F for getter G, or None."""
    if len(G.params) != len(F.params) - 1:
        return None
    for v in range(len(F.params) - 1, -1, -1):
        rest = [p for i, p in enumerate(F.params) if i != v]
        if all(ptype(a) == ptype(b) for a, b in zip(rest, G.params)) and compatible(norm(F.params[v][2]), norm(G.ret)):
            return v
    return None


INTS = ("int", "unsigned int", "_Bool", "unsigned long", "long", "unsigned short", "unsigned char")


def compatible(a, b):
    return a == b or a in INTS and b in INTS or a.startswith("enum ") and b in INTS or b.startswith("enum ") and a in INTS or a.endswith("*") and b.endswith("*")


def public(F):
    return not F.static or F.file.endswith(".h")


def run():
    P = Program("release")
    rep = Report("C03", "value of get_X on the abstract heap produced by set_X(v) is v on every path; other getters keep their value", META["note"])
    pairs = []
    seen = set()
    for F in P.all:
        if not F.name.startswith("set_") or not F.params or not public(F) or F.key in seen:
            continue
        seen.add(F.key)
        b = F.name[4:]
        for gn in ("get_" + b, "is_" + b, "has_" + b, b, "get_" + b.rstrip("_"), "get_" + b + "_"):
            G = P.resolve(gn, F.file)
            if G is None or G.params is None or not public(G):
                continue
            v = match(F, G)
            if v is None:
                continue
            if (F.name, gn) in NOTPAIR or (F.name.rstrip("_"), gn.rstrip("_")) in NOTPAIR:
                continue
            pairs.append((F, G, v))
            break
    own = {}
    for F, G, v in pairs:
        own[F.name.rstrip("_")] = G.name.rstrip("_")
        pair(P, rep, F, G, v)
    interference(P, rep, pairs)
    rep.floor("pairs", 330)
    rep.floor("frame_pairs", 3000)
    return rep.finish()


def values(P, F, v):
    """Abstract values to try for the stored value."""
    t = norm(F.params[v][2])
    if t.startswith("enum ") and t[5:] in P.enums:
        out = []
        for n, val, *_ in P.enums[t[5:]]["consts"]:
            if SPECIAL.get(F.name.rstrip("_")) == n:
                continue
            out.append((n, ("c", val)))
        return out
    return [("v", ("p", v))]


def pair(P, rep, F, G, v):
    rep.count("pairs")
    if has_loop(F) or has_loop(G):
        rep.count("loops_not_decided")
        return
    bad = None
    n = 0
    for name, val in values(P, F, v):
        args = [("p", i) for i in range(len(F.params))]
        args[v] = val
        gargs = [a for i, a in enumerate(args) if i != v]
        s0 = State()
        if F.name.rstrip("_") in PRE:
            s0.assume(PRE[F.name.rstrip("_")](P), True)
        for st, _ in run_all(P, F, args, s0):
            width(P, rep, F, v, st)
            for s2, w in run_all(P, G, gargs, st):
                n += 1
                if same(s2, w, val, G):
                    continue
                if not written(st, gargs) and not onvalue(st, args[v]):
                    continue     # the setter rejected the object on this path
                bad = (name, w)
    if n == 0:
        raise AnalysisError(f"{F.name} never returns")
    if bad:
        rep.bad(f"{F.name}/{G.name}", F.loc, f"{G.name} ({G.loc}) does not always return the value stored by {F.name}" + (f" (value {bad[0]})" if bad[0] != "v" else "") + f": it returns {showterm(bad[1])}")
    else:
        rep.ok({"setter": F.name, "getter": G.name, "paths": n})
    if not bad and norm(F.params[v][2]).startswith("enum "):
        for st, _ in run_all(P, F, [("p", i) for i in range(len(F.params))], State()):
            width(P, rep, F, v, st)


WIDTH = {"unsigned int": 32, "int": 32, "unsigned long": 64, "long": 64, "unsigned short": 16, "short": 16, "unsigned char": 8, "signed char": 8, "char": 8, "_Bool": 1, "bool": 1}
# fields that are narrower than the parameter on purpose
NARROW = {
    "compound_member_ent_attr.bitfield_offset": "a bit offset within the storage unit of a bit-field",
    "compound_member_ent_attr.bitfield_size": "the width of a bit-field in bits",
}


def width(P, rep, F, v, st):
    """the field holds every value of the parameter"""
    t = norm(F.params[v][2])
    need = WIDTH.get(t)
    if t.startswith("enum ") and t[5:] in P.enums:
        m = 0
        for n, val, *_ in P.enums[t[5:]]["consts"]:
            if val >= 0:
                m |= val
        need = max(1, m.bit_length())
    if need is None:
        return
    for l, val in st.mem.items():
        if val != ("p", v) or l[0] != "f":
            continue
        rec, fl = l[2].rsplit(".", 1)
        for n, ft, bw, off in P.records[rec].fields if rec in P.records else ():
            if n != fl or l[2] in NARROW:
                continue
            have = bw if bw is not None else WIDTH.get(norm(ft), 32 if norm(ft).startswith("enum ") else None)
            if have is None or have == 1 and (t in ("int", "unsigned int", "_Bool") or need == 1):
                continue      # a flag
            rep.count("widths")
            if have < need:
                rep.bad(f"{F.name}/width/{l[2]}", F.loc, f"{F.name} stores a {t} of {need} bits into {l[2]}, which keeps only {have}")


def showterm(t):
    if t[0] == "c":
        return str(t[1])
    if t[0] == "ld":
        return "the content of " + showloc(t[1])
    return str(t)[:100]


def showloc(l):
    if l[0] == "f":
        return showloc(l[1]) + "." + l[2].split(".")[-1]
    if l[0] == "deref":
        return showterm(l[1]) if l[1][0] != "p" else "object"
    if l[0] == "ix":
        return showloc(l[1]) + "[" + showterm(l[2]) + "]"
    if l[0] in ("gv", "sv"):
        return l[1]
    return str(l)[:60]


def written(st, gargs):
    """Did the setter write anything but locals?"""
    return any(root(l)[0] in ("deref", "gv", "sv") for l in st.mem)


def onvalue(st, val):
    """Did the path depend on the value?"""
    return val[0] == "p" and any(mentions(t, lambda x: x == val) for t in list(st.cst) + list(st.neq) + list(st.rel))


def root(l):
    while l[0] in ("f", "ix"):
        l = l[1]
    return l


def same(st, w, val, G):
    if w == val or known_equal(st, w, val):
        return True
    boolish = w[0] == "c" and w[1] in (0, 1) or w[0] == "op" and w[1] in ("!=", "==")
    if boolish:
        a, b = st.truth(w), st.truth(val)
        if a is not None and a == b:
            return True
        if w == ("op", "!=", val, ("c", 0)):
            return True
    return False


def interference(P, rep, pairs):
    """Setting one attribute leaves the other getters of the object alone."""
    getters = {}
    api = api_names(P)
    for F in P.all:
        if F.name not in api:
            continue
        if (F.name.startswith(("get_", "is_", "has_")) and public(F) and len(F.params) == 1 and F.ret != "void" and not has_loop(F)
                and ptype(F.params[0]).endswith("*") and not F.name.endswith("_") and len(str(F.body)) < MAX):
            getters.setdefault(ptype(F.params[0]), {})[F.name] = F
    base = {}
    globals_(P, rep, pairs)
    own = {}
    for F, G, v in pairs:
        own.setdefault(F.name.rstrip("_"), set()).add(G.name.rstrip("_"))
    done = set()
    for F, G, v in pairs:
        T = ptype(F.params[0])
        n = F.name.rstrip("_")
        if n in ("set_irn_op","set_op_tag") or n in done or T not in getters or has_loop(F):
            continue
        done.add(n)
        grp = group(n[4:], T)
        args = [("p", i) for i in range(len(F.params))]
        if norm(F.params[v][2]).startswith("enum "):
            args[v] = ("p", "value")
        ends = [st for st, _ in run_all(P, F, args, State()) if written(st, [])]
        for hn, H in getters[T].items():
            if hn in own[n] or (n, hn) in DERIVED or any(hn.startswith(p) for p in DERIVED_PREFIX):
                continue
            if T == "struct ir_node*" and group(hn.split("_", 1)[1], T) != grp:
                continue
            if hn not in base:
                base[hn] = {w for _, w in run_all(P, H, [("p", 0)], State())}
            rep.count("frame_pairs")
            changed = None
            for st in ends:
                s0 = st.copy()
                s0.mem = {}
                before = {w for _, w in run_all(P, H, [("p", 0)], s0)}
                for s2, w in run_all(P, H, [("p", 0)], st.copy()):
                    if w not in base[hn] and w not in before:
                        changed = w
            if changed is not None:
                rep.bad(f"frame:{n}/{hn}", F.loc, f"{n} also changes what {hn} ({H.loc}) returns: {showterm(changed)}")
            else:
                rep.ok()


# setters that exchange the whole object the other attributes belong to
WHOLE = {"set_irp", "set_current_ir_graph"}


def globals_(P, rep, pairs):
    """The same for attributes of the library itself (optimisation flags, hooks, the program)."""
    glob = [(F, G, v) for F, G, v in pairs if len(F.params) == 1 and not G.params and not has_loop(F) and not has_loop(G)]
    names = sorted({G.name.rstrip("_"): G for F, G, v in glob}.items())
    before = {n: {w for _, w in run_all(P, G, [], State())} for n, G in names}
    done = set()
    for F, G, v in glob:
        n = F.name.rstrip("_")
        if n in done or n in WHOLE:
            continue
        done.add(n)
        ends = [st for st, _ in run_all(P, F, [("p", 0)], State()) if written(st, [])]
        for hn, H in names:
            if hn == G.name.rstrip("_") or (n, hn) in DERIVED:
                continue
            rep.count("frame_pairs")
            bad = None
            for st in ends:
                s0 = st.copy()
                s0.mem = {}
                was = {w for _, w in run_all(P, H, [], s0)} | before[hn]
                for s2, w in run_all(P, H, [], st.copy()):
                    if not keeps(w, was):
                        bad = w
            if bad is not None:
                rep.bad(f"frame:{n}/{hn}", F.loc, f"{n} also changes what {hn} ({H.loc}) returns: {showterm(bad)}")
            else:
                rep.ok()


def keeps(w, was):
    """w is one of the terms in was after dropping bits that a mask in it removes anyway"""
    if w in was:
        return True

    def unmask(t):
        # bits of a flag word: ((x | 4) & 2) and ((x & ~4) & 2) are x & 2
        if t[0] == "op" and t[1] == "&" and t[3][0] == "c":
            x, m = unmask(t[2]), t[3][1]
            if x[0] == "op" and x[1] == "|" and x[3][0] == "c" and not x[3][1] & m:
                return unmask(("op", "&", x[2], ("c", m)))
            if x[0] == "op" and x[1] == "&" and x[3][0] == "c" and x[3][1] & m == m:
                return unmask(("op", "&", x[2], ("c", m)))
            return ("op", "&", x, ("c", m))
        if t[0] == "op":
            return ("op", t[1]) + tuple(unmask(x) if isinstance(x, tuple) else x for x in t[2:])
        return t
    return unmask(w) in {unmask(t) for t in was}


# getters that are documented to follow another attribute
DERIVED = {
    ("set_r_cur_block", "get_r_store"), ("set_r_cur_block", "get_r_cur_block"),
    ("set_irg_entity", "get_irg_dump_name"), ("set_optimize", "get_opt_optimize"), ("set_opt_optimize", "get_optimize"),
    # inputs of generic operations: the slot number comes from the opcode and is never the block's
    ("set_nodes_block", "get_binop_left"), ("set_nodes_block", "get_binop_right"), ("set_nodes_block", "get_memop_mem"),
    ("set_nodes_block", "get_block"), ("set_nodes_block", "get_block_const"),
    ("set_entity_ident", "get_entity_name"), ("set_entity_ident", "get_entity_ld_ident"), ("set_entity_ident", "get_entity_ld_name"), ("set_entity_ident", "get_ent_dump_name"),
    ("set_entity_ld_ident", "get_entity_ld_name"), ("set_entity_ld_ident", "get_ent_dump_name"), ("set_entity_ld_ident", "entity_has_ld_ident"),
    ("set_entity_owner", "is_tls_entity"), ("set_entity_type", "is_compound_entity"), ("set_entity_irg", "get_entity_linktime_irg"),
    ("set_method_variadic_index", "is_method_variadic"), ("set_Call_ptr", "get_Call_callee"),
    ("set_ASM_constraints", "get_ASM_n_constraints"), ("set_ASM_clobbers", "get_ASM_n_clobbers"), ("set_Const_tarval", "get_Const_long"),
}
DERIVED_PREFIX = ()


def group(n, T):
    """Accessors of different opcodes never apply to the same node."""
    h = n.split("_")[0]
    return h if h[:1].isupper() or h in ("ia32", "arm", "amd64", "sparc", "be") else ""


if __name__ == "__main__":
    main("C03", run)
