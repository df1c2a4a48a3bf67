"""C09: orders used for sorting, equalities used for sets."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from fmodel import FModel, Infeasible, Beyond, models, unq
from prog import Program, walk, strip, callee_name, show, short
from report import Report, main

META = dict(
    title="Sorting orders are strict weak orders, set equalities are equivalences",
    statement=(
        "Every comparison function the library passes to qsort orders the elements consistently: swapping the two elements flips the sign of the result, "
        "an element is equal to itself, both 'less' and 'equal' are transitive, no difference in the compared values is lost in the conversion to int, and the result does not depend on "
        "where objects lie in memory (addresses may be tested for equality only), so that sorting is deterministic from run to run; it interprets the "
        "elements with the type they have in the sorted array. Every comparison function passed to new_set or new_pset tells equal from unequal elements reflexively (except for kinds of objects "
        "it never merges), symmetrically and transitively; the dominance-based equality of the value table is the one exception."),
    over=["inputs", "programs"],
    quant="for every array of elements a pass sorts and every pair or triple of elements of a set, whatever values their fields have",
    why="A test sorts a few small arrays in one address-space layout; an inconsistent order shows only for particular triples, costs or heap layouts, as a wrong or irreproducible result.",
    files=["ir/adt/util.h", "ir/adt/set.h", "ir/adt/pset.h", "ir/lower/lower_switch.c", "ir/opt/ldstopt.c", "ir/opt/opt_blocks.c", "ir/be/bespilldaemel.c", "ir/be/beblocksched.c",
           "ir/be/becopyheur4.c", "ir/be/betranshlp.c", "ir/lpp/sp_matrix.c", "ir/opt/gvn_pre.c"],
    mech=[("QSORT, QSORT_ARR", "ir/adt/util.h"), ("new_set", "ir/adt/set.c"), ("new_pset", "ir/adt/pset.c")],
    technique="type-checked program + finite-model interpretation of each comparator's control-flow graph: order axioms on all pairs and triples of a small abstract domain",
    note=("A comparator reads its elements through fields and calls; each distinct read takes every value of a small domain (three integers, 0/1/2^32 for 64-bit ones, three fractions, three pointers or NULL), equal "
          "arguments giving equal results. Functions of both elements are entered when they belong to the same file and are otherwise free relations, assumed antisymmetric; for those transitivity is not decided. "
          "NaN costs, overflow of 32-bit differences and node numbers beyond 32 bits are outside the domain."),
)

LIMIT = 3000
SMALL = ("get_irn_node_nr", "get_type_nr", "get_entity_nr", "get_irg_graph_nr")
UNIQUE = ("get_irn_node_nr", "get_irn_idx", "get_ia32_exc_label_id", "get_irg_idx")
# Pointer fields that are NULL in at most one element of a sorted array: the end of a
# chain of stack changes of one block.
ONENULL = ("be_stack_change_t.after",)


def minmax(M, key):
    """Entries of a switch table are ranges: min <= max."""
    lo, hi = {}, {}
    for k, v in M.memo.items():
        if k[0] == "f" and k[2] == "ir_switch_table_entry.min":
            lo[k[1]] = v
        elif k[0] == "f" and k[2] == "ir_switch_table_entry.max":
            hi[k[1]] = v
    for o in lo:
        if o in hi:
            a, b = M.memo.get(("tv", lo[o])), M.memo.get(("tv", hi[o]))
            if a is not None and b is not None and a > b:
                raise Infeasible()


def onenull(M, key):
    n = [k for k, v in M.memo.items() if k[0] == "f" and k[2] in ONENULL and isinstance(v, tuple) and M.null.get(v)]
    if len(n) > 1:
        raise Infeasible()


def comparators(P):
    """(kind, comparator, call, function)"""
    which = {"qsort": 3, "bsearch": 4, "new_set": 0, "new_pset": 0}
    out, unk = [], []
    par = {}

    def arg(kind, a, c, F, depth=0):
        a = strip(a)
        if a[0] == "u" and a[2] == "&":
            a = strip(a[3])
        if a[0] == "v" and a[4] == "f":
            out.append((kind, a[2], c, F))
        elif a[0] == "?" :
            arg(kind, a[3], c, F, depth)
            arg(kind, a[4], c, F, depth)
        elif a[0] == "v" and a[4] == "p" and depth < 4:
            i = [p[1] for p in F.params].index(a[3])
            for c2, G in sites.get(F.name, ()):
                if i < len(c2[4]) and P.resolve(F.name, G.file) is F:
                    arg(kind, c2[4][i], c2 if kind != "qsort" else None, G, depth + 1)
        elif a[0] == "v" and a[4] in ("l", "s", "g"):
            n = 0
            for x in walk(F.body):
                if x[0] == "D":
                    for d in x[2]:
                        if d[2] == a[3] and d[4] is not None and a[4] == "l":
                            n += 1
                            arg(kind, d[4], c, F, depth + 1)
                if x[0] == "a" and strip(x[3])[0] == "v" and strip(x[3])[3] == a[3]:
                    n += 1
                    arg(kind, x[4], c, F, depth + 1)
            if not n:
                unk.append((kind, F, c))
        else:
            unk.append((kind, F, c))
    sites = {}
    for F in P.all:
        for x in walk(F.body):
            if x[0] == "c":
                n = callee_name(x)
                if n:
                    sites.setdefault(n, []).append((x, F))
    for n, i in which.items():
        for c, F in sites.get(n, ()):
            if i < len(c[4]):
                arg(n, c[4][i], c, F)
    return out, unk


def pointee(t):
    u = unq(t)
    return u[:-1].strip() if u.endswith("*") else None


def elemtype(P, C, c, F):
    """(type of the elements sorted, types the comparator takes them for)"""
    sz = [x[2] for x in walk(c[4][2]) if x[0] == "z"]
    base = strip(c[4][0])
    bt = pointee(base[1])
    if bt is None and unq(base[1]).endswith("]"):
        bt = unq(base[1]).rsplit("[", 1)[0].strip()
    ids = {p[1] for p in C.params[:2]}
    seen = {}
    for x in walk(C.body):
        if x[0] == "k" and strip(x)[0] == "v" and strip(x)[3] in ids and pointee(x[1]) not in (None, "void", "char", "unsigned char"):
            seen.setdefault(pointee(x[1]), x)
    return bt, sz, seen


def sgn(x):
    return (x > 0) - (x < 0)


def name_of(e):
    return show(e, 80)


class Cmp:
    def __init__(self, P, C, kind):
        self.P, self.C, self.kind = P, C, kind

    def mk(self, **kw):
        return FModel(self.P, self.C, small=SMALL, axioms=(minmax, onenull, self.opcodes), unique=UNIQUE, **kw)

    def opcodes(self, M, key):
        """is_X(n) holds for one operation X, and alike for nodes of the same operation."""
        if not (key[0] == "call" and (key[1] in ("get_irn_op", "get_irn_opcode") or key[1].startswith("is_")) or key[0] == "f" and key[2] == "ir_node.op"):
            return
        op, isx = {}, {}
        for k, v in M.memo.items():
            if k[0] == "call" and len(k) == 3 and len(k[2]) == 1:
                if k[1] in ("get_irn_op", "get_irn_opcode"):
                    op[k[1], k[2][0]] = v
                elif k[1].startswith("is_") and "iro_" + k[1][3:] in self.P.econst:
                    isx[k[2][0], k[1]] = v
            elif k[0] == "f" and k[2] == "ir_node.op":
                op["get_irn_op", k[1]] = v
        for n in {n for n, _ in isx}:
            if sum(1 for (m, _), v in isx.items() if m == n and v) > 1:
                raise Infeasible()
        for (f, a), v in op.items():
            for (g, b), w in op.items():
                if f == g and v == w and a != b:
                    for (n, x), y in isx.items():
                        if n == a and (b, x) in isx and isx[b, x] != y:
                            raise Infeasible()

    def cmp(self, I, M, a, b):
        """value, reads of the elements"""
        M.reads = []
        args = [a, b] + [1] * (len(self.C.params) - 2)
        I.arrs = frozenset()
        v = I.func(M, self.C, args)
        r, M.reads = M.reads, None
        return v, r

    def explore(self, run, I, bad):
        def one(M):
            run(I, M)
            for e, w in M.flags:
                bad.setdefault(w, e)
            return bool(bad)
        return models(one, LIMIT)


def order(P, C):
    """Problems of an order, and the number of models."""
    K = Cmp(P, C, "qsort")
    A, B, D = ("O", 0), ("O", 1), ("O", 2)
    total, whole = 0, True
    bad = {}

    def values(M, reads):
        return [M.memo[k] for k in reads]

    def pair(I, M):
        r1, k1 = K.cmp(I, M, A, B)
        p1 = any(v for _, v in M.preds)
        n = len(M.preds)
        r2, k2 = K.cmp(I, M, B, A)
        p2 = any(v for _, v in M.preds[n:])
        if isinstance(r1, tuple) or isinstance(r2, tuple):
            raise Beyond("an address as the result")
        if sgn(r1) == -sgn(r2):
            return
        if p1 and p2:
            return      # a relation of both elements, assumed antisymmetric
        if any(k[0] == "call" and k[1] in UNIQUE for k in k1 + k2) and values(M, k1) == values(M, k2):
            return      # the same unique number: one element
        if M.flags:
            return
        bad["antisymmetric"] = (r1, r2)

    def triple(I, M):
        r1, _ = K.cmp(I, M, A, B)
        if r1 > 0 or any(v for _, v in M.preds):
            return
        r2, _ = K.cmp(I, M, B, D)
        if r2 > 0 or any(v for _, v in M.preds):
            return
        r3, _ = K.cmp(I, M, A, D)
        if any(v for _, v in M.preds) or M.flags:
            return
        if r1 == 0 and r2 == 0:
            if r3 != 0:
                bad["equality transitive"] = (r1, r2, r3)
        elif r3 >= 0:
            bad["transitive"] = (r1, r2, r3)
    opq = set()
    for f in (pair, triple):
        if bad:
            break
        I = K.mk(size=2 if f is pair else 3)
        n, w = K.explore(f, I, bad)
        total, whole = total + n, whole and w
        opq |= I.opaque
    return bad, total, whole, opq


def equality(P, C, content):
    K = Cmp(P, C, "set")
    A, B, D = ("O", 0), ("O", 1), ("O", 2)
    bad = {}
    total, whole = 0, True

    def refl(I, M):
        r, _ = K.cmp(I, M, A, B if content else A)
        if any(k[0] == "call" and k[1].startswith("is_") and v for k, v in M.memo.items()):
            return      # a kind of object that is never equal to another
        if r != 0 and not M.flags:
            bad["reflexive"] = (r,)

    def sym(I, M):
        r1, _ = K.cmp(I, M, A, B)
        r2, _ = K.cmp(I, M, B, A)
        if (r1 == 0) != (r2 == 0) and not M.flags:
            bad["symmetric"] = (r1, r2)

    def trans(I, M):
        r1, _ = K.cmp(I, M, A, B)
        if r1 != 0:
            return
        r2, _ = K.cmp(I, M, B, D)
        if r2 != 0:
            return
        r3, _ = K.cmp(I, M, A, D)
        if r3 != 0 and not M.flags:
            bad["transitive"] = (r1, r2, r3)
    for f in (refl, sym, trans):
        if bad:
            break
        I = K.mk(equality=True, twin=content and f is refl, size=3 if f is trans else 2)
        n, w = K.explore(f, I, bad)
        if I.opaque:
            raise Beyond("it asks " + ", ".join(sorted(I.opaque)) + " about both elements")
        total, whole = total + n, whole and w
    return bad, total, whole


TEXT = {
    "antisymmetric": "the order is inconsistent: for two elements the results in the two directions are {0} and {1}",
    "transitive": "the order is not transitive: of three elements a <= b and b <= c (results {0}, {1}), but comparing a with c gives {2}",
    "equality transitive": "equality is not transitive: a equals b and b equals c, but comparing a with c gives {2}",
    "reflexive": "an element is not equal to itself (result {0})",
    "symmetric": "equality is not symmetric: the results in the two directions are {0} and {1}",
}


def run():
    rep = Report("C09", "comparison functions are strict weak orders or equivalences on every small model", META["note"])
    P = Program("debug")
    cs, unk = comparators(P)
    done = {}
    for kind, n, c, F in cs:
        C = P.resolve(n, F.file)
        if C is None or C.body is None:
            continue           # memcmp and the like
        isq = kind in ("qsort", "bsearch") and kind == "qsort"
        if isq and c is not None and len(c[4]) >= 3:
            bt, sz, seen = elemtype(P, C, c, F)
            for t, x in seen.items():
                if bt is None or bt in ("void", "char"):
                    continue
                key = f"element/{C.name}/{F.name}"
                if t == bt or t.endswith("*") and bt.endswith("*") and "void*" in (t, bt):
                    rep.ok(f"{C.name} takes the elements for {t}, which they are")
                    rep.count("element types")
                else:
                    rep.bad(key, f"{short(F.file)}:{c[2]}", f"{F.name} sorts an array of {bt} with {C.name}, which takes the elements for {t}")
        if (C.key, isq) in done:
            continue
        done[C.key, isq] = True
        key = f"{'order' if isq else 'equality'}/{short(C.file)}/{C.name}"
        try:
            t0 = time.time()
            if isq:
                bad, total, whole, opq = order(P, C)
            else:
                bad, total, whole = equality(P, C, kind == "new_set")
                opq = ()
        except (Beyond, RecursionError) as ex:
            rep.count("comparators not interpreted")
            rep.notes.append(f"{C.loc}: {C.name} is not interpreted: {ex}")
            continue
        rep.count("orders" if isq else "equalities")
        rep.count("models", total)
        if not bad:
            rep.ok(f"{C.name}: {total} models" + ("" if whole else " (the first of more)") + (f"; free relations: {', '.join(sorted(opq))}" if opq else ""))
        for w, x in bad.items():
            if w == "lost":
                rep.bad(key + "/lost", f"{short(C.file)}:{C.line}", f"{C.name}: a difference of compared values is lost in the conversion to {unq(x[1])}: {show(x, 100)}")
            elif w == "address":
                rep.bad(key + "/address", f"{short(C.file)}:{C.line}", f"{C.name} orders its elements by where objects lie in memory: {show(x, 100)}")
            else:
                rep.bad(key, C.loc, f"{C.name}: " + TEXT[w].format(*x))
    for kind, F, c in unk:
        rep.notes.append(f"{short(F.file)}:{c[2] if c else F.line}: the comparator of this {kind} call is not resolved")
        rep.count("unresolved comparators")
    rep.floor("orders", 18)
    rep.floor("equalities", 22)
    return rep.finish()


if __name__ == "__main__":
    main("C09", run)
