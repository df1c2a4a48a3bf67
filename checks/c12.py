"""C12: checks and debug messages change nothing: the debug and the release library compute the same."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import json, re
from difflib import SequenceMatcher
from prog import Program, walk, strip, callee_name, show, short
from report import Report, main

META = {
    "title": "Assertions and debug code change no result: debug and release builds agree",
    "statement": "What only the debug build contains - conditions of assertions, debug messages and dumps, code under DEBUG_libfirm or missing under NDEBUG - changes nothing the release build computes with: it assigns no variable, field or global that code common to both builds reads, calls no function that does (directly, through the functions it calls, or through callbacks), neither leaves a function nor a loop early nor returns another value. Nothing is done only by the release build either. So for every input the release library does what the debug library, which the tests run, does (the numbers nodes, graphs and loops get for debugging, caches and visited counters aside).",
    "over": ["configurations", "inputs"],
    "quant": "for every input program, in the debug and the release configuration",
    "why": "All tests run the debug library; an assertion with a side effect works there and silently drops the effect in the release library.",
    "files": ["ir/", "include/libfirm/adt/", "Makefile"],
    "mech": [("debug-only code", "assert, DB, DBG, DEBUG_ONLY, #ifdef DEBUG_libfirm, #ifndef NDEBUG in every source file")],
    "technique": "differencing of the type-checked programs of both configurations, plus an interprocedural effect analysis (what each function writes, per parameter and global) of the code only the debug build has",
    "note": "Effects are judged by variable, field (type and member) and root (parameter, global, own allocation): a write to a field no release code reads is debug state. Calls through function pointers stored in objects are taken to have no effect; callbacks passed to a call are analysed. Visited counters and the output buffers of the printing functions may change.",
}
# Locations debug-only code may change although release code reads them, with the reason.
BENIGN = {
    "g:max_irg_visited": "source of fresh visited numbers; only the order of the numbers matters",
    "ir_graph.visited": "a walk marks its nodes with its own fresh number",
    "ir_node.visited": "a walk marks its nodes with its own fresh number",
    "ir_graph.block_visited": "a walk marks its blocks with its own fresh number",
    "block_attr.block_visited": "a walk marks its blocks with its own fresh number",
    "ir_type.visit": "a walk marks the types with its own fresh number",
    "ir_entity.visit": "a walk marks the entities with its own fresh number",
    "ir_prog.max_node_nr": "source of the debug numbers of nodes, graphs and loops",
    "pset.iter_i": "cursor, set by pset_first",
    "pset.iter_j": "cursor, set by pset_first",
    "pset.iter_tail": "cursor, set by pset_first",
    "g:fc_exact": "result of the last float operation, read directly after it",
}
# Functions whose effects keep what can be observed (caches, queries), and their effects are not followed.
PURE = {
    "get_irn_n_": "skips Id nodes for good: reading the operand gives the same node",
    "skip_Id": "skips Id nodes for good",
    "_obstack_newchunk": "fresh memory",
    "search": "heights: visited mark with a fresh number",
    "heights_reachable_in_block": "query with its own visited number",
    "get_block_info": "liveness information of a block, created on first use",
    "lv_chk_bl_xxx": "liveness query on a temporary set",
    "get_irn_ne": "zeroed entry of a node, created on first use",
    "matrix_get": "query that moves the search cursor",
    "be_set_orig_node": "remembers a name for dumps",
    "verify_constbits": "runs the analysis again on its own map",
    "firm_init_debugger": "the interactive debugger does nothing before a breakpoint is set",
}
PURE_RE = re.compile(r"^(tarval_|fc_get_|sc_)(?!.*(set_|enable))|(^|_)verify(_|$)")   # arithmetic on values; the verifiers
# Single effects that are not observable: function, location -> reason.
CACHE = {
    ("deq_free", "deq_t.left_end"): "the queue is freed",
    ("deq_free", "deq_t.right_end"): "the queue is freed",
    ("free_type", "ir_type.kind"): "the type is freed",
    ("be_jit_finish_function", "code_obst"): "the pointer is set again before it is used",
    ("be_jit_finish_function", "fragment_info_obst"): "the pointer is set again before it is used",
    ("be_jit_finish_function", "fragment_info_arr_obst"): "the pointer is set again before it is used",
    ("be_transform_node", "ir_node.link"): "the link is set before the node counts as transformed",
    ("free_irg_outs", "ir_node::anon0.out"): "the arrays are freed",
    ("edges_verify_kind", "w"): "the verifier itself checks more in the debug build",
    ("be_finish_fragment", "fragment_info_t.address"): "the address is set when the fragments are laid out, before it is read",
    ("lower_nodes_after_ra_walker", "*struct ir_node** cons"): "every result of a Perm has a Proj, so all entries are set again",
    ("alloc_pbqp", "pbqp_t.solution"): "the release build zeroes the solution instead",
    ("irn_verify", "fine"): "the verifier itself checks more in the debug build",
}
for f in ("solve_pbqp_brute_force", "solve_pbqp_heuristical", "solve_pbqp_heuristical_co", "solve_pbqp_heuristical_co_ld"):
    CACHE[f, "pbqp_t.solution"] = "the release build zeroes the solution in alloc_pbqp"
# Statements only the release build has.
RELEASE = {
    ("alloc_pbqp", "(pbqp->solution = 0)"): "the debug build marks the problem unsolved, and zeroes the solution when it is solved",
    ("edges_notify_edge_kind", "edges_dbg"): "verifies the edges",
}
# These functions return a number that only the debug build keeps.
NUMBERS = {"get_loop_loop_nr", "get_irg_graph_nr", "ir_resources_reserved_", "irp_resources_reserved_"}
# Output: what these files change is the state of the printing functions only.
OUTPUT = ("ir/common/debug.c", "ir/common/panic.c", "ir/common/error.c", "ir/libcore/lc_printf.c", "ir/ir/irprintf.c", "ir/ir/irdump.c", "ir/ir/irdumptxt.c", "ir/libcore/lc_appendable.c")
INC = ("++p", "p++", "--p", "p--")
ALLOC = re.compile(r"^(x?malloc|x?calloc|x?realloc|x?memdup|xstrdup|alloca|__builtin_alloca|_obstack_|obstack_|new_set|new_pset|new_.*|ir_new_arr.*|ir_arr_.*)")


def pure(F):
    return short(F.file) in OUTPUT or F.name in PURE or PURE_RE.match(F.name) is not None


def gname(e, F):
    return f"g:{e[2]}@{short(F.file)}" if e[4] == "s" else "g:" + e[2]


class Effects:
    """summary: set of (root, location); root: parameter index or "g:name"."""

    def __init__(self, P, rd):
        self.P = P
        self.rd = rd
        self.sum = {}
        self.busy = set()
        self._roots = {}

    def locname(self, e, F):
        e = strip(e)
        if e[0] == "m":
            return f"{e[4]}.{e[3]}"
        if e[0] == "x":
            b = strip(e[2])
            return self.locname(b, F) if b[0] in ("m", "x") else "*" + re.sub(r"\bconst\b ?", "", str(e[1]))
        if e[0] == "u" and e[2] == "*":
            return "*" + re.sub(r"\bconst\b ?", "", str(e[1]))
        if e[0] == "v":
            return gname(e, F)
        return "?"

    def rootmap(self, F):
        """local variable -> roots of the memory it may point to."""
        if F.key in self._roots:
            return self._roots[F.key]
        r = {p[1]: {i} for i, p in enumerate(F.params)}
        asg = []
        for x in walk(F.body):
            if x[0] == "D":
                for d in x[2]:
                    if d[4] is not None:
                        asg.append((d[2], d[4]))
            elif x[0] == "a":
                l = strip(x[3])
                while l[0] == "m" and not l[5] or l[0] == "x" and str(strip(l[2])[1]).endswith("]"):
                    l = strip(l[2])
                if l[0] == "v" and l[4] == "l":
                    asg.append((l[3], x[4]))
            elif x[0] == "c":
                # out parameters: what a call stores into a local
                outs = [strip(strip(a)[3]) for a in x[4] if strip(a)[0] == "u" and strip(a)[2] == "&"]
                for o in outs:
                    while o[0] in ("m", "x"):
                        o = strip(o[2])
                    if o[0] == "v" and o[4] == "l":
                        for a in x[4]:
                            if not (strip(a)[0] == "u" and strip(a)[2] == "&"):
                                asg.append((o[3], a))
        ch = True
        self._roots[F.key] = r
        while ch:
            ch = False
            for v, e in asg:
                s = self.roots(F, e, r)
                if not s <= r.get(v, set()):
                    r[v] = r.get(v, set()) | s
                    ch = True
        return r

    def roots(self, F, e, r=None):
        """roots of the memory the value of e may point to"""
        if r is None:
            r = self.rootmap(F)
        e = strip(e)
        if e is None:
            return set()
        k = e[0]
        if k == "v":
            if e[4] in ("l", "p"):
                return set(r.get(e[3], ()))
            if e[4] in ("g", "s"):
                return {gname(e, F)}
            return set()
        if k in ("m", "x"):
            return self.roots(F, e[2], r)
        if k == "u":
            return self.roots(F, e[3], r)
        if k == "b":
            return self.roots(F, e[3], r) | self.roots(F, e[4], r) if e[2] in ("+", "-", ",") else set()
        if k == "?":
            return self.roots(F, e[3], r) | self.roots(F, e[4], r)
        if k == "a":
            return self.roots(F, e[4], r)
        if k == "S":    # a statement expression
            if any(x[0] == "c" and ALLOC.match(callee_name(x) or "") for x in walk(e)):
                return {f"new:{id(e)}"}
            b = e[2][2][-1] if e[2] and e[2][0] == "BL" and e[2][2] else None
            return self.roots(F, b[2], r) if b and b[0] == "X" else self.roots(F, b, r) if b and b[0] not in STMT else set()
        if k == "c":
            n = callee_name(e)
            if n and ALLOC.match(n):
                return {f"new:{id(e)}"}
            if not (str(e[1]).rstrip().endswith("*") or str(e[1]).startswith(("struct", "union"))):
                return set()
            G = self.P.resolve(n, F.file) if n else None
            s = set()
            for a in e[4]:
                s |= self.roots(F, a, r)
            if G is not None and G.body is not None:
                s |= {x for x in self.returns(G) if isinstance(x, str) and x[:4] != "new:"}
            return s
        return set()

    _ret = None

    def returns(self, G):
        if self._ret is None:
            self._ret = {}
        if G.key not in self._ret:
            self._ret[G.key] = set()
            s = set()
            for x in walk(G.body):
                if x[0] == "RET" and len(x) > 2 and isinstance(x[2], list):
                    s |= self.roots(G, x[2])
            self._ret[G.key] = s
        return self._ret[G.key]

    def lhs(self, F, l):
        """(roots, location) written by an assignment to l; local variables: ("l", id)"""
        l = strip(l)
        loc = self.locname(l, F)
        b = l
        while True:
            if b[0] == "m":
                if b[5]:
                    return self.roots(F, b[2]), loc
                b = strip(b[2])
            elif b[0] == "x":
                if not str(strip(b[2])[1]).endswith("]"):
                    return self.roots(F, b[2]), loc
                b = strip(b[2])
            elif b[0] == "u" and b[2] == "*":
                return self.roots(F, b[3]), loc
            elif b[0] == "v":
                if b[4] in ("l", "p"):
                    return {("l", b[3], b[2])}, loc
                return {gname(b, F)}, loc
            else:
                return self.roots(F, b), loc

    def call(self, F, x, depth=0):
        """effects of one call: set of (root in F, location, function that writes)"""
        n = callee_name(x)
        out = set()
        if n in ("memset", "memcpy", "memmove", "__builtin_memset", "__builtin_memcpy", "safe_memcpy", "qsort"):
            a = strip(x[4][0])
            if a[0] == "u" and a[2] == "&" or a[0] == "v" and str(a[1]).endswith("]") and a[4] == "l":
                rs, loc = self.lhs(F, a[3] if a[0] == "u" else a)
            else:
                rs, loc = self.roots(F, a), "*" + str(a[1])[:-1]
            return {(r, loc, n) for r in rs}
        if n == "_pset_search" and show(x[4][-1]).endswith("pset_find"):
            return set()
        gs = []
        G = self.P.resolve(n, F.file) if n else None
        if G is not None and G.body is not None:
            gs.append((G, x[4]))
        for a in x[4]:
            a = strip(a)
            if a[0] == "u" and a[2] == "&":
                a = strip(a[3])
            if a[0] == "v" and a[4] == "f":
                H = self.P.resolve(a[2], F.file)
                if H is not None and H.body is not None:
                    gs.append((H, None))
        for G, args in gs:
            for r, loc, w in self.effects(G):
                if isinstance(r, str):
                    out.add((r, loc, w))
                elif args is None:
                    for a in x[4]:
                        for q in self.argroots(F, a, loc):
                            out.add((q, loc, w))
                elif r < len(args):
                    for q in self.argroots(F, args[r], loc):
                        out.add((q, loc, w))
        return out

    def argroots(self, F, a, loc):
        s = strip(a)
        if s[0] == "m" and self.locname(s, F) not in self.rd:
            return set()    # what only debug code can reach
        if s[0] == "u" and s[2] == "&":
            b = strip(s[3])
            while b[0] == "m" and not b[5] or b[0] == "x" and str(strip(b[2])[1]).endswith("]"):
                b = strip(b[2])
            if b[0] == "v" and b[4] in ("l", "p"):
                own = re.sub(r"^(const )?(struct |union )?", "", str(strip(s[3])[1]))
                return {("l", b[3], b[2])} | (set() if loc.split(".")[0] == own else self.roots(F, b))
        if s[0] == "v" and s[4] == "l" and str(s[1]).endswith("]"):
            return {("l", s[3], s[2])}
        return self.roots(F, a)

    def effects(self, F):
        if F.key in self.sum:
            return self.sum[F.key]
        if pure(F):
            self.sum[F.key] = frozenset()
            return self.sum[F.key]
        # iterate to a fixed point over the functions reachable from F
        order, seen, st = [], set(), [F]
        while st:
            G = st.pop()
            if G.key in seen or G.key in self.sum:
                continue
            if pure(G):
                self.sum[G.key] = frozenset()
                continue
            seen.add(G.key)
            order.append(G)
            for x in walk(G.body):
                if x[0] == "c":
                    names = [callee_name(x)] + [strip(a)[2] if strip(a)[0] == "v" and strip(a)[4] == "f" else strip(strip(a)[3])[2] if strip(a)[0] == "u" and strip(a)[2] == "&" and strip(strip(a)[3])[0] == "v" and strip(strip(a)[3])[4] == "f" else None for a in x[4]]
                    for n in names:
                        H = self.P.resolve(n, G.file) if n else None
                        if H is not None and H.body is not None:
                            st.append(H)
        for G in order:
            self.sum[G.key] = frozenset()
        ch = True
        while ch:
            ch = False
            for G in reversed(order):
                s = self.local(G)
                if s != self.sum[G.key]:
                    self.sum[G.key] = s
                    ch = True
        return self.sum[F.key]

    def local(self, F):
        out = set()
        for x in walk(F.body):
            if x[0] == "a" or x[0] == "u" and x[2] in INC:
                rs, loc = self.lhs(F, x[3])
                out |= {(r, loc, F.name) for r in rs if not isinstance(r, tuple)}
            elif x[0] == "c":
                out |= {y for y in self.call(F, x) if not isinstance(y[0], tuple)}
        # one writer per effect is enough to report
        best = {}
        for r, loc, w in out:
            if str(r)[:4] == "new:":
                continue    # its own
            if (r, loc) not in best or w < best[r, loc]:
                best[r, loc] = w
        return frozenset((r, l, w) for (r, l), w in best.items())


STMT = {"BL", "X", "D", "RET", "IF", "W", "DO", "FOR", "SW", "CASE", "DEF", "BRK", "CNT", "GO", "LB", "N", "ASM"}


def flat(s):
    """a statement as the list of statements it stands for"""
    if s is None or s[0] == "N":
        return []
    if s[0] == "BL":
        out = []
        for x in s[2]:
            out += flat(x)
        return out
    if s[0] == "DEF":
        return [["DEF", s[1]]] + flat(s[2])
    if s[0] == "CASE":
        return [["CASE", s[1], s[2], s[3]]] + flat(s[4])
    if s[0] == "LB":
        return [["LB", s[1], s[2]]] + flat(s[3])
    if s[0] not in STMT:
        return [["X", s[2] if s[0] == "c" and isinstance(s[2], int) else 0, s]]
    return [s]


def parts(s):
    """(expressions, lists of statements below) of one statement"""
    k = s[0]
    if k == "X":
        return [s[2]], []
    if k == "D":
        return [d[4] for d in s[2] if d[4] is not None], []
    if k == "RET":
        return [s[2]] if s[2] is not None else [], []
    if k == "IF":
        return [s[2]], [s[3], s[4]]
    if k == "W":
        return [s[2]], [s[3]]
    if k == "DO":
        return [s[3]], [s[2]]
    if k == "FOR":
        return [x for x in s[3:5] if x is not None], [s[2], s[5]]
    if k == "SW":
        return [s[2]], [s[3]]
    return [], []


def norm(e):
    """an expression without the assertions in it"""
    if not isinstance(e, list):
        return e
    if e and e[0] in ("b", "k") and strip(e)[0] == "b" and strip(e)[2] == ",":
        q = strip(e)
        if void(q[3]):
            return norm(q[4])
    return [norm(x) if isinstance(x, list) else x for x in e]


def void(e):
    e = strip(e)
    if e[0] == "i":
        return True
    if e[0] == "?":
        return void(e[3]) and strip(e[4])[0] == "c" and callee_name(strip(e[4])) == "__assert_fail"
    return False


def asserted(e):
    """the assertions inside an expression"""
    for x in walk(e):
        if x[0] == "b" and x[2] == "," and void(x[3]) and strip(x[3])[0] == "?":
            yield x[3]


def text(s):
    k = s[0]
    if k == "D":
        return ";".join(f"{d[1]}={show(norm(d[4])) if d[4] is not None else ''}" for d in s[2])
    if k in ("CASE", "GO", "LB"):
        return json.dumps(s[2:])
    return re.sub(r'"/[^"]*/', '"', ";".join(show(norm(e)) for e in parts(s)[0]))


def inert(s):
    """a statement that does nothing"""
    e, b = parts(s)
    if s[0] in ("RET", "BRK", "CNT", "GO", "CASE", "DEF", "LB", "ASM"):
        return False
    if any(x[0] in ("c", "a") or x[0] == "u" and x[2] in INC for y in e for x in walk(y)):
        return False
    if s[0] == "D":
        return True
    return all(inert(y) for x in b for y in flat(x))


def diff(dl, rl, out):
    """align the statements of both builds; out: list of ("debug", s) / ("release", s) / ("differs", d, r)"""
    dk, rk = [(s[0], s[1], text(s)) for s in dl], [(s[0], s[1], text(s)) for s in rl]
    if dk == rk:
        for a, b in zip(dl, rl):
            below(a, b, out)
        return
    for op, a0, a1, b0, b1 in SequenceMatcher(None, dk, rk, autojunk=False).get_opcodes():
        if op == "equal":
            for a, b in zip(dl[a0:a1], rl[b0:b1]):
                below(a, b, out)
            continue
        bs = list(rl[b0:b1])
        for a in dl[a0:a1]:
            m = [b for b in bs if b[0] == a[0] and b[1] == a[1] and b[0] != "X"]
            if m:
                bs.remove(m[0])
                if text(a) != text(m[0]):
                    out.append(("differs", a, m[0]))
                below(a, m[0], out)
            else:
                out.append(("debug", a))
        for b in bs:
            if not inert(b):
                out.append(("release", b))


def below(a, b, out):
    for e in parts(a)[0]:
        for x in asserted(e):
            out.append(("debug", ["X", a[1], x]))
    for x, y in zip(parts(a)[1], parts(b)[1]):
        diff(flat(x), flat(y), out)


def escapes(s, loop=False, sw=False):
    """how a statement leaves the code around it: RET, BRK, CNT, GO"""
    k = s[0]
    if k == "RET" or k == "GO":
        return {k}
    if k == "BRK":
        return set() if loop or sw else {k}
    if k == "CNT":
        return set() if loop else {k}
    out = set()
    for b in parts(s)[1]:
        for x in flat(b):
            out |= escapes(x, loop or k in ("W", "DO", "FOR"), sw or k == "SW")
    return out


def lines(stmts):
    """(line, name) of the local variables read in statements"""
    out = set()
    for s in stmts:
        e, b = parts(s)
        for y in e:
            wr = {id(strip(x[3])) for x in walk(y) if x[0] == "a" and x[2] == "="}
            out |= {(s[1], x[2]) for x in walk(y) if x[0] == "v" and x[4] in ("l", "p") and id(x) not in wr}
        for x in b:
            out |= lines(flat(x))
    return out


def reaches(P, F, vid, name, line, rel):
    """may the value debug code stored in the local variable be read by code of both builds?"""
    g = P.cfg(F)
    def scan(items, i):
        for it in items[i:]:
            e = it[4] if it[0] == "D" else it[1]
            ln = it[6] if it[0] == "D" else it[2]
            if it[0] == "D" and it[2] == vid:
                return "kill"
            if e is None:
                continue
            wr = {id(strip(x[3])) for x in walk(e) if x[0] == "a" and x[2] == "="}
            if any(x[0] == "v" and x[3] == vid and id(x) not in wr for x in walk(e)) and (ln, name) in rel:
                return "read"
            if any(x[0] == "a" and x[2] == "=" and strip(x[3])[0] == "v" and strip(x[3])[3] == vid for x in walk(e)):
                return "kill"
        return None
    def term(b):
        t = b.term
        e = t[1] if t and t[0] in ("br", "sw") else None
        if e is None:
            return False
        return any(x[0] == "v" and x[3] == vid for x in walk(e)) and (t[4], name) in rel
    work, seen = [], set()
    for i, b in enumerate(g.blocks):
        for j, it in enumerate(b.items):
            ln = it[6] if it[0] == "D" else it[2]
            e = it[4] if it[0] == "D" else it[1]
            if ln == line and e is not None and any(x[0] == "v" and x[3] == vid for x in walk(e)):
                work.append((i, j + 1))
        if b.term and b.term[0] in ("br", "sw") and b.term[4] == line and any(x[0] == "v" and x[3] == vid for x in walk(b.term[1])):
            work.append((i, len(b.items)))
    while work:
        i, j = work.pop()
        b = g.blocks[i]
        r = scan(b.items, j)
        if r == "read":
            return True
        if r == "kill":
            continue
        if term(b):
            return True
        for s in b.succs():
            if s not in seen:
                seen.add(s)
                work.append((s, 0))
    return False


def reads(R):
    """locations release code reads"""
    out = set()
    for F in R.all:
        wr = set()
        for x in walk(F.body):
            if x[0] == "a" and x[2] == "=":
                wr.add(id(strip(x[3])))
        for x in walk(F.body):
            if id(x) in wr:
                continue
            if x[0] == "m":
                out.add(f"{x[4]}.{x[3]}")
            elif x[0] == "v" and x[4] in ("g", "s"):
                out.add(gname(x, F))
    return out


def run():
    rep = Report("C12", "debug-only code has no effect on what both builds compute with", META["note"])
    D, R = Program("debug"), Program("optimize")
    rk = {(F.key, F.file): F for F in R.all}
    rd = reads(R)
    E = Effects(D, rd)
    for F in D.all:
        G = rk.get((F.key, F.file))
        if G is None:
            rep.count("functions of the debug build only")
            continue
        rep.count("functions in both builds")
        if short(F.file) in OUTPUT:
            continue
        out = []
        fl, gl = flat(F.body), flat(G.body)
        diff(fl, gl, out)
        if not out:
            continue
        rep.count("functions with debug-only code")
        rel = None
        void = all(inert(s) for s in gl) and G.ret == "void"
        for o in out:
            s = o[1]
            where = f"{short(F.file)}:{s[1]}"
            if o[0] == "differs":
                if F.name in NUMBERS:
                    continue
                rep.bad(f"{F.name}/differs/{text(o[2])[:60]}", where, f"{F.name}: the release build has here {text(o[2])[:90]} instead of {text(s)[:90]}")
                continue
            if o[0] == "release":
                if F.name in NUMBERS or (F.name, text(s)) in RELEASE:
                    continue
                rep.bad(f"{F.name}/release/{text(s)[:60]}", where, f"{F.name}: only the release build has the statement {s[0]} {text(s)[:100]}")
                continue
            rep.count("debug-only statements")
            esc = escapes(s)
            if esc and not void and F.name not in NUMBERS:
                rep.bad(f"{F.name}/leave/{'+'.join(sorted(esc))}", where, f"{F.name}: code of the debug build only leaves the code around it ({', '.join(sorted(esc))})")
                continue
            own = {d[2] for x in walk(s) if x[0] == "D" for d in x[2]} | {f"new:{id(x)}" for x in walk(s) if x[0] in ("c", "S")}
            freed = {show(x[4][0]) for x in walk(F.body) if x[0] == "c" and callee_name(x) in ("free", "deq_free", "obstack_free", "_obstack_free") and x[4]}
            good = True
            for x in walk(s):
                ln = s[1]
                if x[0] == "c":
                    ef, what, ln = E.call(F, x), f"calls {callee_name(x) or show(x[3])}, which", x[2]
                elif x[0] == "a" or x[0] == "u" and x[2] in INC:
                    if x[0] == "a" and strip(x[4])[0] == "i" and strip(x[4])[2] == 0 and show(x[3]) in freed:
                        continue    # a freed pointer is forgotten
                    rs, loc = E.lhs(F, x[3])
                    ef, what = {(r, loc, None) for r in rs}, f"assigns {show(x[3])}:"
                    ln = x[5] if x[0] == "a" else x[4]
                else:
                    continue
                rep.count("calls and assignments in them")
                for r, loc, w in sorted(ef, key=str):
                    if isinstance(r, tuple):
                        if r[1] in own:
                            continue
                        if rel is None:
                            rel = lines(gl)
                        if (F.name, r[2]) in CACHE or not reaches(D, F, r[1], r[2], ln, rel):
                            continue
                        t, key = f"changes the local variable {r[2]}", f"{F.name}/local/{r[2]}"
                    else:
                        if r in own or loc not in rd and not loc.startswith("*"):
                            continue
                        if loc in BENIGN or (F.name, loc.split("@")[0].replace("g:", "")) in CACHE:
                            continue
                        t, key = f"changes {loc}" + (f" (in {w})" if w else ""), f"{F.name}/{loc}"
                    good = False
                    rep.bad(key, f"{short(F.file)}:{ln}", f"{F.name}: code of the debug build only {what} {t}, which release code reads")
            if good:
                rep.ok(f"{where}: {text(s)[:80]}")
    rep.floor("debug-only statements", 2000)
    rep.floor("functions in both builds", 5000)
    return rep.finish()


if __name__ == "__main__":
    main("C12", run)
