"""C13: nothing is iterated while the body of the iteration removes what the iteration stands on."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import re
from prog import Program, walk, strip, callee_name, show, short
from report import Report, main

META = {
    "title": "No loop steps on from an edge, node, list or set its body removed or changed",
    "statement": "An iteration never continues from something its body took away. Stepping to the next out edge never starts from an edge whose user got another operand, was exchanged or killed, or after all edges of the node were rerouted; stepping to the next instruction never starts from one that was removed from the schedule; the next Phi of a list is never read from a Phi that was put into another list; the next list element is never read from an element that was deleted, moved or freed; a loop over the inputs of a node, the members of a type, or the graphs of the program, with a precomputed bound never removes inputs, members or graphs, and an index that counts up never steps over the element that took the place of a removed one; a set or map is never changed while it is iterated (except through its iterator), and iterating a pset, set or pmap is ended with pset_break (set_break, pmap_break) when it is left early. Freed memory is not used again. So no pass skips a user, follows a dangling link or runs forever because of the graph it happens to see.",
    "over": ["inputs", "programs"],
    "quant": "for every graph a pass can see, on every path through every loop",
    "why": "Whether the element after a removed one is found, skipped or read from freed memory depends on list orders and hash values that a test input only samples.",
    "files": ["ir/", "include/libfirm/iredges.h", "include/libfirm/adt/"],
    "mech": [("out edge iteration", "foreach_out_edge, foreach_block_succ, get_irn_out_edge_next in all passes and back ends"), ("schedule iteration", "sched_foreach* in ir/be"), ("set, map and list iteration", "foreach_pset, foreach_ir_nodeset, list_for_each_entry, ... everywhere"), ("input and Phi list iteration", "foreach_irn_in, for_each_phi, foreach_irp_irg")],
    "technique": "typestate analysis of iteration cursors over the control flow graph of every function, with interprocedural summaries of the functions that change operands, schedules, lists or sets reached through their parameters",
    "note": "Aliases are followed through local variables; an element reached in another way (a Proj of the user, a set stored in an object passed to a callee) is not recognised as the one the iteration stands on.",
}

INC = ("++p", "p++", "--p", "p--")
# function -> parameter whose operands may change
BASE = {
    "chg": {"set_irn_n": 0, "set_irn_in": 0, "remove_irn_n": 0, "edges_notify_edge_kind": 0},
    "gone": {"exchange": 0, "kill_node": 0, "edges_node_deleted": 0, "turn_into_tuple": 0},
    "blk": {"set_nodes_block": 0},
    "mov": {"edges_reroute": 0, "edges_reroute_kind": 0, "edges_reroute_except": 0, "exchange": 0},
    "uns": {"sched_remove": 0, "sched_replace": 0},
    "shr": {"set_irn_in": 0, "remove_irn_n": 0, "remove_compound_member": 0},
    "ent": {"free_entity": 0, "set_entity_owner": 0},
    "phi": {"set_Phi_next": 0, "add_Block_phi": 1, "exchange": 0, "kill_node": 0},
    "free": {"free": 0},
}
# set-like containers: prefix, starting function, stepping function, ending function; the container is argument 0
CURSORS = {
    "pset_first": ("pset", "start"), "pset_next": ("pset", "step"), "pset_break": ("pset", "end"),
    "set_first": ("set", "start"), "_set_first": ("set", "start"), "set_next": ("set", "step"), "_set_next": ("set", "step"), "set_break": ("set", "end"),
    "pmap_first": ("pmap", "start"), "pmap_next": ("pmap", "step"), "pmap_break": ("pmap", "end"),
}
SETMOD = {
    "pset_remove": 0, "del_pset": 0, "pset_insert_pset_ptr": 0, "_set_search": None, "_pset_search": None, "del_set": 0,
    "pmap_insert": 0, "pmap_destroy": 0,
}
ITER = re.compile(r"^(ir_nodeset|ir_valueset|ir_edgeset|cpset|pset_new|ir_nodehashmap)_iterator_(init|next)$")
ITERMOD = re.compile(r"^(ir_nodeset|ir_valueset|ir_edgeset|cpset|pset_new|ir_nodehashmap)_(insert|remove|destroy|replace)$")
LISTDEL = {"list_del", "list_del_init", "list_move", "list_move_tail", "__list_del"}


def nm(c):
    n = callee_name(c)
    return n.rstrip("_") if n else None


class Sums:
    """functions that do something to what their parameters point to"""

    def __init__(self, P):
        self.P = P
        self.s = {k: {} for k in BASE}     # kind -> function key -> set of parameter indices
        self.edge = {}                     # functions that change the operand an edge parameter stands for
        self.lst = {}                      # functions that take a parameter out of the list linked by one of its fields
        self.set = {}                      # functions that change a set passed to them
        self.norm = {}
        self.rm = set()                    # functions that remove graphs from the program
        fs = P.all
        calls = {F.key: [x for x in walk(F.body) if x[0] == "c"] for F in fs}
        par = {F.key: {p[1]: i for i, p in enumerate(F.params)} for F in fs}
        re_as = {}
        for F in fs:
            re_as[F.key] = {strip(x[3])[3] for x in walk(F.body) if x[0] == "a" and strip(x[3])[0] == "v"}
        ch = True
        while ch:
            ch = False
            for F in fs:
                pm = par[F.key]
                for c in calls[F.key]:
                    n = callee_name(c)
                    if F.key not in self.rm and (n in ("remove_irp_irg", "free_ir_graph") or self.called(c, F) in self.rm):
                        self.rm.add(F.key)
                        ch = True
                    d = self.listdel(c)
                    if d and d[0] in pm and d[0] not in re_as[F.key] and (pm[d[0]], d[1]) not in self.lst.setdefault(F.key, set()):
                        self.lst[F.key].add((pm[d[0]], d[1]))
                        ch = True
                    for i, a in enumerate(c[4]):
                        a = strip(a)
                        for q, fld in self.lst.get(self.called(c, F), ()):
                            if q == i and a[0] == "v" and a[3] in pm and a[3] not in re_as[F.key] and (pm[a[3]], fld) not in self.lst.setdefault(F.key, set()):
                                self.lst[F.key].add((pm[a[3]], fld))
                                ch = True
                        if a[0] != "v" or a[3] not in pm or a[3] in re_as[F.key]:
                            if a[0] == "c" and nm(a) == "get_edge_src_irn" and (self.hits("chg", c, i, F) or self.hits("gone", c, i, F)):
                                b = strip(a[4][0])
                                if b[0] == "v" and b[3] in pm and pm[b[3]] not in self.edge.setdefault(F.key, set()):
                                    self.edge[F.key].add(pm[b[3]])
                                    ch = True
                            continue
                        p = pm[a[3]]
                        for k in BASE:
                            if p not in self.s[k].get(F.key, ()) and self.hits(k, c, i, F):
                                self.s[k].setdefault(F.key, set()).add(p)
                                ch = True
                        if p not in self.set.get(F.key, ()) and self.setmod(c, i, F):
                            self.set.setdefault(F.key, set()).add(p)
                            ch = True

    def listdel(self, c):
        """list_del(&p->field): p, field"""
        if nm(c) in LISTDEL and c[4]:
            a = strip(c[4][0])
            if a[0] == "u" and a[2] == "&":
                b = strip(a[3])
                if b[0] == "m" and b[5] and var(b[2]) is not None:
                    return var(b[2]), b[3]
        return None

    def called(self, c, F):
        n = callee_name(c)
        G = self.P.resolve(n, F.file) if n else None
        return G.key if G is not None and G.body is not None else None

    def hits(self, kind, c, i, F):
        n = nm(c)
        if n is None and kind in ("chg", "gone") and i == 0 and str(strip(c[3])[1]) == "void(struct ir_node*,void*)*":
            return True     # a walker's function may do anything to the node it is called for
        if n in BASE[kind]:
            if BASE[kind][n] != i:
                return False
            if n == "set_irn_n" and kind == "chg" and minus1(c[4][1]):
                return False
            return True
        if kind == "blk" and n == "set_irn_n":
            return i == 0 and minus1(c[4][1])
        if n in STOP.get(kind, ()):
            return False
        k = self.called(c, F)
        return k is not None and i in self.s[kind].get(k, ())

    def setmod(self, c, i, F):
        n = callee_name(c)
        if n in ("_pset_search", "_set_search"):
            return i == 0 and any("_insert" in show(a) for a in c[4][1:])
        if n in SETMOD:
            return SETMOD[n] == i
        if n and ITERMOD.match(n):
            return i == 0
        if n in CURSORS or n and ITER.match(n):
            return False
        k = self.called(c, F)
        return k is not None and i in self.set.get(k, ())


# Calls that do not do it for what an iteration of the calling function stands on, with the reason.
STOP = {
    "chg": {"identify": "gvn_pre: normalises the operands of new nodes only; a node with users has a value already"},
}


def minus1(e):
    e = strip(e)
    return e[0] == "i" and e[2] == -1 or e[0] == "u" and e[2] == "-" and strip(e[3])[0] == "i" and strip(e[3])[2] == 1


def bound(e, arg=show):
    """what a call counts the elements of"""
    e = strip(e)
    n = nm(e) if e[0] == "c" else None
    if n == "get_irp_n_irgs":
        return "irp"
    if n in ("get_irn_arity", "get_compound_n_members") or n and re.match(r"get_(End|Sync|Phi|Tuple|Block|Call|Return|ASM)_n_", n):
        return arg(e[4][0])
    return None


def var(e):
    e = strip(e)
    return e[3] if e is not None and e[0] == "v" and e[4] in ("l", "p") else None


def arg(e):
    """argument text; &x and x are the same container"""
    e = strip(e)
    return show(e)


class Fn:
    def __init__(self, P, S, F, rep):
        self.P, self.S, self.F, self.rep = P, S, F, rep
        self.bad = []
        self.names = {}
        self.blockish = set()
        self.indexed = set()     # (container, index variable)
        for x in walk(F.body):
            if x[0] == "v":
                self.names[x[3]] = x[2]
        assigned = {var(x[3]) for x in walk(F.body) if x[0] == "a"} | {var(x[3]) for x in walk(F.body) if x[0] == "u" and x[2] in INC + ("&",)}
        self.same = {}           # a variable that is another name for a value of the function
        for x in walk(F.body):
            if x[0] == "D":
                for d in x[2]:
                    if d[4] is not None and d[2] not in assigned and var(d[4]) is not None and (var(d[4]) not in assigned or d[1].endswith("__irn")):
                        self.same[d[1]] = d[4]
        for x in walk(F.body):
            if x[0] == "c" and len(x[4]) == 2 and var(x[4][1]) is not None:
                self.indexed.add((self.arg(x[4][0]), var(x[4][1])))
            if x[0] == "c" and nm(x) == "get_irp_irg" and var(x[4][0]) is not None:
                self.indexed.add(("irp", var(x[4][0])))
            if x[0] == "c" and nm(x) == "is_Block" and x[4] and var(x[4][0]) is not None:
                self.blockish.add(show(strip(x[4][0])))
            if x[0] == "D":
                for d in x[2]:
                    if d[4] is not None and strip(d[4])[0] == "c" and re.match(r"get_nodes_block|get_Block_|new_r_.*Block|get_irg_.*block", callee_name(strip(d[4])) or ""):
                        self.blockish.add(d[1])
        for p in F.params:
            if re.match(r"(.*_)?(block|bl|bb)$", p[0]):
                self.blockish.add(p[0])

    def arg(self, e):
        e = strip(e)
        for _ in range(4):
            if e[0] == "v" and e[2] in self.same:
                e = strip(self.same[e[2]])
        return show(e)

    def bound(self, e):
        return bound(e, self.arg)

    def report(self, key, line, text):
        self.bad.append((key, line, text))

    def kill_var(self, st, v):
        return {f for f in st if v not in f[1]}

    def expr(self, e, st, line):
        """effects of an expression on the state, inside out"""
        e = strip(e)
        if e is None or not isinstance(e, list):
            return st
        k = e[0]
        if k == "b" and e[2] in ("&&", "||") or k == "?":
            for x in e[2:]:
                if isinstance(x, list):
                    st = st | self.expr(x, st, line)
            return st
        if k == "a":
            st = self.expr(e[4], st, e[5])
            l = strip(e[3])
            if l[0] != "v":
                st = self.expr(l, st, e[5])
            elif e[2] == "=":
                return self.assign(var(l), e[4], st, e[5])
            else:
                st = {f for f in st if not (f[0] == "adead" and f[1][0] == var(l))}
            return st
        if k == "x":
            self.used(e[2], st, line, "accesses")
        if k == "u":
            st = self.expr(e[3], st, line)
            if e[2] == "*":
                self.used(e[3], st, line, "accesses")
            v = var(e[3])
            if e[2] in INC and v is not None:
                st = {f for f in st if not (f[0] == "adead" and f[1][0] == v)}
                for f in st:
                    if f[0] == "idead" and f[1][0] == v and e[2] in ("++p", "p++"):
                        self.report(f"index/{f[2]}", line or e[4], f"steps over the element that took the place of the one {f[2]} removed in line {f[3]}")
                st = {f for f in st if not (f[0] == "idead" and f[1][0] == v)}
            return st
        if k == "c":
            for a in e[4]:
                st = self.expr(a, st, e[2])
                self.used(a, st, e[2], "passes on")
            return self.call(e, st)
        if k == "m":
            st = self.expr(e[2], st, line)
            if e[5]:
                self.used(e[2], st, line, "accesses")
            self.member(e, st, line)
            return st
        for x in e[1:]:
            if isinstance(x, list):
                if x and isinstance(x[0], str):
                    st = self.expr(x, st, line)
                else:
                    for y in x:
                        if isinstance(y, list) and y and isinstance(y[0], str):
                            st = self.expr(y, st, line)
        return st

    def member(self, e, st, line):
        """p->list.next after the element was deleted"""
        if e[3] in ("next", "prev"):
            b = strip(e[2])
            if b[0] == "m" and b[5]:
                v = var(b[2])
                for f in st:
                    if f[0] == "ldead" and f[1][0] == v and f[2] == b[3]:
                        self.report(f"list/{f[3]}", line, f"steps on from {self.names.get(v)}, which {f[3]} took out of its list in line {f[4]}")
                        return

    def used(self, e, st, line, how):
        v = var(e)
        if v is None:
            return
        for f in st:
            if f[0] == "freed" and f[1][0] == v:
                self.report(f"freed/{f[2]}", line, f"{how} {self.names.get(v)}, which {f[2]} freed in line {f[3]}")

    def assign(self, v, rhs, st, line):
        if v is None:
            return st
        r = strip(rhs)
        new = set()
        if r[0] == "c":
            n = nm(r)
            if n == "get_edge_src_irn" and var(r[4][0]) is not None:
                new.add(("src", (v, var(r[4][0]))))
            elif n == "get_edge_pos" and var(r[4][0]) is not None:
                new.add(("pos", (v, var(r[4][0]))))
            elif self.bound(r) == "irp":
                new.add(("nirg", (v,)))
            elif self.bound(r):
                new.add(("arity", (v,), self.bound(r)))
            elif n == "get_compound_member":
                new.add(("memb", (v,), self.arg(r[4][0])))
            elif n in ("get_irn_out_edge_first_kind", "get_irn_out_edge_next", "get_irn_out_edge_first"):
                kind = show(r[4][-1]) if n != "get_irn_out_edge_first" else "EDGE_KIND_NORMAL"
                new.add(("cur", (v,), self.arg(r[4][0]), "BLOCK" in kind))
            elif n in CURSORS and CURSORS[n][1] in ("start", "step"):
                new.add(("elem", (v,), CURSORS[n][0], self.arg(r[4][0])))
            elif n in ("sched_next", "sched_prev", "sched_first", "sched_last"):
                pass
        elif r[0] == "v" and var(r) is not None:
            w = var(r)
            for f in st:
                if f[0] in ("src", "pos") and f[1][0] == w:
                    new.add((f[0], (v, f[1][1])))
                if f[0] == "cur" and f[1][0] == w:
                    new.add((f[0], (v,)) + f[2:])
                if f[0] in ("dead", "ldead", "freed") and f[1][0] == w:
                    new.add((f[0], (v,)) + f[2:])
            if any(f[0] == "cur" and f[1][0] == w for f in st):
                # the safe form: the next edge was fetched before, aliases of the old edge are gone
                pass
        st = {f for f in st if v not in f[1] and not (f[0] in ("mod", "act") and re.search(rf"\b{re.escape(self.names.get(v, '?'))}\b", f[2]))}
        return st | new

    def call(self, c, st):
        n, line = nm(c) or show(c[3]), c[2]
        raw = callee_name(c) or ""
        # steps
        if n == "get_irn_out_edge_next":
            v = var(c[4][1])
            for f in st:
                if f[0] == "dead" and f[1][0] == v:
                    self.report(f"edge/{f[2]}", line, f"steps to the next out edge from {self.names.get(v)}, whose user {f[2]} changed in line {f[3]}")
            self.steps += 1
        if n in ("sched_next", "sched_prev"):
            v = var(c[4][0])
            self.steps += 1
            for f in st:
                if f[0] == "sdead" and f[1][0] == v:
                    self.report(f"sched/{f[2]}", line, f"steps on in the schedule from {self.names.get(v)}, which {f[2]} removed in line {f[3]}")
        if n == "get_Phi_next":
            v = var(c[4][0])
            self.steps += 1
            for f in st:
                if f[0] == "pdead" and f[1][0] == v:
                    self.report(f"phi/{f[2]}", line, f"reads the next Phi from {self.names.get(v)}, which {f[2]} took out of the list in line {f[3]}")
        if raw in CURSORS:
            fam, what = CURSORS[raw]
            s = self.arg(c[4][0])
            if what == "start":
                self.steps += 1
                for f in st:
                    if f[0] == "act" and f[2] == s and f[4] != line:
                        self.report(f"break/{fam}", line, f"starts an iteration of {s} while the one started in line {f[4]} was not ended with {fam}_break")
                st = {f for f in st if not (f[0] in ("act", "mod") and f[2] == s)}
                return st | {("act", (), s, fam, line)}
            if what == "end":
                return {f for f in st if not (f[0] in ("act", "mod") and f[2] == s)}
            self.steps += 1
            for f in st:
                if f[0] == "mod" and f[2] == s:
                    self.report(f"{fam}/{f[4]}", line, f"goes on iterating {s}, which {f[4]} changed in line {f[5]}")
            return st
        m = ITER.match(raw)
        if m:
            it = self.arg(c[4][0])
            if m.group(2) == "init":
                st = {f for f in st if not (f[0] in ("it", "itmod") and f[2] == it)}
                return st | {("it", (), it, self.arg(c[4][1]))}
            self.steps += 1
            for f in st:
                if f[0] == "itmod" and f[2] == it:
                    self.report(f"{m.group(1)}/{f[3]}", line, f"goes on iterating with {it} over a set {f[3]} changed in line {f[4]}")
            return st
        out = set(st)
        d = self.S.listdel(c)
        if d:
            out.add(("ldead", (d[0],), d[1], n, line))
        for i, fld in self.S.lst.get(self.S.called(c, self.F), ()):
            if i < len(c[4]) and var(c[4][i]) is not None:
                out.add(("ldead", (var(c[4][i]),), fld, n, line))
        for i, a in enumerate(c[4]):
            a = strip(a)
            v = var(a)
            t = self.arg(a)
            chg = self.S.hits("chg", c, i, self.F)
            blk = self.S.hits("blk", c, i, self.F)
            gone = self.S.hits("gone", c, i, self.F)
            if chg or blk or gone:
                es = set()
                if a[0] == "c" and nm(a) == "get_edge_src_irn":
                    es.add(var(a[4][0]))
                for f in st:
                    if v is not None and f[0] == "src" and f[1][0] == v:
                        es.add(f[1][1])
                if n == "set_irn_n" and i == 0 and not minus1(c[4][1]):
                    p = strip(c[4][1])
                    pe = set()
                    if p[0] == "c" and nm(p) == "get_edge_pos":
                        pe.add(var(p[4][0]))
                    for f in st:
                        if var(p) is not None and f[0] == "pos" and f[1][0] == var(p):
                            pe.add(f[1][1])
                    if pe and not (pe & es):
                        es = set()
                for f in st:
                    if f[0] == "cur" and f[1][0] in es and (gone or blk and not f[3] and f[2] in self.blockish or chg and (f[3] or f[2] not in self.blockish)):
                        out.add(("dead", f[1], n, line))
            k = self.S.called(c, self.F)
            if v is not None and k is not None and i in self.S.edge.get(k, ()):
                for f in st:
                    if f[0] == "cur" and f[1][0] == v:
                        out.add(("dead", f[1], n, line))
            if self.S.hits("mov", c, i, self.F):
                for f in st:
                    if f[0] == "cur" and f[2] == t:
                        out.add(("dead", f[1], n, line))
            if v is not None and self.S.hits("uns", c, i, self.F):
                out.add(("sdead", (v,), n, line))
            if v is not None and self.S.hits("free", c, i, self.F):
                out.add(("freed", (v,), n, line))
            if v is not None and self.S.hits("phi", c, i, self.F):
                out.add(("pdead", (v,), n, line))
            if self.S.hits("shr", c, i, self.F):
                for f in st:
                    if f[0] == "arity" and f[2] == t:
                        out.add(("adead", f[1], n, line, t))
                    if f[0] == "idx" and f[2] == t:
                        out.add(("idead", f[1], n, line))
            if v is not None and self.S.hits("ent", c, i, self.F):
                for f in st:
                    if f[0] == "memb" and f[1][0] == v:
                        for h in st:
                            if h[0] == "arity" and h[2] == f[2]:
                                out.add(("adead", h[1], n, line, f[2]))
                            if h[0] == "idx" and h[2] == f[2]:
                                out.add(("idead", h[1], n, line))
            if self.S.setmod(c, i, self.F):
                for f in st:
                    if f[0] == "act" and f[2] == t:
                        out.add(("mod", (), t, f[3], n, line))
                    if f[0] == "it" and f[3] == t:
                        out.add(("itmod", (), f[2], n, line))
        k = self.S.called(c, self.F)
        if n in ("remove_irp_irg", "free_ir_graph") or k in self.S.rm:
            for f in st:
                if f[0] == "nirg":
                    out.add(("adead", f[1], n, line, "irp"))
                if f[0] == "idx" and f[2] == "irp":
                    out.add(("idead", f[1], n, line))
        return out

    def cmp(self, e, st, line):
        """a loop bound that no longer holds"""
        for x in walk(e):
            if x[0] == "b" and x[2] in ("<", "!=", ">", "<="):
                for y, o in ((x[3], x[4]), (x[4], x[3])):
                    v = var(y)
                    o = strip(o)
                    o = var(o[3]) if o[0] == "u" else var(o)
                    for f in st:
                        if f[0] == "adead" and f[1][0] == v and (f[4], o) in self.indexed:
                            self.report(f"bound/{f[2]}", line, f"compares with the number {self.names.get(v)} taken before {f[2]} in line {f[3]} removed elements")

    def indices(self, e, st):
        """index variables of a loop that is bounded by the number of elements, counted anew or before"""
        out = set()
        for x in walk(e):
            if x[0] == "b" and x[2] in ("<", "!=", ">"):
                for y, o in ((x[3], x[4]), (x[4], x[3])):
                    i, o = var(y), strip(o)
                    if i is None:
                        continue
                    t = self.bound(o)
                    if t is not None:
                        out.add(("idx", (i,), t))
                    for f in st:
                        if f[0] == "arity" and f[1][0] == var(o) and (f[2], i) in self.indexed:
                            out.add(("idx", (i,), f[2]))
                        if f[0] == "nirg" and f[1][0] == var(o) and ("irp", i) in self.indexed:
                            out.add(("idx", (i,), "irp"))
        return out

    def run(self):
        self.steps = 0
        g = self.P.cfg(self.F)
        start = (g.entry, frozenset())
        inn = {start: set()}
        work = [start]
        n = 0
        heads = g.heads
        while work:
            node = work.pop(0)
            i, flags = node
            flags = dict(flags)
            n += 1
            if n > 4000:
                break
            b = g.blocks[i]
            st = set(inn[node])
            for it in b.items:
                self.setflags(it, flags)
                if it[0] == "D":
                    if it[4] is not None:
                        st = self.expr(it[4], st, it[6])
                    st = self.assign(it[2], it[4], st, it[6]) if it[4] is not None else self.kill_var(st, it[2])
                elif it[1] is not None:
                    st = self.expr(it[1], st, it[2])
                if it[0] == "RET":
                    self.leave(st, it[2], it[1])
            t = b.term
            if t is None:
                continue
            if t[0] in ("br", "sw"):
                st = self.expr(t[1], st, t[4])
                self.cmp(t[1], st, t[4])
                st = st | self.indices(t[1], st)
                # a test of the index itself tells the removed case from the other
                for x in walk(t[1]):
                    if x[0] == "b" and x[2] in ("<", ">", "==", "!=", "<=", ">="):
                        vs = {var(x[3]), var(x[4])} - {None}
                        if not any(f[0] == "idx" and f[1][0] in vs and (self.bound(x[4]) == f[2] or self.bound(x[3]) == f[2] or any(g[0] in ("arity", "nirg") and g[1][0] in vs for g in st)) for f in st):
                            st = {f for f in st if not (f[0] == "idead" and f[1][0] in vs)}
            outs = []
            if t[0] == "br":
                known = self.flag(t[1], flags)
                if known is not False:
                    outs.append((t[2], self.refine(t[1], st, True)))
                if known is not True:
                    outs.append((t[3], self.refine(t[1], st, False)))
            else:
                outs = [(s, st) for s in b.succs()]
            for s, o in outs:
                s = (s, frozenset(flags.items()))
                if s not in inn:
                    inn[s] = set(o)
                    work.append(s)
                elif not o <= inn[s]:
                    inn[s] |= o
                    if s not in work:
                        work.append(s)
        return self.bad

    def setflags(self, it, flags):
        """the local switches the iteration macros use: name__b, name__once"""
        e = it[4] if it[0] == "D" else it[1]
        if it[0] == "D" and it[1].endswith(("__b", "__once", "__once2")) and e is not None and strip(e)[0] == "i":
            flags[it[2]] = strip(e)[2] != 0
        if e is not None:
            for x in walk(e):
                if x[0] == "a" and x[2] == "=" and strip(x[3])[0] == "v" and strip(x[3])[2].endswith(("__b", "__once", "__once2")) and strip(x[4])[0] == "i":
                    flags[strip(x[3])[3]] = strip(x[4])[2] != 0

    def flag(self, e, flags):
        e = strip(e)
        if e[0] == "u" and e[2] == "!":
            r = self.flag(e[3], flags)
            return None if r is None else not r
        return flags.get(e[3]) if e[0] == "v" else None

    def refine(self, e, st, truth):
        e = strip(e)
        v = None
        if e[0] == "v":
            v = e[3]
        elif e[0] == "a" and e[2] == "=" and strip(e[3])[0] == "v":
            v = strip(e[3])[3]
        elif e[0] == "b" and e[2] in ("!=", "=="):
            if strip(e[4])[0] == "i" and strip(e[4])[2] == 0:
                v = var(e[3])
                if v is None and strip(e[3])[0] == "a":
                    v = var(strip(e[3])[3])
            if e[2] == "==":
                truth = not truth
        if v is None or truth:
            return st
        # the element is NULL: the iteration is over
        done = {(f[2], f[3]) for f in st if f[0] == "elem" and f[1][0] == v}
        return {f for f in st if not (f[0] == "act" and (f[3], f[2]) in done) and not (f[0] == "mod" and (f[3], f[2]) in done) and not (f[0] in ("elem", "cur", "dead") and f[1][0] == v)}

    def leave(self, st, line, e):
        given = set()      # iterations handed to the caller with their element
        if e is not None and var(e) is not None:
            given = {(f[2], f[3]) for f in st if f[0] == "elem" and f[1][0] == var(e)}
        for x in walk(e) if e is not None else ():
            if x[0] == "c" and callee_name(x) in CURSORS:
                given.add((CURSORS[callee_name(x)][0], self.arg(x[4][0])))
        for f in st:
            if f[0] == "act" and (f[3], f[2]) not in given:
                self.report(f"break/{f[3]}", line, f"leaves the iteration of {f[2]} started in line {f[4]} without {f[3]}_break")


def run():
    rep = Report("C13", "no iteration continues from a removed element or over a changed container", META["note"])
    P = Program("debug")
    S = Sums(P)
    total = 0
    for F in P.all:
        f = Fn(P, S, F, rep)
        seen = set()
        bad = f.run()
        total += 1
        if f.steps:
            rep.count("functions that iterate")
            rep.count("steps of cursors", f.steps)
        for key, line, text in bad:
            if (key, line) in seen:
                continue
            seen.add((key, line))
            rep.bad(f"{F.name}/{key}", f"{short(F.file)}:{line}", f"{F.name} {text}")
        if not bad and f.steps:
            rep.ok(f"{F.loc} {F.name}: {f.steps} steps")
    rep.count("functions followed", total)
    for k, v in sorted(S.s.items()):
        rep.count(f"parameters with the effect {k}", sum(map(len, v.values())))
    rep.floor("functions followed", 7000)
    rep.floor("functions that iterate", 150)
    rep.floor("steps of cursors", 350)
    rep.floor("parameters with the effect chg", 60)
    return rep.finish()


if __name__ == "__main__":
    main("C13", run)
