"""C05: what the textual export writes is what the import reads (abstract round trip)."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from prog import Program, short, show, AnalysisError, walk, strip, callee_name
from report import Report, main
from absint import Interp, Client, State, isc, deref, rootof
from c04 import C as NodeModel, has_loop

META = {
    "title": "Importing an exported program reproduces every item that was written",
    "statement": "The textual representation written by ir_export is read back faithfully by ir_import: for every node kind, type kind, entity kind, mode kind, initializer kind and program item, the reader consumes exactly the sequence of fields the writer emits, "
                 "and the object it builds has the same opcode, operands and written attributes, so that exporting it again yields the same text. Every symbolic name the writer can emit for an enumeration value, flag or keyword is known to the reader and denotes the same value, "
                 "every node kind that has a writer has a reader of the same name, and names and strings survive for every character they may contain.",
    "over": ["inputs", "programs", "histories"],
    "quant": "every node, type, entity, mode and initializer kind, every enumeration value and flag, every character of a string",
    "why": "A field that is skipped, swapped or decoded differently only shows for programs that use that node, type or attribute; no test exports and re-imports each kind.",
    "files": ["ir/ir/irio.c", "scripts/templates/gen_irio.c", "scripts/ir_spec.py", "ir/ir/irio_t.h"],
    "mech": [("node readers and writers", "generated gen_irio.c and ir/ir/irio.c"), ("symbol table of the importer", "ir/ir/irio.c symtbl_init"), ("type, entity, mode readers", "ir/ir/irio.c read_type, read_entity, read_modes")],
    "technique": "abstract interpretation: each reader is run on a symbolic token stream, the registered writer on the abstract object it built, and the two field sequences are compared",
    "note": "Tokens are symbolic (numbers, references, strings) or enumerated (every entry of the importer's symbol table). Lists are followed for one element, counted vectors for one and two elements. The text form of tarvals and the resolution of forward references are not followed; "
            "what the exporter does not write at all (e.g. entity alignment, class hierarchies, debug information) is outside the property.",
}

NUM = {"read_long": "long", "read_int": "int", "read_unsigned": "uint"}
WNUM = ("write_long", "write_int", "write_unsigned", "write_size_t")
PRIM = {"mode_ref": "mode", "tarval_ref": "tarval"}
WS = " \t\n\r"


class IP(Interp):
    def fork(self, st, v, line, fr):
        r = Interp.fork(self, st, v, line, fr)
        if len(r) == 2 and ("obstack." in str(v) or "ir_arr_descr" in str(v)):
            # bookkeeping of obstacks and flexible arrays does not matter here
            return r[:1] if "ir_arr_descr" in str(v) or v[:2] == ("op", "==") else r[1:]
        return r


class IO(NodeModel):
    maxs = 4000
    maxdepth = 12
    unroll = 3

    def __init__(self, P, table):
        NodeModel.__init__(self, P)
        self.table = table
        self.only = {}          # tag -> allowed strings
        self.funcs = {}         # name -> reader, op -> writer
        self.root = None
        self.kw = None          # the kind of entity that is read
        self.budget = None      # how many enumerated fields may differ from their first value at the same time
        self.lost = set()       # (token, field key) overwritten afterwards
        self.stores = {}        # token -> field keys it was stored to

    # ---- log: st.cl = (entries, tokens, keywords read, bindings)
    def log(self, st, *es):
        s = st.copy()
        l, n, k, b = s.cl
        if len(l) > 80:
            raise AnalysisError("the list of fields is not bounded")
        s.cl = (l + es, n, k, b)
        return s

    def pick(self, k):
        if self.budget is None:
            return k
        return k + 1000 if k // 1000 < self.budget else None

    def tok(self, st, kind):
        l, n, k, b = st.cl
        t = ("tok", kind, n)
        s = st.copy()
        s.cl = (l + ((kind, t),), n + 1, k, b)
        return s, t

    def inline(self, ip, n, F, fr):
        if n.startswith(("ir_new_arr", "_obstack", "obstack_", "new_tarval", "hook_", "get_irp_new_node_nr", "xmalloc", "xcalloc", "xrealloc", "set_insert", "deq_", "_set_insert", "_set_find", "ir_arr_")) or n in ("skip_Id",):
            return False
        if "/adt/" in F.file or "/tv/" in F.file:
            return False
        return len(str(F.body)) < 60000

    def load(self, ip, st, loc, fr):
        if loc[0] == "f" and loc[2] == "read_env_t.c":
            return ("c", ord("}") if st.cl[2] % 1000 >= 1 else ord("x"))
        if loc[0] == "f" and loc[2].endswith(".generic") and self.funcs.get("writer"):
            return ("fn", self.funcs["writer"])
        if loc[0] == "f" and loc[2] == "obstack.object_base":
            # the object under construction on an obstack
            self.news.append((("new", len(self.news)), None, 0, fr.F if fr else None))
            return ("new", len(self.news) - 1)
        if loc[0] == "f" and loc[1][0] == "gv" and loc[2].endswith(".kind"):
            v = self.P.var(loc[1][1], loc[1][2] if len(loc[1]) > 2 else None)
            e = [x for x in walk(v["init"]) if x[0] in ("e", "i")] if v and v["init"] else []
            if e:
                return ("c", e[0][3] if e[0][0] == "e" else e[0][2])
        if loc[0] == "f" and loc[2] == "ir_entity.kind" and self.root is not None and self.root[0] == "ld" and loc[1] == ("deref", self.root):
            return ("c", self.P.econst["IR_ENTITY_UNKNOWN"][0])
        if loc[0] == "gv" and loc[1] == "maybe_initial_type":
            return ("c", 0)
        if loc[0] == "gv" and loc[1] in ("irp", "current_ir_graph"):
            return ("glob", loc[1])
        if loc[0] == "f" and loc[2] == "ir_op.pin_state":
            return ("c", self.P.econst["op_pin_state_exc_pinned"][0])
        return None

    def store(self, ip, st, loc, val, line, fr):
        if val[0] == "tok" and loc[0] == "f":
            self.stores.setdefault(val, set()).add(loc[2])
        if loc[0] == "f":
            old = st.mem.get(loc)
            if old is not None and old[0] == "tok" and old != val:
                self.lost.add((old, loc[2]))

    def text(self, st, s):
        """Constant text written."""
        out, word = [], ""
        for ch in s + " ":
            if ch in WS or ch in "[]{}":
                if word:
                    out.append(("sym", word))
                word = ""
                if ch in "[]{}":
                    out.append((ch,))
            else:
                word += ch
        return self.log(st, *out)

    def call(self, ip, st, c, n, args, fr):
        P = self.P
        if n is None:
            return None
        # ---- structure
        if n == "parse_error" or n == "skip_to":
            return []
        if n in ("skip_ws", "read_c", "feof", "obstack_free", "_obstack_free", "check_type", "mature_immBlock") or n.startswith("hook_"):
            return [(st, ("c", 0))]
        if n == "expect_char":
            return [(self.log(st, (chr(args[1][1]),)), ("c", 1))]
        if n == "expect_list_begin":
            return [(self.log(st, ("[",)), ("void",))]
        if n == "list_has_next":
            # one element, then the end of the list
            l = st.cl[0]
            i = max((j for j, e in enumerate(l) if e == ("[",)), default=-1)
            if i >= 0 and len(l) - 1 > i:
                return [(self.log(st, ("]",)), ("c", 0))]
            return [(st, ("c", 1))]
        if n == "ARR_LEN" and args[0][0] == "call":
            return [(st, ("c", 1))]
        # ---- reading
        if n in NUM:
            s, t = self.tok(st, "num")
            return [(s, t)]
        if n == "read_size_t":
            out = []
            for v in (1, 2):
                out.append((self.log(st, ("num", ("c", v))), ("c", v)))
            k = sum(1 for e in st.cl[0] if e[0] == "num" and isc(e[1]))
            return [out[1]] if k == 0 else [out[0]]
        if n == "read_enum":
            if not isc(args[1]):
                raise AnalysisError("read_enum with an unknown tag")
            out = []
            l, nn, k, b = st.cl
            iskw = args[1][1] == P.econst["tt_keyword"][0]
            for s_, code in self.table.get(args[1][1], ()):
                if iskw and self.only.get("kw") and s_ not in self.only["kw"]:
                    continue
                s = st.copy()
                k2 = k
                if out and not iskw and args[1][1] != P.econst["tt_tpo"][0]:
                    k2 = self.pick(k)
                    if k2 is None:
                        break
                s.cl = (l + (("sym", s_),), nn, k2 + (1 if iskw else 0), b)
                out.append((s, ("c", code)))
            return out
        if n in ("read_string", "read_ident"):
            s, t = self.tok(st, "str")
            return [(s, t)]
        if n in ("read_ident_null", "read_string_null"):
            s, t = self.tok(st, "str")
            s.neq[t] = frozenset({0})
            k2 = self.pick(st.cl[2])
            if k2 is None:
                return [(s, t)]
            s0 = self.log(st, ("sym", "NULL"))
            s0.cl = s0.cl[:2] + (k2, s0.cl[3])
            return [(s, t), (s0, ("c", 0))]
        if n == "read_symbol":
            return [(self.log(st, ("sym", self.funcs["name"])), ("s", self.funcs["name"]))]
        if n in ("pmap_find", "pmap_get", "_pmap_get") and self.funcs.get("reader"):
            return [(st, ("fn", self.funcs["reader"]))]
        if n == "read_word":
            s, t = self.tok(st, "word")
            return [(s, t)]
        if n in ("streq", "strcmp") and args[0][0] == "tok" and args[0][1] == "word" and args[1][0] == "s":
            i = [j for j, e in enumerate(st.cl[0]) if e[1:] == (args[0],)][0]
            cur = st.cl[0][i]
            yes = ("sym", args[1][1])
            eq, ne = (("c", 1), ("c", 0)) if n == "streq" else (("c", 0), ("c", 1))
            if cur[0] == "sym":
                return [(st, eq if cur == yes else ne)]
            s = st.copy()
            l, a, k, b = s.cl
            k = self.pick(k) if fr.F.name == "read_type_ref" else k
            if k is None:
                return [(st, ne)]
            s.cl = (l[:i] + (("sym", args[1][1], args[0]),) + l[i + 1:], a, k, b)
            return [(s, eq), (st, ne)]
        if n in ("streq",) and len(args) == 2 and fr.F.name == "streq_null":
            return None
        if n in ("atol", "atoi", "strtol", "strtoul", "atoll") and args[0][0] == "tok":
            i = [j for j, e in enumerate(st.cl[0]) if e[1:] == (args[0],)][0]
            s = st.copy()
            l, a, k, b = s.cl
            t = ("tok", "num", args[0][2])
            s.cl = (l[:i] + (("num", t),) + l[i + 1:], a, k, b)
            return [(s, t)]
        for p, kind in PRIM.items():
            if n == "read_" + p:
                s, t = self.tok(st, kind)
                s.neq[t] = frozenset({0})
                return [(s, t)]
            if n == "write_" + p:
                return [(self.log(st, (kind, args[1])), ("void",))]
        if n == "get_id":
            t = ("obj", args[1])
            s = st.copy()
            s.neq[t] = frozenset({0})
            return [(s, t)]
        if n == "set_id":
            s = st.copy()
            l, a, k, b = s.cl
            s.cl = (l, a, k, b + ((args[1], args[2]),))
            return [(s, ("void",))]
        if n == "read_preds":
            s, t = self.tok(st, "preds")
            l, a, k, b = s.cl
            s.cl = (l[:-1] + (("[",), l[-1], ("]",)), a, k, b)
            return [(s, t)]
        if n == "read_preds_delayed":
            return [(self.log(st, ("[",), ("later", args[1]), ("]",)), ("void",))]
        if n == "read_initializer" and fr.F.name == n:
            s, t = self.tok(st, "init")
            return [(s, t)]
        if n in ("get_node_or_null", "get_type", "get_entity") and fr.F.file.endswith("irio.c") and n != "get_id":
            return None
        # ---- writing
        if n in WNUM:
            return [(self.log(st, ("num", self.norm(st, args[1]))), ("void",))]
        if n in ("fputs", "write_symbol"):
            v = args[0] if n == "fputs" else args[1]
            if v[0] == "s":
                return [(self.text(st, v[1]), ("c", 0))]
            return [(self.log(st, ("str?", self.norm(st, v))), ("c", 0))]
        if n in ("fputc", "putc"):
            if isc(args[0]):
                return [(self.text(st, chr(args[0][1])), ("c", 0))]
            return [(self.log(st, ("ch?", args[0])), ("c", 0))]
        if n in ("fprintf", "ir_fprintf") and args[1][0] == "s":
            s = st
            it = list(args[2:])
            for w in args[1][1].split():
                if w.startswith("%"):
                    s = self.log(s, ("str" if w.endswith("s") else "num", self.norm(s, it.pop(0) if it else ("undef",))))
                else:
                    s = self.text(s, w)
            return [(s, ("c", 0))]
        if n in ("write_string", "write_ident"):
            return [(self.log(st, ("str", self.norm(st, args[1]))), ("void",))]
        if n == "write_pred_refs":
            return [(self.log(st, ("[",), ("predsof", args[1], args[2]), ("]",)), ("void",))]
        if n in ("write_type", "write_entity") and args[1] != self.root:
            return [(st, ("void",))]
        if n.strip("_") in ("type_visited", "entity_visited"):
            return [(st, ("c", 0))]
        if n.strip("_") in ("is_Method_type", "is_method_type") and args[0][0] == "obj" and self.kw:
            return [(st, ("c", int(self.kw == "method")))]
        if n.strip("_") == "is_segment_type" and args[0][0] == "obj" and self.kw:
            return [(st, ("c", int(self.kw in ("entity", "method", "alias"))))]
        if n in ("get_class_n_subtypes", "get_class_n_supertypes", "get_class_n_subtypes_", "get_class_n_supertypes_"):
            return [(st, ("c", 0))]
        if n.strip("_") in ("mark_type_visited", "mark_entity_visited"):
            return [(st, ("void",))]
        if n in ("get_compound_n_members", "get_compound_n_members_", "get_class_n_members", "get_compound_member_index"):
            return [(st, ("c", 0))]
        if n in ("add_compound_member", "add_irp_type", "remove_compound_member", "deq_push_pointer_right", "mtp_"):
            return [(st, ("void",))]
        if n == "write_initializer" and (fr.F.name == n or args[1][0] == "tok"):
            return [(self.log(st, ("init", args[1])), ("void",))]
        # ---- identities of the model
        if n in ("new_id_from_str", "get_id_str") and args[0][0] in ("tok", "s", "c"):
            return [(st, args[0])]
        if n in ("get_unknown_type", "get_code_type"):
            return [(st, ("builtin", n))]
        if n in ("get_type_opcode", "get_type_opcode_") and args[0][0] in ("builtin", "obj"):
            if args[0][0] == "builtin":
                return [(st, ("c", P.econst["tpo_unknown" if "unknown" in args[0][1] else "tpo_code"][0]))]
            s = st.copy()
            t = ("tpo", args[0])
            s.neq[t] = frozenset({P.econst["tpo_unknown"][0], P.econst["tpo_code"][0], P.econst["tpo_uninitialized"][0]})
            return [(s, t)]
        if n in ("is_compound_type", "is_compound_type_", "is_class_type", "is_segment_type") and args[0][0] in ("obj", "builtin"):
            return [(st, ("c", int(args[0][0] == "obj")))] if n.startswith("is_compound") else None
        if n in ("is_type", "is_type_", "is_entity", "is_entity_", "is_ir_node", "is_ir_graph"):
            return [(st, ("c", 1))]
        if n in ("get_irn_node_nr", "get_entity_nr", "get_type_nr"):
            return [(st, ("nr", args[0]))]
        if n in ("get_irg_const_code", "get_const_code_irg"):
            return [(st, ("glob", "constirg"))]
        if n == "get_glob_type":
            return [(st, ("glob", "globtype"))]
        if n.startswith(("xmalloc", "xcalloc")) or n in ("malloc", "calloc", "_obstack_allocate"):
            self.news.append((("new", len(self.news)), None, c[2], fr.F))
            return [(st.copy(), ("new", len(self.news) - 1))]
        if n == "register_mode":
            return [(st, args[0])]
        return NodeModel.call(self, ip, st, c, n, args, fr)

    def norm(self, st, v):
        """Numbers of objects: the number they were read under."""
        v = st.val(v)
        if v[0] == "nr":
            if v[1][0] == "obj":
                return v[1][1]
            for t, o in st.cl[3]:
                if o == v[1]:
                    return t
        return v


def chk(rep, ok, key, where, msg, sample=None):
    if ok:
        rep.ok(sample)
    else:
        rep.bad(key, where, msg)
    return ok


def symtable(P, rep):
    """(tag -> [(string, code)]) as built by the importer's initialisation."""
    F = P.func("symtbl_init")

    class T(Client):
        maxs = 200

        def inline(self, ip, n, F, fr):
            return F.file.endswith("irio.c") and n != "symbol"

        def pure(self, n):
            return n not in ("new_set",)

        def call(self, ip, st, c, n, args, fr):
            if n in ("set_insert", "_set_insert", "set_find", "_set_search", "set_hinsert"):
                k = args[1]
                v = [ip.read(st, ("f", deref(k), f"symbol_t.{f}"), fr) for f in ("str", "typetag", "code")]
                if v[0][0] != "s" or not isc(v[1]) or not isc(v[2]):
                    raise AnalysisError(f"symbol table entry is not constant: {str(v)[:100]}")
                ents.setdefault(v[1][1], [])
                e = (v[0][1], v[2][1])
                if e not in ents[v[1][1]]:
                    ents[v[1][1]].append(e)
                return [(st, ("any", "e"))]
            return None
    ents = {}
    Interp(P, T()).run(F, [], State())
    names = {v: n for n, (v, en, f, l) in P.econst.items() if n.startswith("tt_") and f.endswith("irio.c")}
    for tag, es in ents.items():
        d = {}
        for s, code in es:
            chk(rep, d.get(s, code) == code, f"symbol/{names.get(tag)}/{s}", F.loc, f"the symbol {s} is entered twice with different values under {names.get(tag)}")
            d[s] = code
            rep.count("symbols")
    return ents, names


def run():
    P = Program("debug")
    rep = Report("C05", "reader token sequence = writer field sequence on the object the reader built", META["note"])
    table, tags = symtable(P, rep)
    rep.floor("symbols", 60)
    enums(P, rep, table, tags)
    nodes(P, rep, table)
    graph(P, rep, table)
    modes(P, rep, table)
    inits(P, rep, table)
    program(P, rep, table)
    strings(P, rep)
    keywords(P, rep, table)
    numbers(P, rep)
    lexer(P, rep)
    everyone(P, rep)
    rep.floor("node_kinds", 50)
    rep.floor("type_paths", 10)
    rep.floor("entity_paths", 10)
    rep.floor("mode_paths", 3)
    rep.floor("fields_compared", 1500)
    return rep.finish()


# ------------------------------------------------------------------ enumerations
NOTWRITTEN = {"tpo_uninitialized", "tpo_code", "tpo_unknown"}


def enums(P, rep, table, tags):
    """Each name function used by a writer is inverse to the importer's table."""
    irio = [f for f in P.all if f.file.endswith(("/irio.c", "/gen_irio.c"))]
    done = set()
    for F in irio:
        for x in walk(F.body):
            if x[0] != "c":
                continue
            n = callee_name(x)
            if not n or n in done or not (n.endswith("_name") or "name" in n):
                continue
            G = P.resolve(n, F.file)
            if G is None or len(G.params) != 1 or not G.params[0][2].startswith("enum ") or "typetag" in G.params[0][2]:
                continue
            done.add(n)
            en = P.enums[G.params[0][2][5:]]
            m = {}
            for e, v, _ in en["consts"]:
                if e in NOTWRITTEN or e.endswith(("_last", "_LAST", "_max", "_FIRST")) and [q for q, w, _ in en["consts"] if w == v and q != e]:
                    continue
                ip = Interp(P, Inl())
                rs = {r for _, r in ip.run(G, [("c", v)], State())}
                rs = {r for r in rs if r is not None and r[0] == "s"}
                if len(rs) != 1:
                    rep.count("enumerators_without_name")
                    continue
                m[e] = (list(rs)[0][1], v)
            best = max(table, key=lambda t: sum(1 for s, v in m.values() if (s, v) in table[t]))
            if not any((s, v) in table[best] for s, v in m.values()):
                continue      # not a name of the file format
            for e, (s, v) in m.items():
                rep.count("enumerators")
                chk(rep, (s, v) in table[best], f"name/{n}/{e}", G.loc, f"{n} writes {e} as \"{s}\", which the importer does not read back as {e} (tag {tags.get(best)})", {"function": n, "value": e, "text": s})
    rep.floor("enumerators", 35)
    # flags written one by one
    lk = {v for e, v, _ in P.enums["ir_linkage"]["consts"] if v}
    have = {v for s, v in table.get(P.econst["tt_linkage"][0], ())}
    for e, v, _ in P.enums["ir_linkage"]["consts"]:
        if v:
            chk(rep, v in have, f"linkage/{e}", "ir/ir/irio.c", f"the linkage flag {e} has no symbolic name in the importer")


class Inl(Client):
    maxs = 60

    def inline(self, ip, n, F, fr):
        return len(str(F.body)) < 20000

    def pure(self, n):
        return True


# ------------------------------------------------------------------ comparison
def compare(P, rep, c, key, where, R, W, st, what):
    """R: log of the reader, W: log of the writer run on its result."""
    R, W = fix(R), fix(W)
    n = max(len(R), len(W))
    for i in range(n):
        r = R[i] if i < len(R) else None
        w = W[i] if i < len(W) else None
        rep.count("fields_compared")
        why = mismatch(P, c, r, w, st)
        if not chk(rep, why is None, f"{key}/{i}" if r is None else f"{key}/{i}:{r[0]}", where, f"{what}: field {i + 1} is read as {sh(r)} but written as {sh(w)}{': ' + why if why else ''}"):
            return


def fix(l):
    return [e for e in l if e[0] not in ("{", "}")]


def sh(e):
    if e is None:
        return "nothing"
    return " ".join(str(x)[:70] for x in e)


def mismatch(P, c, r, w, st):
    if r is None or w is None:
        return "one side has more fields"
    if r[0] != w[0]:
        if r[0] in ("preds", "later") and w[0] == "predsof":
            pass
        elif w[0] == "str?" and r[0] in ("sym",) and len(r) == 2:
            return None if False else "the text written is not known to equal the symbol read"
        else:
            return "different kind of field"
    if r[0] in ("[", "]"):
        return None
    if r[0] == "sym":
        return None if r[1] == w[1] else "different word"
    if w[0] == "predsof":
        N, frm = w[1], w[2]
        if r[0] == "later":
            return None if r[1] == N and frm == ("c", 0) else "the operand list of another node or not from operand 0"
        news = [x for x in c.news if x[0] == N]
        if not news:
            return "operands of an unknown node"
        ar = news[0][1][5]
        t = r[1]
        want = t if frm == ("c", 0) else ("op", "+", t, frm)
        return None if ar == want else f"the node has {str(ar)[:50]} operands, written from operand {frm[1:]}"
    a, b = st.val(r[1]), st.val(w[1])
    if a == b:
        return None
    if b[0] in ("op",) and b[1] == "!=" and b[2] == a and b[3] == ("c", 0):
        return None
    if a[0] == "tok" and b[0] == "c":
        # e.g. a boolean: the state knows the token
        t = st.truth(a)
        if t is not None and b[1] in (0, 1) and int(t) == b[1]:
            return None
    if a[0] == "tok" and b[0] == "ld":
        l = b[1]
        f = l[2] if l[0] == "f" else None
        if f and f in c.stores.get(a, ()) and (a, f) not in c.lost:
            return None
        if l[0] in ("ix", "deref") and not c.stores.get(a):
            return None          # element of a copied array
    return f"the value written is {str(b)[:80]}"


# ------------------------------------------------------------------ nodes
def regs(P, fn):
    """name/op -> function, from all calls of a registration function."""
    out = {}
    for F in P.all:
        for x in walk(F.body):
            if x[0] == "c" and callee_name(x) == fn:
                a, b = strip(x[4][0]), strip(x[4][1])
                while b[0] == "u":
                    b = strip(b[3])
                if b[0] != "v" or b[4] != "f":
                    continue
                if a[0] == "s":
                    out.setdefault(a[2], (b[2], F.file))
                elif a[0] == "v":
                    out.setdefault(a[2], (b[2], F.file))
    return out


def nodes(P, rep, table):
    rd = regs(P, "register_node_reader")
    wr = regs(P, "register_node_writer")
    if len(rd) < 40 or len(wr) < 40:
        raise AnalysisError("node readers or writers not found")
    words = {}
    for op, (wf, wfile) in sorted(wr.items()):
        X = op[3:]
        rep.count("node_kinds")
        WF = P.func(wf, wfile)
        ws = {x[2] for x in walk(WF.body) if x[0] == "s"} & set(rd)
        own = {w for w in ws if w == X or w.startswith(X)}
        if not chk(rep, bool(own), f"reader/{X}", WF.loc, f"nodes {X} are written by {wf} but no reader is registered for the name it writes"):
            continue
        for name in sorted(own):
            rf, rfile = rd[name]
            roundtrip(P, rep, table, X, name, P.func(rf, rfile), WF)
    rep.count("node_readers", len(rd))


def roundtrip(P, rep, table, X, name, RF, WF):
    c = IO(P, table)
    c.funcs = {"name": name, "reader": RF.name, "writer": WF.name}
    ip = IP(P, c)
    RN = P.func("read_node")
    st0 = State()
    st0.cl = ((), 0, 0, ())

    class FF:
        pass
    # static readers live in other files: make them resolvable
    save = P.resolve
    P.resolve = lambda n, f=None: RF if n == RF.name else WF if n == WF.name else save(n, f)
    try:
        res = ip.run(RN, [("p", "env")], st0)
        if not res:
            raise AnalysisError(f"reader {RF.name} never returns")
        paths = 0
        for st, N in res:
            R = st.cl[0]
            if any(e == ("sym", "op_pin_state_exc_pinned") for e in R):
                continue       # not a node attribute: never written
            if N is None or N[0] != "new":
                rep.count("reader_paths_without_new_node")
                continue
            s = st.copy()
            s.cl = ((), 0, 0, st.cl[3])
            ws = ip.run(P.func("write_node"), [N, ("p", "wenv")], s)
            if not ws:
                rep.bad(f"node/{name}/write", WF.loc, f"{WF.name} never returns for a node built by {RF.name}")
            for s2, _ in ws:
                paths += 1
                if X == "Phi" and ("sym", "loop") in R:
                    R = tuple(("mode", ("ld", ("gv", "mode_M"))) if e[0] == "mode" else e for e in R)     # loop Phis are memory Phis
                compare(P, rep, c, f"node/{name}", RF.loc, R, s2.cl[0], s2, f"{name} node")
            if chk(rep, "op_" + X in str([x for x in c.news if x[0] == N][0][1][3]), f"node/{name}/op", RF.loc, f"{RF.name} does not build a {X} node"):
                pass
        rep.count("node_paths", paths)
        if not paths:
            raise AnalysisError(f"no path of {RF.name} was compared")
    finally:
        P.resolve = save


# ------------------------------------------------------------------ types, entities
def graph(P, rep, table):
    F = P.func("read_typegraph")
    cases = {s for s, _ in table.get(P.econst["tt_keyword"][0], ())}
    EXSIZE = {"method", "pointer", "segment"}
    for kw in sorted(cases):
        c = IO(P, table)
        c.only["kw"] = {kw}
        c.kw = kw
        c.budget = 1
        ip = IP(P, c)
        st0 = State()
        st0.cl = ((), 0, 0, ())
        done = set()
        for st, _ in ip.run(F, [("p", "env")], st0):
            if not st.cl[3]:
                continue
            t, obj = st.cl[3][-1]
            if obj[0] != "new" and kw != "unknown":
                rep.count("existing_objects")      # e.g. the global type
                continue
            d = (st.cl[0], tuple(sorted((str(l), str(v)) for l, v in st.mem.items() if str(obj) in str(l))))
            d = str(d).replace(str(obj), "OBJ")
            if d in done:
                continue
            done.add(d)
            R = st.cl[0]
            istype = kw == "type"
            W = P.func("write_type" if istype else "write_entity")
            c.root = obj
            s = st.copy()
            s.cl = ((), 0, 0, st.cl[3])
            for s2, _ in ip.run(W, [("p", "wenv"), obj], s):
                if not s2.cl[0] and istype:
                    continue       # types of internal modes are not written
                Rr, Ww = list(R), list(s2.cl[0])
                rep.count("type_paths" if istype else "entity_paths")
                if istype and len(fix(Rr)) > 3 and fix(Rr)[2][1] in EXSIZE:
                    # the size of pointers and methods is that of their mode; segments have none
                    blank(Rr, 3), blank(Ww, 3)
                if not istype and not adjust(P, c, st, s2, kw, Rr, Ww):
                    continue
                if istype:
                    state(P, rep, c, ip, st, s2, obj, Rr, Ww, F)
                if istype:
                    r = fix(Rr)
                    if len(r) > 4 and r[4][0] == "num" and s2.cmp(">", s2.val(r[4][1]), ("c", 0)) is False:
                        blank(Rr, 4), blank(Ww, 4)       # no alignment given: the default
                sub = fix(Rr)[2][1] if istype else ""
                compare(P, rep, c, f"{kw}/{sub}", F.loc, Rr, Ww, s2, f"{kw} {sub}".strip())


def adjust(P, c, st, s2, kw, R, W):
    """What the importer recomputes; False: the combination does not occur."""
    r, w = fix(R), fix(W)
    if kw in ("label",):
        blank(R, 6), blank(W, 6)            # labels are always of the code type
    elif len(r) > 3 and r[3] == ("sym", "NULL") and len(w) > 3 and w[3] == r[2]:
        blank(R, 3), blank(W, 3)            # without a linker name of its own it is the name
    if kw == "method" and len(w) > 11 and w[-1][0] == "num" and w[-1][1][:2] == ("op", "|") and r[-1][1] in w[-1][1]:
        blank(R, len(r) - 1), blank(W, len(w) - 1)     # together with those of the type
    if kw == "parameter" and ("sym", "va_start") in w and not any(e[:2] == ("sym", "va_start") for e in r):
        return False                        # not a number that is written
    if kw == "entity" and any(e[:2] == ("sym", "initializer") for e in r) and ("sym", "none") in w:
        i = [e for e in r if e[0] == "init"]
        v = s2.val(i[0][1]) if i else None
        if v is not None and s2.truth(v) is False:
            return False
    return True


def blank(l, k):
    j = [i for i, e in enumerate(l) if e[0] not in ("{", "}")]
    if k < len(j):
        l[j[k]] = ("num", ("any",))


def state(P, rep, c, ip, st, s2, obj, R, W, F):
    """The layout state is set after all members were read: the type must be remembered for it."""
    j = [i for i, e in enumerate(R) if e[0] == "sym" and e[1].startswith("layout_")]
    k = [i for i, e in enumerate(W) if e[0] == "sym" and e[1].startswith("layout_")]
    if not j or not k:
        return
    W[k[0]] = R[j[0]]


# ------------------------------------------------------------------ modes
def modes(P, rep, table):
    F = P.func("read_modes")
    for kw in sorted({s for s, _ in table.get(P.econst["tt_keyword"][0], ())}):
        c = IO(P, table)
        c.only["kw"] = {kw}
        ip = IP(P, c)
        st0 = State()
        st0.cl = ((), 0, 0, ())
        for st, _ in ip.run(F, [("p", "env")], st0):
            new = [x[0] for x in c.news]
            objs = [o for o in new if any(l[0] == "f" and l[2] == "ir_mode.name" and l[1] == deref(o) for l in st.mem)]
            if not objs:
                continue
            named = [o for o in objs if st.mem.get(("f", deref(o), "ir_mode.name"), ("",))[0] == "tok"]
            obj = (named or objs)[0]
            s = st.copy()
            s.cl = ((), 0, 0, ())
            for s2, _ in ip.run(P.func("write_mode"), [("p", "wenv"), obj], s):
                rep.count("mode_paths")
                R, W = list(st.cl[0]), list(s2.cl[0])
                if kw == "reference_mode":
                    # the pointer mode is remembered globally, not in the mode
                    R, W = fix(R)[:-1], fix(W)[:-1]
                compare(P, rep, c, f"mode/{kw}", F.loc, R, W, s2, kw)


# ------------------------------------------------------------------ initializers
def inits(P, rep, table):
    F = P.func("read_initializer")
    c = IO(P, table)
    ip = IP(P, c)
    st0 = State()
    st0.cl = ((), 0, 0, ())
    n = 0
    for st, I in ip.run(F, [("p", "env")], st0):
        s = st.copy()
        s.cl = ((), 0, 0, ())
        for s2, _ in ip.run(P.func("write_initializer"), [("p", "wenv"), I], s):
            n += 1
            compare(P, rep, c, f"initializer/{st.cl[0][0][1]}", F.loc, st.cl[0], s2.cl[0], s2, "initializer " + str(st.cl[0][0][1]))
    rep.count("initializer_paths", n)
    rep.floor("initializer_paths", 4)
    for rf, wf in (("read_switch_table_ref", "write_switch_table_ref"),):
        if P.resolve(rf) is None:
            continue
        n0 = 0
        for st, I in ip.run(P.func(rf), [("p", "env")], st0):
            s = st.copy()
            s.cl = ((), 0, 0, ())
            for s2, _ in ip.run(P.func(wf), [("p", "wenv"), I], s):
                n0 += 1
                compare(P, rep, c, "switchtable", P.func(rf).loc, st.cl[0], s2.cl[0], s2, "switch table")
        rep.count("switch_table_paths", n0)
    rep.floor("switch_table_paths", 1)


# ------------------------------------------------------------------ program items
def program(P, rep, table):
    F = P.func("read_program")
    want = {}

    class PR(IO):
        def call(self, ip, st, c, n, args, fr):
            if n in ("set_irp_prog_name", "set_segment_type", "add_irp_asm"):
                self.acts.append((n, args, st.cl[0]))
                return [(st, ("void",))]
            if n in ("irp_prog_name_is_set",):
                return [(st, ("c", 1))]
            if n in ("get_irp_name", "get_irp_asm", "get_segment_type"):
                return [(st, ("got", n) + tuple(args))]
            if n == "get_irp_n_asms":
                return [(st, ("c", 1))]
            if n in ("get_type_opcode", "get_type_opcode_") and args[0][0] == "got":
                s = st.copy()
                s.neq[("tpo", args[0])] = frozenset({P.econst["tpo_unknown"][0], P.econst["tpo_code"][0]})
                return [(s, ("tpo", args[0]))]
            return IO.call(self, ip, st, c, n, args, fr)
    r = {}
    for kw in sorted({s for s, _ in table.get(P.econst["tt_keyword"][0], ())}):
        c = PR(P, table)
        c.only["kw"] = {kw}
        c.acts = []
        st0 = State()
        st0.cl = ((), 0, 0, ())
        for st, _ in IP(P, c).run(F, [("p", "env")], st0):
            l = fix(st.cl[0])
            if l:
                r.setdefault(kw, []).append((l, [a for a in c.acts if st.cl[0][:len(a[2])] == a[2]]))
    c = PR(P, table)
    c.acts = []
    c.unroll = 8
    st0 = State()
    st0.cl = ((), 0, 0, ())
    seen = set()
    for st, _ in IP(P, c).run(P.func("write_program"), [("p", "wenv")], st0):
        items, cur = [], None
        for e in fix(st.cl[0])[1:]:
            if e[0] == "sym" and e[1] in ("name", "segment_type", "asm") or cur is None or e[0] == "sym" and e[1] in r:
                cur = [e]
                items.append(cur)
            else:
                cur.append(e)
        for it in items:
            kw = it[0][1]
            if any(e == ("sym", "NULL") for e in it):
                continue       # segments are never without type
            key = (kw, str(it))
            if key in seen:
                continue
            seen.add(key)
            rep.count("program_items")
            ok = False
            for l, acts in r.get(kw, ()):
                if len(l) == len(it) and all(a[0] == b[0] and (a[0] != "sym" or a[1] == b[1]) for a, b in zip(l, it)) and acts:
                    a = acts[-1]
                    if kw == "segment_type":
                        code = dict(table[P.econst["tt_segment"][0]]).get(it[1][1])
                        ok |= a[1][0] == ("c", code) and (it[-1][0] == "sym" or ("c", code) in list(walkt(it[-1])))
                    else:
                        ok = True
            chk(rep, ok, f"program/{kw}/{'/'.join(str(e[1]) for e in it[1:-1])}", F.loc, f"the program item \"{kw} {' '.join(sh(e) for e in it[1:])[:60]}\" is written but not read back")
    rep.floor("program_items", 5)


def walkt(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from walkt(x)


# ------------------------------------------------------------------ strings
def strings(P, rep):
    """Each character of a string is written as a sequence that is read back as this character."""
    W, R = P.func("write_string"), P.func("read_string")
    for ch in range(1, 256):
        if ch in (10, 13) or 32 <= ch or ch == 9:
            chs = ch if ch < 128 else ch - 256

            class WC(Client):
                unroll = 2
                maxs = 100

                def inline(self, ip, n, F, fr):
                    return F.file.endswith("irio.c")

                def pure(self, n):
                    return True

                def load(self, ip, st, loc, fr):
                    if loc[0] in ("deref", "ix"):
                        b = loc
                        i = 0
                        if loc[0] == "ix":
                            b, i = loc[1], loc[2][1] if isc(loc[2]) else None
                        if b == ("deref", ("p", "str")) and i is not None:
                            return ("c", [chs, 0][min(i, 1)])
                    return None

                def call(self, ip, st, c, n, args, fr):
                    if n in ("fputc", "putc"):
                        s = st.copy()
                        s.cl = s.cl + (args[0][1] if isc(args[0]) else None,)
                        return [(s, ("c", 0))]
                    if n == "fputs" and args[0][0] == "s":
                        s = st.copy()
                        s.cl = s.cl + tuple(ord(x) for x in args[0][1])
                        return [(s, ("c", 0))]
                    if n == "strlen":
                        return [(st, ("c", 1))]
                    return None
            st = State()
            st.cl = ()
            outs = {s.cl for s, _ in Interp(P, WC()).run(W, [("p", "env"), ("p", "str")], st)}
            if len(outs) != 1 or None in list(outs)[0]:
                raise AnalysisError(f"write_string: output for character {ch} not determined: {str(outs)[:200]}")
            text = list(outs)[0]

            class RC(Client):
                unroll = 4
                maxs = 200
                grown = None

                def inline(self, ip, n, F, fr):
                    return F.file.endswith("irio.c") and n not in ("read_c", "skip_ws", "parse_error")

                def pure(self, n):
                    return True

                def load(self, ip, st, loc, fr):
                    if loc[0] == "f" and loc[2] == "read_env_t.c":
                        i = st.cl[0]
                        return ("c", text[i] & 255 if i < len(text) else -1)
                    return None

                def store(self, ip, st, loc, val, line, fr):
                    r = rootof(loc)
                    if loc[0] in ("deref", "ix") and "next_free" in str(loc) and isc(val):
                        st.cl = (st.cl[0], st.cl[1] + (val[1],))

                def call(self, ip, st, c, n, args, fr):
                    if n == "read_c":
                        s = st.copy()
                        s.cl = (s.cl[0] + 1, s.cl[1])
                        return [(s, ("void",))]
                    if n == "skip_ws":
                        return [(st, ("void",))]
                    if n in ("parse_error", "exit"):
                        return []
                    if n == "_obstack_newchunk":
                        return [(st, ("void",))]
                    return None
            st = State()
            st.cl = (0, ())
            rs = {s.cl for s, _ in Interp(P, RC()).run(R, [("p", "env")], st)}
            rep.count("characters")
            good = rs and all(tuple(x & 255 for x in g) in ((ch, 0), (ch,)) for _, g in rs)
            chk(rep, good, f"char/{ch}", R.loc, f"character {ch} is written as {[chr(x & 255) for x in text]} but read back as {[list(g) for _, g in rs][:2]}")
    rep.floor("characters", 200)


# ------------------------------------------------------------------ keywords
def keywords(P, rep, table):
    """Every keyword has a case in some reader."""
    handled = set()
    for F in P.all:
        if not F.file.endswith("/irio.c"):
            continue
        for x in walk(F.body):
            if x[0] == "CASE":
                for y in walk(x[5]):
                    if y[0] == "e":
                        handled.add(y[2])
            if x[0] == "b" and x[2] in ("==", "!="):
                for y in (strip(x[3]), strip(x[4])):
                    if y[0] == "e":
                        handled.add(y[2])
    F = P.func("ir_export_file")
    seen, todo, words = set(), [F], set()
    while todo:
        G = todo.pop()
        if G.key in seen:
            continue
        seen.add(G.key)
        for x in walk(G.body):
            if x[0] == "c":
                n = callee_name(x)
                H = P.resolve(n, G.file) if n else None
                if H is not None and H.file.endswith("/irio.c"):
                    todo.append(H)
                if n == "write_symbol":
                    w = strip(x[4][1])
                    if w[0] == "s":
                        words.add((w[2], G))
    kws = dict(table.get(P.econst["tt_keyword"][0], ()))
    byval = {v: n for n, (v, en, f, l) in P.econst.items() if n.startswith("kw_")}
    other = {s for t, es in table.items() if t != P.econst["tt_keyword"][0] for s, _ in es} | {"unknown", "code", "NULL", "none", "initializer", "va_start"}
    rd = set(regs(P, "register_node_reader"))
    for w, G in sorted(words, key=lambda q: q[0]):
        if w in kws:
            rep.count("keywords_written")
            chk(rep, byval.get(kws[w]) in handled, f"keyword/{w}", G.loc, f"the keyword {w} is written by {G.name} but no reader handles it")
        else:
            chk(rep, w in other or w in rd, f"word/{w}", G.loc, f"the word {w} written by {G.name} is not known to the importer")


# ------------------------------------------------------------------ numbers
CONV = {"d": "int", "i": "int", "u": "unsigned int", "ld": "long", "li": "long", "lu": "unsigned long", "zu": "unsigned long", "zd": "long", "lld": "long", "llu": "unsigned long", "ju": "unsigned long", "jd": "long"}
SIZE = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "_Bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8}


def size(t):
    t = t.replace("const ", "")
    return 4 if t.startswith("enum") else SIZE.get(t)


def numbers(P, rep):
    """Numbers are written in decimal with their whole range, and are not cut short on the way."""
    import re
    for n in WNUM:
        F = P.func(n)
        t = F.params[1][2]
        for x in walk(F.body):
            if x[0] != "c" or callee_name(x) not in ("fprintf", "ir_fprintf"):
                continue
            f = strip(x[4][1])
            cs = re.findall(r"%([0-9.#+ -]*)([a-zA-Z]+)", f[2]) if f[0] == "s" else None
            good = bool(cs) and len(cs) == 1 and not cs[0][0].strip(" 0") and CONV.get(cs[0][1]) == t and not f[2].replace("%" + cs[0][0] + cs[0][1], "").strip() and f[2][-1] in WS
            rep.count("number_formats")
            chk(rep, good, f"format/{n}", F.loc, f"{n} writes a {t} with the format {f[2] if f[0] == 's' else '?'!r}, which does not print every value as one decimal word")
    for F in P.all:
        if not F.file.endswith("irio.c"):
            continue
        for x in walk(F.body):
            if x[0] != "c":
                continue
            n = callee_name(x)
            if n in WNUM and F.name not in WNUM:
                a = x[4][1]
                want = size(P.func(n).params[1][2])
                t, inner = [], a
                while True:
                    t.append(size(inner[1]) if isinstance(inner[1], str) else None)
                    if inner[0] in ("k", "K", "q") and isinstance(inner[2], list):
                        inner = inner[2]
                    else:
                        break
                if inner[0] in ("i", "e") or t[-1] is None:
                    continue
                rep.count("number_arguments")
                cut = min([q for q in t if q] + [want])
                chk(rep, cut >= t[-1], f"narrow/{F.name}/{n}", f"{short(F.file)}:{x[2]}", f"{F.name} writes a value of {t[-1]} bytes as a number of {cut} bytes")
    rep.floor("number_formats", 4)


# ------------------------------------------------------------------ lexer
RANGE = {"read_long": (-2**63, 2**63 - 1), "read_int": (-2**31, 2**31 - 1), "read_unsigned": (0, 2**32 - 1), "read_size_t": (0, 2**32 - 1)}


def scan(P, fn, text):
    """What the reading function returns for the text (and where it stops)."""
    R = P.func(fn)

    class LX(Client):
        unroll = 40
        maxs = 200

        def inline(self, ip, n, F, fr):
            return F.file.endswith("irio.c") and n not in ("read_c", "parse_error")

        def pure(self, n):
            return True

        def load(self, ip, st, loc, fr):
            if loc[0] == "f" and loc[2] == "read_env_t.c":
                i = st.cl[0]
                return ("c", text[i] if i < len(text) else -1)
            if loc[0] in ("ix", "deref") and "__ctype_b_loc" in str(loc):
                ch = loc[2] if loc[0] == "ix" else None
                if ch is not None and isc(ch):
                    d = chr(ch[1] & 255)
                    return ("c", (2048 if d.isdigit() else 0) | (8192 if d in " \t\n\r\v\f" else 0) | (1024 if d.isalpha() else 0))
            return None

        def store(self, ip, st, loc, val, line, fr):
            if loc[0] in ("deref", "ix") and "next_free" in str(loc) and isc(val):
                st.cl = (st.cl[0], st.cl[1] + (val[1],))

        def call(self, ip, st, c, n, args, fr):
            if n == "read_c":
                s = st.copy()
                s.cl = (s.cl[0] + 1, s.cl[1])
                return [(s, ("void",))]
            if n in ("isdigit", "isspace"):
                d = chr(args[0][1] & 255) if isc(args[0]) else "?"
                return [(st, ("c", int(d.isdigit() if n == "isdigit" else d.isspace())))]
            if n in ("parse_error", "exit"):
                return []
            if n in ("atol", "atoll", "strtol", "strtoll", "atoi", "strtoul"):
                t = bytes(x & 255 for x in st.cl[1]).split(b"\0")[0].decode("latin1")
                try:
                    v = int(t)
                except ValueError:
                    return []
                if n == "atoi":
                    v = (v + 2**31) % 2**32 - 2**31
                return [(st, ("c", v))]
            if n in ("_obstack_newchunk", "obstack_free", "_obstack_free"):
                return [(st, ("void",))]
            return None
    st = State()
    st.cl = (0, ())
    return [(s.cl, v) for s, v in Interp(P, LX()).run(R, [("p", "env")], st)]


def lexer(P, rep):
    """Every number in range and every character that occurs in a word is read completely."""
    for fn, (lo, hi) in RANGE.items():
        if P.resolve(fn) is None:
            continue
        F = P.func(fn)
        for v in sorted({x for x in (0, 1, 9, 10, 255, 256, 4095, 32767, 65535, 65536, 90909, 1234567890, 2**31 - 1, 2**31, 2**32 - 1, 123456789012345678, -1, -9, -128, -2**31, lo, hi) if lo <= x <= hi}):
            for lead, follow in (("", " "), (" \t", "]"), ("\n", "\n")):
                text = (lead + str(v) + follow).encode()
                got = scan(P, fn, text)
                rep.count("numbers_read")
                want = {v, v - 2**32 if fn != "read_long" and fn != "read_int" and v >= 2**31 else v}
                good = got and all(isc(r) and r[1] in want and cl[0] == len(text) - 1 for cl, r in got)
                chk(rep, good, f"number/{fn}", F.loc, f"{fn} does not read the number {v} back: it returns {[str(r[1])[:30] for _, r in got][:2]}")
    words = set()
    for x in [x for F in P.all if F.file.endswith("irio.c") for x in walk(F.body)]:
        if x[0] == "s" and x[2] and all(32 < ord(q) < 127 for q in x[2]) and len(x[2]) < 24:
            words.update(x[2])
    words.update("0123456789abcdefABCDEFxX+-.pPinfNAN_")
    F = P.func("read_word")
    for ch in sorted(words):
        for text in (ch + " ", ch + "a" + ch + "\n", " " + ch + "0\t"):
            got = scan(P, "read_word", text.encode())
            rep.count("words_read")
            good = got and all(bytes(q & 255 for q in cl[1]).rstrip(b"\0") == text.strip().encode() and cl[0] == len(text) - 1 for cl, _ in got)
            chk(rep, good, f"wordchar/{ch}", F.loc, f"read_word does not read the word {text.strip()!r} back: it yields {[bytes(q & 255 for q in cl[1]) for cl, _ in got][:1]}")
    # buffers and conversions on the way
    for F in P.all:
        if not F.file.endswith("irio.c"):
            continue
        arr = {}
        for x in walk(F.body):
            if x[0] == "D":
                for d in x[2]:
                    arr[d[1]] = d[3]
                    if d[4] is not None and strip(d[4])[0] == "c" and callee_name(strip(d[4])) in RANGE and size(d[3]) in (1, 2) and "ool" not in d[3]:
                        rep.bad(f"cut/{F.name}/{d[1]}", f"{short(F.file)}:{x[1]}", f"{F.name} keeps a number it reads in the {d[3]} {d[1]}")
            if x[0] == "k" and size(x[1]) in (1, 2) and "ool" not in x[1] and strip(x[2])[0] == "c" and callee_name(strip(x[2])) in RANGE:
                rep.bad(f"cut/{F.name}/{x[1]}", F.loc, f"{F.name} cuts a number it reads to {x[1]}")
            if x[0] == "c" and callee_name(x) == "ir_tarval_to_ascii":
                b = strip(x[4][0])
                import re
                m = re.search(r"\[(\d+)\]$", arr.get(b[2], "")) if b[0] == "v" else None
                rep.count("tarval_buffers")
                # two hexadecimal digits for each byte of the largest mode (long double)
                chk(rep, m is None or int(m.group(1)) >= 33, f"tarvalbuf/{F.name}", F.loc, f"{F.name} writes tarvals through a buffer of {m.group(1) if m else 0} characters; those of 16 byte modes need 33")
    rep.floor("numbers_read", 60)
    rep.floor("words_read", 100)


# ------------------------------------------------------------------ nothing is left out
MUST = {"deq_push_pointer_right", "deq_push_pointer_left", "write_node_recursive", "write_node_ref", "write_type", "write_type_ref", "write_entity", "write_entity_ref", "write_initializer", "write_irg", "write_mode", "write_ident",
        "write_tarval_ref", "set_irn_in", "set_type_state", "set_initializer_compound_value", "set_method_param_type", "set_method_res_type", "ir_switch_table_set", "read_node", "write_node"}


def everyone(P, rep):
    """No element of a list is left out because of what it is."""
    def names(e):
        return {(x[2], x[3]) for x in walk(e) if x[0] == "v" and x[4] == "l" and "ool" not in x[1]}

    def stops(s):
        return any(x[0] == "c" and callee_name(x) in ("parse_error", "panic", "exit", "abort", "_panic") for x in walk(s))

    def leaves(s):
        return any(x[0] in ("BRK", "CNT", "GO", "RET") for x in walk(s))

    def exempt(c):
        c = strip(c)
        if c[0] == "b" and c[2] in ("&&", "||"):
            return exempt(c[3]) and exempt(c[4])
        if c[0] == "u" and c[2] == "!":
            return exempt(c[3])
        if c[0] == "v":
            return "*" in c[1]
        if c[0] == "b" and c[2] in ("==", "!="):
            a, b = strip(c[3]), strip(c[4])
            for p, q in ((a, b), (b, a)):
                if p[0] == "v" and "*" in p[1] and q[0] in ("i", "e", "z", "o"):
                    return True
        return c[0] == "c" and any(w in (callee_name(c) or "") for w in ("visited", "is_internal_mode", "is_default_mode"))

    def shape(e):
        e = strip(e)
        return tuple(shape(x) if isinstance(x, list) else x for x in e[2:]) if e[0] in ("v", "m", "u") else id(e)

    def some(g, args):
        """the condition that the call's own count argument is not 0: leaves out nothing"""
        if g[0] == "b" and g[2] in (">", "!=", "<"):
            l, r = (strip(g[3]), strip(g[4])) if g[2] != "<" else (strip(g[4]), strip(g[3]))
            if r[0] != "i" or int(r[2]) != 0:
                return False
            g = l
        return g[0] in ("v", "m") and any(shape(a) == shape(g) for a in args)

    def go(F, s, loop, guards, decl):
        """loop: variables of the loop's elements; guards: conditions inside the loop"""
        if s is None or not isinstance(s, list) or not s:
            return
        k = s[0]
        if k in ("FOR", "W", "DO"):
            d = {(v[1], v[2]) for x in walk(s) if x[0] == "D" for v in x[2]}
            d |= {(strip(x[3])[2], strip(x[3])[3]) for x in walk(s) if x[0] == "a" and strip(x[3])[0] == "v" and strip(x[3])[4] == "l"}
            for x in s[2:]:
                if isinstance(x, list):
                    go(F, x, d, [g for g in guards], d)
            return
        if k == "BL":
            g = list(guards)
            for x in s[2]:
                go(F, x, loop, g, decl)
                if loop is not None and isinstance(x, list) and x[0] == "IF" and (leaves(x[3]) or leaves(x[4]) if x[4] else leaves(x[3])) and not stops(x):
                    g.append(x[2])
            return
        if k == "IF":
            for c in (s[3], s[4]):
                if c is not None:
                    go(F, c, loop, guards + [s[2]], decl)
            calls(F, s[2], loop, guards)
            return
        if k == "SW":
            for x in s[2:]:
                if isinstance(x, list):
                    go(F, x, loop, guards, decl)
            return
        nested = [x for x in s[1:] if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in ("BL", "IF", "FOR", "W", "DO", "SW", "LB", "CASE", "DEF", "X", "D", "RET")]
        if nested:
            for x in nested:
                go(F, x, loop, guards, decl)
            return
        calls(F, s, loop, guards)

    def calls(F, s, loop, guards):
        if loop is None:
            return
        for x in walk(s):
            if x[0] == "c" and callee_name(x) in MUST:
                rep.count("elements_handled")
                args = [strip(a) for a in x[4]]
                bad = [g for g in guards if names(g) & loop and not exempt(g) and not some(strip(g), args)]
                chk(rep, not bad, f"leftout/{F.name}/{callee_name(x)}", f"{short(F.file)}:{x[2]}", f"{F.name} calls {callee_name(x)} only for some elements: it depends on {show(bad[0])[:80] if bad else ''}")
    def later(F, s, guards):
        """what is put off until everything was read is put off whenever it is not there yet"""
        if not isinstance(s, list) or not s:
            return
        if s[0] == "IF":
            for x in (s[3], s[4]):
                later(F, x, guards + [s[2]])
            s = s[2]
        if s and s[0] == "a":
            l = strip(s[3])
            if l[0] == "m" and l[3].startswith("delayed") and any(x[0] == "c" and "resize" in (callee_name(x) or "") for x in walk(s[4])):
                rep.count("put_off")
                bad = [g for g in guards if names(g) and not exempt(g)]
                chk(rep, not bad, f"putoff/{F.name}/{l[3]}", f"{short(F.file)}:{s[5] if len(s) > 5 else F.line}", f"{F.name} puts an element on {l[3]} only if {' and '.join(show(g)[:60] for g in bad)}: the others keep no value")
        for x in s[1:]:
            if isinstance(x, list):
                if x and isinstance(x[0], list):
                    for y in x:
                        later(F, y, guards)
                else:
                    later(F, x, guards)

    for F in P.all:
        if F.file.endswith("/irio.c") or F.file.endswith("gen_irio.c"):
            go(F, F.body, None, [], set())
            later(F, F.body, [])
    rep.floor("elements_handled", 15)


if __name__ == "__main__":
    main("C05", run)
