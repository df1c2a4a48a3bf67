"""C08: the verifiers accept exactly the well-formed operations and never swallow a failure."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from prog import Program, AnalysisError, walk, strip, callee_name
from report import Report, main
from absint import Interp, Client, State, C0
from flagflow import Flow, fnames
import gmodel

META = {
    "title": "A verifier that reports a problem fails; it accepts exactly well-formed IR",
    "statement": "Whenever one of the verifiers (irn_verify, irg_verify, tr_verify, check_type, check_entity, edges_verify, be_verify_schedule, be_verify_register_pressure, be_verify_register_allocation, and everything they call) reports a problem, its result is false; a failure found by a callee, a walker callback or through a shared flag is never lost. irn_verify accepts a node only if its mode and the modes of its operands are those the operation is defined for (for example equal operand and result modes of arithmetic, unsigned shift amounts, mode_b conditions, reference offsets of Add and Sub, M/X/T results), if the number and modes of Call arguments and Return values match the method type, and if each Proj has a number its predecessor defines with the mode belonging to it, and it accepts every node for which this holds. check_entity accepts an entity kind only with a matching owner and type (alias in a segment, member in a compound, label of code type, method of method type, parameter and spill slot in a frame). irg_verify visits every node and the out edges, tr_verify every type and entity, and every operand must dominate its use. The verifiers also decide the structure: control flow (each jump used once, no node in a block of another kind), the properties a graph claims, the placement of nodes, the members and initializers of types, the schedule, the register pressure and the register allocation are accepted exactly if they are right.",
    "over": ["inputs", "programs"],
    "quant": "every combination of modes of a node and its operands, every projection number, every entity kind with every owner and type, every path through every verifier",
    "why": "Tests only verify graphs that are right, so a verifier that accepts everything passes them all; a lost failure shows only for a malformed graph of one specific kind.",
    "files": ["ir/ir/irverify.c", "ir/tr/trverify.c", "ir/ir/iredges.c", "ir/be/beverify.c"],
    "mech": [("failures reach the result", "ir/ir/irverify.c warn and the check_* helpers; ir/tr/trverify.c report_error; ir/be/beverify.c verify_warnf; ir/ir/iredges.c edges_verify_kind"), ("accepted modes", "ir/ir/irverify.c callbacks registered by ir_register_verify_node_ops"), ("structure", "ir/ir/irverify.c check_cfg, check_graph_properties; ir/tr/trverify.c check_type, check_initializer; ir/be/beverify.c"), ("coverage of the drivers", "ir/ir/irverify.c irg_verify, irn_verify; ir/tr/trverify.c tr_verify")],
    "technique": "dataflow of failure indications through results and shared flags, and abstract interpretation of each verifier over sets of mode combinations against a table of the operations' typing rules, and of small given graphs, types, schedules and allocations against the verdict each must get",
    "note": "The typing rules are part of the check, written from the operation definitions in scripts/ir_spec.py and the documentation; one abstract mode stands for all modes of a class (two signed, two unsigned, two float modes, one reference mode). Loops over operands are analysed with two operands; the structural rules are decided on a fixed list of small abstract graphs, one for each way in which such a graph can be wrong, not on all graphs.",
}

ENTRY = ("irn_verify", "irg_verify", "tr_verify", "check_type", "check_entity", "edges_verify", "edges_verify_kind",
         "be_verify_schedule", "be_verify_register_pressure", "be_verify_register_allocation")
STDERR = {"fputs": 1, "fprintf": 0, "vfprintf": 0, "ir_fprintf": 0, "ir_vfprintf": 0, "fputc": 1}


def tostderr(e):
    n = callee_name(e)
    if n not in STDERR:
        return False
    a = strip(e[4][STDERR[n]])
    return a[0] == "v" and a[2] == "stderr"


def verifiers(P):
    """-> (reporting functions, functions that may report, fields through which verifiers are called)."""
    ents = []
    for n in ENTRY:
        F = P.funcs.get(n)
        if F is None:
            raise AnalysisError(f"{n} not found")
        ents.append(F)
    files = {F.file for F in ents}
    mod = [F for F in P.all if F.file in files]
    # a reporter prints its (variable) arguments on stderr and has no result
    rep = set()
    for F in mod:
        if F.ret != "void" or not F.variadic:
            continue
        errv = {x[2] for x in walk(F.body) if x[0] == "d" and x[4] and strip(x[4])[0] == "v" and strip(x[4])[2] == "stderr"}
        if errv or any(x[0] == "c" and tostderr(x) for x in walk(F.body)):
            rep.add(F.key)
    # callbacks registered in the node operations
    setters, methods = {}, set()
    for F in P.all:
        if F.name in ("set_op_verify", "set_op_verify_proj"):
            for x in walk(F.body):
                if x[0] == "a" and strip(x[3])[0] == "m":
                    methods.add(strip(x[3])[3])
                    setters[F.name] = strip(x[3])[3]
    reg = {}
    for F in P.all:
        for x in walk(F.body):
            if x[0] == "c" and callee_name(x) in setters and len(x[4]) == 2:
                o = strip(x[4][0])
                for fn in fnames(x[4][1]):
                    G = P.resolve(fn, F.file)
                    if G is not None and o[0] == "v":
                        reg[(callee_name(x), o[2])] = G
    if len(methods) != 2:
        raise AnalysisError("verify callbacks of operations not found")
    start = ents + list(reg.values())
    seen, work = {}, list(start)
    succ = {}
    while work:
        F = work.pop()
        if F.key in seen:
            continue
        seen[F.key] = F
        s = succ[F.key] = set()
        if F.file not in files and F not in start:
            continue
        for x in walk(F.body):
            ns = []
            if x[0] == "c":
                n = callee_name(x)
                ns = [n] if n else []
                for a in x[4]:
                    ns += fnames(a)
            for n in ns:
                G = P.resolve(n, F.file)
                if G is not None:
                    s.add(G.key)
                    work.append(G)
    may = set()
    for k, F in seen.items():
        if k in rep or F.file not in files and F not in start:
            continue
        if any(x[0] == "c" and tostderr(x) for x in walk(F.body)):
            may.add(k)
        if any(x[0] == "m" and x[3] in methods for x in walk(F.body)):
            may.add(k)
    ch = True
    while ch:
        ch = False
        for k in seen:
            if k not in may and k not in rep and (succ[k] & rep or succ[k] & may):
                may.add(k)
                ch = True
    return rep, {k: seen[k] for k in may}, methods, reg, files


def propagation(P, rep):
    reporters, may, methods, reg, files = verifiers(P)
    rep.count("reporters", len(reporters))
    rep.count("verifiers", len(may))

    def isreport(e, G, F):
        return G is not None and G.key in reporters or F.key in may and tostderr(e)
    fl = Flow(P, isreport)
    fl.methods = methods
    void = []
    for k, F in may.items():
        if F.ret == "void":
            void.append(F)
        else:
            fl.sum[k] = ("ret", 0)
    # marks of the functions without result: bottom-up to a fixpoint
    for _ in range(6):
        ch = False
        for F in void:
            m = marks(fl, F)
            if m is not None and fl.sum.get(F.key) != ("marks", m):
                fl.sum[F.key] = ("marks", m)
                ch = True
        if not ch:
            break
    for k, F in sorted(may.items()):
        if F.ret == "void":
            m = marks(fl, F)
            if m is None:
                continue       # never reports
            rep.count("flags")
            if m:
                lost = None
                for (r, suf), v in m.items():
                    l = (("d", F.params[r][1]), suf) if isinstance(r, int) else (r, suf)
                    if any(Flow.get(s, l) != v for s, _ in fl.run(F, {l: v})):
                        lost = suf or r
                if lost is not None:
                    rep.bad(f"kept/{F.name}", F.loc, f"{F.name} overwrites the record of an earlier problem in {lost}")
                rep.ok(f"{F.name}: a reported problem is recorded in {sorted(str(x[1] or x[0]) for x in m)[0]}")
            else:
                rep.bad(f"flag/{F.name}", F.loc, f"{F.name} reports a problem, but on some path does not record it for its caller")
            continue
        paths = fl.run(F)
        n = 0
        bad = {}
        for s, v in paths:
            if s[0] and v != 0:
                bad.setdefault(s[0], set()).add(v)
        n = sum(1 for s, v in paths if s[0])
        rep.count("paths", len(paths))
        for c, vs in sorted(bad.items()):
            rep.bad(f"result/{F.name}/{c}", F.loc, f"{F.name}: a problem reported by {c} {'is answered with success' if 1 in vs else 'does not reach the result'}")
        if bad:
            continue
        rep.ok(f"{F.name}: all {n} path classes that report a problem return false")
    return reg, may


def marks(fl, F):
    """Locations all reporting paths leave with the same constant; None: no path reports."""
    res = None
    for s, _ in fl.run(F):
        if not s[0]:
            continue
        m = {}
        for (r, suf), v in s[1].items():
            if v not in (0, 1):
                continue
            if r[0] == "d":
                i = [j for j, p in enumerate(F.params) if p[1] == r[1]]
                if i:
                    m[(i[0], suf)] = v
            elif r[0] in ("g", "dg"):
                m[(r, suf)] = v
        res = m if res is None else {k: v for k, v in res.items() if m.get(k) == v}
    return res


# ---------------- what the verifiers accept ----------------
MODES = ("M", "T", "X", "BB", "ANY", "BAD", "b", "Is", "Iu", "Ls", "Lu", "P", "F", "D")
INT = {"Is", "Iu", "Ls", "Lu"}
FLT = {"F", "D"}
OFF = "Ls"       # offset mode of the reference mode
BITS = {"Is": 32, "Iu": 32, "Ls": 64, "Lu": 64, "P": 64, "F": 32, "D": 64, "b": 1}
PREDS = {
    "mode_is_int": INT, "mode_is_float": FLT, "mode_is_num": INT | FLT, "mode_is_reference": {"P"},
    "mode_is_data": INT | FLT | {"P", "b"}, "mode_is_signed": {"Is", "Ls"} | FLT,
    "mode_is_ref": {"P"}, "mode_is_intb": INT | {"b"},
}


def arith(m):
    return "f" if m in FLT else "2" if m in INT | {"P"} else "n"


class Universe:
    """All assignments of modes to the given positions, as bit sets."""

    def __init__(self, vars_, modes=MODES):
        import itertools
        self.vars = vars_
        self.tuples = list(itertools.product(modes, repeat=len(vars_)))
        self.all = (1 << len(self.tuples)) - 1
        self.cache = {}

    def val(self, t, a):
        """Value of a term under an assignment (None: unknown)."""
        if t[0] == "c":
            return t[1]
        if t[0] == "mode":
            return a[self.vars.index(t[1])] if t[1] in self.vars else None
        if t == ("typ",) or t == ("codetype",):
            k = ("atom", "code type")
            return "code" if t == ("codetype",) or k in self.vars and a[self.vars.index(k)] else "other"
        if t[0] == "ld" and t[1][0] == "gv" and t[1][1].startswith("mode_"):
            return t[1][1][5:]
        if t[0] == "pred":
            v = self.val(t[2], a)
            return None if v is None else int(v in PREDS[t[1]])
        if t[0] == "off":
            v = self.val(t[1], a)
            return None if v is None else OFF if v == "P" else "?"
        if t[0] == "bits":
            v = self.val(t[1], a)
            return None if v is None else BITS.get(v, 0)
        if t[0] == "arith":
            v = self.val(t[1], a)
            return None if v is None else arith(v)
        if t[0] == "op1" and t[1] == "!":
            v = self.val(t[2], a)
            return None if v is None else int(not v)
        if t[0] == "op" and t[1] in ("==", "!=", "&&", "||", "&", "|"):
            x, y = self.val(t[2], a), self.val(t[3], a)
            if x is None or y is None:
                return None
            return int({"==": x == y, "!=": x != y, "&&": x and y, "||": x or y, "&": x and y, "|": x or y}[t[1]] and 1)
        return None

    def masks(self, t):
        """(assignments where t may be true, where it may be false)"""
        r = self.cache.get(t)
        if r is None:
            tr = fa = 0
            for i, a in enumerate(self.tuples):
                v = self.val(t, a)
                if v is None or v:
                    tr |= 1 << i
                if v is None or not v:
                    fa |= 1 << i
            r = self.cache[t] = (tr, fa)
        return r


class VC(Client):
    maxs = 100000
    maxdepth = 6
    unroll = 4

    def __init__(self, P, U, reporters, calls):
        self.P, self.U, self.reporters, self.calls = P, U, reporters, calls

    def inline(self, ip, n, F, fr):
        return True

    def branch(self, ip, st, term, truth, line, fr):
        tr, fa = self.U.masks(term)
        st.cl &= tr if truth else fa
        return st.cl != 0

    def call(self, ip, st, c, n, args, fr):
        if n is None:
            return [(st, ("opq", c[2], id(c)))]
        m = n.strip("_")
        for k in (n, m):
            if k in self.calls:
                v = self.calls[k]
                return v(self, ip, st, args, fr) if callable(v) else [(st, v)]
        if n.startswith("__assert") or n in self.P.noreturn:
            return []
        if m == "get_irn_mode":
            return [(st, ("mode", args[0]))]
        if m in PREDS:
            return [(st, ("pred", m, args[0]))]
        if m == "get_reference_offset_mode":
            return [(st, ("off", args[0]))]
        if m == "get_mode_size_bits":
            return [(st, ("bits", args[0]))]
        if m == "get_mode_arithmetic":
            return [(st, ("arith", args[0]))]
        if m == "get_irn_n":
            return [(st, ("in", args[0], args[1]))]
        if m == "get_irn_arity":
            return [(st, ("c", 2))]
        F = self.P.resolve(n, fr.F.file)
        if F is None:
            return [(st, ("call", n) + tuple(args))]
        if F.key in self.reporters or n == "snprintf":
            return [(st, ("void",))]
        if F.file != self.file and not getter(self.P, F):
            return [(st, ("call", n) + tuple(args))]
        return None


def getter(P, F):
    """Operand accessors reduce to get_irn_n."""
    return any(x[0] == "c" and (callee_name(x) or "").strip("_") in ("get_irn_n", "get_irn_arity") for x in walk(F.body)) and len(str(F.body)) < 4000


def num(m): return m in INT | FLT
def data(m): return m in PREDS["mode_is_data"]
def dnb(m): return data(m) and m != "b"
def uint(m): return m in {"Iu", "Lu"}


def spec_add(n, l, r):
    if num(n):
        return l == n and r == n
    return n == "P" and (l in INT and l == OFF and r == n or l not in INT and r in INT and l == n and r == OFF)


def spec_sub(n, l, r):
    if num(n):
        return r == l and n == OFF if l == "P" else l == n and r == n
    return n == "P" and l == n and r == OFF


def same(f):
    return lambda n, *ins: f(n) and all(i == n for i in ins)


def intb(m): return m in INT | {"b"}
def shift(n, l, r): return n in INT and l == n and uint(r)


def bitcast(n, o):
    return dnb(n) and dnb(o) and BITS[n] == BITS[o] and arith(n) != arith(o)


# operation -> (operands, attribute accessor or None, accepted modes of (node, operands..., attribute))
SPEC = {
    "Add": (("left", "right"), None, spec_add),
    "Sub": (("left", "right"), None, spec_sub),
    "Mul": (("left", "right"), None, same(num)),
    "Mulh": (("left", "right"), None, same(lambda m: m in INT)),
    "Minus": (("op",), None, same(num)),
    "And": (("left", "right"), None, same(intb)),
    "Or": (("left", "right"), None, same(intb)),
    "Eor": (("left", "right"), None, same(intb)),
    "Not": (("op",), None, same(intb)),
    "Shl": (("left", "right"), None, shift),
    "Shr": (("left", "right"), None, shift),
    "Shrs": (("left", "right"), None, shift),
    "Cmp": (("left", "right"), None, lambda n, l, r: n == "b" and dnb(l) and l == r),
    "Conv": (("op",), None, lambda n, o: dnb(n) and dnb(o)),
    "Bitcast": (("op",), None, bitcast),
    "Mux": (("sel", "false", "true"), None, lambda n, s, f, t: data(n) and s == "b" and f == n and t == n),
    "Confirm": (("value", "bound"), None, lambda n, v, b: v == n and b == n),
    "Cond": (("selector",), None, lambda n, s: n == "T" and s == "b"),
    "Switch": (("selector",), None, lambda n, s: n == "T" and s in INT),
    "Jmp": ((), None, lambda n: n == "X"),
    "IJmp": (("target",), None, lambda n, t: n == "X" and t == "P"),
    "Raise": (("mem", "exo_ptr"), None, lambda n, m, p: n == "X" and m == "M" and p == "P"),
    "Load": (("mem", "ptr"), "get_Load_mode", lambda n, m, p, a: n == "T" and m == "M" and p == "P" and dnb(a)),
    "Store": (("mem", "ptr", "value"), None, lambda n, m, p, v: n == "T" and m == "M" and p == "P" and dnb(v)),
    "Div": (("mem", "left", "right"), "get_Div_resmode", lambda n, m, l, r, a: n == "T" and m == "M" and num(a) and l == a and r == a),
    "Mod": (("mem", "left", "right"), "get_Mod_resmode", lambda n, m, l, r, a: n == "T" and m == "M" and a in INT and l == a and r == a),
    "Alloc": (("mem", "size"), None, lambda n, m, s: n == "T" and m == "M" and uint(s)),
    "Free": (("mem", "ptr"), None, lambda n, m, p: n == "M" and m == "M" and p == "P"),
    "CopyB": (("mem", "dst", "src"), None, lambda n, m, d, s: n == "M" and m == "M" and d == "P" and s == "P"),
    "Sel": (("ptr", "index"), None, lambda n, p, i: n == "P" and p == "P" and i in INT),
    "Member": (("ptr",), None, lambda n, p: n == "P" and p == "P"),
    "Call": (("mem", "ptr"), None, lambda n, m, p: n == "T" and m == "M" and p == "P"),
    "Return": (("mem",), None, lambda n, m: n == "X" and m == "M"),
    "Start": ((), None, lambda n: n == "T"),
    "End": ((), None, lambda n: n == "X"),
    "Block": ((0, 1), None, lambda n, a, b: n == "BB" and a == "X" and b == "X"),
    "Sync": ((0, 1), None, lambda n, a, b: n == "M" and a == "M" and b == "M"),
    "Phi": ((0, 1), None, lambda n, a, b: (data(n) or n == "M") and a == n and b == n),
    "Const": ((), None, data),
    "Address": ((), None, lambda n: n == "P"),
    "Align": ((), None, lambda n: n in INT),
    "Offset": ((), None, lambda n: n in INT),
    "Size": ((), None, lambda n: n in INT),
}
FEW = ("M", "T", "X", "b", "Is", "Lu", "Ls", "P", "D")
# paths on which something else is wrong already or no mode is involved
CALLS = {"is_Method_type": ("c", 1), "get_Phi_loop": ("c", 0), "irg_is_constrained": ("c", 0), "is_atomic_type": ("c", 1),
         "is_cfop": ("c", 1), "is_Bad": ("c", 0), "is_IJmp": ("c", 0), "get_irg_start_block": ("other", 1), "get_irg_end_block": ("other", 2),
         "ir_switch_table_get_n_entries": ("c", 0), "get_method_n_params": ("c", 0), "get_Call_n_params": ("c", 0), "get_method_n_ress": ("c", 0), "get_Return_n_ress": ("c", 0)}


def acceptance(P, rep, reg, reporters):
    import os
    for op, (ins, attr, spec) in SPEC.items():
        F = reg.get(("set_op_verify", "op_" + op))
        rep.count("operations")
        if F is None:
            rep.bad(f"registered/{op}", "ir/ir/irverify.c", f"no verifier is registered for {op}: malformed {op} nodes are accepted")
            continue
        n = ("p", "n")
        pos = []
        for i in ins:
            k = i if isinstance(i, int) else P.econst.get(f"n_{op}_{i}", (None,))[0]
            if k is None:
                raise AnalysisError(f"operand index n_{op}_{i} unknown")
            pos.append(("in", n, ("c", k)))
        vars_ = [n] + pos + ([("attr",)] if attr else [])
        modes = MODES if len(vars_) <= 3 else FEW
        U = Universe(vars_, modes)
        calls = dict(CALLS)
        if attr:
            calls[attr] = ("mode", ("attr",))
        acc, _ = accept(P, F, U, reporters, calls, [n])
        want = 0
        for i, a in enumerate(U.tuples):
            if spec(*a):
                want |= 1 << i
        rep.count("mode_combinations", len(U.tuples))
        wrong = acc & ~want
        if wrong:
            a = U.tuples[(wrong & -wrong).bit_length() - 1]
            rep.bad(f"accepts/{op}", F.loc, f"{F.name} accepts a malformed {op}: {text(op, ins, attr, a)}")
        else:
            rep.ok(f"{F.name}: no ill-typed {op} among {len(U.tuples)} mode combinations is accepted")
        miss = want & ~acc
        if miss:
            a = U.tuples[(miss & -miss).bit_length() - 1]
            rep.bad(f"rejects/{op}", F.loc, f"{F.name} rejects a well-formed {op}: {text(op, ins, attr, a)}")
        else:
            rep.ok()


def text(op, ins, attr, a):
    s = [f"mode {a[0]}"]
    for i, m in zip(ins, a[1:]):
        s.append(f"operand {i} of mode {m}")
    if attr:
        s.append(f"mode attribute {a[-1]}")
    return ", ".join(s)


def accept(P, F, U, reporters, calls, args, base=None):
    st = State()
    st.cl = U.all if base is None else base
    c = VC(P, U, reporters, calls)
    c.file = F.file
    ip = Interp(P, c)
    acc = 0
    res = ip.run(F, args, st)
    for s, v in res:
        if v is None:
            raise AnalysisError(f"{F.name} has no result")
        if s.truth(v) is False:
            continue
        tr, fa = U.masks(v)
        acc |= s.cl & tr
    return acc, len(res)


# ---------------- arguments, results, projections ----------------
def const(v):
    return ("c", v)


def variants(P):
    """(key, operation, operand positions, attribute accessor, extra calls, spec)"""
    call = ("n_Call_mem", "n_Call_ptr")
    k = P.econst["n_Call_max"][0] + 1
    r = P.econst["n_Return_max"][0] + 1
    tm = {"get_type_mode": ("mode", ("attr",))}
    argc = lambda decl, got, var=0: {"get_method_n_params": const(decl), "get_Call_n_params": const(got), "is_method_variadic": const(var), "is_Method_type": const(1), "is_method_type": const(1)}
    retc = lambda decl, got: {"get_method_n_ress": const(decl), "get_Return_n_ress": const(got), "is_Method_type": const(1), "is_method_type": const(1)}
    okc = lambda n, m, p: n == "T" and m == "M" and p == "P"
    yield "Call/argument", "Call", call + (k,), "attr", dict(argc(1, 1), **tm), lambda n, m, p, a, t: okc(n, m, p) and a == t
    yield "Call/aggregate", "Call", call + (k,), None, dict(argc(1, 1), is_atomic_type=const(0)), lambda n, m, p, a: okc(n, m, p) and a == "P"
    yield "Call/second argument", "Call", call + (k + 1,), None, dict(argc(2, 2), is_atomic_type=const(0)), lambda n, m, p, a: okc(n, m, p) and a == "P"
    yield "Call/variadic argument", "Call", call + (k,), None, argc(0, 1, 1), lambda n, m, p, a: okc(n, m, p) and dnb(a)
    yield "Call/missing argument", "Call", call, None, argc(1, 0), lambda *a: False
    yield "Call/missing argument of a variadic function", "Call", call, None, argc(1, 0, 1), lambda *a: False
    yield "Call/surplus argument", "Call", call, None, argc(0, 1), lambda *a: False
    yield "Return/result", "Return", ("n_Return_mem", r), "attr", dict(retc(1, 1), **tm), lambda n, m, a, t: n == "X" and m == "M" and a == t
    yield "Return/aggregate", "Return", ("n_Return_mem", r), None, dict(retc(1, 1), is_atomic_type=const(0)), lambda n, m, a: n == "X" and m == "M" and a == "P"
    yield "Return/second result", "Return", ("n_Return_mem", r + 1), None, dict(retc(2, 2), is_atomic_type=const(0)), lambda n, m, a: n == "X" and m == "M" and a == "P"
    yield "Return/missing result", "Return", ("n_Return_mem",), None, retc(1, 0), lambda *a: False
    yield "Return/surplus result", "Return", ("n_Return_mem",), None, retc(0, 1), lambda *a: False
    yield "Const/value", "Const", (), "attr", {"get_tarval_mode": ("mode", ("attr",))}, lambda n, t: data(n) and n == t
    yield "Phi/loop", "Phi", (0, 1), None, {"get_Phi_loop": const(1)}, lambda n, a, b: n == "M" and a == n and b == n
    for phi, blk, con in ((1, 2, 0), (2, 1, 0), (2, 3, 1), (0, 2, 0), (1, 0, 0)):
        ar = lambda c, ip, st, args, fr, phi=phi, blk=blk: [(st, const(phi if args[0] == ("p", "n") else blk))]
        yield f"Phi/{phi} operands in a block with {blk} predecessors", "Phi", (), None, {"get_irn_arity": ar, "get_irn_arity_": ar, "get_Phi_n_preds": const(0), "irg_is_constrained": const(con), "is_Bad": const(0)}, lambda *a: False
    ar = lambda c, ip, st, args, fr: [(st, const(0 if args[0] == ("p", "n") else 2))]
    yield "Phi/no operands during construction", "Phi", (), None, {"get_irn_arity": ar, "get_irn_arity_": ar, "get_Phi_n_preds": const(0), "irg_is_constrained": const(1), "is_Bad": const(0)}, lambda n: data(n) or n == "M"
    yield "Sel/no array type", "Sel", ("n_Sel_ptr",), None, {"is_Array_type": const(0), "is_array_type": const(0)}, lambda *a: False
    yield "Member/segment", "Member", ("n_Member_ptr",), None, {"is_segment_type": const(1)}, lambda *a: False
    yield "CopyB/type", "CopyB", ("n_CopyB_mem",), None, {"is_compound_type": const(0), "is_Array_type": const(0), "is_array_type": const(0)}, lambda *a: False
    yield "Address/member", "Address", (), None, {"is_segment_type": const(0), "is_method_entity": const(0)}, lambda *a: False
    yield "Block/predecessor", "Block", (0, 1), None, {"is_cfop": const(0)}, lambda *a: False
    yield "Deleted", "Deleted", (), None, {}, lambda *a: False


def typed(P, rep, reg, reporters):
    for key, op, ins, attr, extra, spec in variants(P):
        F = reg.get(("set_op_verify", "op_" + op))
        if F is None:
            rep.bad(f"registered/{op}", "ir/ir/irverify.c", f"no verifier is registered for {op}: malformed {op} nodes are accepted")
            continue
        n = ("p", "n")
        pos = [("in", n, const(P.econst[i][0] if isinstance(i, str) else i)) for i in ins]
        vars_ = [n] + pos + ([("attr",)] if attr else [])
        obligation(P, rep, F, vars_, dict(CALLS, **extra), reporters, spec, key, ins, attr)


def obligation(P, rep, F, vars_, calls, reporters, spec, key, ins, attr, args=None, modes=None):
    U = Universe(vars_, modes or (MODES if len(vars_) <= 3 else FEW))
    acc, paths = accept(P, F, U, reporters, calls, args or [("p", "n")])
    if not paths:
        raise AnalysisError(f"{F.name} never returns ({key})")
    want = 0
    for i, a in enumerate(U.tuples):
        if spec(*a):
            want |= 1 << i
    rep.count("mode_combinations", len(U.tuples))
    for m, w in ((acc & ~want, "accepts a malformed"), (want & ~acc, "rejects a well-formed")):
        if m:
            a = U.tuples[(m & -m).bit_length() - 1]
            rep.bad(f"{w.split()[0]}/{key}", F.loc, f"{F.name} {w} {key}: {text(key, ins, attr, a) if modes is None else ', '.join(f'{v[1]}={x}' for v, x in zip(vars_, a))}")
        else:
            rep.ok(f"{F.name}: {key}, {len(U.tuples)} combinations")


X, M_, T_ = (lambda m: m == "X"), (lambda m: m == "M"), (lambda m: m == "T")
REF = lambda m: m == "P"
PROJ = {
    "Alloc": {"M": M_, "res": REF},
    "Call": {"M": M_, "X_except": X, "X_regular": X, "T_result": T_},
    "Cond": {"true": X, "false": X},
    "Div": {"M": M_, "X_regular": X, "X_except": X, "res": "get_Div_resmode"},
    "Load": {"M": M_, "X_regular": X, "X_except": X, "res": "get_Load_mode"},
    "Mod": {"M": M_, "X_regular": X, "X_except": X, "res": "get_Mod_resmode"},
    "Raise": {"X": X, "M": M_},
    "Start": {"M": M_, "P_frame_base": REF, "T_args": T_},
    "Store": {"M": M_, "X_regular": X, "X_except": X},
}


def projections(P, rep, reg, reporters):
    n = ("p", "n")
    for op, outs in PROJ.items():
        F = reg.get(("set_op_verify_proj", "op_" + op))
        if F is None:
            rep.bad(f"registered/Proj {op}", "ir/ir/irverify.c", f"no verifier is registered for the projections of {op}")
            continue
        num_ = {P.econst[f"pn_{op}_{o}"][0]: (o, s) for o, s in outs.items()}
        for pn in range(max(num_) + 3):
            o, s = num_.get(pn, (f"number {pn}", lambda m: False))
            calls = dict(CALLS, get_Proj_num=const(pn))
            vars_ = [n]
            if isinstance(s, str):
                calls[s] = ("mode", ("attr",))
                vars_.append(("attr",))
                s = lambda m, a: m == a
            obligation(P, rep, F, vars_, calls, reporters, s, f"Proj {op} {o}", (), len(vars_) > 1)
    # parameters and results
    for op, fn, cnt, tm in (("Proj", "verify_node_Proj_Proj", None, None),):
        F = reg.get(("set_op_verify_proj", "op_" + op))
        if F is None:
            rep.bad(f"registered/Proj {op}", "ir/ir/irverify.c", "no verifier is registered for the projections of argument and result tuples")
            continue
        for what, code in (("argument", "iro_Start"), ("result", "iro_Call")):
            for cnt in (1, 2):
                for pn in (0, 1, 2):
                    for atomic in (1, 0) if what == "result" else (1,):
                        calls = dict(CALLS, get_Proj_num=const(pn), get_irn_opcode=const(P.econst[code][0]), get_method_n_params=const(cnt), get_method_n_ress=const(cnt),
                                     get_type_mode=("mode", ("attr",)), is_Method_type=const(1), is_method_type=const(1), is_aggregate_type=const(1 - atomic), mode_P=const(0))
                        s = (lambda m, a: False) if pn >= cnt else (lambda m, a: m == a) if atomic else (lambda m, a: m == "P")
                        obligation(P, rep, F, [n, ("attr",)], calls, reporters, s, f"Proj {what} {pn} of {cnt}{'' if atomic else ' (aggregate)'}", (), True)
    F = reg.get(("set_op_verify_proj", "op_Tuple"))
    if F is None:
        rep.bad("registered/Proj Tuple", "ir/ir/irverify.c", "no verifier is registered for the projections of Tuple")
    else:
        for pn in (0, 1, 2, 3):
            tup = ("pred", "tuple0")
            obligation(P, rep, F, [n, ("in", tup, const(pn))], dict(CALLS, get_Proj_num=const(pn), get_Proj_pred=tup), reporters,
                       (lambda m, a: m == a) if pn < 2 else (lambda m, a: False), f"Proj Tuple {pn} of 2", (), True)
    F = reg.get(("set_op_verify_proj", "op_Switch"))
    if F is None:
        rep.bad("registered/Proj Switch", "ir/ir/irverify.c", "no verifier is registered for the projections of Switch")
    else:
        for pn in (0, 1, 2, 3):
            obligation(P, rep, F, [n], dict(CALLS, get_Proj_num=const(pn), get_Switch_n_outs=const(2)), reporters,
                       X if pn < 2 else (lambda m: False), f"Proj Switch {pn} of 2", (), False)


# ---------------- entities ----------------
KINDS = {
    "IR_ENTITY_ALIAS": lambda seg, comp, frame, code, meth: seg,
    "IR_ENTITY_NORMAL": lambda seg, comp, frame, code, meth: not code and not meth,
    "IR_ENTITY_COMPOUND_MEMBER": lambda seg, comp, frame, code, meth: comp,
    "IR_ENTITY_LABEL": lambda seg, comp, frame, code, meth: code,
    "IR_ENTITY_METHOD": lambda seg, comp, frame, code, meth: meth,
    "IR_ENTITY_PARAMETER": lambda seg, comp, frame, code, meth: frame and not code and not meth,
    "IR_ENTITY_SPILLSLOT": lambda seg, comp, frame, code, meth: frame,
}


def entities(P, rep, reporters):
    F = P.func("check_entity")

    def pred(n):
        def f(c, ip, st, args, fr):
            return [(st, ("mode", ("atom", n + ("" if args[0] == ("owner",) else "?"))))]
        return f
    code = ("mode", ("atom", "code type"))
    atoms = [("atom", a) for a in ("segment owner", "compound owner", "frame owner", "code type", "method type", "definition")]
    for k, spec in KINDS.items():
        kc = P.econst[k][0]
        calls = {"get_entity_linkage": const(0), "get_entity_kind": const(kc), "get_entity_type": ("typ",), "get_entity_owner": ("owner",), "get_entity_initializer": const(0),
                 "is_segment_type": pred("segment owner"), "is_compound_type": pred("compound owner"), "is_frame_type": pred("frame owner"),
                 "is_Method_type": ("mode", ("atom", "method type")), "is_method_type": ("mode", ("atom", "method type")),
                 "get_code_type": ("codetype",), "entity_has_definition": ("mode", ("atom", "definition")), "get_entity_irg": const(0)}
        obligation(P, rep, F, atoms, calls, reporters, lambda s, c, f, co, m, d, spec=spec: bool(spec(s, c, f, co, m)) and not (f and d),
                   f"{k[10:].lower()} entity", (), None, args=[("p", "ent")], modes=(0, 1))


# ---------------- completeness of the drivers ----------------
def drivers(P, rep, may, reg):
    def reach(k, tgt, seen):
        if k == tgt:
            return True
        if k in seen or k not in may:
            return False
        seen.add(k)
        F = may[k]
        return any(x[0] == "c" and (G := P.resolve(callee_name(x) or "", F.file)) is not None and reach(G.key, tgt, seen) for x in walk(F.body))

    class DC(Client):
        maxs, maxdepth = 400, 3

        def inline(self, ip, n, F, fr):
            return F.key not in may and F.file == fr.F.file and len(str(F.body)) < 3000

        def log(self, st, e):
            s = st.copy()
            s.cl = s.cl | {e}
            return s

        def call(self, ip, st, c, n, args, fr):
            if n and n[0] == "*" and any(n.endswith(m) for m in ("verify_node", "verify_proj_node")):
                m = n.split(".")[-1]
                return [(self.log(st, ("m", m, 1)), const(1)), (self.log(st, ("m", m, 0)), const(0))]
            if n is None:
                return [(st, ("opq", c[2]))]
            if n.startswith("__assert") or n in P.noreturn:
                return []
            F = P.resolve(n, fr.F.file)
            for a in args:
                if a[0] == "fn" and a[1] in P.funcs or a[0] == "fn":
                    G = P.resolve(a[1], fr.F.file)
                    if G is not None and G.key in may:
                        st = self.log(st, ("w", n, G.key, args[0]))
            if F is not None and F.key in may:
                return [(self.log(st, ("v", F.key, args[:1])), const(1)), (st, const(0))] if F.ret != "void" else [(self.log(st, ("v", F.key, args[:1])), ("void",))]
            if F is not None and self.inline(ip, n, F, fr):
                return None
            return [(st, ("call", n) + tuple(args))]
    key = {n: P.funcs[n].key for n in ENTRY}

    def paths(F, args):
        st = State()
        st.cl = frozenset()
        out = []
        for s, v in Interp(P, DC()).run(F, args, st):
            if s.truth(v) is not False:
                out.append(s)
        if not out:
            raise AnalysisError(f"{F.name} never succeeds")
        return out
    # every node of the graph
    F = P.func("irg_verify")
    for s in paths(F, [("p", "irg")]):
        ok = any(e[0] == "w" and "block" not in e[1] and e[3] == ("p", "irg") and reach(e[2], key["irn_verify"], set()) for e in s.cl)
        one(rep, ok, "driver/nodes", F, "irg_verify succeeds on a path on which the nodes of the graph are not verified")
        ok = any(e[0] == "v" and reach(e[1], key["edges_verify"], set()) for e in s.cl)
        one(rep, ok, "driver/edges", F, "irg_verify succeeds on a path on which the out edges of the graph are not verified")
    F = P.func("tr_verify")
    for s in paths(F, []):
        for w in ("check_type", "check_entity"):
            ok = any(e[0] == "w" and "class" not in e[1] and reach(e[2], key[w], set()) for e in s.cl)
            one(rep, ok, f"driver/{w}", F, f"tr_verify succeeds on a path on which {w} is not applied to all types and entities")
    F = P.func("irn_verify")
    for s in paths(F, [("p", "n")]):
        ok = ("m", "verify_node", 1) in s.cl or any("verify_node" in str(t) and 0 == v for t, v in s.cst.items())
        one(rep, ok, "driver/callback", F, "irn_verify succeeds on a path on which the verifier of the operation was not asked")
    F = reg.get(("set_op_verify", "op_Proj"))
    if F is None:
        rep.bad("registered/Proj", "ir/ir/irverify.c", "no verifier is registered for Proj")
    else:
        for s in paths(F, [("p", "n")]):
            ok = ("m", "verify_proj_node", 1) in s.cl or any("verify_proj_node" in str(t) and 0 == v for t, v in s.cst.items())
            one(rep, ok, "driver/projection", F, f"{F.name} succeeds on a path on which the projection verifier of the predecessor was not asked")


def one(rep, ok, key, F, msg):
    rep.count("driver_paths")
    if ok:
        rep.ok()
    else:
        rep.bad(key, F.loc, msg)


def dominance(P, rep, may):
    """An operand has to dominate its use (for a Phi: the predecessor block)."""
    fs = [F for F in may.values() if F.ret != "void" and any(x[0] == "c" and callee_name(x) == "block_dominates" for x in walk(F.body))]
    if not fs:
        rep.bad("dominance", "ir/ir/irverify.c", "no verifier compares the block of an operand with the block of its use by dominance")
    for F in fs:
        for phi in (0, 1):
            use = ("p", "use")

            class D(Client):
                maxs, maxdepth, unroll = 4000, 3, 4

                def inline(self, ip, n, F, fr):
                    return F.file == fr.F.file

                def call(self, ip, st, c, n, args, fr):
                    m = (n or "").strip("_")
                    if m in ("is_Block", "is_End", "is_Anchor"):
                        return [(st, const(int(m == "is_Block" and args[0] != use)))]
                    if m == "is_Phi":
                        return [(st, const(phi))]
                    if m in ("get_nodes_block", "get_block", "get_block_const"):
                        return [(st, ("newin", "block", args[0]))]
                    if m == "get_irn_n":
                        return [(st, ("in",) + tuple(args))]
                    if m == "get_irn_arity":
                        return [(st, const(2))]
                    if m == "get_Block_dom_depth":
                        return [(st, const(1))]
                    if m in ("get_Block_cfgpred_block", "get_Block_cfgpred_block_"):
                        return [(st, ("newin", "predblock") + tuple(args))]
                    if m == "block_dominates":
                        s = st.copy()
                        s.cl = st.cl | {tuple(args)}
                        return [(s, const(1)), (st, const(0))]
                    if m.startswith("__assert") or n and n.startswith("__assert"):
                        return []
                    G = P.resolve(n or "", fr.F.file)
                    if G is not None and (G.file == fr.F.file or getter(P, G)) and not G.variadic:
                        return None
                    return [(st, ("call", n) + tuple(args))]
            st = State()
            st.cl = frozenset()
            n = 0
            for s, v in Interp(P, D()).run(F, [use], st):
                if s.truth(v) is False:
                    continue
                n += 1
                for i in (0, 1):
                    d = ("newin", "block", ("in", use, const(i)))
                    u = ("newin", "predblock", ("newin", "block", use), const(i)) if phi else ("newin", "block", use)
                    one(rep, (d, u) in s.cl, f"dominance/{'phi' if phi else 'use'}", F, f"{F.name} accepts a {'Phi' if phi else 'node'} although operand {i} need not dominate its {'predecessor block' if phi else 'use'}")
            if not n:
                raise AnalysisError(f"{F.name} never succeeds")


# ---------------- small graphs ----------------
def cfgraph(**ch):
    """Start block S with a Cond to A and B, both jump to C, which returns to E."""
    n = {"S": dict(op="Block", ins=[], block="S"), "start": dict(op="Start", ins=[], block="S"), "cond": dict(op="Cond", ins=["start"], block="S"),
         "pt": dict(op="Proj", ins=["cond"], block="S", pn="true"), "pf": dict(op="Proj", ins=["cond"], block="S", pn="false"),
         "A": dict(op="Block", ins=["pt"], block="A"), "ja": dict(op="Jmp", ins=[], block="A"), "B": dict(op="Block", ins=["pf"], block="B"), "jb": dict(op="Jmp", ins=[], block="B"),
         "C": dict(op="Block", ins=["ja", "jb"], block="C"), "ret": dict(op="Return", ins=["start"], block="C"), "E": dict(op="Block", ins=["ret"], block="E"), "end": dict(op="End", ins=[], block="E")}
    for k, v in ch.items():
        if v is None:
            n.pop(k)
        elif k in n:
            n[k] = dict(n[k], **v)
        else:
            n[k] = v
    return n


def graphs(P, rep):
    F = P.func("irg_verify")
    pn = {f"{o}_{k}": P.econst[f"pn_{o}_{k}"][0] for o, k in (("Cond", "true"), ("Cond", "false"), ("Switch", "default"))}
    props = {k[18:]: v[0] for k, v in P.econst.items() if k.startswith("IR_GRAPH_PROPERTY_")}
    J = lambda b: dict(op="Jmp", ins=[], block=b)
    block = lambda *ins, **kw: dict(dict(op="Block", ins=list(ins), block="D"), **kw)
    sw = dict(cond=dict(op="Switch"), pt=dict(pn=1), pf=dict(pn="default"))
    cases = [("a well-formed graph", 1, {}, 0, ()), ("a graph with a Switch", 1, sw, 0, ()),
             ("two jumps in a block", 0, dict(j2=J("A"), C=dict(ins=["ja", "jb", "j2"])), 0, ()),
             ("a Return and a jump in a block", 0, dict(r2=dict(op="Return", ins=["start"], block="A"), E=dict(ins=["ret", "r2"])), 0, ()),
             ("a Return and a Cond in a block", 0, dict(r2=dict(op="Return", ins=["start"], block="S"), E=dict(ins=["ret", "r2"])), 0, ()),
             ("a Cond without its false projection", 0, dict(pf=None, B=None, jb=None, C=dict(ins=["ja"])), 0, ()),
             ("a Cond without its true projection", 0, dict(pt=None, A=None, ja=None, C=dict(ins=["jb"])), 0, ()),
             ("a Switch without its default projection", 0, dict(sw, pf=None, B=None, jb=None, C=dict(ins=["ja"])), 0, ()),
             ("a jump to two blocks", 0, dict(B=dict(ins=["pf", "ja"])), 0, ()), ("a jump used twice by a block", 0, dict(C=dict(ins=["ja", "ja", "jb"])), 0, ()),
             ("a block without a jump", 0, dict(ja=None, C=dict(ins=["jb"])), 0, ()), ("a kept block without a jump", 1, dict(ja=None, C=dict(ins=["jb"]), end=dict(ins=["A"])), 0, ()),
             ("a block without predecessors", 0, dict(D=block(), jd=J("D"), C=dict(ins=["ja", "jb", "jd"])), 0, ()),
             ("an immature block", 0, dict(A=dict(matured=0)), 0, ()), ("an unreachable block", 0, dict(A=dict(hidden=1)), 0, ()),
             ("no way to the end", 0, dict(E=dict(ins=["bad"]), ret=None, bad=dict(op="Bad", ins=[], block="S"), l=J("C"), A=dict(ins=["pt", "l"])), 0, ()),
             ("a Bad", 0, dict(bad=dict(op="Bad", ins=[], block="S")), "NO_BADS", ()), ("a Bad", 1, dict(bad=dict(op="Bad", ins=[], block="S")), 0, ()),
             ("a Tuple", 0, dict(tup=dict(op="Tuple", ins=[], block="S")), "NO_TUPLES", ()),
             ("two Returns", 0, dict(C=dict(ins=["jb"]), ja=dict(op="Return", ins=["start"]), E=dict(ins=["ret", "ja"])), "ONE_RETURN", ()),
             ("a critical edge", 0, dict(A=None, ja=None, C=dict(ins=["pt", "jb"])), "NO_CRITICAL_EDGES", ()), ("no critical edge", 1, {}, "NO_CRITICAL_EDGES", ()),
             ("a block without dominance information", 0, dict(A=dict(dom=-1)), ("CONSISTENT_DOMINANCE", "NO_UNREACHABLE_CODE"), ()),
             ("a block without postdominance information", 0, dict(A=dict(pdom=-1)), ("CONSISTENT_POSTDOMINANCE", "NO_UNREACHABLE_CODE"), ()),
             ("inconsistent out edges", 0, {}, "CONSISTENT_OUT_EDGES", ("edges",)), ("a malformed node", 0, {}, 0, ("node",))]
    for what, good, ch, prop, bad in cases:
        for order in (1, -1):
            nodes = cfgraph(**ch)
            for n, d in nodes.items():
                if "pn" in d and isinstance(d["pn"], str):
                    d["pn"] = pn[nodes["cond"]["op"] + "_" + d["pn"]]
            G = gmodel.Graph(nodes, end="end", end_block="E", start_block="S", walk=list(nodes)[::order], blockwalk=[n for n in nodes if nodes[n]["op"] == "Block" and not nodes[n].get("hidden")][::order])
            have = sum(props[x] for x in ((prop,) if isinstance(prop, str) else prop or ()))

            def hasprop(m, ip, st, args, fr):
                w = args[-1][1]
                return const(w & have == w)

            def nodeok(m, ip, st, args, fr):
                return const(not ("node" in bad and m.G.node(args[0]) == "ja"))
            extra = {"get_irg_pinned": const(P.econst["op_pin_state_pinned"][0]), "compute_doms": ("void",), "irn_verify": nodeok, "irg_has_properties": hasprop, "irg_is_constrained": const(0),
                     "edges_verify": const("edges" not in bad), "get_Block_dom_depth": lambda m, ip, st, args, fr: const(m.G.get(args[0], "dom", 1)), "get_Block_postdom_depth": lambda m, ip, st, args, fr: const(m.G.get(args[0], "pdom", 1)),
                     "is_fragile_op": const(0), "ir_throws_exception": const(0), "irg_walk_edges": ("void",)}
            if any(G.nodes[n]["op"] == "Bad" for n in nodes) and good:
                pass
            decide(P, rep, F, [("new", "graph")], gmodel.Model(P, G, F.file, extra), good, f"graph/{what}", f"a graph with {what}" if not what.startswith(("a graph", "a well", "no ")) else what)


def decide(P, rep, F, args, model, good, key, what):
    v = gmodel.verdicts(P, F, args, model)
    rep.count("scenarios")
    if not v:
        raise AnalysisError(f"{F.name} never returns ({key})")
    if good and True not in v:
        rep.bad(f"rejects/{key}", F.loc, f"{F.name} rejects {what}")
    elif not good and v != {False}:
        rep.bad(f"accepts/{key}", F.loc, f"{F.name} accepts {what}")
    else:
        rep.ok()


def placement(P, rep):
    """irn_verify: a node is in a block of its graph, constants in the start block."""
    F = P.func("irn_verify")
    nodes = {"n": dict(op="Const", ins=[], block="S"), "S": dict(op="Block", ins=[], block="S"), "A": dict(op="Block", ins=[], block="A"), "bad": dict(op="Bad", ins=[], block="S"), "x": dict(op="Add", ins=[], block="A")}
    for what, good, blk, startplaced, nobads, idx in (("a node in its block", 1, "A", 0, 0, 1), ("a start block operation in the start block", 1, "S", 1, 0, 1), ("a start block operation in another block", 0, "A", 1, 0, 1),
                                                     ("a node whose block is no block", 0, "x", 0, 0, 1), ("a node in Bad", 1, "bad", 0, 0, 1), ("a node in Bad although the graph has no Bads", 0, "bad", 0, 1, 1),
                                                     ("a node with a wrong index", 0, "A", 0, 0, 0)):
        for op in ("Const", "Address", "Add", "Start", "NoMem"):
            G = gmodel.Graph(dict(nodes, n=dict(op=op, ins=[], block=blk)), start_block="S", end_block="A")
            extra = {"get_idx_irn": (lambda idx: lambda m, ip, st, args, fr: m.G.t("n" if idx else "x"))(idx), "is_op_start_block_placed": const(startplaced), "is_irn_start_block_placed": const(startplaced), "irg_has_properties": const(nobads), "node_is_in_irgs_storage": const(1),
                     "get_irn_op": ("new", "op"), "irn_has_in_storage": const(1)}

            class M(gmodel.Model):
                def call(self, ip, st, c, n, args, fr):
                    if n and n[0] == "*":
                        return [(st, const(1))]
                    return super().call(ip, st, c, n, args, fr)

                def load(self, ip, st, loc, fr):
                    if loc[0] == "gv" and loc[1].startswith("op_"):
                        return const(77)
                    return super().load(ip, st, loc, fr)
            extra["get_irn_op"] = const(99)
            decide(P, rep, F, [G.t("n")], M(P, G, F.file, extra), good, f"placement/{what}", what)


def schedules(P, rep):
    F = P.func("be_verify_schedule")
    ns = P.econst["arch_irn_flag_not_scheduled"][0]

    def N(op, *ins, **kw):
        return dict(dict(op=op, ins=list(ins), block="S", edges=1), **kw)
    base = {"S": dict(op="Block", ins=[], block="S", edges=1, free=1), "T": dict(op="Block", ins=[], block="T", edges=1, free=1), "p": N("Phi"), "a": N("Add"), "b": N("Add", "a"), "j": N("Jmp")}
    L = ["p", "a", "b", "j"]
    keep = lambda *ins: N("Keep", *ins, keep=1)
    cases = [("a good schedule", 1, {}, L, {}), ("a schedule with a Keep", 1, {"k": keep("a")}, ["p", "a", "k", "b", "j"], {}), ("a Keep behind the jump", 1, {"k": keep("j")}, L + ["k"], {}),
             ("a node that is not scheduled", 0, {}, ["p", "a", "j"], {}), ("a Phi that is not scheduled", 0, {}, ["a", "b", "j"], {}), ("a scheduled node that must not be", 0, {"b": N("Add", "a", flags=ns)}, L, {}),
             ("a node that must not be scheduled and is not", 1, {"b": N("Add", "a", flags=ns)}, ["p", "a", "j"], {}),
             ("a node scheduled in another block", 0, {"a": N("Add", block="T")}, L, {}), ("a Phi behind another node", 0, {}, ["a", "p", "b", "j"], {}), ("two jumps", 0, {"i": N("Jmp")}, L + ["i"], {}),
             ("a node behind the jump", 0, {}, ["p", "a", "j", "b"], {}), ("a use before the definition", 0, {}, ["p", "b", "a", "j"], {}), ("a node that uses itself", 0, {"a": N("Add", "a")}, L, {}),
             ("a dead scheduled node", 0, {"b": N("Add", "a", edges=0)}, L, {}), ("equal time steps", 0, {}, L, {"j": 3}), ("a decreasing time step", 0, {}, L, {"j": 1}),
             ("a Keep not behind its operand", 0, {"k": keep("a")}, ["p", "a", "b", "k", "j"], {}), ("a Phi that uses a later node", 1, {"p": N("Phi", "b")}, L, {})]
    for what, good, ch, seq, steps in cases:
        G = gmodel.Graph(dict(base, **ch))
        nx, pv = {"S": seq[0], "T": "T", seq[-1]: "S"}, {"S": seq[-1], "T": "T", seq[0]: "S"}
        for x, y in zip(seq, seq[1:]):
            nx[x], pv[y] = y, x
        step = dict({n: i + 1 for i, n in enumerate(seq)}, **steps)
        at = lambda f: lambda m, ip, st, args, fr: f(m.G.node(args[0])) if m.G.node(args[0]) else None
        go = lambda d: at(lambda n: G.t(d.get(n)))
        extra = {"sched_next": go(nx), "sched_prev": go(pv), "sched_first": go(nx), "sched_last": go(pv), "sched_is_end": at(lambda n: const(n in "ST")), "sched_is_begin": at(lambda n: const(n in "ST")),
                 "sched_get_time_step": at(lambda n: const(step.get(n, 0))), "sched_is_scheduled": at(lambda n: const(n in seq)), "arch_get_irn_flags": at(lambda n: const(G.nodes[n].get("flags", 0))),
                 "arch_is_irn_not_scheduled": at(lambda n: const(bool(G.nodes[n].get("flags", 0) or G.nodes[n].get("free")))), "be_is_Keep": at(lambda n: const(G.nodes[n].get("keep", 0))), "be_is_CopyKeep": const(0),
                 "get_irn_n_edges": at(lambda n: const(G.nodes[n]["edges"])), "get_irn_n_edges_kind": at(lambda n: const(G.nodes[n]["edges"])), "get_irg_last_idx": const(20), "irg_walk_graph": None}
        del extra["irg_walk_graph"]
        decide(P, rep, F, [("new", "graph")], gmodel.Model(P, G, F.file, extra), good, f"schedule/{what}", f"a schedule with {what}" if "schedule" not in what else what)


def pressure(P, rep):
    F = P.func("be_verify_register_pressure")
    G = gmodel.Graph({"S": dict(op="Block", ins=[], block="S"), "p": dict(op="Phi", ins=[], block="S"), "a": dict(op="Add", ins=[], block="S"), "b": dict(op="Add", ins=[], block="S")})
    seq = ["p", "a", "b"]
    for sizes, good in (((2, 2, 2), 1), ((3, 1, 1), 0), ((1, 3, 1), 0), ((1, 1, 3), 0), ((0, 0, 0), 1)):
        def transfer(m, ip, st, args, fr):
            return [(gmodel.put(st, ("steps",), const((gmodel.lookup(st, ("steps",)) or const(0))[1] + 1)), ("void",))]

        def size(m, ip, st, args, fr, sizes=sizes):
            return const(sizes[min((gmodel.lookup(st, ("steps",)) or const(0))[1], 2)])
        nx = {"S": "p", "p": "a", "a": "b", "b": "S"}
        pv = {v: k for k, v in nx.items()}
        go = lambda d: lambda m, ip, st, args, fr: m.G.t(d.get(m.G.node(args[0])))
        isb = lambda m, ip, st, args, fr: const(m.G.node(args[0]) == "S")
        extra = {"sched_next": go(nx), "sched_prev": go(pv), "sched_first": go(nx), "sched_last": go(pv), "sched_is_end": isb, "sched_is_begin": isb, "be_liveness_transfer": transfer, "ir_nodeset_size": size,
                 "be_get_n_allocatable_regs": const(2), "be_liveness_end_of_block": ("void",), "be_liveness_compute_sets": ("void",), "be_liveness_free": ("void",), "be_liveness_new": ("new", "lv"), "print_living_values": ("void",)}
        decide(P, rep, F, [("new", "graph"), ("new", "cls")], gmodel.Model(P, G, F.file, extra), good, f"pressure/{sizes}", f"a block with {sizes[0]} values live at its end and {sizes[1]} and {sizes[2]} before its instructions, with two registers")


def allocation(P, rep):
    F = P.func("be_verify_register_allocation")
    REG = {"r0": 0x900000, "r1": 0x900100, "q0": 0x900200}
    CLS = {"gp": 0x910000, "fp": 0x910100}
    REQ = {"any": 0x920000, "r1only": 0x920100, "fp": 0x920200}
    mem = {("gv", "mode_T"): const(5)}
    f = lambda a, n: ("f", ("deref", const(a)), n)
    for i, (n, a) in enumerate(REG.items()):
        mem[f(a, "arch_register_t.global_index")] = const(i)
        mem[f(a, "arch_register_t.is_virtual")] = const(0)
        mem[f(a, "arch_register_t.name")] = ("s", n)
    for n, a in CLS.items():
        mem[f(a, "arch_register_class_t.regs")] = ("new", "regs", n)
    for n, a in REQ.items():
        mem[f(a, "arch_register_req_t.cls")] = const(CLS["fp" if n == "fp" else "gp"])
        mem[f(a, "arch_register_req_t.width")] = const(1)
    allowed = {("any", "r0"), ("any", "r1"), ("r1only", "r1"), ("fp", "q0")}
    name = lambda d, t: next((k for k, v in d.items() if v == t[1]), None)

    def N(op, reg, *ins, **kw):
        return dict(dict(op=op, ins=list(ins), block="S", reg=reg, edges=1), **kw)
    good_ = {"S": dict(op="Block", ins=[], block="S"), "a": N("Add", "r0"), "b": N("Add", "r1"), "u": N("Add", "r0", "a", "b", edges=1), "w": N("Store", "r1", "u")}
    L = ["a", "b", "u", "w"]
    cases = [("a good allocation", 1, {}, L, [], []), ("two values at once in one register", 0, {"b": N("Add", "r0")}, L, [], []), ("a value overwritten before the end of its life", 0, {"x": N("Add", "r0")}, ["a", "b", "x", "u", "w"], [], []),
             ("a value live at the end that is overwritten", 0, {}, L, [], ["a"]), ("a value live at the end", 1, {"v": N("Add", "r1", "u")}, ["a", "b", "u", "v"], [], ["v"]), ("a value used but never defined", 0, {}, ["b", "u", "w"], [], []),
             ("a value live into the block", 1, {}, ["b", "u", "w"], ["a"], []), ("two values live into the block in one register", 0, {"b": N("Add", "r0")}, ["u", "w"], ["a", "b"], []),
             ("no register", 0, {"b": N("Add", None)}, L, [], []), ("a result in a register that is not allowed", 0, {"a": N("Add", "r0", req="r1only"), "u": N("Add", "r0", "a", "b")}, L, [], []),
             ("an operand in a register that is not allowed", 0, {"u": N("Add", "r0", "a", "b", inreq="r1only")}, L, [], []), ("an operand of another register class", 0, {"u": N("Add", "r0", "a", "b", inreq="fp")}, L, [], []),
             ("a Phi whose operand is in another register", 0, {"p": N("Phi", "r0", "b"), "u": N("Add", "r0", "p")}, ["p", "u"], ["b"], []), ("a Phi whose operand is in its register", 1, {"p": N("Phi", "r0", "u"), "u": N("Add", "r0", "p")}, ["p", "u"], [], ["u"])]
    for what, good, ch, seq, livein, liveend in cases:
        nodes = dict(good_, **ch)
        G = gmodel.Graph(nodes)
        nx, pv = {"S": seq[0], seq[-1]: "S"}, {"S": seq[-1], seq[0]: "S"}
        for x, y in zip(seq, seq[1:]):
            nx[x], pv[y] = y, x
        at = lambda f_: lambda m, ip, st, args, fr: f_(G.node(args[0]), args) if G.node(args[0]) else ("call", "?") + tuple(args)
        go = lambda d: at(lambda n, a: G.t(d.get(n)))
        isb = at(lambda n, a: const(n == "S"))

        def nextlive(m, ip, st, args, fr, livein=livein, liveend=liveend):
            fl = args[1]
            l = liveend if fl == const(P.econst["be_lv_state_end"][0]) else livein
            i = (gmodel.lookup(st, ("lv", fl)) or const(0))[1]
            return [(gmodel.put(st, ("lv", fl), const(0 if i >= len(l) else i + 1)), m.G.t(l[i]) if i < len(l) else C0)]
        req = at(lambda n, a: const(REQ[G.nodes[n].get("req", "any")]))
        extra = {"sched_next": go(nx), "sched_prev": go(pv), "sched_first": go(nx), "sched_last": go(pv), "sched_is_end": isb, "sched_is_begin": isb, "get_irn_mode": const(6), "be_lv_iteration_begin": ("new", "iter"), "be_lv_iteration_next": nextlive,
                 "arch_get_irn_register": at(lambda n, a: const(REG.get(G.nodes[n]["reg"], 0))), "arch_get_irn_register_req": req, "arch_get_irn_register_reqs_in": ("new", "reqs"),
                 "arch_get_irn_register_req_in": at(lambda n, a: const(REQ[G.nodes[n].get("inreq", "any")])), "get_irn_n_edges": at(lambda n, a: const(G.nodes[n]["edges"])), "get_irn_n_edges_kind": at(lambda n, a: const(G.nodes[n]["edges"])),
                 "arch_reg_is_allocatable": lambda m, ip, st, args, fr: const((name(REQ, args[0]), name(REG, args[1])) in allowed), "be_birg_from_irg": const(0x930000), "be_liveness_new": ("new", "lv"), "be_liveness_free": ("void",), "be_liveness_compute_sets": ("void",)}
        mm = dict(mem)
        mm[f(0x930000, "be_irg_t.non_ssa_regs")] = C0
        mm[("f", ("gv", "ir_target"), "target_info_t.isa")] = const(0x940000)
        for r in P.records:
            if "n_registers" in getattr(P.records[r], "by", {}):
                mm[f(0x940000, r + ".n_registers")] = const(3)
        decide(P, rep, F, [("new", "graph")], gmodel.Model(P, G, F.file, extra, mm), good, f"allocation/{what}", f"an allocation with {what}" if "allocation" not in what else what)


def segments(P, rep):
    """tr_verify looks at every member of every segment."""
    F = P.func("tr_verify")
    first, last = P.econst["IR_SEGMENT_FIRST"][0], P.econst["IR_SEGMENT_LAST"][0]
    tl = P.econst["IR_SEGMENT_THREAD_LOCAL"][0]
    tls = P.econst["IR_LINKAGE_CONSTANT"][0]
    info = P.econst["tf_info"][0]
    G = gmodel.Graph({})
    SEG = 0x950000
    cases = [("all is fine", 1, None, None, {})]
    for k in range(first, last + 1):
        for i in (0, 1):
            cases.append((f"public member {i} of segment {k} has no name", 0, k, i, {"ident": 0}))
    cases += [("a private member without a name", 1, first, 0, {"ident": 0, "private": 1}), ("a method in the thread local segment", 0, tl, 0, {"method": 1}), ("a constant in the thread local segment", 0, tl, 1, {"linkage": tls}),
              ("a function in a normal segment", 1, first, 0, {"method": 1}), ("a constructor that is not marked as used", 0, last, 0, {"info": 1})]
    for what, good, k, i, ch in cases:
        def n(m, ip, st, args, fr):
            return const(2 if k is not None and args[0] == const(SEG + 64 * k) else 0)

        def mem_(m, ip, st, args, fr):
            return const(0x960000 + 64 * args[1][1])
        hit = lambda a: a == const(0x960000 + 64 * (i or 0))
        extra = {"get_segment_type": lambda m, ip, st, args, fr: const(SEG + 64 * args[0][1]), "get_compound_n_members": n, "get_compound_member": mem_,
                 "get_entity_ld_ident": lambda m, ip, st, args, fr: const(0) if hit(args[0]) and ch.get("ident") == 0 else ("new", "ident"),
                 "get_entity_visibility": lambda m, ip, st, args, fr: const(P.econst["ir_visibility_private" if ch.get("private") else "ir_visibility_external"][0]),
                 "is_method_entity": lambda m, ip, st, args, fr: const(hit(args[0]) and ch.get("method", 0)), "get_entity_linkage": lambda m, ip, st, args, fr: const(ch.get("linkage", 0) if hit(args[0]) else 0),
                 "type_walk": ("void",), "check_type": const(1), "check_entity": const(1)}
        mm = {("f", ("deref", const(SEG + 64 * s)), "ir_type.flags"): const(info if ch.get("info") and s == k else 0) for s in range(first, last + 1)}
        decide(P, rep, F, [], gmodel.Model(P, G, F.file, extra, mm), good, f"segments/{what}", f"a program in which {what}" if not what.startswith(("a ", "all")) else f"{what}")


def types(P, rep):
    """check_type over compound types and check_entity over initializers and entities without code."""
    F, E = P.func("check_type"), P.func("check_entity")
    ec = lambda n: const(P.econst[n][0])
    T, M, MODE, IR = 0x970000, 0x971000, 0x972000, 0x973000
    C0 = const(0)

    def model(types, members, inits, ent, F):
        """types: address -> dict(op, mode, members, elem, nsup); members: address -> dict(owner, type, nover)."""
        g = lambda d, k, dflt=0: (lambda m, ip, st, args, fr: const(d[args[0][1]].get(k, dflt)) if args[0][0] == "c" and args[0][1] in d else C0)
        is_op = lambda *ops: (lambda m, ip, st, args, fr: const(int(args[0][0] == "c" and types.get(args[0][1], {}).get("op") in [P.econst[o][0] for o in ops])))
        comp = ("tpo_struct", "tpo_union", "tpo_class", "tpo_segment")
        idx = lambda d, k: (lambda m, ip, st, args, fr: const(d[args[0][1]][k][args[1][1]]) if args[1][1] < len(d[args[0][1]][k]) else ("new", "none"))
        num = lambda d, k: (lambda m, ip, st, args, fr: const(len(d[args[0][1]].get(k, ()))))
        extra = {"get_type_opcode": g(types, "op"), "get_type_mode": g(types, "mode"), "get_compound_n_members": num(types, "members"), "get_compound_member": idx(types, "members"),
                 "get_class_n_members": num(types, "members"), "get_class_member": idx(types, "members"),
                 "get_array_element_type": g(types, "elem"), "get_class_n_supertypes": g(types, "nsup"), "get_entity_owner": g(members, "owner"), "get_entity_type": g(members, "type"),
                 "get_entity_n_overwrites": g(members, "nover"), "is_Class_type": is_op("tpo_class"), "is_class_type": is_op("tpo_class"), "is_Array_type": is_op("tpo_array"),
                 "is_array_type": is_op("tpo_array"), "is_Method_type": is_op("tpo_method"), "is_method_type": is_op("tpo_method"), "is_compound_type": is_op(*comp), "is_segment_type": is_op("tpo_segment"),
                 "is_frame_type": C0, "get_code_type": const(0x97f000), "entity_has_definition": C0, "is_Primitive_type": is_op("tpo_primitive"), "is_Pointer_type": is_op("tpo_pointer"),
                 "get_initializer_kind": g(inits, "kind"), "get_initializer_tarval_value": g(inits, "value"), "get_initializer_const_value": g(inits, "value"),
                 "get_tarval_mode": lambda m, ip, st, args, fr: const(MODE + args[0][1] % 64), "get_irn_mode": lambda m, ip, st, args, fr: const(MODE + args[0][1] % 64),
                 "get_initializer_compound_n_entries": num(inits, "values"), "get_initializer_compound_value": idx(inits, "values"),
                 "get_const_code_irg": const(IR), "get_irn_irg": lambda m, ip, st, args, fr: const(IR + (1 if args[0][1] & 0x1000 else 0)), "get_irn_visited": const(3), "get_irg_visited": const(3),
                 "node_is_in_irgs_storage": lambda m, ip, st, args, fr: const(int((args[0] == const(IR)) == (args[1][1] & 0x1000 == 0)))}

        def walker(m, ip, st, args, fr):
            for f in (args[1], args[2]):
                if f[0] == "fn":
                    W = P.resolve(f[1], fr.F.file)
                    return [(s, ("void",)) for s, _ in ip.run(W, [args[0], args[3]], st, fr)]
            return [(st, ("void",))]
        for w in ("irg_walk", "irg_walk_core", "irg_walk_in_or_dep"):
            extra[w] = walker
        extra.update(ent)
        return gmodel.Model(P, gmodel.Graph({}), F.file, extra, {})
    op = lambda n: P.econst[n][0]
    # compound types
    for k in ("struct", "union", "class", "segment"):
        cases = [("with two members", 1, {}, {}, [M, M + 64]), ("without members", 1, {}, {}, []), ("with a NULL member", 0, {}, {}, [M, 0, M + 64]), ("with a NULL member at the end", 0, {}, {}, [M, M + 64, 0]),
                 ("with a first member of another type", 0, {"owner": T + 64}, {}, [M, M + 64]), ("with a last member of another type", 0, {}, {"owner": T + 64}, [M, M + 64])]
        if k == "class":
            cases += [("with a member that overwrites as many members as there are supertypes", 1, {"nover": 2}, {"nover": 2}, [M, M + 64]),
                      ("with a first member that overwrites too many members", 0, {"nover": 3}, {}, [M, M + 64]), ("with a last member that overwrites too many members", 0, {}, {"nover": 3}, [M, M + 64])]
        for what, good, a, b, mem in cases:
            ty = {T: dict(op=op("tpo_" + k), members=mem, nsup=2), T + 64: dict(op=op("tpo_struct"))}
            me = {M: dict({"owner": T, "nover": 0}, **a), M + 64: dict({"owner": T, "nover": 0}, **b)}
            decide(P, rep, F, [const(T)], model(ty, me, {}, {}, F), good, f"type/{k} {what}", f"a {k} type {what}")
    for k in ("primitive", "pointer"):
        for mode in (0, 1):
            decide(P, rep, F, [const(T)], model({T: dict(op=op("tpo_" + k), mode=mode and MODE)}, {}, {}, {}, F), mode, f"type/{k}, mode {mode}", f"a {k} type {'with a' if mode else 'without'} mode")
    for k in ("array", "method", "code", "unknown"):
        decide(P, rep, F, [const(T)], model({T: dict(op=op("tpo_" + k))}, {}, {}, {}, F), 1, f"type/{k}", f"a type of kind {k}")
    # initializers: the addresses of tarvals and constants say their mode (low bits) and graph (bit 12)
    S, A, P1, P2, U = T, T + 64, T + 128, T + 192, T + 256
    ty = {S: dict(op=op("tpo_struct"), members=[M, M + 64]), A: dict(op=op("tpo_array"), elem=P1), P1: dict(op=op("tpo_primitive"), mode=MODE + 1), P2: dict(op=op("tpo_primitive"), mode=MODE + 2),
          U: dict(op=op("tpo_array"), elem=S)}
    me = {M: dict(owner=S, type=P1), M + 64: dict(owner=S, type=P2)}
    I = 0x980000
    tv = lambda m: dict(kind=op("IR_INITIALIZER_TARVAL"), value=0x9a0000 + m)
    cn = lambda m, other=0: dict(kind=op("IR_INITIALIZER_CONST"), value=0x9a0000 + m + (0x1000 if other else 0))
    nul = dict(kind=op("IR_INITIALIZER_NULL"), value=0)

    def build(spec, out):
        a = I + 64 * len(out)
        out[a] = None
        if isinstance(spec, list):
            out[a] = dict(kind=op("IR_INITIALIZER_COMPOUND"), values=[build(x, out) for x in spec])
        else:
            out[a] = spec
        return a
    cases = [("a tarval of the right mode", 1, P1, tv(1)), ("a tarval of another mode", 0, P1, tv(2)), ("a constant of the right mode", 1, P2, cn(2)), ("a constant of another mode", 0, P2, cn(1)),
             ("a constant of another graph", 0, P1, cn(1, 1)), ("null", 1, P1, nul), ("null for an array", 1, A, nul), ("a compound for a primitive type", 0, P1, [tv(1)]),
             ("an array of tarvals", 1, A, [tv(1), tv(1), nul]), ("an array with a wrong first value", 0, A, [tv(2), tv(1)]), ("an array with a wrong last value", 0, A, [tv(1), tv(1), tv(2)]),
             ("a compound", 1, S, [tv(1), cn(2)]), ("a compound with fewer values", 1, S, [tv(1)]), ("a compound with too many values", 0, S, [tv(1), tv(2), nul]),
             ("a compound with the values of the wrong members", 0, S, [tv(2), tv(1)]), ("a compound with a wrong first value", 0, S, [tv(2), tv(2)]), ("a compound with a wrong last value", 0, S, [tv(1), tv(1)]),
             ("a nested compound", 1, U, [[tv(1), tv(2)], [tv(1), tv(2)]]), ("a nested compound with a wrong value", 0, U, [[tv(1), tv(2)], [tv(1), tv(1)]]),
             ("a nested compound with a wrong value at first", 0, U, [[tv(2), tv(2)], [tv(1), tv(2)]]), ("a nested compound with too many values at first", 0, U, [[tv(1), tv(2), nul], [tv(1), tv(2)]])]
    for what, good, t, spec in cases:
        ini = {}
        a = build(spec, ini)
        ent = {"get_entity_kind": ec("IR_ENTITY_NORMAL"), "get_entity_initializer": const(a), "get_entity_linkage": C0, "get_entity_irg": C0}
        mm = dict(me)
        mm[0x990000] = dict(owner=T + 512, type=t)
        decide(P, rep, E, [const(0x990000)], model(ty, mm, ini, ent, E), good, f"initializer/{what}", f"an entity that is initialized by {what}")
    # entities of functions
    MT = T + 320
    ty = {MT: dict(op=op("tpo_method")), T + 512: dict(op=op("tpo_segment"))}
    mm = {0x990000: dict(owner=T + 512, type=MT)}
    no = P.econst["IR_LINKAGE_NO_CODEGEN"][0]
    vis = {n: n.startswith("ir_visibility_external") for n in P.econst if n.startswith("ir_visibility_")}
    for v, ext in vis.items():
        for irg in (0, 1):
            for meth in (0, 1):
                for link in (0, no):
                    good = not link or (ext and irg and meth)
                    if link and not meth and irg:
                        continue
                    ent = {"get_entity_kind": ec("IR_ENTITY_METHOD"), "is_method_entity": const(meth), "get_entity_linkage": const(link), "get_entity_irg": const(IR + 64 if irg else 0),
                           "get_irg_entity": const(0x990000), "get_entity_visibility": ec(v), "get_entity_initializer": C0}
                    decide(P, rep, E, [const(0x990000)], model(ty, mm, {}, ent, E), good, f"function/{v}, graph {irg}, method {meth}, NO_CODEGEN {int(bool(link))}",
                           f"a {'method' if meth else 'variable'} entity with visibility {v[14:]}, {'a' if irg else 'no'} graph and {'linkage NO_CODEGEN' if link else 'normal linkage'}")
    ent = {"get_entity_kind": ec("IR_ENTITY_METHOD"), "is_method_entity": const(1), "get_entity_linkage": C0, "get_entity_irg": const(IR + 64), "get_irg_entity": const(0x990040),
           "get_entity_visibility": ec("ir_visibility_external"), "get_entity_initializer": C0}
    decide(P, rep, E, [const(0x990000)], model(ty, mm, {}, ent, E), 0, "function/graph of another entity", "a method entity whose graph belongs to another entity")


def nodes(P, rep, reg):
    """Blocks, End and Switch in small graphs."""
    base = {"S": dict(op="Block", ins=[], block="S"), "A": dict(op="Block", ins=["j"], block="A"), "E": dict(op="Block", ins=["r"], block="E"), "j": dict(op="Jmp", ins=[], block="S"), "r": dict(op="Return", ins=[], block="A"),
            "end": dict(op="End", ins=[], block="E"), "x": dict(op="Add", ins=[], block="A"), "ij": dict(op="IJmp", ins=[], block="S"), "bad": dict(op="Bad", ins=[], block="S"), "ra": dict(op="Raise", ins=[], block="S"),
            "phi": dict(op="Phi", ins=[], block="A", loop=0), "loop": dict(op="Phi", ins=[], block="A", loop=1), "call": dict(op="Call", ins=[], block="A")}
    B, E = reg.get(("set_op_verify", "op_Block")), reg.get(("set_op_verify", "op_End"))
    cases = [(B, "A", "a block behind a jump", 1, {}, 0), (B, "A", "a block behind an Add", 0, {"A": ["j", "x"]}, 0), (B, "A", "a block behind Bad", 1, {"A": ["j", "bad"]}, 0), (B, "A", "a block without entity behind an IJmp", 0, {"A": ["j", "ij"]}, 0),
             (B, "A", "a block with entity behind an IJmp", 1, {"A": ["j", "ij"]}, 1), (B, "S", "a start block with a predecessor", 0, {"S": ["j"]}, 0), (B, "S", "a start block", 1, {}, 0), (B, "E", "an end block behind a Return", 1, {}, 0),
             (B, "E", "an end block behind a jump", 0, {"E": ["r", "j"]}, 0), (B, "E", "an end block behind a jump", 0, {"E": ["j", "r"]}, 0), (B, "E", "an end block behind a Raise", 1, {"E": ["ra"]}, 0),
             (E, "end", "an End that keeps a block", 1, {"end": ["A"]}, 0), (E, "end", "an End that keeps a Phi loop", 1, {"end": ["loop"]}, 0), (E, "end", "an End that keeps a Call", 1, {"end": ["call"]}, 0),
             (E, "end", "an End that keeps an Add", 0, {"end": ["A", "x"]}, 0), (E, "end", "an End that keeps a Phi that is no loop", 0, {"end": ["phi", "A"]}, 0)]
    for F, n, what, good, ch, ent in cases:
        if F is None:
            continue
        G = gmodel.Graph({k: dict(v, ins=ch.get(k, v["ins"])) for k, v in base.items()}, start_block="S", end_block="E")
        mode = {"Block": "BB", "Jmp": "X", "Return": "X", "IJmp": "X", "Raise": "X", "Bad": "X", "End": "X"}
        num = {"BB": 1, "X": 2, "data": 3, "M": 4}
        mem = {("gv", "mode_BB"): const(1), ("gv", "mode_X"): const(2), ("gv", "mode_M"): const(4)}
        xs = any(G.nodes[i]["op"] == "Add" for i in G.nodes[n]["ins"]) and F is B
        extra = {"get_irn_mode": lambda m, ip, st, args, fr: const(2 if xs and m.G.get(args[0], "op") == "Add" else num.get(mode.get(m.G.get(args[0], "op"), "data"))), "get_Block_entity": ("new", "entity") if ent else const(0), "irg_is_constrained": const(0),
                 "get_Phi_loop": lambda m, ip, st, args, fr: const(m.G.get(args[0], "loop", 0))}
        decide(P, rep, F, [G.t(n)], gmodel.Model(P, G, F.file, extra, mem), good, f"node/{what}", what)
    S = reg.get(("set_op_verify", "op_Switch"))
    if S is None:
        return
    G = gmodel.Graph({"n": dict(op="Switch", ins=["s"], block="A"), "s": dict(op="Add", ins=[], block="A"), "A": dict(op="Block", ins=[], block="A")})
    ok = (1, 10, 20)
    cases = [("a good table", 1, [ok, (2, 30, 30)]), ("a default entry", 1, [(0, 0, 0), ok]), ("an entry without minimum", 0, [ok, (1, 0, 20)]), ("an entry without maximum", 0, [(1, 10, 0)]), ("an entry whose minimum exceeds its maximum", 0, [ok, (1, 20, 10)]),
             ("an entry with an output that does not exist", 0, [ok, (3, 30, 30)]), ("an entry with an output that does not exist", 0, [(4, 30, 30)]), ("a minimum of another mode", 0, [(1, 11, 20)]), ("a maximum of another mode", 0, [ok, (1, 30, 41)]), ("no table", 0, None)]
    for what, good, tab in cases:
        EN = 0x970000
        mem = {("gv", "mode_T"): const(5)}
        for i, e in enumerate(tab or ()):
            for f, v in zip(("pn", "min", "max"), e):
                mem[("f", ("deref", const(EN + 64 * i)), "ir_switch_table_entry." + f)] = const(v)
        rel = lambda m, ip, st, args, fr: const(P.econst["ir_relation_equal" if args[0] == args[1] else "ir_relation_less" if args[0][1] < args[1][1] else "ir_relation_greater"][0])
        ent = lambda m, ip, st, args, fr: const(EN + 64 * args[1][1])
        extra = {"get_irn_mode": lambda m, ip, st, args, fr: const(5 if m.G.node(args[0]) == "n" else 6), "mode_is_int": const(1), "get_Switch_table": const(0) if tab is None else ("new", "table"), "get_Switch_n_outs": const(3), "get_Switch_selector": G.t("s"),
                 "ir_switch_table_get_n_entries": const(len(tab or ())), "ir_switch_table_get_entry_const": ent, "ir_switch_table_get_entry": ent, "get_tarval_mode": lambda m, ip, st, args, fr: const(6 if args[0][1] % 10 == 0 else 7), "tarval_cmp": rel}
        decide(P, rep, S, [G.t("n")], gmodel.Model(P, G, S.file, extra, mem), good, f"switch/{what}", f"a Switch with {what}")


def run():
    P = Program("debug")
    rep = Report("C08", "reported problem => result false; accepted modes = specified modes; drivers reach every verifier", META["note"])
    reg, may = propagation(P, rep)
    reporters = verifiers(P)[0]
    acceptance(P, rep, reg, reporters)
    typed(P, rep, reg, reporters)
    projections(P, rep, reg, reporters)
    entities(P, rep, reporters)
    drivers(P, rep, may, reg)
    dominance(P, rep, may)
    graphs(P, rep)
    placement(P, rep)
    nodes(P, rep, reg)
    schedules(P, rep)
    pressure(P, rep)
    allocation(P, rep)
    segments(P, rep)
    types(P, rep)
    rep.floor("scenarios", 60)
    rep.floor("reporters", 2)
    rep.floor("verifiers", 80)
    rep.floor("operations", 40)
    rep.floor("driver_paths", 5)
    return rep.finish()


if __name__ == "__main__":
    main("C08", run)
