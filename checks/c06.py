"""C06: comparisons and conditional instructions decide as the relation says."""
import re, sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from prog import Program, short, AnalysisError, walk, strip, callee_name
from report import Report, main
from absint import Interp, Client, State, isc

META = {
    "title": "A conditional jump is taken exactly when the relation of its Cmp holds",
    "statement": "For each of the 16 relations and each kind of comparison (signed, unsigned, floating point with unordered operands), negating a relation yields its complement and swapping the operands its mirror image (get_negated_relation, get_inversed_relation), "
                 "and every back end (ia32 text and binary, amd64, arm, sparc, mips, riscv) selects condition codes and emits conditional jumps (and on x86 set-on-condition instructions) that reach the true successor exactly when the relation holds for the outcome of the comparison: "
                 "less, equal, greater or unordered. This includes operands permuted by instruction selection, jumps reversed because the true successor is the next block, and the additional parity test of floating point comparisons. "
                 "The compare instructions read the operands of the Cmp in order (or say that they are swapped), both extended alike and with the right signedness; a compare is left out in favour of flags of another instruction only if these decide the same; "
                 "instructions that change the flags are declared to.",
    "over": ["inputs", "programs"],
    "quant": "every relation, comparison kind, outcome of the comparison, block placement and operand order, for each back end",
    "why": "The unit tests run no back end; a wrong entry of one condition code table shows only for one relation, mode and block layout.",
    "files": ["ir/ir/irnode.c", "ir/be/ia32/x86_node.h", "ir/be/ia32/ia32_transform.c", "ir/be/ia32/ia32_emitter.c", "ir/be/ia32/ia32_encode.c", "ir/be/ia32/ia32_finish.c", "ir/be/amd64/amd64_transform.c", "ir/be/amd64/amd64_emitter.c", "ir/be/arm/arm_emitter.c", "ir/be/sparc/sparc_emitter.c", "ir/be/mips/mips_transform.c", "ir/be/mips/mips_emitter.c", "ir/be/mips/mips_nodes_attr.h", "ir/be/riscv/riscv_transform.c", "ir/be/riscv/riscv_emitter.c"],
    "mech": [("relation algebra", "ir/ir/irnode.c get_negated_relation, get_inversed_relation"), ("condition code selection", "ir/be/ia32/ia32_transform.c ir_relation_to_x86_condition_code; gen_Cond of the back ends"), ("jump emitters", "emitters registered for the conditional jumps with be_set_emitter")],
    "technique": "constant propagation through the selection and emission functions for every element of the finite domain; the emitted instruction sequence is interpreted against a flag model of the target",
    "note": "The domain (relation x comparison kind x outcome x placement x operand order) is finite and enumerated completely; the flag models of the targets (which outcome sets which flags, what each mnemonic or opcode tests) are the oracle. "
            "The text of a format is taken to be printed as given. Relations that the code rejects with a panic (always true, always false) are outside. Conditional moves are covered through the condition code only.",
}

OUT = {"eq": 1, "lt": 2, "gt": 4, "un": 8}
SWAPO = {"eq": "eq", "lt": "gt", "gt": "lt", "un": "un"}


OPAQUE = {"be_emit_get_cfop_target", "get_block_execfreq", "be_emit_get_prev_block", "emit_exc_label"}


class C(Client):
    """A scenario: which predicates hold, what the fields contain."""
    maxs = 64
    maxdepth = 8
    unroll = 4

    def __init__(self, P, fields=None, calls=None, fall=()):
        self.P, self.fields, self.calls, self.fall = P, fields or {}, calls or {}, fall

    def inline(self, ip, n, F, fr):
        if n in OPAQUE or not (F.file.endswith(".h") or "/be/" in F.file or F.name.startswith("get_") and "relation" in F.name):
            return False
        return len(str(F.body)) < 20000

    def load(self, ip, st, loc, fr):
        if loc[0] == "f":
            n = loc[2]
            for k, v in self.fields.items():
                if callable(v):
                    r = v(loc) if k == n else None
                    if r is not None:
                        return r
                elif k == n:
                    return v
        return None

    def log(self, st, *e):
        s = st.copy()
        s.cl = (s.cl or ()) + (e,)
        return [(s, ("void",))]

    def call(self, ip, st, c, n, args, fr):
        if n is None:
            return None
        if n in self.calls:
            v = self.calls[n]
            if callable(v):
                return v(self, ip, st, args, fr)
            return [(st, v)]
        if n.startswith("is_ia32_") or n.startswith("is_amd64_"):
            k = n.split("_", 2)[2]
            if k == "irn":
                return [(st, ("c", 1))]
            if args[0][0] == "p":
                return [(st, ("op", "==", ("kind", args[0]), ("s", k)))]
            return [(st, ("c", int(k == self.calls.get("flags"))))]
        if n.startswith("get_") and "_attr" in n and n.endswith("_const") and len(args) == 1:
            return [(st, ("attr",) + tuple(args))]
        if n == "be_get_cond_branch_projs":
            return [(st, ("agg", (("be_cond_branch_projs_t.t", ("proj", "T")), ("be_cond_branch_projs_t.f", ("proj", "F"))), "init"))]
        if n == "find_original_value":
            return [(st, ("sub", n) + tuple(args[:1]))]
        if n in ("inc_irg_visited", "inc_irg_visited_"):
            return [(st, ("void",))]
        if n == "be_is_fallthrough":
            if args[0][0] != "proj":
                raise AnalysisError("be_is_fallthrough of an unknown jump")
            return [(st, ("c", int(args[0][1] in self.fall)))]
        if n.endswith("_emitf"):
            return self.log(st, "emit", args[1], tuple(args[2:]))
        if n in ("be_emit_string_len", "be_emit_string", "be_emit_char"):
            return self.log(st, "text", args[0])
        if n in ("be_emit8", "be_emit16", "be_emit32"):
            return self.log(st, "byte", args[0], int(n[7:]) // 8)
        if n == "enc_jmp_destination":
            return self.log(st, "dest", args[0])
        if n in ("be_emit_write_line", "be_emit_finish_line_gas"):
            return [(st, ("void",))]
        if n in ("get_irn_n", "skip_Proj", "get_irn_n_", "get_nodes_block", "get_irn_irg"):
            return [(st, ("sub", n) + tuple(args[:1]))]
        if n == "panic" or n.startswith("__assert") or n == "be_errorf":
            return []
        return None


def run1(P, F, args, c):
    """All results (state, value) of F; [] if it always panics."""
    st = State()
    st.cl = ()
    return Interp(P, c).run(F, args, st)


def const(P, name, args, c=None):
    F = P.func(name)
    r = run1(P, F, [("c", a) if isinstance(a, int) else a for a in args], c or C(P))
    vs = {v for _, v in r}
    if not r:
        return None
    if len(vs) != 1 or not isc(next(iter(vs))):
        raise AnalysisError(f"{name}{args} does not fold to a constant: {str(vs)[:200]}")
    return next(iter(vs))[1]


def mode(kind):
    return {"mode_is_float": ("c", int(kind == "float")), "mode_is_float_": ("c", int(kind == "float")),
            "mode_is_signed": ("c", int(kind != "unsigned")), "mode_is_signed_": ("c", int(kind != "unsigned")),
            "mode_is_int": ("c", int(kind != "float")), "mode_is_int_": ("c", int(kind != "float")),
            "mode_is_reference": ("c", 0), "mode_is_reference_": ("c", 0)}


KINDS = ("signed", "unsigned", "float")


def outcomes(kind):
    return ("eq", "lt", "gt", "un") if kind == "float" else ("eq", "lt", "gt")


# ------------------------------------------------------------------ x86 flags
def x86flags(kind, o, overflow):
    """All flag settings a comparison with this outcome can produce."""
    if kind == "float":
        return [dict(ZF=int(o in ("eq", "un")), CF=int(o in ("lt", "un")), PF=int(o == "un"), SF=0, OF=0)]
    if kind == "unsigned":
        return [dict(ZF=int(o == "eq"), CF=int(o == "lt"), SF=s, OF=v, PF=p) for s in (0, 1) for v in (0, 1) for p in (0, 1)]
    r = []
    for v in (0, 1) if overflow else (0,):
        for p in (0, 1):
            for cf in (0, 1) if overflow else (0,):
                r.append(dict(ZF=int(o == "eq"), SF=int(o == "lt") ^ v, OF=v, PF=p, CF=cf))
    return [f for f in r if not (f["ZF"] and f["SF"])]


X86 = {
    "o": lambda f: f["OF"], "no": lambda f: not f["OF"], "b": lambda f: f["CF"], "ae": lambda f: not f["CF"], "c": lambda f: f["CF"], "nc": lambda f: not f["CF"],
    "e": lambda f: f["ZF"], "ne": lambda f: not f["ZF"], "z": lambda f: f["ZF"], "nz": lambda f: not f["ZF"], "be": lambda f: f["CF"] or f["ZF"], "a": lambda f: not (f["CF"] or f["ZF"]),
    "s": lambda f: f["SF"], "ns": lambda f: not f["SF"], "p": lambda f: f["PF"], "np": lambda f: not f["PF"], "l": lambda f: f["SF"] != f["OF"], "ge": lambda f: f["SF"] == f["OF"],
    "le": lambda f: f["ZF"] or f["SF"] != f["OF"], "g": lambda f: not f["ZF"] and f["SF"] == f["OF"],
}
HW = ["o", "no", "b", "ae", "e", "ne", "be", "a", "s", "ns", "p", "np", "l", "ge", "le", "g"]


def text(P, cc, cache={}):
    """What %PX prints."""
    if cc not in cache:
        r = run1(P, P.func("x86_emit_condition_code"), [("c", cc)], C(P))
        ts = set()
        for st, _ in r:
            ts.add("".join(e[1][1] if e[1][0] == "s" else chr(e[1][1]) for e in st.cl))
        cache[cc] = ts.pop() if len(ts) == 1 else None
    return cache[cc]


def lines(P, log, conv):
    """Formatted lines of a text log."""
    out, cur = [], ""
    for e in log:
        if e[0] == "emit":
            f = e[1]
            if f[0] == "op" and False:
                pass
            if f[0] != "s":
                raise AnalysisError(f"format is not constant: {str(f)[:80]}")
            args = list(e[2])
            s, i, t = f[1], 0, ""
            while i < len(s):
                if s[i] != "%":
                    t += s[i]
                    i += 1
                    continue
                for spec, fn in conv:
                    m = re.match(spec, s[i + 1:])
                    if m:
                        t += fn(m, args)
                        i += 1 + m.end()
                        break
                else:
                    raise AnalysisError(f"unknown conversion in {s!r}")
            out += [x for x in t.split("\n")]
        elif e[0] == "text":
            cur += e[1][1] if e[1][0] == "s" else chr(e[1][1]) if isc(e[1]) else "?"
            while "\n" in cur:
                a, cur = cur.split("\n", 1)
                out.append(a)
    if cur.strip():
        out.append(cur)
    return out


def label(m, args):
    a = args.pop(0)
    return "@" + a[1] if a[0] == "proj" else "@?"


def branch(code, cond, fall):
    """Where the sequence of (test, target) goes; None = falls out."""
    i, n = 0, 0
    while i < len(code):
        t, target = code[i]
        n += 1
        if n > 100:
            return "loop"
        if t is None or cond(t):
            if isinstance(target, int):
                i = target
                continue
            return target
        i += 1
    return fall


def x86code(ls):
    code, labels = [], {}
    for l in ls:
        l = l.split("/*")[0].strip()
        if not l:
            continue
        if l.endswith(":"):
            labels[l[:-1]] = len(code)
            continue
        m = re.match(r"j(\w+)\s+(\S+)$", l)
        if not m:
            raise AnalysisError(f"unknown instruction {l!r} in a conditional jump")
        code.append((None if m[1] == "mp" else m[1], m[2]))
    return resolve(code, labels)


def resolve(code, labels):
    out = []
    for t, l in code:
        if l.startswith("@"):
            l = l[1:]
        elif l[:-1] in labels:
            l = labels[l[:-1]]
        else:
            raise AnalysisError(f"unknown label {l}")
        out.append((t, l))
    return out


def bincode(log):
    """Decode 0F 8x dest, 7x rel8, E9 dest."""
    ins, off, i = [], 0, 0
    seq = []
    for e in log:
        if e[0] == "byte":
            if not isc(e[1]):
                raise AnalysisError("encoded byte is not constant")
            seq.append(e[1][1] & 0xff)
        elif e[0] == "dest":
            seq.append(e[1])
    while i < len(seq):
        b = seq[i]
        if b == 0x0f and isinstance(seq[i + 1], int) and 0x80 <= seq[i + 1] < 0x90:
            ins.append((off, HW[seq[i + 1] - 0x80], seq[i + 2]))
            i, off = i + 3, off + 6
        elif b == 0xe9:
            ins.append((off, None, seq[i + 1]))
            i, off = i + 2, off + 5
        elif isinstance(b, int) and 0x70 <= b < 0x80:
            ins.append((off, HW[b - 0x70], off + 2 + seq[i + 1]))
            i, off = i + 2, off + 2
        else:
            raise AnalysisError(f"unknown opcode {b}")
    offs = [o for o, _, _ in ins] + [off]
    code = []
    for o, t, d in ins:
        if isinstance(d, int):
            if d not in offs:
                raise AnalysisError("jump into the middle of an instruction")
            code.append((t, offs.index(d)))
        else:
            code.append((t, d[1]))
    return code


XCONV = [(r"PX", lambda m, a: str(text(P_[0], a.pop(0)[1]))), (r"[0-9]*L", label), (r"[<>^]?R", lambda m, a: (a.pop(0), "%" + m[0])[1])]
P_ = [None]


def rels():
    return range(16)


def holds(r, o):
    return bool(r & OUT[o])


def relname(P, r):
    for n, (v, en, f, l) in sorted(P.econst.items()):
        if n.startswith("ir_relation_") and v == r:
            return n[12:]
    return str(r)


def emitters(P):
    out = {}
    for F in P.all:
        for x in walk(F.body):
            if x[0] == "c" and callee_name(x) == "be_set_emitter":
                a, b = strip(x[4][0]), strip(x[4][1])
                while b[0] == "u":
                    b = strip(b[3])
                if a[0] == "v" and b[0] == "v":
                    out.setdefault(a[2], []).append(P.func(b[2], F.file))
    return out


def chk(rep, ok, key, where, msg):
    rep.count("cases")
    if ok:
        rep.ok()
    else:
        rep.bad(key, where, msg)
    return ok


def algebra(P, rep):
    for n, f in (("get_negated_relation", lambda r: 15 ^ r), ("get_inversed_relation", lambda r: r & 9 | (r & 2) << 1 | (r & 4) >> 1)):
        F = P.func(n)
        for r in rels():
            v = const(P, n, [r])
            chk(rep, v == f(r), f"{n}/{r}", F.loc, f"{n}({relname(P, r)}) is {relname(P, v)}, expected {relname(P, f(r))}")


def x86(P, rep, em):
    sel = P.func("ir_relation_to_x86_condition_code")
    ccs = {}
    for kind in KINDS:
        for r in rels():
            for ov in (0, 1):
                v = const(P, sel.name, [r, ("p", "mode"), ov], C(P, calls=mode(kind)))
                eff = r if kind == "float" else r & 7
                need = eff not in (0, 15) if kind == "float" else eff not in (0, 7)
                if v is None:
                    chk(rep, not need or kind != "float" and r in (0, 7, 8, 15), f"select/{kind}/{r}", sel.loc, f"no x86 condition code for the {kind} relation {relname(P, r)}")
                    continue
                if not need:
                    continue
                ccs[kind, r, ov] = v
    rep.count("condition_codes", len(ccs))
    jobs = []
    for op, kinds in (("op_ia32_Jcc", (("Test", 0), ("Cmp", 1), ("Ucomis", 1))), ("op_amd64_jcc", (("cmp", 0), ("ucomis", 0), ("fucomi", 1)))):
        if op not in em:
            raise AnalysisError(f"no emitter of {op}")
        for F in em[op]:
            jobs.append((op, F, kinds))
    for op, F, fl in jobs:
        for flags, swaps in fl:
            for (kind, r, ov), cc in sorted(ccs.items()):
                if kind == "float" and flags not in ("Ucomis", "ucomis", "fucomi") or kind != "float" and flags in ("Ucomis", "ucomis", "fucomi"):
                    continue
                if flags.startswith("Test") and ov:
                    continue
                for perm in ((0, 1) if swaps or flags.startswith("Test") else (0,)):
                    if not ov and perm and not flags.startswith("Test") and kind == "signed":
                        continue      # a comparison with 0 has the constant on the right
                    for fall in ((), ("T",), ("F",)):
                        jump(P, rep, op, F, flags, kind, r, ov, cc, perm if swaps else 0, perm, fall)
    # set on condition
    for F in em.get("op_ia32_Setcc", []):
        for flags in ("Test", "Cmp", "Ucomis"):
            for (kind, r, ov), cc in sorted(ccs.items()):
                if (kind == "float") != (flags == "Ucomis") or flags == "Test" and ov:
                    continue
                setcc(P, rep, F, flags, kind, r, ov, cc)
    # what reads the carry flag
    for n, file in (("reads_carry", None),):
        Fs = [G for G in P.all if G.name == n and "ia32" in G.file]
        for G in Fs:
            for cc in sorted(set(ccs.values()) | {v ^ 1 for v in ccs.values()}):
                t = text(P, cc)
                if t is None or t not in X86:
                    continue
                dep = any(X86[t](dict(ZF=z, CF=0, PF=p, SF=s, OF=o)) != X86[t](dict(ZF=z, CF=1, PF=p, SF=s, OF=o)) for z in (0, 1) for p in (0, 1) for s in (0, 1) for o in (0, 1))
                v = {x for _, x in run1(P, G, [("c", cc)], C(P))}
                chk(rep, not dep or v == {("c", 1)}, f"carry/{cc}", G.loc, f"{n} says that the condition {t} (code {cc:#x}) does not depend on the carry flag")


CACHE = {}


def cands(P, op, F, cc, flags, perm, jperm, fall):
    k = (F.key, cc, flags, perm, jperm, fall)
    if k not in CACHE:
        CACHE[k] = cands1(P, op, F, cc, flags, perm, jperm, fall)
    return CACHE[k]


def cands1(P, op, F, cc, flags, perm, jperm, fall):
    node = ("p", "node")

    def permuted(loc):
        # the jump itself or the node that produces the flags
        return ("c", perm if "sub" in str(loc) else jperm)
    fields = {"ia32_condcode_attr_t.condition_code": ("c", cc), "amd64_cc_attr_t.cc": ("c", cc), "ia32_attr_t.ins_permuted": permuted, "x87_attr_t.reverse": ("c", perm)}
    c = C(P, fields, {"flags": flags}, fall)
    return run1(P, F, [node], c)


def jump(P, rep, op, F, flags, kind, r, ov, cc, swapped, perm, fall):
    P_[0] = P
    res = cands(P, op, F, cc, flags, perm, 0, fall)
    what = f"{F.name}: {kind} {relname(P, r)}, flags of {flags}{' (operands permuted)' if perm else ''}, {'next block is the ' + ('true' if fall == ('T',) else 'false') + ' successor' if fall else 'no successor follows'}"
    key = f"{F.name}/{flags}/{kind}/{r}/{perm}/{''.join(fall)}"
    if not chk(rep, bool(res), key, F.loc, f"{what}: no code is emitted"):
        return
    for st, _ in res:
        log = st.cl
        if any(e[0] == "byte" for e in log):
            code = bincode(log)
        else:
            code = x86code(lines(P, log, XCONV))
        for o in outcomes(kind):
            oo = o
            # the flags are those of the operands as the instruction has them
            fo = SWAPO[o] if swapped else o
            if flags.startswith("Test") and kind == "unsigned" and o == "lt":
                continue
            for fs in x86flags(kind, fo, bool(ov) and not flags.startswith("Test")):
                if flags.startswith("Test"):
                    if fs["CF"] or fs["OF"]:
                        continue
                got = branch(code, lambda t: X86[t](fs) if t in X86 else False, fall[0] if fall else "nowhere")
                want = "T" if holds(r, oo) else "F"
                if not chk(rep, got == want, key, F.loc, f"{what}: goes to the {dict(T='true', F='false').get(got, got)} successor when the outcome is '{o}' ({code})"):
                    return


def setcc(P, rep, F, flags, kind, r, ov, cc):
    P_[0] = P
    res = cands(P, "op_ia32_Setcc", F, cc, flags, 0, 0, ())
    what = f"{F.name}: {kind} {relname(P, r)}"
    key = f"{F.name}/{flags}/{kind}/{r}"
    if not chk(rep, bool(res), key, F.loc, f"{what}: no code is emitted"):
        return
    for st, _ in res:
        log = st.cl
        prog = []
        if any(e[0] == "byte" for e in log):
            seq = [e[1][1] & 0xff if isc(e[1]) else "?" for e in log if e[0] == "byte"]
            sets = [HW[b - 0x90] for a, b in zip(seq, seq[1:]) if a == 0x0f and b != "?" and 0x90 <= b < 0xa0]
            i, rest = 0, []
            while i < len(seq):
                if seq[i] == 0x0f:
                    i += 3     # 0F 9x modrm
                else:
                    rest.append(seq[i])
                    i += 1
            comb = "or" if 0x08 in rest else "and" if 0x20 in rest else None
            prog = (sets, comb)
        else:
            sets, comb = [], None
            for l in lines(P, log, XCONV):
                m = re.match(r"set(\w+)\s", l.strip())
                if m:
                    sets.append(m[1])
                elif l.strip().startswith(("or", "and")):
                    comb = l.strip()[:3].rstrip("b")
                    if not re.match(r"(or|and)b\s+%>R, %<R", l.strip()):
                        comb = "?"
                elif l.strip():
                    raise AnalysisError(f"unknown instruction {l!r}")
            prog = (sets, comb)
        sets, comb = prog
        if not sets or len(sets) > 1 and comb is None or any(s not in X86 for s in sets):
            raise AnalysisError(f"set sequence {prog} of {F.name} not understood")
        for o in outcomes(kind):
            if flags == "Test" and kind == "unsigned" and o == "lt":
                continue
            for fs in x86flags(kind, o, bool(ov) and flags != "Test"):
                if flags == "Test" and (fs["CF"] or fs["OF"]):
                    continue
                vs = [bool(X86[s](fs)) for s in sets]
                got = vs[0] if len(vs) == 1 else any(vs) if comb == "or" else all(vs) if comb == "and" else None
                if not chk(rep, got == holds(r, o), key, F.loc, f"{what}: the result is {got} when the outcome is '{o}' (set {', '.join(sets)} {comb or ''})"):
                    return


# ------------------------------------------------------------------ arm, sparc
ARM = {"eq": "e", "ne": "lg", "lt": "l", "le": "le", "gt": "g", "ge": "ge", "lo": "ul", "cc": "ul", "ls": "ule", "hi": "ug", "hs": "uge", "cs": "uge", "al": "leg", "": "leg"}
SPARCI = {"bn": "", "be": "e", "blu": "ul", "bleu": "ule", "bgu": "ug", "bgeu": "uge", "bne": "lg", "ba": "leg", "bl": "l", "ble": "le", "bg": "g", "bge": "ge", "bcs": "ul", "bcc": "uge", "b": "leg"}
SPARCF = {"fbn": "", "fbe": "e", "fbl": "l", "fble": "el", "fbg": "g", "fbge": "eg", "fblg": "lg", "fbo": "elg", "fbu": "n", "fbue": "en", "fbul": "ln", "fbule": "eln", "fbug": "gn", "fbuge": "egn", "fbne": "lgn", "fba": "elgn"}


def icond(c, kind, o):
    """A condition written with the letters e, l, g; a leading u: only meaningful for unsigned."""
    if c.startswith("u"):
        if kind != "unsigned":
            return None
        c = c[1:]
    elif kind == "unsigned" and c in ("l", "le", "g", "ge"):
        return None
    return o[0] in c if o != "un" else None


def risc(P, rep, em, op, field, unsf, table, jumps, arch, floats=False):
    if op not in em:
        raise AnalysisError(f"no emitter of {op}")
    for F in em[op]:
        for kind in (("float",) if floats else ("signed", "unsigned")):
            for r in rels():
                eff = r if floats else r & 7
                if eff in ((0, 15) if floats else (0, 7)):
                    continue
                for perm in ((0, 1) if arch == "arm" else (0,)):
                    for fall in ((), ("T",), ("F",)):
                        fields = {field: ("c", r), unsf: ("c", int(kind == "unsigned")), "arm_cmp_attr_t.ins_permuted": ("c", perm)}
                        calls = {"is_arm_Cmn": ("c", 0), "is_arm_Cmp": ("c", 1), "is_arm_Tst": ("c", 0), "fill_delay_slot": ("void",), "sched_prev": ("sub", "prev"), "is_Block": ("c", 0), "is_Block_": ("c", 0)}
                        res = run1(P, F, [("p", "node")], C(P, fields, calls, fall))
                        what = f"{F.name}: {kind} {relname(P, r)}{' (operands permuted)' if perm else ''}, {'next block is the ' + ('true' if fall == ('T',) else 'false') + ' successor' if fall else 'no successor follows'}"
                        key = f"{F.name}/{kind}/{r}/{perm}/{''.join(fall)}"
                        if not chk(rep, bool(res), key, F.loc, f"{what}: no code is emitted"):
                            continue
                        for st, _ in res:
                            conv = [(r"s", lambda m, a: (lambda v: v[1] if v[0] == "s" else "?")(a.pop(0))), (r"A", lambda m, a: ""), (r"L", label)]
                            code = []
                            for l in lines(P, st.cl, conv):
                                l = l.split("/*")[0].strip()
                                if not l or l == "nop":
                                    continue
                                m = re.match(r"(\w+)\s+@(\w)$", l)
                                if not m:
                                    raise AnalysisError(f"unknown instruction {l!r}")
                                t = m[1]
                                if t in jumps:
                                    code.append((None, m[2]))
                                else:
                                    t = t[1:] if arch == "arm" else t
                                    if not chk(rep, t in table, key, F.loc, f"{what}: no such condition: {m[1]}"):
                                        return
                                    code.append((t, m[2]))
                            for o in outcomes(kind):
                                fo = SWAPO[o] if perm else o
                                def cond(t):
                                    if floats:
                                        return {"eq": "e", "lt": "l", "gt": "g", "un": "n"}[fo] in table[t]
                                    return icond(table[t], kind, fo)
                                bad = [t for t, _ in code if t is not None and cond(t) is None]
                                got = branch(code, lambda t: bool(cond(t)), fall[0] if fall else "nowhere")
                                want = "T" if holds(r, o) else "F"
                                if not chk(rep, got == want and not bad, key, F.loc, f"{what}: goes to the {dict(T='true', F='false').get(got, got)} successor when the outcome is '{o}' ({code})"):
                                    break


# ------------------------------------------------------------------ mips, riscv
def ev(t, o, kind):
    """Value of an operand term as an ordering key; L against R has outcome o."""
    if t == ("opd", "L"):
        return {"eq": 0, "lt": -1, "gt": 1}[o]
    if t == ("opd", "R") or t == ("opd", "zero"):
        return 0
    if t[0] == "slt":
        a, b = ev(t[2], o, kind), ev(t[3], o, kind)
        if a is None or b is None or t[1] != kind:
            return None
        return int(a < b)
    return None


def isa(P, rep, em, arch):
    reg = {op: transformer(P, arch, op) for op in ("op_Cond", "op_Cmp")}
    name = P.func(f"{arch}_get_cond_name")

    def ext(c, ip, st, args, fr):
        return [(st, args[0])]

    for kind in ("signed", "unsigned"):
        for r in rels():
            if r & 7 in (0, 7):
                continue
            for null in (0, 1):
                calls = dict(mode(kind))
                calls.update({
                    "get_Cond_selector": ("opd", "cmp"), "get_Cond_selector_": ("opd", "cmp"), "is_Cmp": ("c", 1), "is_Cmp_": ("c", 1), "get_Cmp_left": ("opd", "L"), "get_Cmp_right": ("opd", "R"), "get_Cmp_left_": ("opd", "L"), "get_Cmp_right_": ("opd", "R"),
                    "get_Cmp_relation": ("c", r), "get_Cmp_relation_": ("c", r), "get_irn_mode": ("p", "mode"), "get_irn_mode_": ("p", "mode"), "be_mode_needs_gp_reg": ("c", 1), "is_irn_null": ("c", null),
                    "extend_value": ext, "get_irn_dbg_info": ("p", "dbg"), "be_transform_nodes_block": ("p", "block"), "get_Start_zero": ("opd", "zero"), "get_irn_irg": ("p", "irg"), "get_irn_irg_": ("p", "irg")})

                def tn(c, ip, st, args, fr):
                    if args[0] == ("opd", "cmp"):
                        return ip.run(reg["op_Cmp"], [args[0]], st, fr)
                    return [(st, args[0])]
                calls["be_transform_node"] = tn
                for sx, k in (("slt", "signed"), ("sltu", "unsigned")):
                    calls[f"new_bd_{arch}_{sx}"] = lambda c, ip, st, args, fr, k=k: [(st, ("slt", k, args[2], args[3]))]

                def bcc(c, ip, st, args, fr):
                    return [(st, ("bcc", args[2], args[3], args[4]))]

                def bccz(c, ip, st, args, fr):
                    return [(st, ("bcc", args[2], ("opd", "zero"), args[3]))]
                calls[f"new_bd_{arch}_bcc"] = bcc
                calls[f"new_bd_{arch}_bcc_z"] = bccz
                F = reg["op_Cond"]
                res = run1(P, F, [("p", "node")], C(P, {}, calls))
                what = f"{arch}: {kind} {relname(P, r)}{' against 0' if null else ''}"
                key = f"{arch}/{kind}/{r}/{null}"
                if not chk(rep, bool(res), key, F.loc, f"{what}: no instruction is selected"):
                    continue
                for st, v in res:
                    if v is None or v[0] != "bcc" or not isc(v[3]):
                        raise AnalysisError(f"{what}: result {str(v)[:100]}")
                    for E in set(em.get(f"op_{arch}_bcc", [])):
                        for fall in ((), ("T",), ("F",)):
                            k = (E.key, v[3], fall)
                            if k not in CACHE:
                                CACHE[k] = run1(P, E, [("p", "node")], C(P, {f"{arch}_cond_attr_t.cond": v[3]}, {}, fall))
                            seq = CACHE[k]
                            for s2, _ in seq:
                                code = []

                                def cn(m, a):
                                    t = {x for _, x in run1(P, name, [a.pop(0)], C(P))}
                                    t = t.pop() if len(t) == 1 else ("?", "?")
                                    return t[1] if t[0] == "s" else "?"
                                for l in lines(P, s2.cl, [(r"C", cn), (r"S\d", lambda m, a: m[0]), (r"L", label)]):
                                    l = l.split("/*")[0].strip()
                                    if not l or l == "nop":
                                        continue
                                    m = re.match(r"(\w+)\s+(?:(S0),\s*(?:(S1),\s*)?)?@(\w)$", l)
                                    if not m and "?" in l:
                                        chk(rep, False, key + "/" + "".join(fall), E.loc, f"{what}: the jump uses a condition without a name ({l})")
                                        continue
                                    if not m:
                                        raise AnalysisError(f"unknown instruction {l!r}")
                                    code.append((None if m[1] in ("b", "j") and not m[2] else (m[1], m[3]), m[4]))
                                for o in outcomes(kind):
                                    if null and kind == "unsigned" and o == "lt":
                                        continue
                                    def cond(t):
                                        n, two = t
                                        n = n[1:]
                                        z = n.endswith("z") and not two
                                        n = n[:-1] if z else n
                                        u = n.endswith("u")
                                        n = n[:-1] if u else n
                                        a, b = ev(v[1], o, kind), ev(v[2], o, kind)
                                        if a is None or b is None:
                                            return None
                                        direct = v[1][0] == "opd" and v[2][0] == "opd"
                                        if n not in ("eq", "ne"):
                                            if not direct or u != (kind == "unsigned") or z and v[2] not in (("opd", "zero"),) :
                                                return None
                                        return {"eq": a == b, "ne": a != b, "lt": a < b, "ge": a >= b, "gt": a > b, "le": a <= b}.get(n)
                                    bad = [t for t, _ in code if t is not None and cond(t) is None]
                                    got = branch(code, lambda t: bool(cond(t)), fall[0] if fall else "nowhere")
                                    want = "T" if holds(r, o) else "F"
                                    if v[2] == ("opd", "zero") and v[1][0] == "opd" and not null:
                                        bad = ["compares with 0"]
                                    if not chk(rep, got == want and not bad, key + "/" + "".join(fall), E.loc, f"{what}: goes to the {dict(T='true', F='false').get(got, got)} successor when the outcome is '{o}' ({code} on {v[1:3]})"):
                                        break


def transformer(P, arch, op):
    reg = {}
    for F in P.all:
        if f"/{arch}/" not in F.file:
            continue
        for x in walk(F.body):
            if x[0] == "c" and callee_name(x) == "be_set_transform_function":
                a, b = strip(x[4][0]), strip(x[4][1])
                while b[0] == "u":
                    b = strip(b[3])
                if a[0] == "v" and b[0] == "v":
                    reg[a[2]] = P.func(b[2], F.file)
    F = reg.get(op)
    if F is None:
        raise AnalysisError(f"{arch}: no transformer of {op[3:]}")
    return F


def term(n):
    """A constructor call as a term."""
    def f(c, ip, st, args, fr):
        return [(st, ("new_", n) + tuple(args))]
    return f


def both(d):
    for k in list(d):
        d[k + "_"] = d[k]
    return d


def passthrough(P, rep, arch):
    """gen_Cond hands the relation of the Cmp to the jump, the signedness of its operands too."""
    F = transformer(P, arch, "op_Cond")
    for kind in KINDS:
        for r in rels():
            if r & 7 in (0, 7) and kind != "float" or r in (0, 15):
                continue
            if arch == "arm" and kind == "float":
                continue
            calls = dict(mode(kind))
            calls.update(both({"get_Cond_selector": ("opd", "get_Cond_selector"), "get_Cmp_left": ("opd", "get_Cmp_left"), "get_Cmp_right": ("opd", "get_Cmp_right"), "get_irn_mode": ("opd", "mode"),
                               "get_Cmp_relation": ("c", r), "is_Cmp": ("c", 1), "is_Builtin": ("c", 0), "is_Const": ("c", 0)}))
            calls.update({"be_transform_node": ("opd", "flags"), "be_transform_nodes_block": ("p", "block"), "get_irn_dbg_info": ("p", "dbg"), "is_irn_null": ("c", 0)})
            for n in ("sparc_Bicc", "sparc_fbfcc", "arm_Bcc"):
                calls["new_bd_" + n] = term(n)
            res = run1(P, F, [("p", "node")], C(P, {}, calls))
            key = f"{arch}/cond/{kind}/{r}"
            if not chk(rep, bool(res), key, F.loc, f"{arch}: no jump is selected for {kind} {relname(P, r)}"):
                continue
            for st, v in res:
                if v is None or v[0] != "new_":
                    raise AnalysisError(f"{arch} Cond: result {str(v)[:100]}")
                ok = ("c", r) in v[4:7]
                if arch == "sparc":
                    fl = v[1] == "sparc_fbfcc"
                    ok = ok and fl == (kind == "float")
                    if not fl:
                        ok = ok and v[6] == ("c", int(kind == "unsigned"))
                chk(rep, ok, key, F.loc, f"{arch}: {kind} {relname(P, r)} is turned into {v[1]} with {str(v[4:])[:80]}")


def x86cond(P, rep, arch, jcc):
    """The condition code gen_Cond picks for a Cmp, whatever is known about the operands."""
    F = transformer(P, arch, "op_Cond")
    table = {}
    for kind in KINDS:
        for ov in (0, 1):
            for r in rels():
                v = const(P, "ir_relation_to_x86_condition_code", [r, ("p", "mode"), ov], C(P, calls=mode(kind)))
                if v is not None:
                    table.setdefault((kind, ov, v), set()).add(r)
    for kind in KINDS:
        for r in rels():
            if r & 7 in (0, 7) and kind != "float" or r in (0, 15):
                continue
            for null in (0, 1):
                for possible in ((15, 14, 9, 8, 7, 6) if kind == "float" else (7, 1, 2, 3, 4, 5, 6)):
                    for bt in ((0, 1) if null and kind != "float" else (0,)):
                        calls = dict(mode(kind))
                        calls.update(both({"get_Cond_selector": ("opd", "cmp"), "get_Cmp_left": ("opd", "left"), "get_Cmp_right": ("opd", "right"), "get_irn_mode": ("opd", "mode"),
                                           "get_Cmp_relation": ("c", r), "is_Cmp": ("c", 1), "is_Builtin": ("c", 0), "is_Const": ("c", 0), "is_And": ("c", bt), "is_Shl": ("c", bt), "is_Const_one": ("c", bt),
                                           "get_And_left": ("opd", "al"), "get_And_right": ("opd", "ar"), "get_Shl_left": ("opd", "sl"), "get_Shl_right": ("opd", "sr")}))
                        calls.update({"be_transform_node": ("opd", "flags"), "be_transform_nodes_block": ("p", "block"), "get_irn_dbg_info": ("p", "dbg"), "is_irn_null": ("c", null), "is_irn_one": ("c", 1),
                                      "ir_get_possible_cmp_relations": ("c", possible), "is_Shl_1": ("c", bt), "new_bd_ia32_Bt": term("bt"), "new_bd_" + jcc: term(jcc)})
                        res = run1(P, F, [("p", "node")], C(P, {}, calls))
                        key = f"{arch}/cond/{kind}/{r}/{null}/{possible}/{bt}"
                        what = f"{arch}: {kind} {relname(P, r)}{' against 0' if null else ''} ({relname(P, possible)} possible)"
                        seen = r & possible
                        if not res and (seen == 0 or seen == possible):
                            continue
                        if not chk(rep, bool(res), key, F.loc, f"{what}: no jump is selected"):
                            continue
                        for st, v in res:
                            if v is None or v[0] != "new_" or len(v) < 6:
                                raise AnalysisError(f"{arch} Cond: result {str(v)[:100]}")
                            fl, cc = v[4], v[5]
                            if not isc(cc):
                                raise AnalysisError(f"{what}: condition code {str(cc)[:80]}")
                            if fl[0] == "new_":
                                t = text(P, cc[1])
                                bad = [o for o in outcomes(kind) if OUT[o] & possible and not (kind == "unsigned" and o == "lt")
                                       and (t not in X86 or any(bool(X86[t](dict(CF=int(o != "eq"), ZF=z, PF=z, SF=z, OF=z))) != holds(r, o) for z in (0, 1)))]
                                chk(rep, not bad, key, F.loc, f"{what}: the bit test with condition {t} decides wrongly when the outcome is {bad}")
                                continue
                            mask = possible
                            if null and kind == "unsigned":
                                mask &= ~2
                            cands = table.get((kind, int(not null), cc[1]), set())
                            chk(rep, any((q ^ r) & mask == 0 for q in cands), key, F.loc,
                                f"{what}: selected condition code {cc[1]:#x}, the one of {', '.join(sorted(relname(P, q) for q in cands)) or 'no relation'}")


# ------------------------------------------------------------------ the compare instructions
def rooted(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, tuple):
        if t[:1] == ("opd",):
            acc.add(t[1])
        else:
            for x in t:
                rooted(x, acc)
    return acc


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subterms(x)


def isnode(t):
    return t.replace("const", "").replace(" ", "") in ("structir_node*", "ir_node*")


class CMP(C):
    """Selection of a compare instruction: operands L and R, helpers of the file are followed, what they ask may be answered either way."""
    maxs = 600
    maxdepth = 10

    def inline(self, ip, n, F, fr):
        if F.file.endswith(".h") or n.startswith("get_") and "relation" in n:
            return True
        if n.startswith("be_") or "address" in n and F.ret == "void" or F.file != self.file or len(str(F.body)) > 50000:
            return False
        return not self.asks(F) or len(F.params) == 1 and isnode(F.params[0][2]) and len(str(F.body)) < 2500

    def branch(self, ip, st, term, truth, line, frame):
        if term[0] == "op" and term[1] in ("==", "!=") and {term[2], term[3]} == {("opd", "L"), ("opd", "R")} and truth == (term[1] == "=="):
            return False
        return not any(st.val(("opd", x)) == ("c", 0) for x in "LR")

    @staticmethod
    def asks(F):
        """only answers a question about its arguments"""
        return F.ret in ("_Bool", "bool") and not any("**" in t.replace(" ", "") or t.replace(" ", "").startswith(("_Bool*", "bool*")) for _, _, t in F.params)

    def call(self, ip, st, c, n, args, fr):
        if n in ("is_ia32_Sub", "is_ia32_SubMem") and rooted(args[0]) == {"S"}:
            return [(st, ("c", int(n == "is_ia32_Sub")))]
        if n in ("skip_Proj", "be_get_or_make_Proj_for_pn", "be_new_Proj") and rooted(args[0]) == {"S"}:
            return [(st, args[0])]
        if n and n.startswith("new_bd_"):
            v = ("new_", n[7:]) + tuple(args)
            prm = [p[0] for p in self.P.func(n).params]
            if "in" in prm and args[prm.index("in")][:1] == ("adr",):
                v += (("ins",) + inputs(self.P, st, args[prm.index("in")][1]),)
            return [(st, v)]
        if n in ("be_upper_bits_clean", "be_upper_bits_clean_"):
            return [(st, ("c", 0))]
        if n and n not in self.calls and n.startswith(("set_Cmp_", "set_irn_n")):
            return self.log(st, n, args[-1])
        if n and n not in self.calls and args:
            F = self.P.resolve(n, fr.F.file)
            if "address" in n and F is not None and F.ret == "void":
                r = set()
                for a in args:
                    if not any(x[:1] == ("new_",) for x in subterms(a)):
                        rooted(a, r)
                return self.log(st, "address", tuple(sorted(r & {"L", "R"})))
            if F is not None and "mmediate" in n and isnode(F.ret):
                r = set()
                for a in args:
                    rooted(a, r)
                if len(r & {"L", "R"}) == 1:
                    s = st.copy()
                    return [(st, ("c", 0)), (s, ("imm", ("opd", (r & {"L", "R"}).pop())))]
            if F is not None and not F.file.endswith(".h") and isnode(F.ret) and not self.inline(ip, n, F, fr) or F is not None and isnode(F.ret) and ("transform" in n or "exten" in n or "skip_" in n):
                r = set()
                for a in args:
                    rooted(a, r)
                built = [a for a in args if any(x[:1] == ("new_",) for x in subterms(a))]
                if built:
                    return [(st, ("wrap", built[0]))]
                if r == {"S"}:
                    return [(st, ("opd", "S"))]
                if len(r & {"L", "R"}) == 1:
                    v = ("opd", (r & {"L", "R"}).pop())
                    return [(st, ("ext", v) if "exten" in n or any(a[:1] == ("ext",) for a in args) else v)]
            if F is not None and F.ret in ("_Bool", "bool") and not self.inline(ip, n, F, fr) and not F.file.endswith(".h"):
                return [(self.log(st, "yes", tuple(args))[0][0], ("c", 1)), (st, ("c", 0))]
        return C.call(self, ip, st, c, n, args, fr)


def operands(t, st):
    """the operands a compare reads, in the order of its arguments; (name, extended, constant)"""
    out = []

    def go(x, ext, const):
        if isinstance(x, tuple):
            if x[:1] == ("opd",):
                if x[1] in ("L", "R"):
                    out.append((x[1], ext, const))
                return
            if x[:1] == ("site",):
                return
            e = ext or x[:1] == ("ext",)
            k = const or x[:1] in (("call",), ("ld",), ("op",), ("op1",))
            for y in x[1:] if x and isinstance(x[0], str) else x:
                go(y, e, k)
    go(t, False, False)
    return out


def strip_wrap(v):
    """the compare instruction inside Projs and flag conversions"""
    best = None

    def go(x):
        nonlocal best
        if isinstance(x, tuple):
            if x[:1] == ("site",):
                return
            if x[:1] == ("new_",):
                inner = [y for y in x[2:] if isinstance(y, tuple)]
                if any(rooted(y) & {"L", "R", "S"} for y in inner) or any(y[:1] == ("adr",) for y in inner):
                    best = x
            for y in x:
                go(y)
    go(v)
    return best


def compares(P, rep, arch, isa_float=True):
    """Every compare instruction reads the operands of the Cmp in order (or says that it swapped them), both extended alike,
    and knows whether they are unsigned."""
    F = transformer(P, arch, "op_Cmp")
    CMP.file = F.file
    for kind in KINDS:
        for null in (0, 1):
            for subs in ((("L", "R"), ("R", "L")) if arch == "ia32" else (("L", "R"),)):
                calls = dict(mode(kind))
                calls.update(both({"get_Cmp_left": ("opd", "L"), "get_Cmp_right": ("opd", "R"), "get_irn_mode": ("p", "mode"), "get_Cmp_relation": ("c", 2),
                                   "get_irn_out_edge_first": ("s", "edge"), "get_irn_out_edge_first_kind": ("s", "edge"), "get_irn_out_edge_next": ("c", 0), "get_edge_src_irn": ("opd", "S"),
                                   "get_Sub_left": ("opd", subs[0]), "get_Sub_right": ("opd", subs[1]), "is_irn_null": ("c", null)}))
                calls.update({"be_transform_nodes_block": ("p", "block"), "get_irn_dbg_info": ("p", "dbg"), "get_nodes_block": ("p", "b"), "x86_size_from_mode": ("c", 2)})
                for q in ("is_Sub", "is_Sub_"):
                    calls[q] = lambda c, ip, st, a, fr: [(st, ("c", int(a[0] == ("opd", "S"))))]
                for bits in (8, 32) if arch != "amd64" and kind != "float" else (32, 64):
                    word = 64 if arch == "amd64" else 32
                    calls.update(both({"get_mode_size_bits": lambda c, ip, st, a, fr: [(st, ("c", bits if a[0] == ("p", "mode") else word))],
                                       "get_mode_size_bytes": lambda c, ip, st, a, fr: [(st, ("c", (bits if a[0] == ("p", "mode") else word) // 8))]}))
                    try:
                        res = run1(P, F, [("p", "node")], CMP(P, {}, calls))
                    except AnalysisError:
                        rep.count("compares_not_followed")
                        continue
                    what = f"{arch}: {kind} {'null ' if null else ''}compare of {bits} bit"
                    seen = set()
                    for st, v in res:
                        if v is None:
                            continue
                        log = st.cl or ()
                        key = (str(v), log)
                        if key in seen:
                            continue
                        seen.add(key)
                        compared(P, rep, arch, kind, null, subs, st, v, log, F, what)


def compared(P, rep, arch, kind, null, subs, st, v, log, F, what):
    t = strip_wrap(v)
    sets = {e[0].rstrip("_"): e[1] for e in log if isinstance(e[0], str) and e[0].startswith("set_Cmp_")}
    addr = [e[1][0] for e in log if e[0] == "address" and e[1]]
    coded = [e[1] for e in log if e[0] == "yes" and rooted(e[1])]
    key = f"compare/{arch}/{kind}/{t[1] if t else 'sub'}"
    rep.count("compares")
    if rooted(v) == {"S"} or t is None and "S" in rooted(v):
        # the flags of a subtraction
        want = {} if subs == ("L", "R") else {"set_Cmp_relation": ("c", 4), "set_Cmp_left": ("opd", "R"), "set_Cmp_right": ("opd", "L")}
        got = {k: x for k, x in sets.items()}
        chk(rep, got == want, key + "/" + subs[0], F.loc, f"{what}: takes the flags of {subs[0]} - {subs[1]} but "
            + ("leaves the Cmp as it was" if not got else f"turns the Cmp into {got.get('set_Cmp_left', ('', 'L'))[1]} {relname(P, got.get('set_Cmp_relation', ('c', 2))[1])} {got.get('set_Cmp_right', ('', 'R'))[1]} (relation less before)"))
        return
    chk(rep, not sets, key + "/changed", F.loc, f"{what}: the Cmp is changed although its own operands are compared")
    if t is None:
        rep.count("compares_not_followed")
        return
    name, args = t[1], t[2:]
    C0 = P.func("new_bd_" + name)
    prm = [p[0] for p in C0.params]
    unsigned = next((a for p, a in zip(prm, args) if "unsigned" in p), None)
    if unsigned is not None and isc(unsigned) and kind != "float":
        chk(rep, bool(unsigned[1]) == (kind == "unsigned"), key + "/sign", F.loc, f"{what}: {name} is built as {'an unsigned' if unsigned[1] else 'a signed'} comparison")
    perm = next((a for p, a in zip(prm, args) if "permuted" in p), ("c", 0))
    if not isc(perm):
        rep.count("compares_not_followed")
        return
    order = []
    if "in" in prm and prm.index("in") < len(args) and args[prm.index("in")][0] == "adr":
        order = amd64ops(args[-1], st, addr)
        if order is None:
            rep.count("compares_not_followed")
            return
    else:
        ops = [a for p, a in zip(prm, args) if p not in ("dbgi", "block", "base", "index", "mem", "size")]
        for a in ops:
            order += operands(a, st)
        free = [a for p, a in zip(prm, args) if p in ("left", "right")]
        if addr and len(order) < 2 and len(free) == 2:
            if operands(free[0], st):
                order = order + [(addr[-1], False, False)]
            else:
                order = [(addr[-1], False, False)] + order
    if arch == "arm" and name.endswith("_imm") and coded:
        # the value which the encoding was found for
        val = next((a for a in reversed(coded) if any(rooted(x) and x[:1] != ("opd",) for x in a)), coded[-1])
        order = order + [(n, False, True) for n in sorted(rooted(val) & {"L", "R"})]
        neg = any(isinstance(x, tuple) and x[:2] == ("op1", "-") for x in subterms(val))
        chk(rep, neg == ("Cmn" in name), key + "/negated", F.loc, f"{what}: {name} is given {'the negated' if neg else 'the'} constant")
    if null and ("call", "get_And_left") in {x[:2] for x in subterms(t)}:
        return
    names = []
    for o in order:
        if not names or names[-1] != o[0]:
            names.append(o[0])
    if null and set(names) <= {"L"}:
        return        # compared against 0
    ok = names == (["R", "L"] if perm[1] else ["L", "R"])
    chk(rep, ok, key + "/order", F.loc, f"{what}: {name} compares {' with '.join({'L': 'the left operand', 'R': 'the right operand'}[n] for n in names) or 'nothing'}{' and says that they are swapped' if perm[1] else ''}")
    ext = {o[0]: o[1] for o in order if not o[2]}
    if len(ext) == 2 and kind != "float":
        chk(rep, ext["L"] == ext["R"], key + "/extension", F.loc, f"{what}: {name} compares one operand extended and the other one not")


def inputs(P, st, arr):
    """what the nodes and the addressing of an amd64 instruction are when it is built"""
    while arr[0] == "ix":
        arr = arr[1]
    ins = {l[2][1]: v for l, v in st.mem.items() if l[0] == "ix" and l[1] == arr and isc(l[2])}
    get = {}
    for l, v in st.mem.items():
        if l[0] == "f" and l[2].rsplit(".", 1)[1] in ("op_mode", "base_input", "reg_input") and isc(v):
            get[l[2].rsplit(".", 1)[1]] = v[1]
    om = {P.econst[n][0]: n for n in P.econst if n.startswith("AMD64_OP_")}.get(get.get("op_mode"), "")
    return (("mode", om), ins.get(get.get("base_input"), ("none",)), ins.get(get.get("reg_input"), ("none",)))


def amd64ops(t, st, addr):
    om, base, reg = t[1][1], operands(t[2], st), operands(t[3], st)
    if om == "AMD64_OP_REG_REG":
        return base + reg
    if om == "AMD64_OP_REG_IMM":
        return base + [("R", False, True)]
    if om == "AMD64_OP_REG_ADDR":
        return reg + [(addr[-1], False, False)] if addr else None
    return None


# ------------------------------------------------------------------ constants as conditions
def constants(P, rep, arch, jcc):
    """A jump whose condition is a constant: the flag that is set and the condition make it taken exactly for a non-null constant."""
    F = transformer(P, arch, "op_Cond")
    for null in (0, 1):
        calls = both({"get_Cond_selector": ("opd", "cmp"), "is_Cmp": ("c", 0), "is_Const": ("c", 1), "is_Const_null": ("c", null), "is_Const_one": ("c", 1 - null), "is_irn_null": ("c", null),
                      "is_irn_one": ("c", 1 - null), "is_Const_all_one": ("c", 1 - null), "tarval_is_null": ("c", null), "is_Builtin": ("c", 0), "get_irn_mode": ("opd", "mode")})
        calls.update({"be_transform_nodes_block": ("p", "block"), "get_irn_dbg_info": ("p", "dbg"), "get_tarval_b_true": ("opd", "true"), "get_Const_tarval": ("opd", ("false", "true")[1 - null])})
        for n, t in ((f"new_bd_{arch}_Stc", "stc"), (f"new_bd_{arch}_Clc", "clc"), ("new_bd_" + jcc, jcc)):
            calls[n] = term(t)
        try:
            res = run1(P, F, [("p", "node")], C(P, {}, calls))
        except AnalysisError:
            continue
        for st, v in res:
            if v is None or v[0] != "new_" or v[1] != jcc or len(v) < 6 or not isc(v[5]) or v[4][:1] != ("new_",):
                continue
            t = text(P, v[5][1])
            cf = int(v[4][1] == "stc")
            got = {bool(X86[t](dict(CF=cf, ZF=z, PF=p, SF=s, OF=o))) for z in (0, 1) for p in (0, 1) for s in (0, 1) for o in (0, 1)} if t in X86 else set()
            chk(rep, got == {not null}, f"{arch}/cond/const/{null}", F.loc, f"{arch}: condition {t} after {v[4][1]} is not taken exactly when the constant is not null (constant {'is' if null else 'is not'} null)")


# ------------------------------------------------------------------ tests that are left out
ARITH = ("Adc", "Add", "Dec", "Inc", "Neg", "Sbb", "Sbb0", "Sub", "NegMem")
LOGIC = ("And", "Or", "Xor", "Popcnt")
SHIFT = ("Shl", "Shr", "Sar", "ShlD", "ShrD")


def produced(op, high, count):
    """The flags an instruction leaves for each class of its result; None: nothing is known."""
    bits = (0, 1)
    for v in ("zero", "pos", "neg"):
        z, s = int(v == "zero"), int(v == "neg")
        if op in LOGIC and not high:
            yield from ((v, dict(ZF=z, SF=s, CF=0, OF=0, PF=p)) for p in bits)
        elif (op in ARITH or op in SHIFT and count not in (None, 0)) and not high:
            yield from ((v, dict(ZF=z, SF=s, CF=c, OF=o, PF=p)) for p in bits for c in bits for o in bits)
        elif op in ("Mul", "IMul1OP") and high:
            cs = (1 - z,) if op == "Mul" else bits
            yield from ((v, dict(ZF=a, SF=b, CF=c, OF=c, PF=p)) for p in bits for c in cs for a in bits for b in bits)
        else:
            yield from ((v, dict(ZF=a, SF=b, CF=c, OF=o, PF=p)) for p in bits for c in bits for o in bits for a in bits for b in bits)


def registered(P, fn, arch):
    reg = {}
    for F in P.all:
        if f"/{arch}/" not in F.file:
            continue
        for x in walk(F.body):
            if x[0] == "c" and (callee_name(x) or "").startswith(fn) and len(x[4]) == 2:
                a, b = strip(x[4][0]), strip(x[4][1])
                while b[0] == "u":
                    b = strip(b[3])
                if a[0] == "v" and b[0] == "v" and b[4] == "f":
                    reg[a[2]] = P.func(b[2], F.file)
    return reg


class PEEP(C):
    maxs = 200

    def branch(self, ip, st, term, truth, line, frame):
        return True


def tests(P, rep):
    """A Test of a value against 0 is left out only if the flags the users look at say the same after the instruction that computed the value."""
    F = next((f for o, f in registered(P, "register_peephole_optimization", "ia32").items() if o == "op_ia32_Test"), None)
    if F is None:
        return
    ccs = {c: text(P, c) for c in {v[0] for n, v in P.econst.items() if n.startswith("x86_cc_")} if 0 <= c < 0x40}
    ccs = {c: t for c, t in ccs.items() if t in X86 and c < 16}
    ops = {n[9:]: v[0] for n, v in P.econst.items() if n.startswith("iro_ia32_") and not n.endswith(("first", "last"))}
    pos = {n: v[0] for n, v in P.econst.items() if n.startswith("n_ia32_")}
    low = P.econst["pn_ia32_res"][0]
    V, OP, N = ("opd", "value"), ("opd", "op"), ("p", "node")
    taken = 0
    for op, code in sorted(ops.items()):
        pns = {low: False}
        if f"pn_ia32_{op}_res_high" in P.econst:
            pns = {P.econst[f"pn_ia32_{op}_res_high"][0]: True, P.econst[f"pn_ia32_{op}_res_low"][0]: False} if f"pn_ia32_{op}_res_low" in P.econst else {P.econst[f"pn_ia32_{op}_res_high"][0]: True, low: False}
        for pn, high in pns.items():
            for count in (None, 0, 1, 32, 33) if op in SHIFT else (None,):
                for size in ((2, 2), (2, 0), (0, 2)):
                    for cc, t in ccs.items():
                        def inp(c, ip, st, a, fr, cp=pos.get(f"n_ia32_{op}_count")):
                            if a[0] == N:
                                return [(st, V if a[1] in (("c", pos["n_ia32_Test_left"]), ("c", pos["n_ia32_Test_right"])) else ("opd", "other"))]
                            return [(st, ("imm",) if a[1] == ("c", cp) else ("opd", "other"))]

                        def isimm(c, ip, st, a, fr):
                            return [(st, ("c", int(a[0] == ("imm",) and count is not None)))]
                        calls = both({"get_irn_n": inp, "is_Proj": lambda c, ip, st, a, fr: [(st, ("c", int(a[0] == V)))], "get_Proj_pred": OP, "get_Proj_num": ("c", pn), "get_irn_mode": ("opd", "mode"),
                                      "get_nodes_block": ("opd", "block"), "sched_prev": OP, "get_irn_out_edge_first": ("s", "edge"), "get_irn_out_edge_first_kind": ("s", "edge"),
                                      "get_irn_out_edge_next": ("c", 0), "get_edge_src_irn": ("opd", "user"), "get_irn_n_edges": ("c", 2), "is_ia32_Immediate": isimm,
                                      "is_ia32_irn": ("c", 1), "is_ia32_Jcc": lambda c, ip, st, a, fr: [(st, ("c", int(a[0] == ("opd", "user"))))], "is_ia32_CMovcc": ("c", 0), "is_ia32_Setcc": ("c", 0), "is_ia32_SetccMem": ("c", 0),
                                      "get_ia32_irn_opcode": ("c", code), "get_ia32_condcode": ("c", cc), "set_ia32_condcode": lambda c, ip, st, a, fr: c.log(st, "cc", a[1]),
                                      "be_peephole_exchange": lambda c, ip, st, a, fr: c.log(st, "gone"), "be_peephole_to_tuple": ("void",), "set_irn_mode": ("void",), "kill_node": ("void",),
                                      "be_new_Proj_reg": ("opd", "flags"), "arch_irn_is": ("c", 0)})

                        def fld(i, name):
                            def f(loc):
                                r = str(loc)
                                return ("c", size[0 if "'op'" in r else 1]) if "'op'" in r or "('p', 'node')" in r else None
                            return f
                        fields = {"ia32_attr_t.size": fld(0, "size"), "x86_imm32_t.offset": lambda loc: ("c", count or 0), "x86_imm32_t.entity": lambda loc: ("c", 0)}
                        try:
                            res = run1(P, F, [N], PEEP(P, fields, calls))
                        except AnalysisError:
                            rep.count("tests_not_followed")
                            continue
                        rep.count("tests")
                        for st, v in res:
                            if not any(e[0] == "gone" for e in st.cl):
                                continue
                            taken += 1
                            new = [e[1] for e in st.cl if e[0] == "cc"]
                            nt = text(P, new[-1][1]) if new and isc(new[-1]) else t if not new else None
                            key = f"test/{op}/{'high' if high else 'res'}/{t}" + (f"/{count}" if op in SHIFT else "")
                            chk(rep, size[0] == size[1], key + "/size", F.loc, f"ia32: a Test is left out although the {op} before it works on another size")
                            cnt = None if count is None else count & 31
                            bad = None if nt not in X86 else [v for v, f in produced(op, high, cnt) if bool(X86[nt](f)) != bool(X86[t](dict(ZF=int(v == "zero"), SF=int(v == "neg"), CF=0, OF=0, PF=f["PF"])))]
                            chk(rep, bad == [], key, F.loc, f"ia32: a Test of the {'high ' if high else ''}result of {op}{'' if count is None else f' by {count}'} is left out, a user looking at {t} (now {nt}) decides differently when it is {bad and bad[0]}")
    rep.count("tests_left_out", taken)


# ------------------------------------------------------------------ flags computed again
def reused(P, rep):
    """A callback of be_sched_fix_flags that lets consumers use other flags: the other compare has the same size and its swapped operands, and the conditions are mirrored."""
    for F0 in P.all:
        if "/ir/be/" not in F0.file:
            continue
        for x in walk(F0.body):
            if x[0] != "c" or callee_name(x) != "be_sched_fix_flags" or len(x[4]) < 5:
                continue
            a = strip(x[4][4])
            while a[0] == "u":
                a = strip(a[3])
            if a[0] == "v" and a[4] == "f":
                reuse1(P, rep, P.func(a[2], F0.file))


def reuse1(P, rep, F):
    ccs = {v[0]: text(P, v[0]) for n, v in P.econst.items() if n.startswith("x86_cc_") and 0 <= v[0] < 16}
    ccs = {c: t for c, t in ccs.items() if t in ("e", "ne", "b", "ae", "be", "a", "l", "ge", "le", "g")}
    L, R = P.econst["n_ia32_binary_left"][0], P.econst["n_ia32_binary_right"][0]
    FL, AV, U = ("p", "flags"), ("p", "available"), ("p", "consumers")
    taken = 0
    for fk in ("Sub", "Cmp", "Add"):
        for ak in ("Sub", "Cmp", "Add"):
            for ops in (("x", "y", "x", "y"), ("x", "y", "y", "x"), ("x", "y", "x", "z"), ("x", "y", "y", "z"), ("x", "y", "z", "x")):
                for size in ((2, 2), (0, 2), (2, 0)):
                    for cc, t in ccs.items():
                        ins = {(FL, L): ops[0], (FL, R): ops[1], (AV, L): ops[2], (AV, R): ops[3]}

                        def kind(k):
                            return lambda c, ip, st, a, fr: [(st, ("c", int(a[0] == FL and fk == k or a[0] == AV and ak == k)))]
                        calls = both({"get_irn_n": lambda c, ip, st, a, fr: [(st, ("c", 4096 + ord(ins.get((a[0], a[1][1]), "?"))))], "get_irn_mode": ("opd", "mode"), "arch_set_irn_register_out": ("void",),
                                      "be_get_or_make_Proj_for_pn": ("opd", "proj"), "get_irn_link": ("c", 0), "get_ia32_condcode": ("c", cc), "set_ia32_condcode": lambda c, ip, st, a, fr: c.log(st, "cc", a[1]),
                                      "be_get_input_pos_for_req": ("c", 0), "set_irn_n": lambda c, ip, st, a, fr: c.log(st, "set", a[0]), "is_ia32_Sub": kind("Sub"), "is_ia32_Cmp": kind("Cmp")})
                        fields = {"ia32_attr_t.size": lambda loc: ("c", size[0 if "'flags'" in str(loc) else 1])}
                        try:
                            res = run1(P, F, [U, FL, AV], C(P, fields, calls))
                        except AnalysisError:
                            rep.count("reuses_not_followed")
                            continue
                        rep.count("reuses")
                        for st, v in res:
                            if v != ("c", 1) or not any(e[0] == "set" for e in st.cl):
                                continue
                            taken += 1
                            key = f"reuse/{fk}/{ak}/{'-'.join(ops)}/{t}"
                            chk(rep, size[0] == size[1], key + "/size", F.loc, f"{F.name}: the flags of a {ak} of another size are taken for those of the {fk}")
                            new = [e[1] for e in st.cl if e[0] == "cc"]
                            nt = text(P, new[-1][1]) if new and isc(new[-1]) else t
                            same, swap = ops[:2] == ops[2:], ops[:2] == (ops[3], ops[2])
                            bad = []
                            for k in ("signed", "unsigned"):
                                if (k == "unsigned") != (t in ("b", "ae", "be", "a")) and t not in ("e", "ne"):
                                    continue
                                for o in outcomes(k):
                                    o2 = o if same else {"lt": "gt", "gt": "lt"}.get(o, o)
                                    w = {bool(X86[t](f)) for f in x86flags(k, o, 1)}
                                    g = {bool(X86[nt](f)) for f in x86flags(k, o2, 1)} if nt in X86 else set()
                                    if w != g:
                                        bad.append(o)
                            chk(rep, (same or swap) and fk != "Add" and ak != "Add", key + "/operands", F.loc, f"{F.name}: the flags of {fk}({ops[0]}, {ops[1]}) are replaced by those of {ak}({ops[2]}, {ops[3]})")
                            chk(rep, not bad, key, F.loc, f"{F.name}: condition {t} becomes {nt} when the operands are {'the same' if same else 'swapped'}; they differ for {bad}")
    rep.count("reuses_done", taken)


# ------------------------------------------------------------------ x87
def x87(P, rep):
    """Simulated x87 compares: ins_permuted says in the end whether the instruction compares the right operand with the left one."""
    regs = registered(P, "x86_register_x87_sim", "ia32")
    for op, F in sorted(regs.items()):
        if not any(x[0] == "c" and callee_name(x) == "x86_sim_x87_fucom" for x in walk(F.body)):
            continue
        for rev in (0, 1):
            for old in (0, 1):
                fields = {}

                class X(C):
                    def load(self, ip, st, loc, fr):
                        if loc[0] == "f" and loc[2].endswith(".reverse"):
                            return ("c", rev)
                        if loc[0] == "f" and loc[2].endswith(".ins_permuted"):
                            w = [e[1] for e in st.cl if e[0] == "perm"]
                            return w[-1] if w else ("c", old)
                        return None

                    def store(self, ip, st, loc, val, line, fr):
                        if loc[0] == "f" and loc[2].endswith(".ins_permuted"):
                            st.cl = st.cl + (("perm", val),)
                calls = both({"get_irn_n": ("opd", "x"), "set_irn_op": ("void",)})
                calls.update({"x86_sim_x87_fucom": ("opd", "pop"), "x87_pop": ("void",), "x86_x87_create_fpop": ("opd", "f")})
                try:
                    res = run1(P, F, [("p", "state"), ("p", "node")], X(P, fields, calls))
                except AnalysisError:
                    rep.count("x87_not_followed")
                    continue
                for st, v in res:
                    w = [e[1] for e in st.cl if e[0] == "perm"]
                    end = w[-1] if w else ("c", old)
                    if not isc(end):
                        rep.count("x87_not_followed")
                        continue
                    rep.count("x87")
                    chk(rep, bool(end[1]) == bool(old ^ rev), f"x87/{op}/{old}{rev}", F.loc, f"{op[3:]}: operands {'swapped' if old else 'in order'}, compared in {'reverse' if rev else 'order'}, but ins_permuted is {end[1]}")


# ------------------------------------------------------------------ who changes the flags
MODIFY = {"add", "adc", "sub", "sbb", "and", "or", "xor", "neg", "inc", "dec", "shl", "shr", "sar", "rol", "ror", "shld", "shrd", "imul", "mul", "div", "idiv", "test", "cmp", "bsf", "bsr", "popcnt",
          "bt", "btc", "btr", "bts", "cmpxchg", "xadd", "lock", "stc", "cmc", "clc", "ucomis", "comis", "sahf", "fucomi", "fcomi"}


def nolines(x):
    x = strip(x)
    return {"u": lambda: (x[2], nolines(x[3])), "m": lambda: (nolines(x[2]), x[3]), "v": lambda: tuple(x[2:4])}.get(x[0], lambda: str(x))()


def adds(F, l):
    """F adds the modify_flags flag to the node in l (or to a node, without l)."""
    for x in walk(F.body):
        if x[0] == "c" and (callee_name(x) or "").strip("_") in ("arch_add_irn_flags", "arch_set_irn_flags") and (l is None or nolines(x[4][0]) == nolines(l)) and any(y[0] in ("e", "v") and len(y) > 2 and y[2] == "arch_irn_flag_modify_flags" for y in walk(x[4][1])):
            return True
    return False


def modify(P, rep, arch):
    for op, E in sorted(registered(P, "be_set_emitter", arch).items()):
        ws = set()
        for x in walk(E.body):
            if x[0] == "c" and (callee_name(x) or "").endswith("_emitf") and len(x[4]) > 1:
                s = strip(x[4][1])
                if s[0] == "s":
                    for ln in s[2].replace(";", "\n").split("\n"):
                        w = "".join(c for c in ln.strip().split("%")[0].split(" ")[0] if c.isalnum())
                        ws.add(w)
        hit = {w for w in ws if w in MODIFY or w.rstrip("bwlq") in MODIFY}
        N = P.byname.get("new_bd_" + op[3:]) if hasattr(P, "byname") else None
        try:
            N = P.func("new_bd_" + op[3:])
        except AnalysisError:
            continue
        if not hit:
            continue
        decl = any(x[0] in ("e", "v") and len(x) > 2 and x[2] == "arch_irn_flag_modify_flags" for x in walk(N.body))
        flagsout = any("REG_EFLAGS" in str(x) or "req_flags" in str(x) for x in walk(N.body) if x[0] in ("v", "u", "e"))
        rep.count("flag_instructions")
        if not decl and not flagsout:
            # or every place that makes the instruction adds the flag
            makers = [F for F in P.all if any(x[0] == "c" and callee_name(x) == "new_bd_" + op[3:] for x in walk(F.body))]
            decl = bool(makers) and all(adds(F, next((x[3] for x in walk(F.body) if x[0] == "a" and strip(x[4])[0] == "c" and callee_name(strip(x[4])) == "new_bd_" + op[3:]), None)) for F in makers)
        chk(rep, decl or flagsout, f"{arch}/modify/{op[3:]}", N.loc, f"{arch}: {op[3:]} is emitted as {', '.join(sorted(hit))}, which changes the flags, but is not declared to")


def run():
    P = Program("debug")
    rep = Report("C06", "taken(emitted sequence, outcome) = relation contains outcome", META["note"])
    algebra(P, rep)
    em = emitters(P)
    x86(P, rep, em)
    risc(P, rep, em, "op_arm_Bcc", "arm_CondJmp_attr_t.relation", "arm_cmp_attr_t.is_unsigned", ARM, ("b",), "arm")
    risc(P, rep, em, "op_sparc_Bicc", "sparc_jmp_cond_attr_t.relation", "sparc_jmp_cond_attr_t.is_unsigned", SPARCI, ("ba",), "sparc")
    risc(P, rep, em, "op_sparc_fbfcc", "sparc_jmp_cond_attr_t.relation", "sparc_jmp_cond_attr_t.is_unsigned", SPARCF, ("ba",), "sparc", True)
    isa(P, rep, em, "mips")
    isa(P, rep, em, "riscv")
    for a in ("arm", "sparc"):
        passthrough(P, rep, a)
    x86cond(P, rep, "ia32", "ia32_Jcc")
    x86cond(P, rep, "amd64", "amd64_jcc")
    for a in ("arm", "sparc", "amd64", "ia32"):
        compares(P, rep, a)
    constants(P, rep, "ia32", "ia32_Jcc")
    constants(P, rep, "amd64", "amd64_jcc")
    tests(P, rep)
    reused(P, rep)
    x87(P, rep)
    modify(P, rep, "ia32")
    modify(P, rep, "amd64")
    rep.floor("cases", 3000)
    rep.floor("condition_codes", 50)
    return rep.finish()


if __name__ == "__main__":
    main("C06", run)
