"""C11: the arguments of every formatted output call are those its format consumes."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
from prog import Program, AnalysisError, walk, strip, callee_name, show
from report import Report, main
from fmtflow import FmtFlow, Beyond

META = {
    "title": "Every formatted output call passes exactly the arguments its format consumes",
    "statement": "Every call of a function that interprets a format (the C library's printf family, Firm's ir_printf family with panic, the verifier's warnings, dumpers and debug messages, and the *_emitf functions of the back ends that write assembler) passes, for every text the format may be, the arguments its conversions consume: each conversion is one the function supports, fetches an argument that is passed, of the kind and width of that argument (an int, a 64 bit value, a double, a string, a Firm object, a register, ...), and no argument is left over. Consequently no assembler output, dump, exported text, verifier message or panic message contains garbage, crashes the compiler or panics because of its own format. The conversions Firm's printf registers, and the argument classes they fetch for each length modifier, are those its documentation lists.",
    "over": ["programs", "configurations"],
    "quant": "for every input program, target and option setting",
    "why": "Most of these calls run only for rare operations, in error paths, or with debug output turned on; Firm's own conversions and the back-end emitters are unknown to the compiler's -Wformat.",
    "files": ["ir/ir/irprintf.c", "ir/libcore/lc_printf.c", "ir/libcore/lc_printf_arg_types.def", "ir/ir/irverify.c", "ir/ir/irdump.c", "ir/ir/irio.c", "ir/be/beemitter.c", "ir/be/ia32/ia32_emitter.c",
              "ir/be/amd64/amd64_emitter.c", "ir/be/arm/arm_emitter.c", "ir/be/sparc/sparc_emitter.c", "ir/be/mips/mips_emitter.c", "ir/be/riscv/riscv_emitter.c", "ir/be/begnuas.c"],
    "mech": [("Firm's printf", "ir/libcore/lc_printf.c lc_evpprintf, registrations by firm_get_arg_env (ir/ir/irprintf.c)"), ("emitters", "the variadic functions of ir/be that fetch arguments themselves (ia32_emitf, amd64_emitf, arm_emitf, sparc_emitf, mips_emitf, riscv_emitf)"), ("calls", "every call of these, of their wrappers and of the C library's printf family")],
    "technique": "typed format-string analysis: dataflow of the literal formats to the calls, constant propagation of each literal through the variadic emitters, class comparison of the consumed with the passed arguments",
    "note": "Formats that are computed at run time (a parameter of an exported function) are not judged; pointers to different Firm objects that one conversion dispatches on (%+F and the like) are interchangeable. Signedness of integers is not distinguished.",
}

STD = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "dprintf": 1, "vprintf": 0, "vfprintf": 1, "vsprintf": 1, "vsnprintf": 2, "asprintf": 1, "vasprintf": 1}
OBJ = {"ir_node", "ir_entity", "ir_type", "ir_mode", "ir_graph", "ir_tarval", "ir_loop"}
# conversion -> class of the argument: "i" int, "d" double, "p" any pointer, "s" string, "o" Firm object, or the pointee
FIRM = {"t": "o", "e": "o", "E": "o", "T": "o", "n": "o", "O": "o", "N": "o", "m": "o", "F": "o", "I": "s", "D": "i", "G": "ir_node", "B": "bitset_t",
        "c": "i", "i": "n", "d": "n", "o": "n", "u": "n", "x": "n", "X": "n", "f": "d", "g": "d", "s": "s", "p": "p"}
STDC = {"c": "i", "i": "n", "d": "n", "o": "n", "u": "n", "x": "n", "X": "n", "f": "d", "F": "d", "g": "d", "G": "d", "e": "d", "E": "d", "a": "d", "A": "d", "s": "s", "p": "p", "n": "p"}
MODS = {"": 32, "hh": 32, "h": 32, "l": 64, "ll": 64, "z": 64, "j": 64, "t": 64}


class Bad(Exception):
    pass


def parse(fmt, firm):
    """Conversions of a format string -> list of (text, class, width)."""
    out, i, n = [], 0, len(fmt)
    while i < n:
        if fmt[i] != "%":
            i += 1
            continue
        b = i
        i += 1
        while i < n and fmt[i] in ("#0-+" if firm else "#0-+ '"):
            i += 1
        for part in (0, 1):
            if part:
                if not (i < n and fmt[i] == "."):
                    break
                i += 1
            if not firm and i < n and fmt[i] == "*":
                out.append(("*", "i", 32))
                i += 1
            while i < n and fmt[i].isdigit():
                i += 1
        if i >= n:
            raise Bad(f"ends inside the conversion '{fmt[b:]}'")
        if fmt[i] == "%":
            if i != b + 1 and not firm:
                raise Bad(f"has the conversion '{fmt[b:i + 1]}'")
            i += 1
            continue
        if firm and fmt[i] == "{":
            j = fmt.find("}", i)
            raise Bad(f"uses the named conversion {fmt[i:j + 1]}")
        m = i
        tab = FIRM if firm else STDC
        while i < n and fmt[i].isalpha() and fmt[i] not in tab:
            i += 1
        if i >= n or not fmt[i].isalpha():
            raise Bad(f"has the conversion '{fmt[b:i + 1]}', which is not supported: no argument is consumed and the following conversions fetch the wrong ones")
        mod, c = fmt[m:i], fmt[i]
        i += 1
        cl = tab[c]
        if mod not in MODS and not (mod == "L" and cl == "d"):
            raise Bad(f"has the length modifier '{mod}'")
        if mod and cl not in ("n", "d"):
            raise Bad(f"has a length modifier in '{fmt[b:i]}'")
        out.append((fmt[b:i], "L" if mod == "L" else cl, MODS.get(mod, 32)))
    return out


def tclass(ty, P):
    """Class of an argument type after the default promotions -> ("n", bits) | ("d",) | ("L",) | ("p", pointee) | None"""
    t = ty.strip()
    while t.endswith("const") or t.endswith("restrict") or t.endswith("volatile"):
        t = t.rsplit(None, 1)[0] if " " in t else t[:-5]
    if t.endswith("]"):
        return ("p", base(t[:t.index("[")]))
    if t.endswith("*"):
        return ("p", base(t[:-1]))
    if "(" in t:
        return ("p", "function")
    b = base(t)
    n = b.split()[-1]
    R = P.records.get(n) or P.records.get(b)
    if R is not None and not b.startswith("enum ") and R.size == 8 and R.fields and all(f[1].endswith("*") for f in R.fields):
        return ("p", "void")       # passed like the pointer it contains
    if b in ("float", "double"):
        return ("d",)
    if b == "long double":
        return ("L",)
    if b.startswith("enum ") or b in ("char", "signed char", "unsigned char", "bool", "_Bool", "short", "unsigned short", "int", "unsigned int", "unsigned"):
        return ("n", 32)
    if b in ("long", "unsigned long", "long long", "unsigned long long"):
        return ("n", 64)
    return None


def base(t):
    t = " ".join(w for w in t.replace("*", " * ").split() if w not in ("const", "volatile", "restrict"))
    return t[7:] if t.startswith("struct ") and "*" not in t else t


def fits(cl, w, tc):
    if tc is None:
        return False
    if cl == "i":
        return tc == ("n", 32)
    if cl == "n":
        return tc == ("n", w)
    if cl in ("d", "L"):
        return tc == (cl,)
    if tc[0] != "p":
        return False
    if cl == "p":
        return True
    if cl == "s":
        return tc[1] in ("char", "unsigned char", "signed char", "void")
    if cl == "o":
        return tc[1] in OBJ or tc[1] == "void"
    return tc[1] in (cl, "void")


class Sinks:
    """Functions that interpret a format: key -> (dialect, format parameter, variadic arguments follow)."""

    def __init__(self, P):
        self.P = P
        self.emit = {}
        self.wrap = {}       # key -> (dialect, index)
        roots = {n: ("std", i) for n, i in STD.items()}
        core = P.funcs.get("lc_evpprintf")
        if core is None:
            raise AnalysisError("lc_evpprintf not found")
        self.wrap[core.key] = ("firm", index(core, "const char*"))
        for F in P.all:
            if F.variadic and any(x[0] == "va" for x in walk(F.body)):
                i = max((j for j, p in enumerate(F.params) if base(p[2].rstrip("const ")) .startswith("char") or p[2].replace("const", "").replace(" ", "") == "char*"), default=None)
                if i is not None and i == len(F.params) - 1:
                    self.emit[F.key] = (F, i)
        self.roots = roots
        ch = True
        while ch:
            ch = False
            for F in P.all:
                if F.key in self.wrap or F.key in self.emit:
                    continue
                if not F.variadic and not any("__va_list_tag" in p[2] for p in F.params):
                    continue
                for x in walk(F.body):
                    if x[0] != "c":
                        continue
                    s = self.sink(x, F)
                    if s is None or len(x[4]) <= s[1]:
                        continue
                    if not any("__va_list_tag" in str(strip(a)[1]) for a in x[4]):
                        continue
                    f = strip(x[4][s[1]])
                    if f[0] == "v" and f[4] == "p":
                        i = [j for j, p in enumerate(F.params) if p[1] == f[3]]
                        if i and (s[0] != "emit"):
                            self.wrap[F.key] = (s[0], i[0])
                            ch = True
                            break

    def sink(self, x, F):
        n = callee_name(x)
        if n is None:
            return None
        G = self.P.resolve(n, F.file)
        k = G.key if G else n
        if k in self.wrap:
            return self.wrap[k]
        if k in self.emit:
            return ("emit", self.emit[k][1], self.emit[k][0])
        n = n.replace("__builtin_", "").replace("___", "")
        if G is None and n in self.roots:
            return self.roots[n]
        return None


def index(F, ty):
    i = [j for j, p in enumerate(F.params) if p[2] == ty]
    if not i:
        raise AnalysisError(f"{F.name} has no parameter of type {ty}")
    return i[0]


class Texts:
    """The literals a format expression may denote; None: unknown."""

    def __init__(self, P):
        self.P = P
        self.calls = {}
        self.taken = set()
        for F in P.all:
            for x in walk(F.body):
                if x[0] == "c":
                    n = callee_name(x)
                    G = P.resolve(n, F.file) if n else None
                    if G is not None:
                        self.calls.setdefault(G.key, []).append((F, x))

    def get(self, e, F, depth=0):
        e = strip(e)
        if depth > 6:
            return None
        if e[0] == "s":
            return {e[2]}
        if e[0] == "?":
            a, b = self.get(e[3], F, depth + 1), self.get(e[4], F, depth + 1)
            return None if a is None or b is None else a | b
        if e[0] == "b" and e[2] == ",":
            return self.get(e[4], F, depth + 1)
        if e[0] == "x":
            b = strip(e[2])
            if b[0] == "v" and b[4] in ("g", "s", "l"):
                return self.table(b, F)
            return None
        if e[0] != "v":
            return None
        if e[4] in ("l", "p"):
            vals = []
            for x in walk(F.body):
                if x[0] == "D":
                    for d in x[2]:
                        if d[2] == e[3] and d[4] is not None:
                            vals.append(d[4])
                elif x[0] == "d" and x[2] == e[3] and x[4] is not None:
                    vals.append(x[4])
                elif x[0] == "a" and strip(x[3])[0] == "v" and strip(x[3])[3] == e[3] and strip(x[3])[4] == e[4]:
                    if x[2] != "=":
                        return None
                    vals.append(x[4])
                elif x[0] == "u" and x[2] in ("&", "++p", "p++", "--p", "p--") and strip(x[3])[0] == "v" and strip(x[3])[3] == e[3] and strip(x[3])[4] == e[4]:
                    return None
            out = set()
            if e[4] == "p":
                i = [j for j, p in enumerate(F.params) if p[1] == e[3]]
                if not i or not F.static:
                    return None
                for G, c in self.calls.get(F.key, ()):
                    t = self.get(c[4][i[0]], G, depth + 1) if len(c[4]) > i[0] else None
                    if t is None:
                        return None
                    out |= t
            for v in vals:
                t = self.get(v, F, depth + 1)
                if t is None:
                    return None
                out |= t
            return out or None
        return self.table(e, F)

    def table(self, b, F):
        init = None
        if b[4] == "l":
            for x in walk(F.body):
                if x[0] == "D":
                    for d in x[2]:
                        if d[2] == b[3]:
                            init = d[4]
        else:
            v = self.P.svars.get((F.file, b[2])) or next((w for w in self.P.vars.get(b[2], []) if w["init"]), None)
            init = v and v["init"]
        if init is None:
            return None
        t = {x[2] for x in walk(init) if x[0] == "s"}
        return t or None


def calls_check(P, rep):
    S, X = Sinks(P), Texts(P)
    ff = FmtFlow(P)
    cache = {}
    unknown = []
    for F in P.all:
        for x in walk(F.body):
            if x[0] != "c":
                continue
            s = S.sink(x, F)
            if s is None:
                continue
            i = s[1]
            if len(x[4]) <= i:
                continue
            args = x[4][i + 1:]
            if any("__va_list_tag" in str(strip(a)[1]) for a in x[4]):
                f = strip(x[4][i])
                continue
            if strip(x[4][i])[0] in ("i", "k") and show(strip(x[4][i])) in ("0", "NULL"):
                rep.count("no_format")
                continue
            texts = X.get(x[4][i], F)
            where = f"{F.loc.rsplit(':', 1)[0]}:{x[2]}"
            n = callee_name(x)
            rep.count(s[0] + "_calls")
            if texts is None:
                unknown.append((F, x, where))
                continue
            tys = [tclass(a[1], P) for a in args]
            most = 0
            for t in sorted(texts):
                rep.count("formats")
                key = f"{F.name}/{n}/{t[:60]!r}"
                try:
                    if s[0] == "emit":
                        k = (s[2].key, t)
                        if k not in cache:
                            try:
                                cache[k] = {tuple(y[1] for y in ev if y[0] == "arg") for ev in ff.run(s[2], [None] * s[1] + [("p", t, 0)])}
                            except Beyond:
                                raise Bad("is read beyond its end")
                        ways = cache[k]
                        if not ways:
                            raise Bad("has a conversion that is not supported: the compiler panics")
                        for way in ways:
                            e = mismatch([(w,) for w in way], args, tys, lambda c, tc: same(tclass(c[0], P), tc))
                            if e:
                                raise Bad(e)
                            most = max(most, len(way))
                    else:
                        convs = parse(t, s[0] == "firm")
                        e = mismatch(convs, args, tys, lambda c, tc: fits(c[1], c[2], tc))
                        if e:
                            raise Bad(e)
                        most = max(most, len(convs))
                    rep.ok(f"{where}: {n}({t!r}) consumes its {len(args)} arguments")
                except Bad as e:
                    rep.bad(key, where, f"{F.name}: the format {t!r} of {n} {e}")
                    most = len(args)
            if most < len(args):
                rep.bad(f"{F.name}/{n}/{min(texts)[:60]!r}", where, f"{F.name}: no format {n} may use here consumes more than {most} of the {len(args)} arguments, {show(args[most])} is lost")
    return S, unknown


def same(want, got):
    if got is None or want is None or want[0] != got[0]:
        return False
    return want == got or want[0] == "p" and "void" in (want[1], got[1])


def mismatch(convs, args, tys, ok):
    if len(convs) > len(args):
        return f"consumes {len(convs)} arguments, but {len(args)} are passed: {convs[len(args)][0]} fetches garbage"
    for j, (c, tc) in enumerate(zip(convs, tys)):
        if not ok(c, tc):
            return f"expects for {c[0]} another type than that of argument {j + 1} ({args[j][1]})"
    return None


def registry(P, rep):
    """The conversions the table above expects are those the library registers."""
    E = P.funcs.get("firm_get_arg_env")
    core = P.funcs.get("lc_evpprintf")
    if E is None or core is None:
        raise AnalysisError("the registry of conversions was not found")
    paths = FmtFlow(P, ("lc_arg_register",), True).run(E, [])
    seq = max(paths, key=len)
    letter = {}
    for ev in seq:
        if not isinstance(ev[4], int) or not isinstance(ev[5], tuple):
            raise AnalysisError("a conversion is registered with an unknown letter or handler")
        if chr(ev[4]).isalpha():
            letter[chr(ev[4])] = ev[5]
    rep.count("conversions", len(letter))
    # what the core fetches for each argument class
    fetch = {}
    g = P.cfg(core)
    for b in g.blocks:
        if b.term and b.term[0] == "sw":
            for lo, hi, t in b.term[2]:
                va = [x for it in g.blocks[t].items for x in walk(it[1]) if isinstance(it[1], list) and x[0] == "va"]
                if len(va) == 1 and lo == hi:
                    fetch[lo] = tclass(va[0][1], P)
    names = {v[0]: n for n, v in P.econst.items() if n.startswith("lc_arg_type_")}
    if len(fetch) < 5:
        raise AnalysisError("the core of the printf implementation does not fetch its arguments by class")
    for c, cl in sorted(FIRM.items()):
        h = letter.get(c)
        if h is None:
            rep.bad(f"registered/{c}", E.loc, f"the documented conversion %{c} is not registered")
            continue
        init = handler(P, h)
        G = P.resolve(init, E.file) or P.resolve(init, core.file)
        if G is None:
            raise AnalysisError(f"the argument class function of %{c} is not known")
        mods = ("", "h", "l", "ll", "z", "j") if cl == "n" else ("", "L") if cl == "d" else ("",)
        for m in mods:
            occ = ("rec", (("conversion", ord(c)), ("modifier", ("p", m, 0)), ("modifier_length", len(m))))
            got = {fetch.get(x) for _, _, x in FmtFlow(P).func(G, [occ], (), 0)}
            want = {"i": ("n", 32), "n": ("n", MODS.get(m)), "d": ("L",) if m == "L" else ("d",)}.get(cl, ("p", "void"))
            rep.count("conversion_classes")
            if got == {want}:
                rep.ok(f"%{m}{c} fetches {want}")
            else:
                rep.bad(f"class/{m}{c}", G.loc, f"%{m}{c} fetches an argument of class {sorted(map(str, got))}, not {want}")


def handler(P, h):
    """First member (the class function) of a handler record."""
    if h[1]:
        F = next(F for F in P.all if F.key == h[1])
        init = next((x[4] for D in walk(F.body) if D[0] == "D" for x in D[2] if x[2] == h[2]), None)
    else:
        init = next((v["init"] for v in P.vars.get(h[2], []) if v["init"]), None)
    init = strip(init) if init else None
    if init is None or init[0] != "R":
        raise AnalysisError(f"handler {h[2]} has no initializer")
    for f in init[2]:
        x = strip(f[2])
        if x[0] == "v" and x[4] == "f" and f[1].startswith("get_"):
            return x[2]
    raise AnalysisError(f"handler {h[2]} has no class function")


def run():
    rep = Report("C11", "each conversion of a format fetches an argument that is passed, of its kind and width; no argument is left over", META["note"])
    for cfg in ("debug", "opt"):
        P = Program(cfg)
        S, unknown = calls_check(P, rep)
        rep.count("wrappers", len(S.wrap))
        for F, x, w in unknown:
            rep.count("unknown_formats")
            i = S.sink(x, F)[1]
            f = strip(x[4][i])
            if len(x[4]) == i + 1 and not (f[0] == "v" and f[4] == "p"):
                rep.bad(f"text/{F.name}/{callee_name(x)}", w, f"{F.name}: {show(f)} is printed as a format by {callee_name(x)}: a % in it fetches garbage")
            else:
                rep.ok()
        if cfg == "debug":
            registry(P, rep)
    rep.floor("std_calls", 800)
    rep.floor("firm_calls", 1500)
    rep.floor("emit_calls", 700)
    rep.floor("wrappers", 40)
    return rep.finish()


if __name__ == "__main__":
    main("C11", run)
