"""The resolved program: functions, records, enums, globals, call graph."""
import json, os, re
import facts
from facts import AnalysisError, REPO, BUILD


class Func:
    __slots__ = ("name", "file", "line", "end", "static", "inline", "noreturn", "ret", "type", "params", "variadic", "fmt", "vis", "body", "unit", "_cfg", "key", "pure", "cst", "dep", "macro")

    def __repr__(self):
        return f"<{self.name}>"

    @property
    def loc(self):
        return f"{short(self.file)}:{self.line}"


def short(f):
    for r in (REPO + "/", BUILD + "/"):
        if f.startswith(r):
            return f[len(r):]
    return f


class Record:
    def __init__(self, d, types, file):
        self.name, self.union, self.size, self.file, self.line = d["name"], d["union"], d["size"], file, d["line"]
        self.fields = [(n, types[t], bw, off) for n, t, bw, _l, off in d["fields"]]
        self.by = {f[0]: f for f in self.fields}


def retype(e, types):
    """Replace type indices by type strings, in place (expressions and statements)."""
    st = [e]
    while st:
        e = st.pop()
        if not isinstance(e, list) or not e:
            continue
        k = e[0]
        if isinstance(k, str):
            if k in EXPR:
                e[1] = types[e[1]]
                if k == "c":
                    e[6] = [types[t] for t in e[6]]
                elif k in ("z", "o"):
                    e[2] = types[e[2]]
            elif k == "D":
                for d in e[2]:
                    d[3] = types[d[3]]
        for x in e:
            if isinstance(x, list):
                st.append(x)


EXPR = {"i", "f", "s", "e", "v", "m", "x", "c", "u", "b", "a", "?", "k", "z", "o", "I", "R", "S", "L", "va", "iv", "?x"}


class Program:
    def __init__(self, config="debug", only=None):
        self.gendir, self.files = facts.prepare(config)
        self.config = config
        self.units = {}
        self.funcs = {}      # external / header name -> Func with body
        self.statics = {}    # (file, name) -> Func
        self.decls = {}      # name -> list of prototypes (Func without body)
        self.all = []        # every Func with body
        self.records, self.enums, self.econst, self.typedefs = {}, {}, {}, {}
        self.vars = {}       # name -> list of dict
        self.svars = {}      # (file, name) -> dict
        self.regions = {}
        self.noreturn = set()
        for f, j in sorted(self.files.items()):
            with open(j) as fh:
                d = json.load(fh)
            types = d["types"]
            if d["regions"]:
                self.regions[f] = d["regions"]
            for r in d["records"]:
                R = Record(r, types, f)
                if R.name not in self.records or R.size >= 0:
                    self.records[R.name] = R
            for e in d["enums"]:
                if e["name"]:
                    self.enums[e["name"]] = e
                for n, v, l in e["consts"]:
                    self.econst[n] = (v, e["name"], f, l)
            for n, t, l in d["typedefs"]:
                self.typedefs[n] = types[t]
            for v in d["vars"]:
                retype(v["init"], types)
                v = dict(v, type=types[v["type"]], file=f)
                if v["static"]:
                    self.svars[(f, v["name"])] = v
                self.vars.setdefault(v["name"], []).append(v)
            for x in d["funcs"]:
                F = Func()
                F.name, F.file, F.line, F.end = x["name"], f, x["line"], x["end"]
                F.static, F.inline, F.noreturn = x["static"], x["inline"], x["noreturn"]
                F.ret, F.type = types[x["ret"]], types[x["type"]]
                F.params = [(n, i, types[t]) for n, i, t in x["params"]]
                F.variadic, F.fmt, F.vis = x["variadic"], x["fmt"], x["vis"]
                F.pure, F.cst, F.dep, F.macro = x["pure"], x["const"], x["dep"], x["macro"]
                F.body, F._cfg, F.unit = x.get("body"), None, f
                F.key = F.name
                if F.noreturn:
                    self.noreturn.add(F.name)
                if F.body is None:
                    self.decls.setdefault(F.name, []).append(F)
                    continue
                retype(F.body, types)
                self.all.append(F)
                if F.static and f.endswith(".c"):
                    self.statics[(f, F.name)] = F
                    F.key = f"{short(f)}:{F.name}"
                else:
                    self.funcs.setdefault(F.name, F)
        self.noreturn |= {"exit", "abort", "__assert_fail", "_exit", "longjmp", "__assert"}
        self._indirect = None
        self._callers = None
        self._cg = None

    def resolve(self, name, file=None):
        if file is not None:
            f = self.statics.get((file, name))
            if f is not None:
                return f
        return self.funcs.get(name)

    def func(self, name, file=None):
        """Function by name; a static one is looked up anywhere when unique."""
        f = self.resolve(name, file)
        if f is None:
            c = [g for (fl, n), g in self.statics.items() if n == name]
            if len(c) == 1:
                f = c[0]
        if f is None:
            raise AnalysisError(f"function {name} not found")
        return f

    def var(self, name, file=None):
        if file is not None and (file, name) in self.svars:
            return self.svars[(file, name)]
        c = [v for v in self.vars.get(name, []) if v["init"] is not None] or [v for v in self.vars.get(name, []) if v["def"]]
        return c[0] if c else None

    def cfg(self, F):
        if F._cfg is None:
            import cfg
            F._cfg = cfg.build(F, self)
        return F._cfg

    # ---- call graph -------------------------------------------------
    def callgraph(self):
        """key -> set of callee keys (direct and through function pointers)."""
        if self._cg is None:
            import callgraph
            self._cg = callgraph.build(self)
        return self._cg


def walk(e):
    """All expression/statement nodes below e (pre-order)."""
    st = [e]
    while st:
        e = st.pop()
        if isinstance(e, list):
            if e and isinstance(e[0], str):
                yield e
            for x in reversed(e):
                if isinstance(x, list):
                    st.append(x)


def calls(e):
    for x in walk(e):
        if x[0] == "c":
            yield x


def callee_name(c):
    f = strip(c[3])
    if f[0] == "v" and f[4] == "f":
        return f[2]
    if f[0] == "u" and f[2] == "*":
        g = strip(f[3])
        if g[0] == "v" and g[4] == "f":
            return g[2]
    return None


def strip(e):
    while e is not None and e[0] in ("k",):
        e = e[2]
    return e


def show(e, n=200):
    """Readable C-like text of an expression (for reports)."""
    s = _show(e)
    return s if len(s) <= n else s[:n] + "..."


def _show(e):
    if e is None:
        return ""
    k = e[0]
    if k == "i":
        return str(e[2])
    if k in ("e", "v"):
        return e[2]
    if k == "s":
        return json.dumps(e[2])
    if k == "f":
        return e[2]
    if k == "m":
        return _show(e[2]) + ("->" if e[5] else ".") + e[3]
    if k == "x":
        return f"{_show(e[2])}[{_show(e[3])}]"
    if k == "c":
        return f"{_show(e[3])}({', '.join(_show(a) for a in e[4])})"
    if k == "u":
        if e[2].startswith("p"):
            return _show(e[3]) + e[2][1:]
        return (e[2][:-1] if e[2].endswith("p") else e[2]) + _show(e[3])
    if k in ("b", "a"):
        return f"({_show(e[3])} {e[2]} {_show(e[4])})"
    if k == "?":
        return f"({_show(e[2])} ? {_show(e[3])} : {_show(e[4])})"
    if k == "k":
        return f"({e[1]}){_show(e[2])}"
    if k == "z":
        return f"sizeof({e[2]})"
    return f"<{k}>"


def api_names(P):
    """Names of the functions declared in the public headers."""
    import glob
    out = set()
    for d in (f"{REPO}/include/libfirm", f"{REPO}/include/libfirm/adt", f"{P.gendir}/include/libfirm"):
        for h in glob.glob(d + "/*.h"):
            t = re.sub(r"/\*.*?\*/|//[^\n]*", " ", open(h).read(), flags=re.S)
            out |= set(re.findall(r"\b([A-Za-z_]\w*)\s*\)?\s*\(", t))
    return out
