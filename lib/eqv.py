"""Equality predicates over pairs of objects: what is known to be equal on every
path on which the predicate reports 'equal'."""
from absint import Client, Interp, State, deref
from prog import AnalysisError


class EqClient(Client):
    maxs = 200
    maxdepth = 10

    def __init__(self, P, opaque=(), nelts=None, model=None):
        self.P, self.opaque, self.nelts, self.model = P, set(opaque), nelts, model or {}
        self.unroll = 6 if nelts is not None else 0

    def inline(self, ip, n, F, fr):
        return n not in self.opaque

    def pure(self, n):
        return True

    def call(self, ip, st, c, n, args, fr):
        m = self.model.get(n)
        if m is not None:
            return [(st, m(st, args))]
        return None

    def load(self, ip, st, loc, fr):
        if self.nelts is not None and loc[0] == "f" and loc[2] == "ir_arr_descr.nelts":
            return ("c", self.nelts)
        return None


def paths(P, F, args, client, want=True):
    """States at the returns of F whose value may be truthy (want) / zero."""
    ip = Interp(P, client)
    out = []
    for st, v in ip.run(F, list(args), State()):
        s = st.copy()
        if s.assume(v, want):
            out.append(s)
    return out


def known_equal(st, a, b):
    """Is a == b established in st?"""
    ra, rb = a, b
    a, b = st.val(a), st.val(b)
    if a == b or st.rel.get(("==", ra, rb)) or st.rel.get(("==", rb, ra)):
        return True
    if st.cmp("==", a, b) is True:
        return True
    # a == b established on wrappers of both: f(a) with f injective is not assumed, but
    # memcmp / strcmp over both pointers reports equal contents
    for t, v in st.cst.items():
        if v == 0 and t[0] == "call" and t[1] in ("memcmp", "strcmp", "strncmp", "__builtin_memcmp", "__builtin_strcmp") and len(t) >= 4:
            x, y = t[2], t[3]
            if (x, y) in ((a, b), (b, a), (ra, rb), (rb, ra)):
                return True
    # both inequalities established (three-way comparison)
    if st.rel.get(("<=", a, b)) and st.rel.get(("<=", b, a)) or st.rel.get(("<", a, b)) is False and st.rel.get(("<", b, a)) is False:
        return True
    # equivalence chain through a third term
    eqs = {}
    for (op, x, y), tv in st.rel.items():
        if op == "==" and tv:
            eqs.setdefault(x, set()).add(y)
            eqs.setdefault(y, set()).add(x)
    for x in list(eqs):
        if x in st.cst:
            eqs[x].add(("c", st.cst[x]))
            eqs.setdefault(("c", st.cst[x]), set()).add(x)
    seen, work = {ra}, [ra]
    while work:
        x = work.pop()
        for y in eqs.get(x, ()):
            if y not in seen:
                seen.add(y)
                work.append(y)
    return rb in seen


def mirror(t, m):
    from absint import subst
    return subst(t, m)


def leaves(P, rec, prefix=()):
    """Scalar leaf fields of a record: [(path of (rec, field), type)]; unions give one entry ('union', alternatives)."""
    R = P.records.get(rec)
    if R is None:
        raise AnalysisError(f"record {rec} not found")
    out = []
    for n, t, bw, off in R.fields:
        if not n:
            n = n or ""
        tt = t.replace("const ", "").strip()
        if tt.startswith(("struct ", "union ")) and not tt.endswith(("*", "]", "* const")):
            sub = tt.split(" ", 1)[1]
            S = P.records.get(sub)
            if S is not None:
                if S.union:
                    out.append((prefix + ((rec, n),), "union " + sub))
                else:
                    out += leaves(P, sub, prefix + ((rec, n),))
                continue
        out.append((prefix + ((rec, n),), t))
    return out


def locof(ip, base, path):
    l = base
    for rec, n in path:
        l = ip.field(l, rec, n)
    return l
