"""Opcode registry: which functions every opcode is registered with, found by
propagating the opcode object through the construction code."""
import absint
from absint import Client, Interp, State
from prog import AnalysisError, callee_name, calls

SETTERS = {"set_op_attrs_equal": "attrs_equal", "set_op_hash": "hash", "set_op_copy_attr": "copy_attr", "set_op_verify": "verify",
           "set_op_verify_proj": "verify_proj", "set_op_dump": "dump", "set_op_computed_value": "computed_value",
           "set_op_computed_value_proj": "computed_value_proj", "set_op_equivalent_node": "equivalent_node",
           "set_op_equivalent_node_proj": "equivalent_node_proj", "set_op_transform_node": "transform_node",
           "set_op_transform_node_proj": "transform_node_proj", "set_op_reassociate": "reassociate",
           "set_op_get_type_attr": "get_type_attr", "set_op_get_entity_attr": "get_entity_attr", "set_op_tag": "tag", "set_op_attr": "attr"}


class Rec(Client):
    maxs = 8
    maxdepth = 6
    unroll = 12

    def __init__(self, P, roots, want):
        self.P, self.ops, self.roots, self.want = P, {}, roots, want
        self.order = []
        self.extra = []

    def inline(self, ip, n, F, fr):
        return self.interesting(F)

    def interesting(self, F, depth=0):
        c = getattr(self, "_i", None)
        if c is None:
            self._i = c = {}
        if F.key in c:
            return c[F.key]
        c[F.key] = False
        r = False
        for k in calls(F.body):
            n = callee_name(k)
            if n in self.want or n == "new_ir_op":
                r = True
                break
            g = self.P.resolve(n, F.file) if n else None
            if g is not None and depth < 6 and self.interesting(g, depth + 1):
                r = True
                break
        c[F.key] = r
        return r

    def call(self, ip, st, c, n, args, fr):
        if n == "new_ir_op":
            name = args[1][1] if args[1][0] == "s" else None
            if name is None:
                return None
            size = c[4][6] if len(c[4]) > 6 else None
            rec = {"name": name, "attr": None, "where": f"{fr.F.file}:{c[2]}", "size": args[6] if len(args) > 6 else None, "args": args}
            self.szexpr(ip, st, size, fr, rec)
            self.ops[name] = rec
            return [(st, ("op!", name))]
        if n in self.want:
            op = args[0]
            if op[0] == "op!":
                v = args[1] if len(args) > 1 else ("c", 1)
                self.ops[op[1]].setdefault(self.want[n], v)
                self.ops[op[1]][self.want[n]] = v
            else:
                self.extra.append((n, args, fr.F, c[2]))
            return [(st, ("void",))]
        return None

    def szexpr(self, ip, st, e, fr, rec):
        from prog import walk
        if e is None:
            return
        for x in walk(e):
            if x[0] == "z" and x[2]:
                rec["attr"] = x[2].replace("const ", "")

    def pure(self, n):
        return True


def registry(P, want=SETTERS, roots=("firm_init_op", "ir_init_opcodes")):
    """name -> {attr: 'struct x', attrs_equal: ('fn', f), ...}"""
    c = Rec(P, roots, want)
    ip = Interp(P, c)
    F = P.func("firm_init_op")
    outs = ip.run(F, [], State())
    if not outs:
        raise AnalysisError("firm_init_op does not return")
    st = outs[0][0]
    # backend opcode tables are created by <arch>_create_opcodes
    for f in sorted(P.funcs):
        if f.endswith("_create_opcodes"):
            G = P.funcs[f]
            ip.run(G, [("any", i) for i in range(len(G.params))], st)
    return c
