"""Control-flow graphs of function bodies; short-circuit conditions, conditional
expression statements and boolean returns are lowered to branches."""
from prog import walk, callee_name, strip


class Block:
    __slots__ = ("id", "items", "term", "preds", "line")

    def __init__(self, i):
        self.id, self.items, self.term, self.preds, self.line = i, [], None, [], None

    def succs(self):
        t = self.term
        if t is None or t[0] in ("ret", "stop"):
            return []
        if t[0] == "jmp":
            return [t[1]]
        if t[0] == "br":
            return [t[2], t[3]]
        return [b for _, _, b in t[2]] + [t[3]]


class CFG:
    def __init__(self):
        self.blocks, self.entry = [], None
        self.heads = {}   # loop head -> set of block ids of the natural loop

    def rpo(self):
        seen, out = set(), []
        st = [(self.entry, iter(self.blocks[self.entry].succs()))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.blocks[s].succs())))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]


class Builder:
    def __init__(self, F, P):
        self.F, self.P, self.g = F, P, CFG()
        self.labels, self.gotos = {}, []
        self.tmp = 0

    def new(self):
        b = Block(len(self.g.blocks))
        self.g.blocks.append(b)
        return b.id

    def B(self, i):
        return self.g.blocks[i]

    def jmp(self, a, b):
        if a is not None and self.B(a).term is None:
            self.B(a).term = ("jmp", b)

    def noret(self, e):
        """Does evaluating e certainly call a noreturn function?"""
        e0 = strip(e)
        if e0 is None:
            return False
        k = e0[0]
        if k == "c":
            if callee_name(e0) in self.P.noreturn:
                return True
            return any(self.noret(a) for a in e0[4])
        if k == "b":
            if e0[2] in ("&&", "||"):
                return self.noret(e0[3])
            return self.noret(e0[3]) or self.noret(e0[4])
        if k == "a":
            return self.noret(e0[4]) or self.noret(e0[3])
        if k == "u":
            return self.noret(e0[3])
        if k == "?":
            return self.noret(e0[2]) or (self.noret(e0[3]) and self.noret(e0[4]))
        return False

    def item(self, cur, it):
        """Append; returns the block to continue in, or None after noreturn."""
        b = self.B(cur)
        b.items.append(it)
        e = it[4] if it[0] == "D" else it[1]
        if self.noret(e):
            b.term = ("stop",)
            return None
        return cur

    def hoist(self, e, cur, line):
        """Lower GNU statement expressions inside e."""
        if e is None or cur is None:
            return e, cur
        if not any(x[0] == "S" for x in walk(e)):
            return e, cur
        if e[0] == "S":
            body = e[2]
            stmts = body[2]
            for s in stmts[:-1]:
                cur = self.stmt(s, cur)
            if stmts:
                last = stmts[-1]
                if last[0] == "X" and e[1] != "void":
                    v, cur = self.hoist(last[2], cur, last[1])
                    if cur is not None:
                        self.tmp += 1
                        vid = f"tmp{self.tmp}"
                        cur = self.item(cur, ("D", vid, vid, e[1], v, 0, line))
                        return ["v", e[1], vid, vid, "l"], cur
                else:
                    cur = self.stmt(last, cur)
            return ["i", "int", 0], cur
        out = []
        for x in e:
            if isinstance(x, list) and x and (isinstance(x[0], (str, list))):
                x, cur = self.hoistany(x, cur, line)
            out.append(x)
        return out, cur

    def hoistany(self, x, cur, line):
        if x and isinstance(x[0], str):
            return self.hoist(x, cur, line)
        out = []
        for y in x:
            if isinstance(y, list):
                y, cur = self.hoistany(y, cur, line)
            out.append(y)
        return out, cur

    def cond(self, e, cur, t, f, line):
        """Branch on e from cur."""
        if cur is None:
            return
        e = strip(e)
        e, cur = self.hoist(e, cur, line)
        if cur is None:
            return
        if e[0] == "b" and e[2] == "&&":
            m = self.new()
            self.cond(e[3], cur, m, f, line)
            self.cond(e[4], m, t, f, line)
        elif e[0] == "b" and e[2] == "||":
            m = self.new()
            self.cond(e[3], cur, t, m, line)
            self.cond(e[4], m, t, f, line)
        elif e[0] == "u" and e[2] == "!":
            self.cond(e[3], cur, f, t, line)
        elif e[0] == "i":
            self.jmp(cur, t if e[2] else f)
        elif e[0] == "?":
            a, b = self.new(), self.new()
            self.cond(e[2], cur, a, b, line)
            self.cond(e[3], a, t, f, line)
            self.cond(e[4], b, t, f, line)
        elif e[0] == "b" and e[2] == ",":
            cur = self.expr(e[3], cur, line)
            self.cond(e[4], cur, t, f, line)
        elif self.noret(e):
            self.B(cur).items.append(("X", e, line))
            self.B(cur).term = ("stop",)
        else:
            self.B(cur).term = ("br", e, t, f, line)

    def expr(self, e, cur, line):
        """Expression statement."""
        if cur is None or e is None:
            return cur
        e = strip(e)
        if e[0] == "?" or (e[0] == "b" and e[2] in ("&&", "||")):
            if not any(x[0] in ("c", "a", "S") or (x[0] == "u" and x[2] in ("p++", "p--", "++p", "--p")) for x in walk(e)):
                return cur
            j = self.new()
            if e[0] == "?":
                a, b = self.new(), self.new()
                self.cond(e[2], cur, a, b, line)
                self.jmp(self.expr(e[3], a, line), j)
                self.jmp(self.expr(e[4], b, line), j)
            else:
                a = self.new()
                if e[2] == "&&":
                    self.cond(e[3], cur, a, j, line)
                else:
                    self.cond(e[3], cur, j, a, line)
                self.jmp(self.expr(e[4], a, line), j)
            return j
        if e[0] == "b" and e[2] == ",":
            cur = self.expr(e[3], cur, line)
            return self.expr(e[4], cur, line)
        if e[0] in ("i", "e", "s", "v", "m") or (e[0] == "k" and e[1] == "void" and strip(e)[0] in ("i", "v")):
            return cur
        if e[0] == "S" :
            _, cur = self.hoist(e, cur, line)
            return cur
        e, cur = self.hoist(e, cur, line)
        if cur is None:
            return None
        if e[0] == "a" and e[2] == "=" and strip(e[4])[0] == "?" and strip(e[3])[0] == "v":
            q = strip(e[4])
            a, b, j = self.new(), self.new(), self.new()
            self.cond(q[2], cur, a, b, line)
            self.jmp(self.expr(["a", e[1], "=", e[3], q[3], e[5]], a, line), j)
            self.jmp(self.expr(["a", e[1], "=", e[3], q[4], e[5]], b, line), j)
            return j
        return self.item(cur, ("X", e, line))

    def ret(self, e, cur, line):
        if e is not None:
            e = strip(e) if not (e[0] == "k") else e
            q = strip(e)
            if q[0] == "?":
                a, b = self.new(), self.new()
                self.cond(q[2], cur, a, b, line)
                self.ret(q[3], a, line)
                self.ret(q[4], b, line)
                return
            if (q[0] == "b" and q[2] in ("&&", "||")) or (q[0] == "u" and q[2] == "!"):
                a, b = self.new(), self.new()
                self.cond(q, cur, a, b, line)
                self.ret(["i", "int", 1], a, line)
                self.ret(["i", "int", 0], b, line)
                return
            e, cur = self.hoist(e, cur, line)
            if cur is None:
                return
            if self.noret(e):
                self.B(cur).items.append(("X", e, line))
                self.B(cur).term = ("stop",)
                return
        self.B(cur).items.append(("RET", e, line))
        self.B(cur).term = ("ret",)

    def stmt(self, s, cur, brk=None, cnt=None):
        if s is None:
            return cur
        if brk is None and cnt is None and hasattr(self, "_bc"):
            brk, cnt = self._bc
        k, line = s[0], s[1]
        if cur is None and k not in ("BL", "LB", "CASE", "DEF", "IF", "W", "FOR", "DO", "SW"):
            if k == "GO" or k in ("X", "D", "RET", "BRK", "CNT", "N", "ASM"):
                return None
        if k == "BL":
            for x in s[2]:
                cur = self.stmt(x, cur, brk, cnt)
            return cur
        if k == "X":
            old = getattr(self, "_bc", None)
            self._bc = (brk, cnt)
            cur = self.expr(s[2], cur, line)
            self._bc = old if old is not None else (None, None)
            return cur
        if k == "D":
            for _, name, vid, typ, init, static in s[2]:
                if cur is None:
                    return None
                if static:
                    continue
                if init is not None:
                    init, cur = self.hoist(init, cur, line)
                    if cur is None:
                        return None
                    q = strip(init)
                    if q[0] == "?":
                        a, b, j = self.new(), self.new(), self.new()
                        self.cond(q[2], cur, a, b, line)
                        for blk, val in ((a, q[3]), (b, q[4])):
                            blk = self.item(blk, ("D", name, vid, typ, val, static, line))
                            self.jmp(blk, j)
                        cur = j
                        continue
                cur = self.item(cur, ("D", name, vid, typ, init, static, line))
            return cur
        if k == "RET":
            self.ret(s[2], cur, line)
            return None
        if k == "IF":
            if cur is None:
                cur = self.new()
            t, f, j = self.new(), self.new(), self.new()
            self.cond(s[2], cur, t, f, line)
            self.jmp(self.stmt(s[3], t, brk, cnt), j)
            self.jmp(self.stmt(s[4], f, brk, cnt), j)
            return j
        if k == "W":
            if cur is None:
                cur = self.new()
            h, b, j = self.new(), self.new(), self.new()
            self.jmp(cur, h)
            self.cond(s[2], h, b, j, line)
            self.jmp(self.stmt(s[3], b, j, h), h)
            return j
        if k == "DO":
            if cur is None:
                cur = self.new()
            b, c, j = self.new(), self.new(), self.new()
            self.jmp(cur, b)
            self.jmp(self.stmt(s[2], b, j, c), c)
            self.cond(s[3], c, b, j, line)
            return j
        if k == "FOR":
            if cur is None:
                cur = self.new()
            cur = self.stmt(s[2], cur, brk, cnt)
            h, b, c, j = self.new(), self.new(), self.new(), self.new()
            self.jmp(cur, h)
            if s[3] is not None:
                self.cond(s[3], h, b, j, line)
            else:
                self.jmp(h, b)
            self.jmp(self.stmt(s[5], b, j, c), c)
            if s[4] is not None:
                x = self.expr(s[4], c, line)
                self.jmp(x, h)
            else:
                self.jmp(c, h)
            return j
        if k == "SW":
            if cur is None:
                cur = self.new()
            j = self.new()
            cases = []
            e, cur = self.hoist(s[2], cur, line)
            saved = getattr(self, "_sw", None)
            self._sw = (cases, [None])
            end = self.stmt(s[3], None, j, cnt)
            self.jmp(end, j)
            d = self._sw[1][0]
            if cur is not None:
                self.B(cur).term = ("sw", e, cases, d if d is not None else j, line)
            self._sw = saved
            return j
        if k in ("CASE", "DEF"):
            b = self.new()
            self.jmp(cur, b)
            if k == "CASE":
                self._sw[0].append((s[2], s[3] if s[3] is not None else s[2], b))
                return self.stmt(s[4], b, brk, cnt)
            self._sw[1][0] = b
            return self.stmt(s[2], b, brk, cnt)
        if k == "BRK":
            self.jmp(cur, brk)
            return None
        if k == "CNT":
            self.jmp(cur, cnt)
            return None
        if k == "GO":
            if s[2] not in self.labels:
                self.labels[s[2]] = self.new()
            self.jmp(cur, self.labels[s[2]])
            return None
        if k == "LB":
            if s[2] not in self.labels:
                self.labels[s[2]] = self.new()
            b = self.labels[s[2]]
            self.jmp(cur, b)
            return self.stmt(s[3], b, brk, cnt)
        if k in EXPRK:
            return self.expr(s, cur, line if isinstance(line, int) else 0)
        return cur   # N, ASM


EXPRK = {"i", "f", "s", "e", "v", "m", "x", "c", "u", "b", "a", "?", "k", "z", "o", "I", "R", "S", "L", "va", "iv", "?x"}


def build(F, P):
    b = Builder(F, P)
    g = b.g
    g.entry = b.new()
    end = b.stmt(F.body, g.entry)
    if end is not None and g.blocks[end].term is None:
        g.blocks[end].items.append(("RET", None, F.end))
        g.blocks[end].term = ("ret",)
    for x in g.blocks:
        if x.term is None:
            x.term = ("stop",)
    finish(g)
    return g


def finish(g):
    order = g.rpo()
    reach = set(order)
    for x in g.blocks:
        x.preds = []
    for i in order:
        for s in g.blocks[i].succs():
            if i not in g.blocks[s].preds:
                g.blocks[s].preds.append(i)
    # back edges by DFS
    color, back = {}, []
    st = [(g.entry, iter(g.blocks[g.entry].succs()))]
    color[g.entry] = 1
    while st:
        n, it = st[-1]
        for s in it:
            c = color.get(s)
            if c is None:
                color[s] = 1
                st.append((s, iter(g.blocks[s].succs())))
                break
            if c == 1:
                back.append((n, s))
        else:
            color[n] = 2
            st.pop()
    for n, h in back:
        body = g.heads.setdefault(h, {h})
        w = [n]
        while w:
            x = w.pop()
            if x in body:
                continue
            body.add(x)
            w.extend(p for p in g.blocks[x].preds if p in reach)
