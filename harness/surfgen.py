"""Random programs in C2PO's surface language (definitions, labels, arrays, slices, structures,
enumerations, aggregation): the text and, in parallel, the tree that spec/Surface.tla gives a
meaning to.  Nothing is expanded here."""
import formula as fm
from bzgen import fnum, SCALE

B, I, F = "b", "i", "f"
TYNAME = {"b": "bool", "i": "int", "f": "float"}


def tytext(t):
    if isinstance(t, str):
        return TYNAME[t]
    if t[0] == "a":
        return "%s[%s]" % (tytext(t[1]), t[2] if t[2] else "")
    return t[1]


def fits(t, want):
    """want may leave the size of an array open (0)"""
    if t == want:
        return True
    return t[0] == "a" and want[0] == "a" and t[1] == want[1] and want[2] == 0


class Surf:
    def __init__(self, r, past=None, temporal=True, shadow=False, small=False):
        self.r = r
        self.inputs = []            # (name in traces, type)
        self.vars = []              # (text, tree, type) usable in expressions
        self.structs = {}           # name -> [(member, type)]
        self.enums = {}             # name -> [(member, value)]
        self.items = []             # [name, tree, is spec]
        self.labels = []
        self.out = []
        self.temporal = temporal
        self.shadow = shadow
        self.past = past
        self.nlab = 0
        self.bound = []             # innermost last
        self.nb = 0
        self.maplines = []
        self.cur_past = False
        self.noprev = 0
        self.small = small
        self.wide = 0               # the size of the one large array, if there is one

    # ---------------------------------------------------------------- declarations
    def newcol(self, name, ty, enum=None):
        self.inputs.append((name, ty, enum))
        return len(self.inputs) - 1

    def declare_inputs(self, k=0):
        r = self.r
        self.out.append("INPUT")
        sc = [("b", ["b%d%d" % (k, j) for j in range(r.randint(1, 3))]), ("i", ["i%d%d" % (k, j) for j in range(r.randint(1, 3))])]
        if r.random() < .5:
            sc.append(("f", ["x%d%d" % (k, j) for j in range(2)]))
        for e in self.enums:
            if r.random() < .8:
                sc.append((("e", e), ["%s_v%d%d" % (e.lower(), k, j) for j in range(r.randint(1, 2))]))
        r.shuffle(sc)
        for ty, names in sc:
            self.out.append("  %s: %s;" % (", ".join(names), tytext(ty)))
            for n in names:
                c = self.newcol(n, "i" if ty[0] == "e" else ty, ty[1] if ty[0] == "e" else None)
                self.vars.append((n, ["in", c], ty))
                self.maplines.append("%s:%d" % (n, c))
        for j in range(r.randint(1, 3)):
            ty = r.choice("bbiif")
            n = r.randint(1, 5)
            if not self.wide and r.random() < .2:
                n = self.wide = r.randint(6, 9)
                ty = "b" if r.random() < .6 else ty
            name = "A%d%d" % (k, j)
            self.out.append("  %s: %s[%d];" % (name, TYNAME[ty], n))
            cs = [self.newcol("%s[%d]" % (name, q), ty) for q in range(n)]
            self.vars.append((name, ["ina", cs], ("a", ty, n)))
            if r.random() < .5:
                self.maplines.append("%s[0..%d]:%d" % (name, n - 1, cs[0]))
            else:
                self.maplines += ["%s[%d]:%d" % (name, q, cs[q]) for q in range(n)]

    def declare_structs(self):
        r = self.r
        self.out.append("STRUCT")
        for j in range(r.randint(1, 3)):
            name = "Rec%d" % j
            ms = []
            for q in range(r.randint(1, 4)):
                k = r.random()
                if k < .55:
                    t = r.choice("bbif")
                elif k < .8:
                    t = ("a", r.choice("bi"), 0)
                elif k < .87:
                    t = ("a", r.choice("bi"), r.randint(1, 3))
                elif self.structs and k < .95:
                    t = ("r", r.choice(sorted(self.structs)))
                elif self.structs:
                    t = ("a", ("r", r.choice(sorted(self.structs))), 0)
                else:
                    t = "b"
                # member names may coincide with those of other structures
                ms.append((r.choice(["m%d%d" % (j, q), "m%d" % q]), t))
            if len(set(m for m, _ in ms)) < len(ms):
                ms = [("m%d%d" % (j, q), t) for q, (_, t) in enumerate(ms)]
            self.structs[name] = ms
            self.out.append("  %s: { %s };" % (name, " ".join("%s: %s;" % (m, tytext(t)) for m, t in ms)))

    def declare_enums(self):
        r = self.r
        self.out.append("ENUM")
        for j in range(r.randint(1, 2)):
            n = r.randint(2, 4)
            if r.random() < .5:
                vs = list(range(n))
                body = ", ".join("E%dm%d" % (j, q) for q in range(n))
            else:
                vs = r.sample(range(0, 9), n)
                body = ", ".join("E%dm%d: %d" % (j, q, vs[q]) for q in range(n))
            self.enums["Enum%d" % j] = [("E%dm%d" % (j, q), vs[q]) for q in range(n)]
            self.out.append("  Enum%d: { %s };" % (j, body))

    # ---------------------------------------------------------------- expressions: (text, tree)
    def candidates(self, want, bzonly=False):
        """names, array elements and structure members of the wanted type"""
        out = []
        seen = set()
        for text, tree, ty in reversed(self.vars + self.bound):
            if text in seen:
                continue
            seen.add(text)
            if bzonly and tree[0] == "id" and not self.bzok.get(tree[1], True):
                continue
            self.paths(text, tree, ty, want, out, 0)
        return out

    def paths(self, text, tree, ty, want, out, depth):
        if fits(ty, want):
            out.append((text, tree, ty))
        if depth > 3:
            return
        if ty[0] == "a" and ty[2]:
            k = self.r.randrange(ty[2])
            self.paths("%s[%d]" % (text, k), ["idx", tree, k], ty[1], want, out, depth + 1)
            if want[0] == "a":
                a = self.r.randrange(ty[2])
                b = self.r.randint(a, ty[2] - 1)
                if (want[2] in (0, b - a + 1)) and ty[1] == want[1] and depth < 2:
                    out.append(("%s[%d..%d]" % (text, a, b), ["slice", tree, a, b], ("a", ty[1], b - a + 1)))
        elif ty[0] == "r":
            for m, t in self.structs[ty[1]]:
                self.paths("%s.%s" % (text, m), ["acc", tree, m], t, want, out, depth + 1)

    bzok = {}

    def pick(self, want, bz=False):
        c = self.candidates(want, bz)
        if not c:
            return None
        return self.r.choice(c)

    def const(self, ty):
        r = self.r
        if ty == "i":
            v = r.choice([0, 1, 2, 3, 5])
            return str(v), ["c", v]
        if ty == "f":
            v = r.choice([0, 64, 128, 256, 512])
            return fnum(v), ["c", v]
        v = r.randrange(2)
        return ("true" if v else "false"), ["c", v]

    def num(self, ty, d):
        r = self.r
        k = r.random()
        if d > 0 and k < .3:
            a, b = self.num(ty, d - 1), self.num(ty, d - 1)
            op = r.choice("+-")
            return "(%s %s %s)" % (a[0], op, b[0]), ["bz", op, ty, [a[1], b[1]]]
        if d > 0 and k < .38 and not self.noprev:      # not nested in the text, but by names
            c = self.const(ty)
            self.noprev += 1
            a = self.num(ty, d - 1)
            self.noprev -= 1
            return "prev(%s, %s)" % (c[0], a[0]), ["bz", "prev", ty, [c[1], a[1]]]
        p = self.pick(ty) if k < .9 else None
        if p:
            return p[0], p[1]
        return self.const(ty)

    def rel(self, d, tl=False):
        r = self.r
        k = r.random()
        if k < .15 and self.enums:
            e = r.choice(sorted(self.enums))
            p = self.pick(("e", e))
            if p:
                m, v = r.choice(self.enums[e])
                op = r.choice(["==", "!="])
                q = self.pick(("e", e)) if r.random() < .3 else None
                x, y = (p[0], p[1]), ((m, ["c", v]) if not q or q[0] == p[0] else (q[0], q[1]))
                if r.random() < .3:
                    x, y = y, x
                if r.random() < .15:
                    m2, v2 = r.choice(self.enums[e])
                    x, y = ("prev(%s, %s)" % (m2, p[0]), ["bz", "prev", "i", [["c", v2], p[1]]]), (m, ["c", v])
                return "(%s %s %s)" % (x[0], op, y[0]), ["bz", op, "i", [x[1], y[1]]]
        if k < .27 and tl:       # a conjunction: not for the booleanizer
            p = self.pick(("a", r.choice("iif"), 0))
            if p and p[2][2]:
                q = self.pick(("a", p[2][1], p[2][2]))
                if q:
                    op = r.choice(["==", "!=", "<", "<=", ">", ">="]) if not self.noarrne else r.choice(["==", "<", "<=", ">", ">="])
                    return "(%s %s %s)" % (p[0], op, q[0]), ["bz", op, p[2][1], [p[1], q[1]]]
        ty = r.choice("iiif") if self.pick("f") else "i"
        a, b = self.num(ty, d), self.num(ty, d)
        op = r.choice(["==", "!=", "<", "<=", ">", ">="])
        return "(%s %s %s)" % (a[0], op, b[0]), ["bz", op, ty, [a[1], b[1]]]

    noarrne = False

    def setexpr(self, d):
        """an array valued expression -> (text, tree, type of elements, size)"""
        r = self.r
        k = r.random()
        if k < .6:
            want = r.choice([("a", "b", 0), ("a", "i", 0), ("a", "f", 0)] + [("a", ("r", s), 0) for s in self.structs])
            p = self.pick(want)
            if p:
                return p[0], p[1], p[2][1]
        ty = r.choice(["b", "i"] + [("r", s) for s in self.structs])
        es = [self.any(ty, 1) for _ in range(r.randint(1, 4))]
        if any(e is None for e in es):
            return self.setexpr(d)
        return "{%s}" % ", ".join(e[0] for e in es), ["arr", [e[1] for e in es]], ty

    def any(self, ty, d, pure=True):
        """an expression of any type; structures and arrays are built from names"""
        r = self.r
        if ty == "b":
            p = self.pick("b", True)
            return (p[0], p[1]) if p and r.random() < .7 else self.rel(d)
        if ty in ("i", "f"):
            return self.num(ty, d)
        p = self.pick(ty)
        if p and r.random() < .6:
            return p[0], p[1]
        if ty[0] == "a":
            if d <= -2:
                return None
            n = ty[2] or r.randint(1, 3)
            es = [self.any(ty[1], d - 1) for _ in range(n)]
            if any(e is None for e in es):
                return None
            return "{%s}" % ", ".join(e[0] for e in es), ["arr", [e[1] for e in es]]
        if ty[0] == "r":
            if d <= -2:
                return (p[0], p[1]) if p else None
            es = [self.any(t, d - 1) for _, t in self.structs[ty[1]]]
            if any(e is None for e in es):
                return None
            return "%s(%s)" % (ty[1], ", ".join(e[0] for e in es)), ["str", ty[1], [e[1] for e in es]]
        return (p[0], p[1]) if p else None

    def agg(self, d, bz=False):
        r = self.r
        st, stree, ety = self.setexpr(d)
        for _ in range(3 if self.wide else 0):
            if len(self.bound) == 0 and not (stree[0] == "ina" and len(stree[1]) == self.wide):
                st, stree, ety = self.setexpr(d)
        if self.shadow and self.bound and r.random() < .5:
            v = self.bound[-1][0]
        elif self.shadow and r.random() < .3 and any(x[1][0] == "id" for x in self.vars):
            v = r.choice([x[0] for x in self.vars if x[1][0] == "id"])      # of a definition or a label
        else:
            self.nb += 1
            v = "v%d" % self.nb if not (self.nb % 3) else "v%d" % (len(self.bound))
        kind = r.choice(["each", "some", "exactly", "atleast", "atmost"])
        kw = {"each": "foreach", "some": "forsome", "exactly": "forexactly", "atleast": "foratleast", "atmost": "foratmost"}[kind]
        num = (None, ["c", 0])
        if kind in ("exactly", "atleast", "atmost"):
            num = self.const("i") if r.random() < .7 else self.num("i", 0)
        self.bound.append((v, ["id", v], ety))
        body = self.boolean(d - 1, kind in ("each", "some") and not bz, must=v)
        self.bound.pop()
        t = "%s(%s: %s%s)(%s)" % (kw, v, st, "" if num[0] is None else ", " + num[0], body[0])
        return t, ["agg", kind, num[1], v, stree, body[1]]

    def boolean(self, d, tl, must=None):
        """tl: operators of the temporal engine are allowed"""
        r = self.r
        k = r.random()
        if d <= 0 or k < .15:
            if must and r.random() < .8:
                c = [x for x in self.candidates("b", not tl) if x[1][0] == "id" and x[1][1] == must or x[0].startswith(must + ".")]
                if c:
                    c = r.choice(c)
                    return c[0], c[1]
                ty = [x for x in self.bound if x[0] == must][-1][2]
                if ty in ("i", "f"):
                    o = self.num(ty, 1)
                    op = r.choice(["<", ">", "==", "!=", "<=", ">="])
                    return "(%s %s %s)" % (must, op, o[0]), ["bz", op, ty, [["id", must], o[1]]]
            p = self.pick("b", not tl)
            return (p[0], p[1]) if p and r.random() < .6 else self.rel(1, tl)
        if not tl:
            if k < .3:
                a, b = self.pick("b", True), self.pick("b", True)
                if a and b:
                    op = r.choice("&|^")
                    return "(%s %s %s)" % (a[0], op, b[0]), ["bz", op, "b", [a[1], b[1]]] if False else \
                        ["bz", {"&": "&&", "|": "||", "^": "!="}[op], "b", [a[1], b[1]]]
            return self.rel(d)
        if k < .4 and len(self.bound) < 3:
            return self.agg(d)
        if k < .55 and self.temporal:
            op = r.choice("OHST" if self.cur_past else "FGUR")
            l = r.randint(0, 2)
            u = r.randint(l, 3)
            a = self.boolean(d - 1, True, must)
            if op in "FGOH":
                return "(%s[%d,%d] (%s))" % (op, l, u, a[0]), ["tl", op, l, u, [a[1]]]
            b = self.boolean(d - 1, True, must)
            return "((%s) %s[%d,%d] (%s))" % (a[0], op, l, u, b[0]), ["tl", op, l, u, [a[1], b[1]]]
        if k < .65:
            a = self.boolean(d - 1, True, must)
            return "(!%s)" % ("(%s)" % a[0]), ["tl", "!", 0, 0, [a[1]]]
        a, b = self.boolean(d - 1, True, must), self.boolean(d - 1, True)
        op = r.choice(["&&", "||", "->", "<->", "xor"])
        if r.random() < .5:
            a, b = b, a
        return "((%s) %s (%s))" % (a[0], op, b[0]), ["tl", fm.BIN[op], 0, 0, [a[1], b[1]]]

    # ---------------------------------------------------------------- sections
    def define(self, k):
        r = self.r
        self.out.append("DEFINE")
        for j in range(r.randint(1, 4)):
            name = "d%d%d" % (k, j)
            q = r.random()
            tl = False
            if q < .3:
                tl = r.random() < .7
                x, ty = self.boolean(2, tl), "b"
            elif q < .45:
                ty = r.choice("iif")
                x = self.num(ty, 2)
            elif q < .75 and self.structs:
                ty = ("r", r.choice(sorted(self.structs)))
                x = self.any(ty, 1)
            else:
                ety = r.choice(["b", "i"] + [("r", s) for s in self.structs])
                ty = ("a", ety, r.randint(1, 3))
                x = self.any(ty, 1)
            if x is None:
                continue
            self.bzok = dict(self.bzok)
            self.bzok[name] = not tl
            self.out.append("  %s := %s;" % (name, x[0]))
            self.items.append([name, x[1], 0])
            self.vars.append((name, ["id", name], ty))
        if self.out[-1] == "DEFINE":
            self.out.pop()

    def specs(self, past, n):
        r = self.r
        self.cur_past = past
        self.out.append("PTSPEC" if past else "FTSPEC")
        for _ in range(n):
            x = self.boolean(r.randint(1, 3), True) if r.random() < .6 else self.agg(r.randint(1, 3))
            if len(x[0]) > 500:
                continue
            lab = ""
            if r.random() < .4:
                lab = "lab%d" % self.nlab
                self.nlab += 1
            self.out.append("  %s%s;" % (lab + ": " if lab else "", x[0]))
            self.items.append([lab, x[1], 1])
            if lab:
                self.bzok = dict(self.bzok)
                self.bzok[lab] = False
                self.vars.append((lab, ["id", lab], "b"))
        if self.out[-1].endswith("SPEC"):
            self.out.pop()

    def text(self):
        return "\n".join(self.out) + "\n"

    def row(self):
        r = self.r
        out = []
        p = r.choice([.5, .5, .5, .85, .15])
        for name, ty, enum in self.inputs:
            if enum:
                out.append(r.choice(self.enums[enum])[1])
            elif ty == "b":
                out.append(int(r.random() < p))
            elif ty == "i":
                out.append(r.randint(-1, 4) if r.random() < .8 else r.randint(-9, 9))
            else:
                out.append(r.choice([0, 64, 128, 256, 512, -64]))
        return out


def program(r, shadow=False, past=None):
    g = Surf(r, shadow=shadow)
    if r.random() < .6:
        g.declare_structs()
    if r.random() < .4:
        g.declare_enums()
    g.declare_inputs(0)
    if past is None:
        past = r.random() < .4
    g.cur_past = past
    if r.random() < .8:
        g.define(0)
    g.specs(past, r.randint(1, 3))
    if r.random() < .3:
        if r.random() < .5:
            g.declare_inputs(1)
        g.define(1)
        g.specs(past, r.randint(1, 2))
    return g
