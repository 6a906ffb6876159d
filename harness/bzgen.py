"""Typed expressions over the inputs: a node table for spec/Booleanizer.tla and the C2PO text.
Floats are kept as multiples of 1/256 with tracked magnitude and precision, so that all values
are exact in single and double precision; integers stay far from overflow."""
SCALE = 256
FMAX = 60 * SCALE        # |float| bound (scaled)
IMAX = 20000


class Gen:
    def __init__(self, r, inputs, prev=True, tau=True, share=True):
        """inputs: list of (name, type, lo, hi) with floats as multiples of 1/4 (scaled bounds)"""
        self.r, self.inputs = r, inputs
        self.nodes, self.index = [], {}
        self.prev, self.tau = prev, tau
        self.pool = {"i": [], "f": [], "b": []}
        self.noprev = 0

    def node(self, op, a=0, b=0, ty="i"):
        k = (op, a, b, ty)
        if k not in self.index:
            self.nodes.append([op, a, b, ty])
            self.index[k] = len(self.nodes)
        return self.index[k]

    def const(self, v, ty):
        n = self.node("c", v, 0, ty)
        if ty == "b":
            return n, "true" if v else "false"
        s = str(v) if ty == "i" else fnum(v)
        return n, "(-%s)" % s[1:] if v < 0 else s

    # every generator returns (node, text, bound, bits); bits = fractional bits of a float
    def leaf(self, ty):
        r = self.r
        if ty == "i" and self.tau and r.random() < .12:
            return self.node("tau"), "TAU", 300, 0
        c = [(k, x) for k, x in enumerate(self.inputs) if x[1] == ty]
        if c and r.random() < .8:
            k, x = r.choice(c)
            return self.node("in", k, 0, ty), x[0], max(abs(x[2]), abs(x[3])), 2
        if ty == "i":
            v = r.choice([0, 1, 2, 3, 5, 7, 10, 100, -1, -2, -7])
            return self.const(v, "i") + (abs(v), 0)
        if ty == "f":
            v = r.choice([0, 64, 128, 256, 384, 512, 1024, -64, -256, 640])
            return self.const(v, "f") + (abs(v), 2)
        v = r.randrange(2)
        return self.const(v, "b") + (1, 0)

    def leaf_in(self, ty):
        c = [(k, x) for k, x in enumerate(self.inputs) if x[1] == ty]
        if not c:
            return None
        k, x = self.r.choice(c)
        return self.node("in", k, 0, ty), x[0], max(abs(x[2]), abs(x[3])), 2

    def expr(self, ty, d):
        r = self.r
        if self.pool[ty] and r.random() < .2:
            e = r.choice(self.pool[ty])
            if not (self.noprev and "prev(" in e[1]):
                return e
        e = self.leaf(ty) if d <= 0 else {"i": self.int, "f": self.flt, "b": self.bool}[ty](d)
        self.pool[ty].append(e)
        return e

    def wrap(self, t):
        return "(%s)" % t

    def mkprev(self, ty, d):
        r = self.r
        self.noprev += 1
        e = self.expr(ty, d - 1)
        self.noprev -= 1
        v = {"i": lambda: r.choice([0, 1, 3, 50]), "f": lambda: r.choice([0, 128, 640]), "b": lambda: r.randrange(2)}[ty]()
        cn, ct = self.const(v, ty)
        return self.node("prev", cn, e[0], ty), "prev(%s, %s)" % (ct, e[1]), max(e[2], abs(v)), max(e[3], 2)

    def int(self, d):
        r = self.r
        k = r.randrange(14)
        a = self.expr("i", d - 1)
        if k == 0 and self.prev and not self.noprev:
            return self.mkprev("i", d)
        if k == 1:
            return self.node("neg", a[0]), "(-%s)" % self.wrap(a[1]), a[2], 0
        if k == 2:
            return self.node("abs", a[0]), "abs(%s)" % a[1], a[2], 0
        if k == 3:
            return self.node("~", a[0]), "(~%s)" % self.wrap(a[1]), a[2] + 1, 0
        if k == 4 and a[2] <= 25:
            n = r.randint(0, 3)
            return self.node("pow", a[0], self.const(n, "i")[0]), "(%s pow %d)" % (self.wrap(a[1]), n), max(1, a[2] ** n), 0
        if k in (5, 6):
            v = r.choice([1, 2, 3, 4, 5, 7, 10])
            if r.random() < .2:
                v = -v
            op = "/" if k == 5 else "%"
            c = self.const(v, "i")
            return self.node(op, a[0], c[0]), "(%s %s %s)" % (self.wrap(a[1]), op, c[1]), a[2], 0
        b = self.expr("i", d - 1)
        if k == 7 and a[2] * b[2] <= IMAX:
            return self.node("*", a[0], b[0]), "(%s * %s)" % (self.wrap(a[1]), self.wrap(b[1])), a[2] * b[2], 0
        if k in (8, 9, 10):
            op = "&|^"[k - 8]
            m = 1
            while m <= max(a[2], b[2]):
                m *= 2
            if m > 4 * IMAX:
                return a
            return self.node(op, a[0], b[0]), "(%s %s %s)" % (self.wrap(a[1]), op, self.wrap(b[1])), m, 0
        if a[2] + b[2] > IMAX:
            return a
        op = "+" if r.random() < .5 else "-"
        return self.node(op, a[0], b[0]), "(%s %s %s)" % (self.wrap(a[1]), op, self.wrap(b[1])), a[2] + b[2], 0

    def flt(self, d):
        r = self.r
        k = r.randrange(11)
        a = self.expr("f", d - 1)
        if k == 0 and self.prev and not self.noprev:
            return self.mkprev("f", d)
        if k == 1:
            return self.node("neg", a[0], 0, "f"), "(-%s)" % self.wrap(a[1]), a[2], a[3]
        if k == 2:
            return self.node("abs", a[0], 0, "f"), "abs(%s)" % a[1], a[2], a[3]
        if k == 3 and 2 * a[3] <= 8 and (a[2] / SCALE) ** 2 * SCALE <= FMAX:
            m = self.node("*", a[0], a[0], "f")
            return self.node("sqrt", m, 0, "f"), "sqrt(%s * %s)" % (self.wrap(a[1]), self.wrap(a[1])), a[2], a[3]
        if k == 4 and 2 * a[3] <= 8 and (a[2] / SCALE) ** 2 * SCALE <= FMAX:
            c = self.const(512, "f")
            return self.node("pow", a[0], c[0], "f"), "(%s pow 2.0)" % self.wrap(a[1]), int((a[2] / SCALE) ** 2 * SCALE) + 1, 2 * a[3]
        if k == 5 and a[3] <= 6:
            v = r.choice([2, 4])
            c = self.const(v * SCALE * (1 if r.random() < .8 else -1), "f")
            return self.node("/", a[0], c[0], "f"), "(%s / %s)" % (self.wrap(a[1]), c[1]), a[2], a[3] + (1 if v == 2 else 2)
        b = self.expr("f", d - 1)
        if k in (6, 7) and a[3] + b[3] <= 8 and a[2] * b[2] // SCALE <= FMAX:
            return self.node("*", a[0], b[0], "f"), "(%s * %s)" % (self.wrap(a[1]), self.wrap(b[1])), a[2] * b[2] // SCALE + 1, a[3] + b[3]
        if a[2] + b[2] > FMAX:
            return a
        op = "+" if r.random() < .5 else "-"
        return self.node(op, a[0], b[0], "f"), "(%s %s %s)" % (self.wrap(a[1]), op, self.wrap(b[1])), a[2] + b[2], max(a[3], b[3])

    def rel(self, d, types="if"):
        r = self.r
        ty = r.choice(types)
        if r.random() < .1:     # truth values: no literals (known finding of C06), and equality only
            a, b = [self.rel(d - 1) if d > 1 and r.random() < .7 else
                    self.leaf_in("b") or self.rel(d - 1) for _ in range(2)]
            op = r.choice(["==", "!="])
            return self.node(op, a[0], b[0], "b"), "(%s %s %s)" % (a[1], op, b[1]), 1, 0
        a, b = self.expr(ty, d - 1), self.expr(ty, d - 1)
        op = r.choice(["==", "!=", "<", "<=", ">", ">="])
        return self.node(op, a[0], b[0], ty), "(%s %s %s)" % (a[1], op, b[1]), 1, 0

    def bool(self, d):
        r = self.r
        k = r.randrange(6)
        if k == 0 and self.prev and not self.noprev:
            return self.mkprev("b", d)
        if k == 1 and any(x[1] == "b" for x in self.inputs):
            return self.leaf("b")
        return self.rel(d)


def fnum(v):
    """decimal text of a scaled float (exact)"""
    s = "-" if v < 0 else ""
    v = abs(v)
    n, f = divmod(v, SCALE)
    frac = str(10 ** 8 + f * 10 ** 8 // SCALE)[1:].rstrip("0") or "0"
    return "%s%d.%s" % (s, n, frac)
