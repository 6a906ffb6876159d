"""Random specifications as token sequences for spec/Syntax.tla, and their text.  What a sequence means,
and whether it is well-typed, is decided there."""
from bzgen import fnum

LV = {"->": 1, "xor": 1, "<->": 1, "||": 2, "&&": 3, "U": 4, "R": 4, "S": 4, "T": 4, "G": 5, "F": 5, "H": 5, "O": 5, "|": 6, "^": 7,
      "&": 8, "==": 9, "!=": 9, "<": 10, ">": 10, "<=": 10, ">=": 10, "+": 12, "-": 12, "*": 13, "/": 13, "%": 13, "pow": 13}
INPUTS = [("i", "i"), ("j", "i"), ("x", "f"), ("y", "f"), ("a", "b"), ("b", "b"), ("c", "b")]
BOOLS = [("p%d" % k, "b") for k in range(4)] + [("n0", "i"), ("x0", "f")]
UNI = {"!": "¬", "&&": "∧", "||": "∨", "->": "→", "<->": "↔", "!=": "≠", ">=": "≥", "<=": "≤", "*": "•", "/": "÷"}


class G:
    def __init__(self, r, mode, past):
        """mode: "bz", "bool" (no booleanizer), "mltl" """
        self.r, self.mode, self.past = r, mode, past
        self.inputs = INPUTS if mode == "bz" else BOOLS if mode == "bool" else [("a%d" % k, "b") for k in range(4)]
        self.big = 2            # multiplications and powers left
        self.inprev = False
        self.slip = 0.0         # chance of an operand of the wrong type

    def var(self, ty):
        if self.slip and self.r.random() < self.slip / 3:
            return [["id", "zz"]]
        c = [(k, x) for k, x in enumerate(self.inputs) if x[1] == ty]
        k, x = self.r.choice(c)
        return [["id", x[0]]]

    def bound(self):
        l = self.r.randint(0, 2)
        b = [l, self.r.randint(l, 3)]
        return b[::-1] if self.slip and self.r.random() < self.slip / 2 else b

    def tree(self, ty, d):
        r = self.r
        if self.slip and self.mode != "mltl" and r.random() < self.slip:
            ty = r.choice([t for t in "bif" if t != ty])
        if ty == "b":
            if self.slip and self.mode != "mltl" and d > -1 and r.random() < self.slip:
                k = r.randrange(6)
                if k == 5:
                    return ("fun", "prev", [("leaf", [["true"]]), self.tree("b", d - 1)])
                if k == 0:
                    return ("pre", [r.choice("-~")], self.tree("b", d - 1))
                if k == 1:
                    return ("fun", "abs", [self.tree("b", d - 1)])
                return ("bin", [r.choice(["<", ">", "<=", ">=", "+", "-", "*", "&", "|", "^"])], self.tree("b", d - 1), self.tree("b", d - 1))
            if d <= 0 and self.mode != "bz" or d <= -2 or r.random() < .08:
                return ("leaf", self.var("b"))
            k = r.random()
            if self.mode == "bz" and (d <= 0 or k < .3):
                t = r.choice("iiif")
                return ("bin", [r.choice(["==", "!=", "<", ">", "<=", ">="])], self.tree(t, d - 1), self.tree(t, d - 1))
            if self.slip and r.random() < self.slip / 2:
                return ("pre", [r.choice("GFHO")] + self.bound(), self.tree("b", d - 1))
            if self.mode != "mltl" and k < .4:
                return ("bin", [r.choice(["==", "!="])], self.tree("b", d - 1), self.tree("b", d - 1))
            if k < .5:
                return ("pre", ["!"], self.tree("b", d - 1))
            if k < .63:
                return ("pre", [r.choice("HO" if self.past else "GF")] + self.bound(), self.tree("b", d - 1))
            if k < .76:
                return ("bin", [r.choice("ST" if self.past else "UR")] + self.bound(), self.tree("b", d - 1), self.tree("b", d - 1))
            ops = ["&", "|", "&", "|", "->", "<->"] if self.mode == "mltl" else ["&&", "||", "&&", "||", "->", "<->", "xor"]
            return ("bin", [r.choice(ops)], self.tree("b", d - 1), self.tree("b", d - 1))
        if d <= 0 or r.random() < .15:
            k = r.random()
            if k < .65:
                return ("leaf", self.var(ty))
            if ty == "f":
                return ("leaf", [["flt", r.choice([0, 128, 256, 384, 512, -256, -64])]])
            return ("leaf", [["tau"]] if k < .7 else [["int", r.choice([0, 1, 2, 3, 5, -1, -2])]])
        k = r.randrange(12)
        if k == 0:
            return ("fun", "abs", [self.tree(ty, d - 1)])
        if k == 1:
            return ("pre", ["-"], self.tree(ty, d - 1))
        if k == 2 and ty == "i":
            return ("pre", ["~"], self.tree(ty, d - 1))
        if k == 3 and not self.inprev:
            self.inprev = True
            e = self.tree(ty, d - 1)
            self.inprev = False
            return ("fun", "prev", [("leaf", [["int", r.choice([0, 2])] if ty == "i" else ["flt", 128]]), e])
        if k in (4, 5) and self.big:
            self.big -= 1
            op = r.choice(["*", "pow"]) if ty == "i" else "*"
            rhs = ("leaf", [["int", r.randint(0, 2)]]) if op == "pow" else self.tree(ty, d - 1)
            return ("bin", [op], self.tree(ty, d - 1), rhs)
        if k == 6:
            if ty == "f":
                if self.big < 2:
                    return ("leaf", self.var(ty))
                self.big -= 1
                return ("bin", ["/"], self.tree(ty, d - 1), ("leaf", [["flt", 512]]))
            return ("bin", [r.choice("/%")], self.tree(ty, d - 1), ("leaf", [["int", r.choice([1, 2, 3, -2])]]))
        if k in (7, 8) and ty == "i":
            return ("bin", [r.choice("&|^")], self.tree(ty, d - 1), self.tree(ty, d - 1))
        return ("bin", [r.choice("+-")], self.tree(ty, d - 1), self.tree(ty, d - 1))

    def level(self, t):
        if t[0] == "bin":
            return LV[t[1][0]]
        if t[0] == "pre":
            return LV.get(t[1][0], 14) if t[1][0] != "-" else 14
        return 20

    def tokens(self, t, how, at=0):
        """how: chance of parentheses that (heuristically) are not needed, chance of leaving out needed ones"""
        r = self.r
        if t[0] == "leaf":
            out = [list(x) for x in t[1]]
        elif t[0] == "fun":
            out = [[t[1]], ["("]]
            for k, x in enumerate(t[2]):
                out += ([[","]] if k else []) + self.tokens(x, how)
            out += [[")"]]
        elif t[0] == "pre":
            l = self.level(t)
            out = [t[1]] + self.tokens(t[2], how, l)
        else:
            l = self.level(t)
            rhs = t[3]
            keep = t[1][0] in ("/", "%", "pow")
            out = self.tokens(t[2], how, l) + [t[1]] + (self.tokens(rhs, (0, 0), 0) if keep else self.tokens(rhs, how, l + 1))
        need = self.level(t) < at
        if r.random() < (1 - how[1] if need else how[0]):
            for _ in range(2 if r.random() < .05 else 1):
                out = [["("]] + out + [[")"]]
        return out


def text(r, toks, mode, plain=False):
    """plain: ASCII, one blank between tokens"""
    out, word = "", False
    uni = r.random() < .2 and mode != "mltl"
    tight = r.random()
    for t in toks:
        k = t[0]
        if k in ("id", "?"):
            s = t[1]
        elif k == "int":
            s = str(t[1])
        elif k == "flt":
            s = fnum(t[1])
            if not plain and s.startswith("0.") and r.random() < .3:
                s = s[1:]
        elif k in ("true", "false"):
            s = k
        elif k == "tau":
            s = "TAU"
        elif len(t) == 3:
            s = "%s[%d]" % (k, t[2]) if t[1] == 0 and r.random() < .4 and not plain else \
                "%s[%d,%d]" % (k, t[1], t[2]) if plain or r.random() < .8 else "%s [ %d , %d ]" % (k, t[1], t[2])
        else:
            s = UNI[k] if uni and k in UNI and r.random() < .7 else k
        first = s[0].isalnum() or s[0] in "_.-"
        if out and (plain or r.random() > tight or (word and first and mode != "mltl") or (out[-1] == "-" and first) or
                    (out[-1] in "-<&|!=~" and s[0] in "-<>&|=!~") or (s[0] == "-" and len(s) > 1)):
            sp = " " if plain else r.choice([" ", " ", " ", "  ", "\t"])
            if not plain and mode != "mltl" and r.random() < .04:
                sp = r.choice(["\n", " -- remark\n", " --- (x; \n", "\n\n  "])
            out += sp
        out += s
        word = s[-1].isalnum() or s[-1] in "_."
    return out


def program(r, mode=None, slip=0.0, nf=None):
    mode = mode or r.choice(["bz", "bz", "bz", "bool", "mltl"])
    past = r.random() < .4
    fs = []
    for _ in range(nf or r.randint(1, 3)):
        g = G(r, mode, past)
        g.slip = slip
        how = r.choice([(0, 0), (0, 0), (.1, .1), (.3, .3), (0, .6), (0, 1)] if mode != "bz" else [(0, 0), (0, 0), (0, 0), (.1, .05), (.2, .2), (.6, 0)])
        ts = g.tokens(g.tree("b", r.randint(1, 4)), how)
        while slip and r.random() < slip * 4 and ts:
            k = r.randrange(len(ts))
            how = r.randrange(5)
            if how == 0:
                ts = ts[:k] + [["?", r.choice("$@`\\")]] + ts[k:]
            elif how == 1:
                ts = ts[:k] + ts[k + 1:]
            elif how == 2:
                ts = ts[:k] + [ts[k]] + ts[k:]
            elif how == 3:
                ts = ts[:k] + [r.choice([["("], [")"], [","], ["!"], ["id", "x"], ["U", 0, 1]])] + ts[k:]
            else:
                j = r.randrange(len(ts))
                ts[k], ts[j] = ts[j], ts[k]
        if len(ts) <= 60 and ts not in fs:
            fs.append(ts)
    if not fs:
        return program(r, mode, slip, nf)
    return mode, past, fs


def source(r, mode, past, fs):
    if mode == "mltl":
        return "".join((r.choice(["# p & q\n", "", "", ""])) + text(r, f, mode) + "\n" for f in fs)
    ins = INPUTS if mode == "bz" else BOOLS
    ty = {"b": "bool", "i": "int", "f": "float"}
    decl = "".join("%s: %s;%s" % (n, ty[t], r.choice([" ", "\n", " -- %s;\n" % n])) for n, t in ins)
    return "INPUT " + decl + "\n%sSPEC\n" % ("PT" if past else "FT") + "".join("  " + text(r, f, mode) + ";\n" for f in fs)
