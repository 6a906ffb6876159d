"""Token sequences of whole specification files for spec/Files.tla: programs of surfgen and what is left of
them after a few edits.  Which files are well-formed, and what they mean, is decided there."""
import re
from surfgen import program
from bzgen import fnum

KW = {"STRUCT", "ENUM", "INPUT", "DEFINE", "FTSPEC", "PTSPEC", "foreach", "forsome", "forexactly", "foratleast", "foratmost", "TAU", "pow", "sqrt",
      "abs", "prev", "xor", "G", "F", "H", "O", "U", "R", "S", "T", "M", "true", "false"}
LEX = re.compile(r"\s*(?:([A-Za-z_]\w*)|(-?\d*\.\d+)|(-?[1-9]\d*|0)|(<->|->|=>|:=|\.\.|==|!=|<=|>=|<<|>>|\|\||&&|[^\s\w]))")
CLASSES = [["+", "-", "*", "/", "%", "pow"], ["==", "!=", "<", ">", "<=", ">="], ["&&", "||", "->", "<->", "xor", "&", "|", "^"], ["!", "~", "-"],
           ["G", "F", "H", "O"], ["U", "R", "S", "T"], ["foreach", "forsome"], ["forexactly", "foratleast", "foratmost"], ["[", "]", "{", "}", "(", ")"],
           [",", ";", ":", ".", "..", ":=", "=>"], ["true", "false", "TAU"], ["STRUCT", "ENUM", "INPUT", "DEFINE", "FTSPEC", "PTSPEC"], ["abs", "sqrt"]]
SECTIONS = CLASSES[11]
# numbers that no other one comes near, for comparisons with inputs: (scaled) value in the specification -> text
EXTREME = {1: ["0.00002", "0.00007"], -1: ["-0.00003", "-.00002"], 500000000: ["20000000000000000.0", "123456789012345678.5"], -500000000: ["-30000000000000000.0"]}
BIG = ["2147483648", "-99999999999", "4294967296"]


def tokens(text):
    out, p = [], 0
    text = text.rstrip()
    while p < len(text):
        m = LEX.match(text, p)
        w, f, i, o = m.groups()
        p = m.end()
        out.append([w] if w in KW else ["id", w] if w else ["flt", round(float(f) * 256)] if f else ["int", int(i)] if i else [o])
    return out


def text(r, toks):
    out = []
    for t in toks:
        k = t[0]
        s = t[1] if k in ("id", "?") else str(t[1]) if k == "int" else (r.choice(EXTREME[t[1]]) if t[1] in EXTREME else fnum(t[1])) if k == "flt" else r.choice(BIG) if k == "big" else k
        if k in SECTIONS:
            out.append("\n" + s + "\n ")
        else:
            out.append(s)
            if k == ";":
                out.append("\n ")
    return " ".join(out) + "\n"


def statements(toks):
    """[(first, behind last)] of the statements, each with its semicolon"""
    out, a, depth = [], 0, 0
    for k, t in enumerate(toks):
        if t[0] in SECTIONS:
            a = k + 1
        depth += {"{": 1, "}": -1}.get(t[0], 0)
        if t[0] == ";" and depth <= 0:
            out.append((a, k + 1))
            a, depth = k + 1, 0
    return out


def anytoken(r, toks):
    k = r.random()
    if k < .5:
        return list(r.choice(toks))
    if k < .6:
        return ["?", r.choice("$@`\\#'")]
    if k < .8:
        return [r.choice(r.choice(CLASSES))]
    return r.choice([["int", r.choice([-1, 0, 1, 2, 3])], ["flt", 128], ["id", "zz"], ["id", "bool"], ["id", "int"], ["id", "float"], ["M"]])


def mutate(r, toks):
    t = [list(x) for x in toks]
    if not t:
        return t
    k = r.random()
    p = r.randrange(len(t))
    ids = [q for q, x in enumerate(t) if x[0] == "id"]
    if k < .07:
        del t[p]
    elif k < .11:
        t.insert(p, list(t[p]))
    elif k < .15:
        q = r.randrange(len(t)) if r.random() < .5 else min(p + 1, len(t) - 1)
        t[p], t[q] = t[q], t[p]
    elif k < .19:
        t[p] = anytoken(r, t)
    elif k < .23:
        t.insert(p, anytoken(r, t))
    elif k < .47 and ids:
        q = r.choice(ids)
        ty = [x for x in ids if t[x][1] in ("bool", "int", "float")]
        if ty and r.random() < .2:
            q = r.choice(ty)
            named = [t[x][1] for x in ids if x + 2 < len(t) and t[x + 1][0] == ":" and t[x + 2][0] == "{"]
            t[q] = ["id", r.choice(["bool", "int", "float"] * 2 + named)]
        else:
            t[q] = list(t[r.choice(ids)])
    elif k < .58:
        ns = [q for q, x in enumerate(t) if x[0] in ("int", "flt")]
        if ns:
            q = r.choice(ns)
            if r.random() < .08 and t[q - 1][0] not in ("[", ",", ".."):
                t[q] = ["big"]
            elif r.random() < .15:
                t[q] = ["flt", r.choice([128, 256, 0, -64])] if t[q][0] == "int" else ["int", r.choice([0, 1, 2])]
            else:
                t[q] = [t[q][0], r.choice([-2, -1, 0, 0, 1, 1, 2, 2, 3, 4, 5]) * (256 if t[q][0] == "flt" else 1)]
    elif k < .78:
        c = [(q, c) for q, x in enumerate(t) for c in CLASSES if [x[0]] == x and x[0] in c]
        if c:
            q, cl = r.choice(c)
            if cl[0] in "[,STRUCT" and r.random() < .6:
                return mutate(r, toks)
            t[q] = [r.choice(cl)]
    elif k < .83:        # one expression in the place of another
        a, b = subexpr(r, t), subexpr(r, t)
        if a and b:
            t = t[:a[0]] + [list(x) for x in t[b[0]:b[1]]] + t[a[1]:]
    else:
        st = statements(t)
        if st:
            a, b = r.choice(st)
            c, d = r.choice(st)
            how = r.randrange(5)
            if how == 0:
                del t[a:b]
            elif how == 1:
                t = t[:b] + [list(x) for x in t[a:b]] + t[b:]
            elif how == 2 and b <= c:
                t = t[:a] + t[c:d] + t[b:c] + t[a:b] + t[d:]
            elif how == 3:           # put it somewhere else
                s = t[a:b]
                u = t[:a] + t[b:]
                q = [q for q, x in enumerate(u) if x[0] == ";" or x[0] in SECTIONS]
                if q:
                    q = r.choice(q) + 1
                    t = u[:q] + s + u[q:]
            elif t[a:a + 2][-1:] == [[":"]] or t[a][0] == "id" and b - a > 3:   # a contract
                e = [list(x) for x in t[c:d - 1]]
                if e[1:2] in ([[":"]], [[":="]]):
                    e = e[2:]
                t = t[:b - 1] + [["=>"]] + e + t[b - 1:]
    return t


GENTLE = [["+", "-"], CLASSES[1], ["&&", "||", "->", "<->", "xor"], CLASSES[4], ["U", "R"], ["S", "T"], CLASSES[6], CLASSES[7], ["true", "false"], ["FTSPEC", "PTSPEC"]]


def gentle(r, t, types):
    """an edit that likely leaves a well-formed file; types: of the names"""
    t = [list(x) for x in t]
    k = r.random()
    if k < .35:
        c = [(q, c) for q, x in enumerate(t) for c in GENTLE if len(x) == 1 and x[0] in c]
        if c:
            q, cl = r.choice(c)
            t[q] = [r.choice(cl)]
    elif k < .5:
        ns = [q for q, x in enumerate(t) if x[0] == "int" and t[q - 1][0] not in ("[", ",", "..") and t[q + 1][0] not in ("]", "..", ",")]
        if ns:
            t[r.choice(ns)][1] = r.randint(0, 5)
    elif k < .8:
        ids = [q for q, x in enumerate(t) if x[0] == "id" and x[1] in types and t[q + 1][0] not in (":", ":=", ",")]
        if ids:
            q = r.choice(ids)
            same = [p for p in ids if types[t[p][1]] == types[t[q][1]] and p < q]
            if same:
                t[q] = list(t[r.choice(same)])
    else:               # parentheses around a sub-expression: away, or twice
        ps = [q for q, x in enumerate(t) if x == ["("] and t[q - 1][0] not in ("id", ")", "abs", "prev", "sqrt") and t[q - 1][0] not in CLASSES[6] + CLASSES[7]]
        if ps:
            a = r.choice(ps)
            n = 0
            for b in range(a, len(t)):
                n += {"(": 1, ")": -1}.get(t[b][0], 0)
                if n == 0:
                    t = t[:a] + t[a + 1:b] + t[b + 1:] if r.random() < .7 else t[:a] + [["("]] + t[a:b] + [[")"]] + t[b:]
                    break
    return t


ODD = ["prevx", "abs1", "G1", "trueish", "foreachv", "TAU_", "xor1", "pow2", "sqrt_", "U_", "INPUT1", "_x", "M1", "Fx", "bool2", "intx", "H_", "e1", "STRUCTS", "forsome_"]


def subexpr(r, t):
    """an operand, very roughly: a name, a literal or something in parentheses"""
    for _ in range(8):
        p = r.randrange(len(t))
        if t[p][0] in ("id", "int", "flt", "true", "false", "TAU"):
            return p, p + 1
        if t[p][0] == "(":
            n = 0
            for q in range(p, len(t)):
                n += {"(": 1, ")": -1}.get(t[q][0], 0)
                if n == 0:
                    return p, q + 1
    return None


def contract(r, t):
    """turns a labelled formula into a contract"""
    c = [(a, b) for a, b in statements(t) if t[a][0] == "id" and t[a + 1] == [":"] and t[a + 2] != ["{"] and t[a][1].startswith("lab")]
    if not c:
        return t
    a, b = r.choice(c)
    e = subexpr(r, t[a + 2:b - 1])
    e = t[a + 2:b - 1][e[0]:e[1]] if e else t[a + 2:b - 1]
    return t[:b - 1] + [["=>"]] + [list(x) for x in e] + t[b - 1:]


def afile(r, edits=None, limit=350):
    """(tokens, types of the identifiers as far as the unedited program has them)"""
    while True:
        g = program(r, shadow=r.random() < .3)
        t = tokens(g.text())
        if len(t) > limit:
            continue
        if r.random() < .25:
            t = contract(r, t)
        if r.random() < .15:
            t = [["M"] if x[0] == "int" and q > 1 and t[q + 1:q + 2] == [["]"]] and t[q - 1] == [","] and r.random() < .4 else x for q, x in enumerate(t)]
        types = {n: str(ty) for n, _, ty in g.vars}
        if r.random() < .5:
            for _ in range(r.randint(1, 4)):
                t = gentle(r, t, types)
        for _ in range(r.choice([0, 0, 1, 1, 1, 2]) if edits is None else edits):
            t = mutate(r, t)
        xs = [n for n, tree, ty in g.vars if ty == "f" and tree[0] == "in"]
        if xs and r.random() < .3:
            t = t + [["id", r.choice(xs)], [r.choice(["<", ">", "<=", ">="])], ["flt", r.choice(list(EXTREME))], [";"]]
        if t:
            return g, t
