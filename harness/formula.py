"""Formulas as Python tuples: ('v',i) ('c',bool) ('!',x) (op,x,y,...) for && || -> <-> xor,
(T,lb,ub,x) for T in F G O H, (T,lb,ub,x,y) for T in U R S T.  Conversion to the node tables of
spec/MLTL.tla, to concrete syntax, and seeded random generation.  No semantics lives here."""
import random

FT1, FT2, PT1, PT2 = ("F", "G"), ("U", "R"), ("O", "H"), ("S", "T")
BIN = {"&&": "&", "||": "|", "->": ">", "<->": "=", "xor": "^"}
INV = {v: k for k, v in BIN.items()}
BIN.update({"==": "=", "!=": "^"})     # comparisons of truth values
NAMES = ["a", "b", "c", "d", "e", "g", "h", "k"]


def kids(f):
    if f[0] in ("v", "c", "cmp"):
        return ()
    if f[0] in "FGOHURST":
        return f[3:]
    return f[1:]


def nodes_of(formulas):
    """-> (nodes, roots) for spec/MLTL.tla; shared structure is shared."""
    nodes, idx = [], {}

    def put(n):
        n = list(n)
        k = tuple(n)
        if k not in idx:
            nodes.append(n)
            idx[k] = len(nodes)
        return idx[k]

    def go(f):
        op = f[0]
        if op == "v":
            return put(("v", f[1], 0, 0, 0))
        if op == "c":
            return put(("t" if f[1] else "f", 0, 0, 0, 0))
        if op == "cmp":         # ("cmp", op, term, term): only in spec/Sat.tla
            return put(f + (0,))
        if op == "!":
            return put(("!", go(f[1]), 0, 0, 0))
        if op in BIN:
            if len(f) == 2:
                return go(f[1])
            x = go(f[1])
            for y in f[2:]:
                x = put((BIN[op], x, go(y), 0, 0))
            return x
        if len(f) == 4:
            return put((op, go(f[3]), 0, f[1], f[2]))
        return put((op, go(f[3]), go(f[4]), f[1], f[2]))
    roots = [go(f) for f in formulas]
    return nodes, roots


def wpd(f):
    ks = [wpd(x) for x in kids(f)] or [0]
    return max(ks) + (f[2] if f[0] in ("F", "G", "U", "R") else 0)


def size(f):
    return 1 + sum(size(x) for x in kids(f))


def atoms(f):
    if f[0] == "v":
        return {f[1]}
    return set().union(*[atoms(x) for x in kids(f)]) if kids(f) else set()


def text(f, names=NAMES):
    op = f[0]
    if op == "v":
        return names[f[1]]
    if op == "c":
        return "true" if f[1] else "false"
    if op == "!":
        return "!(%s)" % text(f[1], names)
    if op in BIN:
        return "(" + (" %s " % op).join("(%s)" % text(x, names) for x in f[1:]) + ")"
    if len(f) == 4:
        return "%s[%d,%d](%s)" % (op, f[1], f[2], text(f[3], names))
    return "((%s) %s[%d,%d] (%s))" % (text(f[3], names), op, f[1], f[2], text(f[4], names))


def mltl_text(f):
    """.mltl syntax: same operators, atoms a0, a1, ..."""
    return text(f, ["a%d" % i for i in range(64)])


def gen(r, d, past, nv=3, mb=3, consts=0.0, tprob=0.5, leaf=0.12, nary=0.25):
    if d == 0 or r.random() < leaf:
        if consts and r.random() < consts:
            return ("c", r.random() < .5)
        return ("v", r.randrange(nv))

    def g():
        return gen(r, d - 1, past, nv, mb, consts, tprob, leaf, nary)
    if r.random() < tprob:
        op = r.choice("OHST" if past else "FGUR")
        lb = r.randint(0, mb)
        ub = r.randint(lb, mb)
        if op in "FGOH":
            return (op, lb, ub, g())
        return (op, lb, ub, g(), g())
    op = r.choice(["!", "&&", "||", "&&", "||", "->", "<->", "xor"])
    if op == "!":
        return (op, g())
    if op in ("&&", "||") and r.random() < nary:
        return (op,) + tuple(g() for _ in range(r.randint(3, 4)))
    return (op, g(), g())


def from_nodes(nodes, root):
    """inverse of nodes_of for one root (used for formulas generated by TLC)"""
    inv = INV

    def go(k):
        op, a, b, l, u = nodes[k - 1]
        if op == "v":
            return ("v", a)
        if op in "tf":
            return ("c", op == "t")
        if op == "!":
            return ("!", go(a))
        if op in inv:
            return (inv[op], go(a), go(b))
        if b == 0:
            return (op, l, u, go(a))
        return (op, l, u, go(a), go(b))
    return go(root)


def rows_random(r, n, nv):
    """random input rows, with varying density and runs (aggregation in the queues matters)"""
    p = r.choice([.05, .2, .5, .8, .95])
    stick = r.choice([0, 0, .5, .85])
    rows, prev = [], [int(r.random() < p) for _ in range(nv)]
    for _ in range(n):
        prev = [v if r.random() < stick else int(r.random() < p) for v in prev]
        rows.append(list(prev))
    return rows


def de_bruijn(k, n):
    """de Bruijn sequence over 0..k-1: every window of length n occurs"""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def rows_windows(nv, w, r=None):
    """rows over nv atoms in which every window of w rows occurs (relabelled at random)"""
    s = de_bruijn(2 ** nv, w)
    perm = list(range(2 ** nv))
    if r:
        r.shuffle(perm)
    return [[(perm[x] >> i) & 1 for i in range(nv)] for x in s]


def horizon_past(f):
    ks = [horizon_past(x) for x in kids(f)] or [0]
    return max(ks) + (f[2] if f[0] in ("O", "H", "S", "T") else 0)


def max_ub(f):
    ks = [max_ub(x) for x in kids(f)] or [0]
    return max(ks + [f[2] if f[0] in "FGOHURST" else 0])


import re as _re
_TOK = _re.compile(r"\(|\)|[^\s()]+")


class Unreadable(Exception):
    pass


def parse_prefix(s, names=NAMES):
    """C2PO's prefix notation: (op x y ...) with interval suffixes like U[0,3]"""
    toks = _TOK.findall(s)
    pos = 0

    def go():
        nonlocal pos
        if pos >= len(toks):
            raise Unreadable(s)
        t = toks[pos]
        pos += 1
        if t == "(":
            op = toks[pos]
            pos += 1
            xs = []
            while pos < len(toks) and toks[pos] != ")":
                xs.append(go())
            pos += 1
            m = _re.fullmatch(r"([FGURSTOH])\[(\d+),(\d+)\]", op)
            if m:
                return (m.group(1), int(m.group(2)), int(m.group(3))) + tuple(xs)
            if op == "!" and len(xs) == 1:
                return ("!", xs[0])
            if op in BIN and xs:
                return (op,) + tuple(xs)
            raise Unreadable(s)
        if t in ("true", "false"):
            return ("c", t == "true")
        if t in names:
            return ("v", names.index(t))
        raise Unreadable("%s in %s" % (t, s))
    f = go()
    if pos != len(toks):
        raise Unreadable(s)
    return f


def tree(f):
    """the formula as nested sequences for the shape predicates of spec/EquivConf.tla:
    <<op, <<children>>, ub>> (n-ary operators keep all their operands)"""
    if f[0] == "v":
        return ["v", [], 0]
    if f[0] == "c":
        return ["c", [], 0]
    return [f[0], [tree(x) for x in kids(f)], f[2] if f[0] in tuple("FGOHURST") else 0]
