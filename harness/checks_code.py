"""C19: the C programs that generate_sabre_code writes compute the formula."""
import os, shutil, subprocess
import formula as fm
import rig
from core import Check, compile_all

NAMES = ["a%d" % i for i in range(64)]
OTHER = ["x", "foo", "a_1", "left", "y", "a1b", "z", "u", "v", "w", "bar"]
PASSES = ["optimize_cse", "optimize_rewrites", "multi_operators_to_binary", "sort_operands_by_pd"]


def bound(r, w):
    """bounds below, at and beyond one and several words"""
    k = r.randrange(10)
    if k < 4:
        return r.randint(0, 4)
    if k < 7:
        return max(0, r.choice([1, 1, 2, 2, 3]) * w + r.choice([-2, -1, -1, 0, 0, 1, 1, 2]))
    return r.randint(0, (3 if w < 32 else 2) * w)


def gen(r, d, nv, w, rel, past=False):
    if d == 0 or r.random() < .1:
        return ("c", r.random() < .5) if r.random() < .04 else ("v", r.randrange(nv))

    def g():
        return gen(r, d - 1, nv, w, rel, past)
    if r.random() < .55:
        op = r.choice("OHST" if past else "FGUFGUFGU" + ("R" if rel else ""))
        lb = bound(r, w) if r.random() < .6 else 0
        ub = lb + bound(r, w)
        return (op, lb, ub, g()) if op in "FGOH" else (op, lb, ub, g(), g())
    op = r.choice(["!", "&&", "||", "->", "<->", "xor"])
    if op == "!":
        return (op, g())
    return (op,) + tuple(g() for _ in range(r.randint(3, 4) if op in ("&&", "||") and r.random() < .3 else 2))


def ops(f):
    return {f[0]}.union(*[ops(x) for x in fm.kids(f)])


class Prog:
    """a specification, and for some of its formulas the program to generate"""


def prog(r):
    p = Prog()
    w = r.choice([8, 8, 8, 16, 16, 32, 64])
    p.nv = r.choice([1, 2, 2, 3, 3, 4, 11])
    p.mltl = r.random() < .3
    p.past = r.random() < .03
    p.mltl = p.mltl and not p.past
    lim = {8: 120, 16: 160, 32: 260, 64: 400}[w]
    p.rel = r.random() < .06
    p.formulas = []
    while len(p.formulas) < r.choice([1, 1, 2, 3]):
        f = gen(r, r.choice([1, 1, 2, 2, 3]), p.nv, w, p.rel, p.past)
        if fm.wpd(f) <= lim and fm.size(f) <= 25 and fm.atoms(f):
            p.formulas.append(f)
    p.named = p.mltl or r.random() < .97
    names = NAMES[:p.nv] if p.named else OTHER[:p.nv]
    labels = [None] * len(p.formulas)
    if p.mltl:
        spec = "".join(fm.mltl_text(f).replace("&&", "&").replace("||", "|") + "\n" for f in p.formulas)
    else:
        labels = [r.choice([None, "p%d" % k, "q%d" % k]) for k in range(len(p.formulas))]
        spec = "INPUT %s: bool;\n%sSPEC\n" % (", ".join(names), "PT" if p.past else "FT") + \
            "".join("  %s%s;\n" % (n + ": " if n else "", fm.text(f, names)) for n, f in zip(labels, p.formulas))
    if p.mltl and any("xor" in ops(f) for f in p.formulas):
        return prog(r)
    p.spec = spec
    cmd = ["parse_mltl s.mltl" if p.mltl else "parse_c2po s.c2po", "type_check", "desugar"]
    if r.random() < .5:
        cmd += [r.choice(PASSES) for _ in range(r.randint(1, 2))]
    if r.random() < .05:
        cmd += ["remove_extended_operators"]        # makes releases
        p.rel = True
    p.out = []
    for k in ([0] if r.random() < .3 else range(len(p.formulas))):
        ww = w if r.random() < .7 else r.choice([8, 16, 32, 64])
        raw = r.random() < .3
        o = dict(formula=k, w=ww, raw=raw, file="f%d.c" % k)
        o["opt"] = ([] if ww == 8 and r.random() < .5 else ["--word-size %d" % ww]) + (["--raw-bytes"] if raw else [])
        if not (k == 0 and r.random() < .4):
            o["opt"] += ["--formula " + (labels[k] if labels[k] and r.random() < .5 else str(k))]
        if r.random() < .1:
            o["opt"] += ["--profile"]
        o["infer"] = False
        if p.nv - 1 in fm.atoms(p.formulas[k]) and r.random() < .4:
            o["infer"] = True       # the number of signals is that of the formula
        else:
            o["opt"] += ["--nsigs %d" % p.nv]
        o["nsigs"] = -1 if o["infer"] else p.nv
        o["exists"] = True
        if r.random() < .03:
            if r.random() < .5:
                o["nsigs"] = r.randint(0, p.nv - 1)
                o["opt"] = [x for x in o["opt"] if not x.startswith("--nsigs")] + ["--nsigs %d" % o["nsigs"]]
            else:
                o["exists"] = False
                o["opt"] = [x for x in o["opt"] if not x.startswith("--formula")] + ["--formula %s" % r.choice([len(p.formulas), -1, 99, "nothing"])]
        if p.past and not any(x.startswith("--formula") for x in o["opt"]):
            o["exists"] = False     # the first future-time formula
        r.shuffle(o["opt"])
        cmd += ["generate_sabre_code %s %s" % (o["file"], " ".join(o["opt"]))]
        D = fm.wpd(p.formulas[k])
        o["rows"] = fm.rows_random(r, min(900, D + ww * r.randint(2, 5) + r.randint(0, ww - 1)), p.nv)
        o["nv"] = p.nv if o["nsigs"] <= 0 else o["nsigs"]       # columns of the trace
        o["rows"] = [row[:o["nv"]] for row in o["rows"]]
        p.out.append(o)
    p.cmd = cmd
    return p


def rows_bytes(rows, w, nv):
    """the raw form: word after word, each signal's word with its first step in the most significant bit"""
    res = b""
    for k in range(len(rows) // w):
        for i in range(nv):
            x = 0
            for row in rows[k * w:(k + 1) * w]:
                x = x << 1 | row[i]
            res += x.to_bytes(w // 8, "little")
    return res


def build(job):
    """compile with gcc and run"""
    d, o, nv = job
    src = os.path.join(d, o["file"])
    if not os.path.exists(src):
        return None
    exe = src[:-2]
    c = subprocess.run(["gcc", "-O1", "-w", "-o", exe, src], capture_output=True, text=True)
    if c.returncode:
        return dict(rc="gcc", out="", err=c.stderr[-600:])
    with open(exe + ".in", "wb") as f:
        f.write(rows_bytes(o["rows"], o["w"], nv) if o["raw"] else "".join(",".join(map(str, row)) + "\n" for row in o["rows"]).encode())
    own = exe + ".d"
    os.mkdir(own)
    q = rig._proc(dict(argv=[exe], cwd=own, stdin=exe + ".in", timeout=10))
    os.unlink(exe)
    return q


def c19():
    ck = Check("C19", "translation_validation")
    r = ck.rng
    T = rig.THOROUGH
    for _ in range(12 if T else 1):
        batch(ck, r, 900)
    ck.add(disagreements_checked=ck.cov["bits_judged"])
    return ck.finish()


def batch(ck, r, n):
    ps = [prog(r) for _ in range(n)]
    res = compile_all([dict(files={"s.mltl" if p.mltl else "s.c2po": p.spec, "x.cmd": "\n".join(p.cmd) + "\n"}, argv=["--script", "x.cmd"]) for p in ps])
    jobs = [(p, x, o) for p, x in zip(ps, res) for o in p.out]
    outs = rig.pmap(build, [(x["dir"], o, o["nv"]) for p, x, o in jobs])
    recs = []

    def files(p, x, o):
        f = {"s.mltl" if p.mltl else "s.c2po": p.spec, "x.cmd": "\n".join(p.cmd) + "\n",
             "in": "".join(",".join(map(str, row)) + "\n" for row in o["rows"])}
        src = os.path.join(x["dir"], o["file"])
        if os.path.exists(src):
            f[o["file"]] = open(src).read()
        return f
    for i, ((p, x, o), q) in enumerate(zip(jobs, outs)):
        f = p.formulas[o["formula"]]
        if q is None:
            q = dict(rc=0, out="", err="")
            text = x["err"] + x["out"]
            got = "failed" if x["rc"] < 0 or x["rc"] == 99 or "Traceback" in text or "Please report" in text or "error" not in text else "refused"
        else:
            got = "code"
        if q["rc"] == "gcc":
            ck.violation("program does not compile: %s\n%s\n%s" % (p.cmd, p.spec, q["err"]), files=files(p, x, o))
            continue
        lines = q["out"].split("\n")[:-1]
        words, ok = [], q["rc"] == 0
        for ln in lines:
            if len(ln) != o["w"] // 4 or any(c not in "0123456789abcdef" for c in ln):
                ok = False
                break
            words.append([int(c) for c in bin(int(ln, 16))[2:].zfill(o["w"])])
        nodes, roots = fm.nodes_of([f])
        rows = o["rows"]
        recs.append(dict(id=i, nodes=nodes, root=roots[0], w=o["w"], steps=len(rows), ok=ok, words=words, got=got,
                         exists=o["exists"], named=p.named or not fm.atoms(f), nsigs=o["nsigs"], loose=p.rel, rewritten="optimize_rewrites" in p.cmd,
                         cols=[[row[k] for row in rows] for k in range(o["nv"])]))
        ck.add(bits_judged=len(words) * o["w"], refused=int(got != "code"))
    bad, st, di = rig.judge("Sabre", recs)
    ck.add(states=st, programs=len(recs), traces_validated_against_impl=len(recs))
    for b in bad:
        p, x, o = jobs[b["id"]]
        ck.violation("%s: w=%d %s %s %s" % (b["why"], o["w"], p.cmd, x["err"][-200:], fm.text(p.formulas[o["formula"]], NAMES)), why=b["why"], files=files(p, x, o))
    if ps:
        ck.sample("%s | %s" % (ps[0].spec, ps[0].cmd))
    for x in res:
        shutil.rmtree(x["dir"], ignore_errors=True)
