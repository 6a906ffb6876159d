"""C15: what check_sat and check_equiv answer is true."""
import json, os, re, shutil
import formula as fm
import rig
from core import Check, compile_all, newdir
from checks_passes import shaped

NAMES = ["a", "b", "c", "i", "j"]
ISZ = 13                # integers from -6..6: every order of the terms below occurs
LIMIT = 4096            # traces enumerated per formula


# ---------------------------------------------------------------- formulas
def term(r, two):
    v = ("i", 3 + r.randrange(2) if two else 3)
    k = r.randrange(9)
    if k > 6:
        return (r.choice("/%"), v, ("n", r.choice([2, 2, -2])))
    if k < 2:
        return v
    if two:
        return ("neg", v) if k == 2 else v
    return [("+", v, ("n", 1)), ("-", v, ("n", 1)), ("*", v, ("n", 2)), ("/", v, ("n", r.choice([2, 2, -2]))), ("%", v, ("n", 2))][k - 2]


def compare(r, two):
    rhs = ("i", 4) if two and r.random() < .6 else ("n", r.randint(-1, 1))
    return ("cmp", r.choice(["==", "!=", "<", ">", "<=", ">="]), term(r, two), rhs)


def tterm(t):
    if t[0] == "i":
        return NAMES[t[1]]
    if t[0] == "n":
        return str(t[1])
    if t[0] == "neg":
        return "(-(%s))" % tterm(t[1])
    return "(%s %s %s)" % (tterm(t[1]), t[0], tterm(t[2]))


def text(f, names, ivl=lambda f: "[%d,%d]" % (f[1], f[2]), amp="&&", bar="||"):
    op = f[0]

    def go(x):
        return text(x, names, ivl, amp, bar)
    if op == "cmp":
        return "(%s %s %s)" % (tterm(f[2]), f[1], tterm(f[3]))
    if op == "v":
        return names[f[1]]
    if op == "c":
        return "true" if f[1] else "false"
    if op == "!":
        return "!(%s)" % go(f[1])
    if op in fm.BIN:
        o = {"&&": amp, "||": bar}.get(op, op)
        return "(" + (" %s " % o).join("(%s)" % go(x) for x in f[1:]) + ")"
    if len(f) == 4:
        return "%s%s(%s)" % (op, ivl(f), go(f[3]))
    return "((%s) %s%s (%s))" % (go(f[3]), op, ivl(f), go(f[4]))


def swap(f, fn):
    """one rewriting of f by fn (identity: same) somewhere"""
    if f[0] in ("v", "c", "cmp"):
        return f
    k = 3 if f[0] in "FGURHOST" else 1
    return fn(f[:k] + tuple(swap(x, fn) for x in f[k:]))


def variant(r, f):
    """an equivalent formula, by the laws of MLTL"""
    def law(x):
        if r.random() < .4:
            return x
        op = x[0]
        if op == "G":
            return r.choice([("!", ("F", x[1], x[2], ("!", x[3]))), ("R", x[1], x[2], ("c", False), x[3])])
        if op == "F":
            return r.choice([("!", ("G", x[1], x[2], ("!", x[3]))), ("U", x[1], x[2], ("c", True), x[3])])
        if op == "U":
            if x[2] > x[1] and r.random() < .5:
                return ("||", ("F", x[1], x[1], x[4]), ("&&", ("G", x[1], x[1], x[3]), ("U", x[1] + 1, x[2], x[3], x[4])))
            return ("!", ("R", x[1], x[2], ("!", x[3]), ("!", x[4])))
        if op == "R":
            return ("!", ("U", x[1], x[2], ("!", x[3]), ("!", x[4])))
        if op == "&&" and len(x) == 3:
            return r.choice([("&&", x[2], x[1]), ("!", ("||", ("!", x[1]), ("!", x[2])))])
        if op == "||" and len(x) == 3:
            return ("->", ("!", x[1]), x[2])
        if op == "->":
            return ("||", ("!", x[1]), x[2])
        if op == "<->":
            return ("!", ("xor", x[1], x[2])) if r.random() < .5 else ("&&", ("->", x[1], x[2]), ("->", x[2], x[1]))
        return x
    return swap(f, law)


def slip(r, f):
    """nearly the same formula"""
    def err(x):
        if r.random() < .6:
            return x
        if x[0] in "FGUR":
            k = r.randrange(4)
            if k == 0:
                return (x[0], x[1], x[2] + 1) + x[3:]
            if k == 1 and x[2] > x[1]:
                return (x[0], x[1], x[2] - 1) + x[3:]
            if k == 2 and x[1]:
                return (x[0], x[1] - 1, x[2]) + x[3:]
            if k == 3:
                return ({"F": "G", "G": "F", "U": "R", "R": "U"}[x[0]],) + x[1:]
        if x[0] == "cmp":
            return ("cmp", r.choice(["==", "<=", ">", "!="])) + x[2:]
        return x
    return swap(f, err)


def base(r, ints, two, xor=True):
    f = shaped(r, r.randint(0, 2), nv=2, xor=xor, mb=3) if r.random() < .6 else fm.gen(r, r.randint(1, 3), False, nv=2, mb=3, consts=.1)
    if ints:
        pool = [compare(r, two) for _ in range(2)]

        def put(x):
            return x
        f = leaves(f, lambda v: r.choice(pool) if r.random() < .7 else v)
    return f


def leaves(f, fn):
    if f[0] == "v":
        return fn(f)
    if f[0] in ("c", "cmp"):
        return f
    k = 3 if f[0] in "FGURHOST" else 1
    return f[:k] + tuple(leaves(x, fn) for x in f[k:])


def question(r, ints=False, two=False):
    f = base(r, ints, two)
    k = r.random()
    if k < .35:
        return f
    g = variant(r, f) if k < .7 else slip(r, variant(r, f))
    return r.choice([("&&", f, ("!", g)), ("!", ("<->", f, g)), ("xor", f, g), ("!", ("->", f, g))])


def span(r):
    """a question that is decided at one end of a long interval; only the operators of every encoding"""
    two = r.random() < .4
    top = 4 if two else 9
    l, u = sorted([r.randint(0, top), r.randint(0, top)])
    a, b = ("v", 0), ("v", 1)
    e = r.choice([l, u, u, u + 1, max(l - 1, 0), r.randint(l, u)])
    at = lambda x: (r.choice("FG"), e, e, x)
    no = lambda x: ("!", x)
    if two:
        x = ("U", l, u, a, b)
        y = r.choice([("G", l, e, no(b)) if e >= l else at(no(b)), ("&&", at(no(a)), ("G", 0, e, no(b))), ("G", e, max(u, e), no(b)),
                      ("F", l, u, b), ("&&", ("G", 0, e, no(b)), ("F", min(e, u), u, no(a)))])
        y = no(y) if r.random() < .2 else y
    else:
        x, y = r.choice([(("G", l, u, a), at(no(a))), (("F", l, u, a), ("G", l, u, no(a)) if e == u else ("G", min(l, e), e, no(a))),
                         (no(("G", l, u, a)), ("G", min(l, e), max(l, e), a)), (no(("F", l, u, a)), at(a)),
                         (("G", 0, 2, ("F", min(l, 7), min(u, 7), a)), ("G", e, max(e, u), no(a))), (("G", min(l, 7), min(u, 7), ("G", 0, 2, a)), at(no(a)))])
    return ("&&", x, y) if r.random() < .8 else no(("&&", x, y)) if r.random() < .3 else ("&&", y, x)


def staggered(r, n):
    """n formulas that look differently far ahead, satisfiable together unless a pair of them clashes"""
    fs = []
    for k in r.sample(range(5), min(n, 5)):
        x = ("v", r.randrange(2))
        x = ("!", x) if r.random() < .2 else x
        fs.append(x if k == 0 else (r.choice("FG"), r.choice([k, k, r.randint(0, k)]), k, x))
    return fs


def used(fs):
    def terms(t):
        return {t[1]} if t[0] == "i" else set() if t[0] == "n" else set().union(*[terms(x) for x in t[1:]])

    def go(f):
        if f[0] == "v":
            return {f[1]}
        if f[0] == "cmp":
            return terms(f[2]) | terms(f[3])
        return set().union(*[go(x) for x in fm.kids(f)]) if fm.kids(f) else set()
    return set().union(*[go(f) for f in fs])


def worlds(fs, L=None):
    u = used(fs)
    per = 1
    for v in u:
        per *= 2 if v < 3 else ISZ
    return per ** (L or 1 + max(fm.wpd(f) for f in fs))


def table(fs, ivl=None):
    """nodes for Sat.tla over the variables that occur"""
    u = sorted(used(fs)) or [0]
    ix = {v: k for k, v in enumerate(u)}

    def ren(t):
        return ("i", ix[t[1]]) if t[0] == "i" else t if t[0] == "n" else (t[0],) + tuple(ren(x) for x in t[1:])

    def go(f):
        if f[0] == "v":
            return ("v", ix[f[1]])
        if f[0] == "cmp":
            return ("cmp", f[1], ren(f[2]), ren(f[3]))
        if f[0] == "c":
            return f
        k = 3 if f[0] in "FGUR" else 1
        return f[:k] + tuple(go(x) for x in f[k:])
    nodes, roots = fm.nodes_of([go(f) for f in fs])
    for n in nodes:
        if n[0] in "FGUR" and len(n[0]) == 1:
            n[3], n[4] = [x if isinstance(x, (tuple, list)) else ("n", x) for x in n[3:5]]
    return {"nodes": nodes, "roots": roots, "sizes": [2 if v < 3 else ISZ for v in u], "offs": [0 if v < 3 else -6 for v in u]}


# ---------------------------------------------------------------- satisfiability
EASY = {"v", "c", "!", "&&", "||", "<->", "G", "F", "U"}
PASSES = ["optimize_rewrites", "optimize_cse", "remove_extended_operators", "multi_operators_to_binary", "flatten_multi_operators",
          "sort_operands_by_pd", "remove_release_operators"]


def ops(f):
    return {f[0]}.union(*[ops(x) for x in fm.kids(f)]) if fm.kids(f) else {f[0]}


def sat_job(r):
    ints = r.random() < .33
    two = ints and r.random() < .4
    while True:
        fs, n = [], r.choice([1, 1, 2, 3, 4])
        for _ in range(n * 3):
            f = question(r, ints, two) if n == 1 or r.random() < .4 else base(r, ints, two)
            if worlds([f]) <= LIMIT and worlds(fs + [f]) <= LIMIT and fm.size(f) < 60 and f not in fs and len(fs) < n:
                fs.append(f)
        if n > 2 and not ints and r.random() < .5:
            fs = staggered(r, n)
            if r.random() < .4:
                fs = [tuple([r.choice(["&&", "&&", "||"])] + fs)]
        if r.random() < .3 and not ints:
            fs = [span(r) for _ in range(r.choice([1, 1, 2]))]
        if fs and len(set(fs)) == len(fs) and all(worlds([f]) <= LIMIT for f in fs) and worlds(fs) <= LIMIT:
            break
    strict = not ints and r.random() < .2
    theory = r.choice(["uflia", "uflia", "qf_uflia"]) if ints else r.choice(["uflia", "uflia", "qf_uflia", "qf_bv"])
    lang = "c2po" if ints or any("xor" in ops(f) for f in fs) or r.random() < .7 else "mltl"
    how = r.choice(["print", "print", "warn", "write", "cli"])
    if strict and how == "cli":
        how = "print"
    passes = [r.choice(PASSES) for _ in range(r.choice([0, 0, 1, 2]))] if how != "cli" else []
    if strict:          # the laws behind rewriting are those of complete traces
        passes = [p for p in passes if p != "optimize_rewrites"]
    if theory == "qf_bv" and how != "cli" and r.random() < .7:
        passes = passes + ["remove_release_operators"]
    files = {}
    if lang == "mltl":
        files["s.mltl"] = "".join(text(f, ["a0", "a1", "a2"], amp="&", bar="|") + "\n" for f in fs)
    else:
        files["s.c2po"] = "INPUT a, b, c: bool; i, j: int;\nFTSPEC\n" + "".join("  s%d: %s;\n" % (k, text(f, NAMES)) for k, f in enumerate(fs))
        if not ints:
            files["s.c2po"] = files["s.c2po"].replace(" i, j: int;", "")
        files["m.map"] = "a:0\nb:1\nc:2\ni:3\nj:4\n" if ints else "a:0\nb:1\nc:2\n"
    if how == "cli":
        argv = ["--spec", "s." + lang, "--check-sat", "--smt-encoding", theory, "-c"] + r.choice([[], ["--no-rewrite"], ["--no-cse"], ["--extops"]])
        argv += (["--map", "m.map"] if lang == "c2po" else []) + (["-bz"] if ints else [])
    else:
        cmd = ["parse_%s s.%s" % (lang, lang)] + (["parse_map m.map"] if lang == "c2po" else []) + (["enable_booleanizer"] if ints else [])
        cmd += ["type_check", "desugar"] + passes
        opt = " --strict" if strict else ""
        if how == "write":
            cmd.append("write_smt_encoding out %s%s" % (theory, opt))
        else:
            cmd.append("check_sat %s%s%s" % (theory, opt, " --print" if how == "print" else ""))
        files["x.cmd"] = "\n".join(cmd + ["exit"]) + "\n"
        argv = ["--script", "x.cmd"]
    return {"files": files, "argv": argv, "fs": fs, "strict": strict, "theory": theory, "how": how, "passes": passes, "lang": lang}


def word(s):
    return s if s in ("sat", "unsat") else ""


def solve(x, j):
    """the answers of an SMT solver to the encodings that were written"""
    out = os.path.join(x["dir"], "out")
    n = len(j["fs"])
    if os.path.isdir(out):
        fl = sorted(os.listdir(out))
        base = [f[:-5] for f in fl]
        want = ["__f%d__" % k for k in range(n + 1)] + ["s%d" % k for k in range(n)]
        fl = [os.path.join(out, b + ".smt2") for b in want if b in base]
    else:
        fl = [out] if os.path.exists(out) else []
    return [{"argv": ["z3", "-T:10", f], "cwd": newdir(), "timeout": 20} for f in fl]


def sat(ck, n):
    r = ck.rng
    jobs = [sat_job(r) for _ in range(n)]
    res = compile_all(jobs)
    todo = []
    for j, x in zip(jobs, res):
        if j["how"] == "write" and x["rc"] == 0:
            z = solve(x, j)
            j["z3"] = [len(todo) + k for k in range(len(z))]
            todo += z
    ans = rig.run_procs(todo)
    recs, silent, refused = [], 0, 0
    for i, (j, x) in enumerate(zip(jobs, res)):
        k = len(j["fs"])
        msg = x["out"] + x["err"]
        answers, allof = [""] * k, ""
        if x["rc"] != 0 or "Traceback" in msg:
            # what the encodings do not cover is refused
            hard = any("xor" in ops(f) for f in j["fs"]) or \
                j["theory"] != "uflia" and (j["passes"] or j["how"] == "cli" or any(ops(f) - EASY for f in j["fs"]))
            if hard and ("unsupported expression" in msg or "not implemented" in msg) and "Traceback" not in msg:
                refused += 1
            elif "TIMEOUT" in msg:
                silent += 1
            else:
                ck.violation("no answer: exit code %s: %s\n%s" % (x["rc"], j["files"], msg[-400:]), files=j["files"], argv=j["argv"], err=msg[-2000:])
            continue
        if j["how"] == "write":
            answers = [word(ans[q]["out"].strip().split("\n")[0]) for q in j["z3"]]
            broken = [ans[q]["out"] for q in j["z3"] if "error" in ans[q]["out"]]
            if len(answers) != k or broken:
                ck.violation("encodings written: %d of %d, %s: %s" % (len(answers), k, broken[:1], j["files"]), files=j["files"], argv=j["argv"])
                continue
        elif j["how"] == "warn":
            found = re.findall(r"specification '(.*)' is (unsat|unknown)$", msg, re.M)
            pr = re.findall(r"warning: program is (unsat|unknown)$", msg, re.M)
            if j["lang"] == "c2po":
                d = dict(found)
                answers = [word(d.get("s%d" % q, "sat")) for q in range(k)]
            elif len(found) in (0, k):
                answers = [word(found[q][1]) if found else "sat" for q in range(k)]
            allof = word(pr[0]) if pr else "sat" if k > 1 else ""
        else:
            found = re.findall(r"^(.*) : (sat|unsat|unknown)$", x["out"], re.M)
            if k > 1 and found and found[-1][0] == "program":
                allof = word(found.pop()[1])
            elif k > 1:
                found = []
            if len(found) != k:
                ck.violation("answers to %d of %d formulas: %s\n%s" % (len(found), k, j["files"], msg[-400:]), files=j["files"], argv=j["argv"])
                continue
            answers = [word(q[1]) for q in found]
        silent += answers.count("")
        rec = table(j["fs"])
        rec.update(id=len(recs), kind="sat", answers=answers, all=allof, strict=int(j["strict"]), partial=int(j["theory"] != "uflia"), job=i)
        recs.append(rec)
    bad, st, di = rig.judge("Sat", recs)
    ck.add(states=st, formulas_judged=sum(len(q["answers"]) for q in recs), unsat=sum(q["answers"].count("unsat") for q in recs),
           programs=len(recs), no_answer=silent, refused=refused)
    for b in bad:
        j = jobs[recs[b["id"]]["job"]]
        x = res[recs[b["id"]]["job"]]
        ck.violation("%s: %s %s" % (b["why"][0], j["files"], j["argv"]), files=j["files"], argv=j["argv"], why=b["why"], out=x["out"][-800:], err=x["err"][-800:])
    for j in jobs[:2]:
        ck.sample({"files": j["files"], "argv": j["argv"]})
    for x in res:
        shutil.rmtree(x["dir"], ignore_errors=True)


# ---------------------------------------------------------------- equivalence
def bterm(t):
    if t[0] == "n":
        return str(t[1])
    if t[0] == "b":
        return "b%d" % t[1]
    if t[0] in ("max", "min"):
        return "%s(%s,%s)" % (t[0], bterm(t[1]), bterm(t[2]))
    return "(%s %s %s)" % (bterm(t[1]), t[0], bterm(t[2]))


def equiv_job(r):
    nb = r.choice([0, 0, 1, 2, 2, 3])
    top = {0: 0, 1: 3, 2: 2, 3: 2}[nb]
    while True:
        f = base(r, False, False, xor=False)
        if "xor" not in ops(f):
            break
    fs = [f]
    for _ in range(r.choice([1, 1, 1, 2])):
        g = variant(r, fs[-1]) if r.random() < .45 else slip(r, variant(r, fs[-1]))
        fs.append(g)
    fs = [swap(f, lambda x: ("!", ("<->", x[1], x[2])) if x[0] == "xor" else x) for f in fs]
    cons = []
    if nb:
        # the same interval becomes the same symbolic one; what it was before is a value of it
        names = {}

        def sym(l, u):
            if (l, u) not in names:
                k = r.random()
                lo = ("n", min(l, 1)) if k < .5 else ("b", r.randrange(nb))
                hi = ("b", r.randrange(nb)) if k < .8 else ("+", ("b", r.randrange(nb)), ("n", 1)) if k < .9 else \
                    (r.choice(["max", "min"]), ("b", r.randrange(nb)), ("n", 1))
                names[l, u] = (lo, hi) if r.random() < .8 else (("n", min(l, 2)), ("n", min(u, 2)))
            return names[l, u]
        fs = [swap(f, lambda x: (x[0],) + sym(x[1], x[2]) + x[3:] if x[0] in "FGUR" and len(x[0]) == 1 else x) for f in fs]
        for k in range(nb):
            cons.append(("<=", ("b", k), ("n", top)))
            if r.random() < .5:
                cons.append((r.choice(["<=", "<", "==", ">=", "!="]), ("b", k), ("b", r.randrange(nb)) if r.random() < .6 else
                             r.choice([("n", 1), ("+", ("b", r.randrange(nb)), ("n", 1)), ("max", ("b", 0), ("n", 1))])))

    def ivl(f):
        return "[%s,%s]" % tuple(x if isinstance(x, int) else bterm(x) for x in f[1:3])
    names = ["a0", "p0" if r.random() < .3 else "a1"]
    ctext = "".join("c: %s %s %s\n" % (bterm(c[1]), "=" if c[0] == "==" else c[0], bterm(c[2])) for c in cons)
    spec = ctext + "".join(text(f, names, ivl, "&", "|") + "\n" for f in fs)
    # symbolic intervals are for uflia only
    files = {"s.equiv": spec}
    how = r.choice(["check", "check", "write"]) if len(fs) == 2 else "check"
    pre = r.choice([["type_check"], ["type_check", "desugar"]])
    cmd = ["parse_equiv s.equiv"] + pre + ["check_equiv uflia --smt-max-time 4" if how == "check" else "write_equiv_smt_encoding out uflia"]
    th = "uflia"
    if not nb and r.random() < .5:     # the same question about a specification
        th = r.choice(["uflia", "qf_uflia", "qf_bv"])
        ps = [r.choice(PASSES) for _ in range(r.choice([0, 1]))] if th == "uflia" else []
        files = {"s.mltl": "".join(text(f, names[:1] + ["a1"], amp="&", bar="|") + "\n" for f in fs)}
        cmd = ["parse_mltl s.mltl"] + pre + ps + ["check_equiv %s" % th if how == "check" else "write_equiv_smt_encoding out %s" % th]
    files["x.cmd"] = "\n".join(cmd + ["exit"]) + "\n"
    return {"files": files, "argv": ["--script", "x.cmd"], "fs": fs, "nb": nb, "top": top, "cons": cons, "how": how, "theory": th}


def reach(f, top):
    """an upper bound of what f looks at"""
    def val(t):
        if isinstance(t, int):
            return t
        return t[1] if t[0] == "n" else top if t[0] == "b" else sum(val(x) for x in t[1:]) if t[0] == "+" else max(val(x) for x in t[1:])
    ks = [reach(x, top) for x in fm.kids(f)] or [0]
    return max(ks) + (val(f[2]) if f[0] in "FGUR" and len(f[0]) == 1 else 0)


def equiv(ck, n):
    r = ck.rng
    jobs = []
    while len(jobs) < n:
        j = equiv_job(r)
        if sum(map(fm.size, j["fs"])) < 60 and worlds(j["fs"], 1 + max(reach(f, j["top"]) for f in j["fs"])) <= (1024 if j["nb"] else LIMIT):
            jobs.append(j)
    res = compile_all(jobs)
    todo = []
    for j, x in zip(jobs, res):
        if j["how"] == "write" and x["rc"] == 0:
            j["z3"] = len(todo)
            todo.append({"argv": ["z3", "-T:4", "out"], "cwd": x["dir"], "timeout": 20})
    ans = rig.run_procs(todo)
    recs, silent, refused = [], 0, 0
    for i, (j, x) in enumerate(zip(jobs, res)):
        msg = x["out"] + x["err"]
        if x["rc"] != 0 or "Traceback" in msg:
            if (j["theory"] != "uflia" and any(ops(f) - EASY for f in j["fs"]) or any("xor" in ops(f) for f in j["fs"])) and ("unsupported expression" in msg or "not implemented" in msg) and "Traceback" not in msg:
                refused += 1
                continue
        if j["how"] == "write":
            a = word(ans[j["z3"]]["out"].strip().split("\n")[0]) if x["rc"] == 0 else "none"
            a = {"sat": "not-equiv", "unsat": "equiv", "": "unknown" if "error" not in ans[j["z3"]]["out"] else "none"}.get(a, a) if x["rc"] == 0 else a
        else:
            f = re.findall(r"^(equiv|not-equiv|unknown)$", x["out"], re.M)
            a = f[0] if len(f) == 1 and (x["rc"] == 0 or f[0] == "unknown") else "none"
        if a == "none" or "Traceback" in msg:
            ck.violation("no answer: exit code %s: %s\n%s" % (x["rc"], j["files"], msg[-400:]), files=j["files"], argv=j["argv"], err=msg[-2000:])
            continue
        silent += a == "unknown"
        rec = table(j["fs"])
        rec.update(id=len(recs), kind="equiv", answer="" if a == "unknown" else a, nb=j["nb"], top=j["top"], cons=j["cons"], job=i)
        recs.append(rec)
    bad, st, di = rig.judge("Sat", recs)
    ck.add(states=st, equivalences_judged=len(recs), equivalent=sum(q["answer"] == "equiv" for q in recs), no_answer=silent, refused=refused)
    for b in bad:
        j = jobs[recs[b["id"]]["job"]]
        x = res[recs[b["id"]]["job"]]
        ck.violation("%s: %s %s" % (b["why"][0], j["files"], j["argv"]), files=j["files"], argv=j["argv"], why=b["why"], out=x["out"][-800:], err=x["err"][-800:])
    ck.sample({"files": jobs[0]["files"], "argv": jobs[0]["argv"]}, 6)
    for x in res:
        shutil.rmtree(x["dir"], ignore_errors=True)


def c15():
    ck = Check("C15", "model_checking")
    T = rig.THOROUGH
    sat(ck, 6000 if T else 420)
    equiv(ck, 3000 if T else 220)
    return ck.finish()
