"""C06, C07: rewrites, common subexpression elimination and the other transformations keep the
meaning of specifications: the transformed specification is compiled, run on the real monitor and
judged by TLC against the formula as written."""
import formula as fm
import rig
from core import Check, Case, campaign
from checks_verdict import rand_cases, small_scope


def interval(r, mb):
    k = r.random()
    if k < .2:
        return (0, 0)
    if k < .4:
        a = r.randint(0, mb)
        return (a, a)
    lb = r.randint(0, mb)
    return (lb, r.randint(lb, mb))


def has_const(f):
    return f[0] == "c" or any(has_const(x) for x in fm.kids(f))


def shaped(r, depth, past=False, nv=3, mb=3, xor=True, eq=False):
    """formulas in the shapes that optimisations look for: repeated operands, nested and
    neighbouring temporal operators with related intervals, constants, double negations"""
    T1 = "OH" if past else "FG"
    T2 = "ST" if past else "UR"

    def leaf():
        return ("v", r.randrange(nv)) if r.random() > .06 else ("c", r.random() < .5)
    pool = [leaf() for _ in range(2)]
    pool += [r.choice([("!", leaf()), ("&&", leaf(), leaf()), ("||", leaf(), leaf()), leaf(),
                       (r.choice(T1),) + interval(r, 2) + (leaf(),)]) for _ in range(2)]

    def opnd(d):
        return r.choice(pool) if r.random() < .7 or d <= 0 else go(d - 1)

    def more(d):
        return tuple(opnd(d) for _ in range(r.choice([1, 1, 2, 3, 4])))

    def go(d):
        k = r.randrange(15)
        p, q = opnd(d), opnd(d)
        if k == 0:
            return ("!", ("!", p))
        if k == 1:
            return ("!", (r.choice(T1),) + interval(r, mb) + (("!", p),))
        if k in (2, 3):
            return (r.choice(T1),) + interval(r, mb) + ((r.choice(T1),) + interval(r, mb) + (p,),)
        if k in (4, 5, 6, 7):
            o = r.choice(T1)
            o2 = o if r.random() < .8 else r.choice(T1)
            i = interval(r, mb)
            j = i if r.random() < .2 else interval(r, mb)
            xs = [(o,) + i + (p,), (o2,) + j + (p if r.random() < .6 else q,)]
            if r.random() < .2:
                xs.extend(more(d))
            return (r.choice(["&&", "||"]),) + tuple(xs)
        if k in (8, 9):
            o = r.choice(T2)
            a, b = interval(r, mb), interval(r, mb)
            if r.random() < .6:
                b = (a[0], max(a[0], b[1]))
            g = p if r.random() < .8 else opnd(d)
            return (r.choice(["&&", "||"]), (o,) + a + (opnd(d), g), (o,) + b + (q, g))
        if k == 10:
            return (r.choice(T1),) + interval(r, mb) + (("c", r.random() < .5) if r.random() < .4 else p,)
        if k == 11:
            return (r.choice(T2),) + interval(r, mb) + (p, q)
        if k == 12 and eq and r.random() < .5:
            if r.random() < .2:     # comparisons with true ("== false" is a known finding, probed apart)
                return ("==", p, ("c", True)) if r.random() < .5 else ("==", ("c", True), p)
            if not has_const(p) and not has_const(q):
                return (r.choice(["==", "!="]), p, q)
        if k == 12:
            return (r.choice(["->", "<->", "xor"] if xor else ["->", "<->"]), p, q)
        if k == 13:
            return (r.choice(["&&", "||"]), p, q) + (more(d) if r.random() < .5 else ())
        o = r.choice(["&&", "||", "->"])
        return ("!", (o, p, q) + (more(d) if o != "->" and r.random() < .3 else ()))
    f = go(depth)
    return f


def shaped_cases(n, r, tense=None, nf=(1, 3), depth=(0, 2), argv=None, script=None, xor=True, mb=3, steps=(25, 45), eq=False):
    out = []
    for _ in range(n):
        past = tense == "PT" or (tense is None and r.random() < .4)
        fs = []
        for _ in range(r.randint(*nf)):
            f = shaped(r, r.randint(*depth), past, xor=xor, mb=mb, eq=eq)
            if f not in fs and fm.size(f) < 60:
                fs.append(f)
        if not fs:
            continue
        rows = [fm.rows_random(r, r.randint(*steps), 3) for _ in range(2)]
        sc = script(r, past) if script else None
        out.append(Case(fs, past, rows, nv=3, argv=r.choice(argv) if argv else [], script=sc, info={"script": sc}))
    return out


def interval_pairs(r, mx=4, frac=1.0):
    """Every pair of intervals within [0, mx] in every shape in which a rule combines two intervals:
    neighbouring (same or different operand) and nested operators"""
    iv = [(a, b) for a in range(mx + 1) for b in range(a, mx + 1)]
    p, q = ("v", 0), ("v", 1)
    must, rest = [], []
    for i in iv:
        for j in iv:
            for o in "FG":
                for c in ("&&", "||"):
                    must.append((c, (o,) + i + (p,), (o,) + j + (p,)))
                    rest.append((c, (o,) + i + (p,), (o,) + j + (q,)))
                for o2 in "FG":
                    rest.append((o,) + i + ((o2,) + j + (p,),))
            for o in "UR":
                for c in ("&&", "||"):
                    rest.append((c, (o,) + i + (p, q), (o,) + j + (("v", 2), q)))
    fs = must + r.sample(rest, int(len(rest) * frac))
    r.shuffle(fs)
    return fs


def pair_cases(ck, r, frac, per=5):
    fs = interval_pairs(r, frac=frac)
    ck.add(interval_pairs=len(fs))
    out = []
    for i in range(0, len(fs), per):
        # long enough for every window of one input that the intervals can see
        rows = fm.rows_random(r, 40, 3)
        rows2 = [[int(r.random() < .35 if i % 2 else r.random() < .65) for _ in range(3)] for _ in range(60)]
        out.append(Case(fs[i:i + per], False, [rows, rows2], nv=3, argv=[]))
    return out


CL = ("value", "stream", "died", "reject")


def c06():
    ck = Check("C06", "translation_validation")
    drv, _ = rig.build_monitor(cli=False)
    r = ck.rng
    T = rig.THOROUGH
    campaign(ck, pair_cases(ck, r, 1 if T else .25), drv, CL)
    # known finding, identified by the specification
    eqf = [Case([("!", ("v", 0))], False, [fm.rows_random(r, 20, 2)], nv=2,
                spec="INPUT a, b: bool;\nFTSPEC\n  %s;\n" % t, info={"eqf": 1}) for t in ("a == false", "false == a")]
    campaign(ck, eqf, drv, CL, keyfn=lambda c, why: "eq-false" if why == "value" else None)
    # every optimisation alone and together, through the command line
    campaign(ck, shaped_cases(12000 if T else 900, r, eq=True, argv=[[], ["--no-rewrite"], ["--no-cse"], []]), drv, CL)
    campaign(ck, shaped_cases(3000 if T else 200, r, nf=(3, 6), depth=(1, 3), argv=[[], ["--no-rewrite"], ["--no-cse"]]), drv, CL)

    # and applied repeatedly, in any order
    def script(r, past):
        p = [r.choice(["optimize_rewrites", "optimize_rewrites", "optimize_cse", "remove_extended_operators"])
             for _ in range(r.randint(1, 4))]
        return ["parse_c2po s.c2po", "parse_map m.map", "type_check", "desugar"] + p + \
            ["multi_operators_to_binary", "remove_extended_operators", "assemble o.bin"]
    campaign(ck, shaped_cases(3000 if T else 300, r, script=script), drv, CL)
    ck.add(disagreements_checked=ck.cov["verdicts_judged"])
    return ck.finish()


FORM = {"remove_extended_operators": "core", "multi_operators_to_binary": "binary", "flatten_multi_operators": None,
        "sort_operands_by_pd": "sorted", "to_bnf": "bnf", "to_nnf": "nnf", "remove_release_operators": "norelease"}
TRANSFORMS = sorted(FORM)
NNFXOR = ("!", ("xor", ("v", 0), ("v", 1)))


def ops_of(f):
    return {f[0]}.union(*[ops_of(x) for x in fm.kids(f)]) if fm.kids(f) else {f[0]}


def written(ck, n, r, depth=(0, 2)):
    """transform, print, and compare the printed specification with the given one in TLC"""
    cases = []
    for _ in range(n):
        past = r.random() < .4
        passes = [r.choice(TRANSFORMS) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        xor = "to_nnf" not in passes
        fs = []
        for _ in range(r.randint(1, 3)):
            f = shaped(r, r.randint(*depth), past, xor=xor) if r.random() < .6 else fm.gen(r, 3, past, consts=.1)
            if not xor and "xor" in ops_of(f):
                continue
            if f not in fs and fm.size(f) < 60:
                fs.append(f)
        if fs:
            cases.append((fs, past, passes))
    cases.append(([NNFXOR], False, ["to_nnf"]))
    return check_written(ck, cases, r)


def check_written(ck, cases, r):
    jobs, cs = [], []
    for fs, past, passes in cases:
        c = Case(fs, past, [], nv=3, script=["parse_c2po s.c2po", "parse_map m.map", "type_check", "desugar"] + passes +
                 ["print_prefix", "exit"])
        cs.append(c)
    from core import compile_all
    res = compile_all([c.job() for c in cs])
    recs, known = [], {}
    for i, ((fs, past, passes), c, x) in enumerate(zip(cases, cs, res)):
        key = "nnf-not-xor" if fs == [NNFXOR] and passes == ["to_nnf"] else None
        known[i] = key
        if x["rc"] != 0:
            ck.violation("transformation fails: exit code %s: %s\n%s\n%s" % (x["rc"], passes, c.spec, x["err"][-400:]),
                         files={"s.c2po": c.spec, "x.cmd": "\n".join(c.script)})
            continue
        lines = [ln for ln in x["out"].split("\n") if ln.strip()]
        try:
            fs2 = [fm.parse_prefix(ln) for ln in lines]
        except fm.Unreadable as e:
            ck.violation("printed specification is not readable: %s" % e, files={"s.c2po": c.spec, "x.cmd": "\n".join(c.script)})
            continue
        n1, r1 = fm.nodes_of(fs)
        n2, r2 = fm.nodes_of(fs2)
        traces = []
        for _ in range(2):
            rows = fm.rows_random(r, 24, 3)
            traces.append([[row[k] for row in rows] for k in range(3)])
        last = passes[-1]
        forms = [FORM[last]] if FORM[last] and not (past and last in ("to_bnf", "to_nnf")) else []
        recs.append(dict(id=i, nodes=n1, roots=r1, nodes2=n2, roots2=r2, trees=[fm.tree(f) for f in fs2], forms=forms, traces=traces))
    bad, st, di = rig.judge("EquivConf", recs)
    ck.add(states=st, programs=len(recs), formulas_compared=sum(len(x["roots"]) for x in recs))
    for b in bad:
        fs, past, passes = cases[b["id"]]
        ck.violation("%s after %s: %s  gives  %s" % (b["why"][0], passes, cs[b["id"]].spec, res[b["id"]]["out"]),
                     key=known[b["id"]], why=b["why"],
                     files={"s.c2po": cs[b["id"]].spec, "x.cmd": "\n".join(cs[b["id"]].script)})
    import shutil
    for x in res:
        shutil.rmtree(x["dir"], ignore_errors=True)


def c07():
    ck = Check("C07", "translation_validation")
    drv, _ = rig.build_monitor(cli=False)
    r = ck.rng
    T = rig.THOROUGH
    written(ck, 20000 if T else 1500, r)

    def script(r, past):
        p = [r.choice([t for t in TRANSFORMS if t != "to_nnf"]) for _ in range(r.randint(1, 3))]
        return ["parse_c2po s.c2po", "parse_map m.map", "type_check", "desugar"] + p + \
            ["multi_operators_to_binary", "remove_extended_operators", "assemble o.bin"]

    def script_nnf(r, past):
        return ["parse_c2po s.c2po", "parse_map m.map", "type_check", "desugar", "to_nnf"] + \
            [r.choice([t for t in TRANSFORMS]) for _ in range(r.randint(0, 2))] + \
            ["multi_operators_to_binary", "remove_extended_operators", "assemble o.bin"]
    campaign(ck, shaped_cases(5000 if T else 400, r, script=script), drv, CL)
    campaign(ck, shaped_cases(1500 if T else 150, r, script=script_nnf, xor=False), drv, CL)
    ck.add(disagreements_checked=ck.cov["verdicts_judged"] + ck.cov["formulas_compared"])
    return ck.finish()
