"""C01-C04: the verdicts of the real tool chain (C2PO + C monitor) against spec/MLTL.tla and
spec/VerdictConf.tla."""
import formula as fm
import rig
from core import Check, Case, campaign, tlc_formulas

OPTS = [[], ["--no-rewrite"], ["--no-cse"], ["--no-rewrite", "--no-cse"], ["--extops"],
        ["--no-rewrite", "--no-cse", "--extops"]]


def small_scope(ck, tense, maxub, per_spec, r, opts=OPTS, width=None, frac=1.0):
    """every formula TLC enumerates, packed into specifications, over a trace in which every
    window of the formula's horizon occurs"""
    fs = list(tlc_formulas(tense, maxub))
    if frac < 1:
        fs = r.sample(fs, int(len(fs) * frac))
    r.shuffle(fs)
    ck.add(formulas_enumerated=len(fs))
    cases = []
    for i in range(0, len(fs), per_spec):
        part = fs[i:i + per_spec]
        w = width or (2 * maxub + 1)
        rows = fm.rows_windows(2, w, r)
        k = r.randrange(len(rows))
        cases.append(Case(part, tense == "PT", [rows[k:] + rows[:k]], nv=2, argv=opts[(i // per_spec) % len(opts)]))
    return cases


def rand_cases(ck, n, tense, r, depth=3, mb=3, nv=3, nf=(1, 4), steps=(20, 60), traces=2, opts=OPTS, **kw):
    out = []
    for _ in range(n):
        past = tense == "PT" or (tense is None and r.random() < .5)
        fs = []
        while len(fs) < r.randint(*nf) or not fs:
            f = fm.gen(r, r.randint(1, depth), past, nv=nv, mb=mb, **kw)
            if f not in fs:
                fs.append(f)
        rows = [fm.rows_random(r, r.randint(*steps), nv) for _ in range(traces)]
        out.append(Case(fs, past, rows, nv=nv, argv=r.choice(opts)))
    ck.add(formulas_random=sum(len(c.formulas) for c in out))
    return out


def sharing(r, past, nv=3, mb=4):
    """formulas in which one subformula has several readers that wait for different siblings"""
    t1, t2 = ("OH", "ST") if past else ("FG", "UR")

    def temporal(x, m):
        lb = r.choice([0, 0, 0, 1, 2])
        return (r.choice(t1), lb, lb + r.randint(0, m), x)

    def v():
        return ("v", r.randrange(nv))

    def shared():
        x = v()
        for _ in range(r.randint(0, 2)):
            x = r.choice([lambda: temporal(x, mb), lambda: ("!", x), lambda: (r.choice(["&&", "||", "<->"]), x, v()),
                          lambda: (r.choice(t2), 0, r.randint(0, mb), v(), x)])()
        return x
    sh = [shared() for _ in range(r.randint(1, 2))]
    fs = []
    for _ in range(r.randint(2, 5)):
        x = r.choice(sh)
        y = r.choice([v, v, lambda: temporal(v(), mb + 3), lambda: temporal(temporal(v(), mb), 2), lambda: r.choice(sh)])()
        a, b = (x, y) if r.random() < .5 else (y, x)
        f = (r.choice(["&&", "||", "<->", "->"]), a, b) if r.random() < .7 else (r.choice(t2), r.randint(0, 1), 1 + r.randint(0, mb), a, b)
        if r.random() < .3:
            f = temporal(f, 3)
        if f not in fs:
            fs.append(f)
    return fs


def sharing_cases(ck, n, r, steps=(40, 90)):
    out = []
    for _ in range(n):
        past = r.random() < .3
        fs = sharing(r, past)
        rows = [fm.rows_random(r, r.randint(*steps), 3) for _ in range(2)]
        p = r.choice([.15, .8, .9])
        rows.append([[int(r.random() < p) for _ in range(3)] for _ in range(r.randint(*steps))])
        out.append(Case(fs, past, rows, nv=3, argv=r.choice(OPTS)))
    return out


def large_cases(r, tense, k=1):
    """numbers beyond a byte, or two: bounds of intervals, formulas, signals, steps"""
    out = []
    past = tense == "PT"
    T1, T2 = ("OH", "ST") if past else ("FG", "UR")

    def rare(nv, n, lo=.002, hi=.02):
        """columns that are mostly false, mostly true, or change rarely"""
        kind = [r.choice("ftr") for _ in range(nv)]
        p = [r.uniform(lo, hi) for _ in range(nv)]
        cur, rows = [int(q == "t") for q in kind], []
        for _ in range(n):
            cur = [(c ^ (r.random() < p[i])) if q == "r" else int((r.random() < p[i]) == (q == "f")) for i, (q, c) in enumerate(zip(kind, cur))]
            rows.append([int(c) for c in cur])
        return rows
    for _ in range(6 * k):      # intervals
        def wide():
            ub = r.choice([254, 255, 256, 257, 300, 511, 512, 700])
            return (r.choice([0, 0, 1, ub - r.choice([0, 1, 255, 200]), ub // 2]), ub)

        def v():
            return r.choice([lambda: ("v", r.randrange(3)), lambda: ("!", ("v", r.randrange(3))), lambda: (r.choice(["&&", "||"]), ("v", 0), ("v", 1))])()
        f = (r.choice(T1),) + wide() + (v(),) if r.random() < .5 else (r.choice(T2),) + wide() + (v(), v())
        if r.random() < .4:
            f = r.choice([lambda: (r.choice(["&&", "||", "->"]), f, v()), lambda: (r.choice(T1), 0, 3, f), lambda: ("&&", f, (r.choice(T1),) + wide() + (v(),))])()
        out.append(Case([f], past, [rare(3, 1700)], nv=3, argv=r.choice(OPTS)))
    for _ in range(2 * k):      # formulas
        fs = set()
        while len(fs) < r.choice([257, 290, 330]):
            fs.add(fm.gen(r, r.randint(1, 2), past, nv=3, mb=3, tprob=.6, leaf=.05))
        out.append(Case(r.sample(sorted(fs, key=str), len(fs)), past, [fm.rows_random(r, r.randint(12, 20), 3)], nv=3, argv=r.choice(OPTS)))
    for _ in range(2 * k):      # signals
        nv = r.choice([257, 270, 300])
        fs = [fm.gen(r, r.randint(1, 3), past, nv=nv, mb=3, leaf=.05) for _ in range(90)]
        sig = list(range(nv))
        r.shuffle(sig)
        out.append(Case(fs, past, [fm.rows_random(r, 20, nv)], nv=nv, argv=r.choice(OPTS), names=["p%d" % i for i in range(nv)], sig=sig))
    for _ in range(k):          # steps
        n = 66000
        f = (r.choice(T1), r.randint(0, 2), r.randint(2, 9), ("v", 0)) if r.random() < .5 else (r.choice(T2), r.randint(0, 2), r.randint(2, 9), ("v", 0), ("v", 1))
        out.append(Case([f], past, [rare(2, n, .05, .4)], nv=2, argv=r.choice(OPTS)))
    return out


def c01():
    ck = Check("C01", "model_checking")
    drv, _ = rig.build_monitor(cli=False)
    big, _ = rig.build_monitor(cli=False, bounds=rig.big_bounds())
    r = ck.rng
    T = rig.THOROUGH
    cl = ("value", "stream", "died", "reject")
    campaign(ck, small_scope(ck, "FT", 1, 3, r), drv, cl)
    campaign(ck, rand_cases(ck, 6000 if T else 500, "FT", r, consts=.1), drv, cl)
    campaign(ck, rand_cases(ck, 3000 if T else 200, "FT", r, depth=5, mb=6, steps=(60, 140), nf=(1, 2), traces=1), drv, cl)
    campaign(ck, large_cases(r, "FT", 8 if T else 1), big, cl)
    if T:
        campaign(ck, small_scope(ck, "FT", 2, 4, r, opts=OPTS), drv, cl)
        campaign(ck, small_scope(ck, "FT", 2, 1, r, opts=[[], ["--no-rewrite", "--no-cse"]]), drv, cl)
    return ck.finish()


def c02():
    ck = Check("C02", "model_checking")
    drv, _ = rig.build_monitor(cli=False)
    big, _ = rig.build_monitor(cli=False, bounds=rig.big_bounds())
    r = ck.rng
    T = rig.THOROUGH
    cl = ("value", "stream", "died", "reject")
    campaign(ck, small_scope(ck, "PT", 1, 3, r), drv, cl)
    campaign(ck, rand_cases(ck, 6000 if T else 500, "PT", r, consts=.1), drv, cl)
    campaign(ck, rand_cases(ck, 3000 if T else 200, "PT", r, depth=5, mb=6, steps=(60, 140), nf=(1, 2), traces=1), drv, cl)
    campaign(ck, large_cases(r, "PT", 8 if T else 1), big, cl)
    if T:
        campaign(ck, small_scope(ck, "PT", 2, 4, r, opts=OPTS), drv, cl)
        campaign(ck, small_scope(ck, "PT", 2, 1, r, opts=[[], ["--no-rewrite", "--no-cse"]]), drv, cl)
    return ck.finish()


def c03():
    """stream form: many formulas sharing structure, long traces"""
    ck = Check("C03", "model_checking")
    drv, _ = rig.build_monitor(cli=False)
    r = ck.rng
    T = rig.THOROUGH
    cl = ("stream", "died", "reject")
    campaign(ck, sharing_cases(ck, 2000 if T else 150, r), drv, cl)
    for tense in ("FT", "PT"):
        campaign(ck, rand_cases(ck, 1500 if T else 150, tense, r, depth=3, mb=5, nf=(4, 10), steps=(40, 200), traces=1), drv, cl)
        campaign(ck, rand_cases(ck, 2000 if T else 150, tense, r, depth=6, mb=2, nf=(1, 2), steps=(60, 120), traces=1, leaf=.03), drv, cl)
        campaign(ck, rand_cases(ck, 500 if T else 60, tense, r, depth=2, mb=40, nf=(1, 2), steps=(150, 400), traces=1), drv, cl)
    return ck.finish()


def c04():
    """promptness: every verdict is out by the worst-case propagation delay"""
    ck = Check("C04", "model_checking")
    drv, _ = rig.build_monitor(cli=False)
    r = ck.rng
    T = rig.THOROUGH
    cl = ("late", "died", "reject")
    for tense in ("FT", "PT"):
        campaign(ck, small_scope(ck, tense, 1, 4, r, frac=1 if T else .3), drv, cl)
        campaign(ck, rand_cases(ck, 3000 if T else 250, tense, r, depth=3, mb=4, steps=(30, 80), traces=1), drv, cl)
        campaign(ck, rand_cases(ck, 800 if T else 80, tense, r, depth=2, mb=30, nf=(1, 2), steps=(100, 300), traces=1), drv, cl)
        campaign(ck, rand_cases(ck, 1500 if T else 100, tense, r, depth=6, mb=2, nf=(1, 2), steps=(50, 100), traces=1, leaf=.03), drv, cl)
    return ck.finish()
