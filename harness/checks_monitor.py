"""C05: the programs the real compiler produces, explored for every input trace with
spec/Monitor.tla; the explored behaviours are replayed on the real monitor."""
import os, shutil
import formula as fm, mc, rig
from core import Check, Case, campaign, compile_all, session, record, tlc_formulas, parse_verdict
from checks_verdict import OPTS, sharing, sharing_cases


def pick(ck, r, budget, percase):
    """programs whose exploration is affordable: cost ~ number of input windows"""
    cases, spent = [], 0
    pool = []
    for tense in ("FT", "PT"):
        fs = tlc_formulas(tense, 2)
        pool += [([f], tense == "PT") for f in r.sample(fs, min(len(fs), 600))]
    for _ in range(1500):
        past = r.random() < .5
        fs = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            fs.append(fm.gen(r, r.choice([2, 3, 3, 4]), past, nv=2, mb=2, leaf=.1, consts=.05))
        # share a subformula
        if len(fs) > 1 and r.random() < .6:
            k = [x for x in fm.kids(fs[0]) if fm.kids(x)]
            if k:
                fs[1] = ("&&", fs[1], r.choice(k)) if r.random() < .5 else ("U" if not past else "S", 0, r.randint(0, 2), fs[1], r.choice(k))
        pool.append((fs, past))
    for _ in range(700):
        past = r.random() < .4
        pool.append((sharing(r, past, nv=2, mb=2), past))
    r.shuffle(pool)
    for fs, past in pool:
        fs = [f for i, f in enumerate(fs) if f not in fs[:i]]
        need = max(fm.wpd(f) for f in fs) + max(fm.horizon_past(f) for f in fs) + 1
        if max(map(fm.max_ub, fs)) == 0 and r.random() < .9:
            continue
        cost = 4 ** need * (3 if not past else 5) * sum(map(fm.size, fs)) / 6
        if cost > percase or spent + cost > budget:
            continue
        spent += cost
        cases.append(Case(fs, past, [], nv=2, argv=r.choice(OPTS)))
        if spent > .97 * budget:
            break
    return cases


def c05():
    ck = Check("C05", "model_checking")
    drv, _ = rig.build_monitor(cli=False)
    r = ck.rng
    T = rig.THOROUGH
    # programs in which results are buffered for several readers, on long random inputs
    campaign(ck, sharing_cases(ck, 4000 if T else 350, r), drv)
    rounds = 5 if T else 1
    for rd in range(rounds):
        cases = pick(ck, r, 400000 if T else 11000, (30000 if rd % 2 else 200000) if T else 2500)
        comp = compile_all([c.job() for c in cases])
        progs = []
        for i, (c, x) in enumerate(zip(cases, comp)):
            fn = os.path.join(x["dir"], "o.bin")
            if os.path.exists(fn):
                with open(fn, "rb") as f:
                    m = mc.model_program(i, c, f.read(), 200)
                if m:
                    progs.append(m)
                else:
                    ck.add(not_modelled=1)
        if len(progs) < len(cases) // 2:
            ck.assumptions.append("most programs do not decode to the modelled instruction set; fewer were explored")
        if not progs:
            continue
        cex, hist, st, di, fin = mc.explore(progs, True, timeout=1800 if T else 400, stop_after=900 if T else 40)
        ck.add(states=di, transitions=st, programs=len(progs))
        if not fin:
            ck.assumptions.append("round %d: the exploration was cut off by its time limit" % rd)
        # replay: counterexamples (with every kind of continuation), and inputs reaching every configuration
        sess, meta = [], []
        for x in cex:
            c = cases[x["id"]]
            for k in range(12):
                tail = fm.rows_random(r, 14, 2) if k > 3 else [[k & 1, k >> 1]] * 14
                rows = mc.rows_of(x["why"] and x["hist"], 2) + tail
                sess.append(session(c, rows, os.path.join(comp[x["id"]]["dir"], "o.bin")))
                meta.append((x["id"], rows, None, x))
        for i, hs in hist.items():
            mx = mc.maximal(hs)
            if not T and len(mx) > 80:
                mx = r.sample(mx, 80)
            for h in mx:
                rows = mc.rows_of(h, 2) + fm.rows_random(r, 6, 2)
                sess.append(session(cases[i], rows, os.path.join(comp[i]["dir"], "o.bin")))
                meta.append((i, rows, hs[h], None))
        outs = rig.run_sessions(drv, sess)
        recs = []
        for j, ((i, rows, log, x), o) in enumerate(zip(meta, outs)):
            rec = record(j, cases[i], rows, o)
            recs.append(rec)
            if log is not None:
                n = len(rows) - 6
                same = [list(e) for e in log] == [e for e in rec["outs"] if e[0] < n]
                ck.add(**{"replays_matching_model_exactly" if same else "replays_differing_from_model": 1})
        bad, s2, d2 = rig.judge("VerdictConf", recs)
        ck.add(traces_validated_against_impl=len(recs), verdicts_judged=sum(len(x["outs"]) for x in recs))
        confirmed = set()
        for b in sorted(bad, key=lambda b: len(meta[b["id"]][1])):
            i, rows, log, x = meta[b["id"]]
            confirmed.add(i)
            c = cases[i]
            ck.violation("%s: %s with %s" % (b["why"][0], c.spec, c.argv),
                         files={"s.c2po": c.spec, "session.txt": "\n".join(sess[b["id"]])},
                         why=b["why"], argv=c.argv, rows=rows, model=x, outputs=outs[b["id"]]["ev"])
        for x in cex:
            if x["id"] not in confirmed:
                ck.add(model_counterexamples_not_reproduced=1)
                ck.sample({"not reproduced": cases[x["id"]].spec, "argv": cases[x["id"]].argv, "cex": x})
        for m in progs[:2]:
            ck.sample({"spec": cases[m["id"]].spec, "argv": cases[m["id"]].argv, "queue sizes": m["size"],
                       "configurations": len(hist.get(m["id"], {}))})
        for x in comp:
            shutil.rmtree(x["dir"], ignore_errors=True)
        if ck.nviol:
            break
    return ck.finish()
