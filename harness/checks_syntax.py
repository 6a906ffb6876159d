"""C14: operators group by binding strength; well-typed expressions and only those are accepted."""
import json, os, shutil
import rig, syngen
from bzgen import fnum
from core import Check, compile_all, parse_verdict

OPTS = ([], [], [], ["--no-rewrite"], ["--no-cse"], ["--extops"], ["--no-rewrite", "--no-cse"])


def row(r, inputs):
    out = []
    for n, t in inputs:
        out.append(r.randrange(2) if t == "b" else r.randint(-3, 3) if t == "i" else r.choice([-2, -1, 0, 1, 2, 4, 6]) * 64)
    return out


def fields(o, rows):
    outs, t, junk = [], 0, None
    for e in o["ev"]:
        if e[0] != "step":
            continue
        for ln in e[2]:
            v = parse_verdict(ln)
            if v is None:
                junk = junk or ln
            else:
                outs.append([t, v[0], v[1], v[2]])
        t += 1
    end = o["end"]
    if end == "ok" and junk is not None:
        end = "unexpected output: " + junk[:80]
    return {"steps": len(rows) if o["end"] == "ok" else t, "end": end, "outs": outs}


def run(ck, progs, drv):
    r = ck.rng
    jobs = []
    for mode, past, fs in progs:
        ins = syngen.INPUTS if mode == "bz" else syngen.BOOLS
        sfx = ".mltl" if mode == "mltl" else ".c2po"
        files = {"s" + sfx: syngen.source(r, mode, past, fs)}
        argv = ["--spec", "s" + sfx, "-o", "o.bin"] + list(r.choice(OPTS)) + (["-bz"] if mode == "bz" else [])
        if mode != "mltl":
            files["m.map"] = "".join("%s:%d\n" % (n, k) for k, (n, _) in enumerate(ins))
            argv += ["--map", "m.map"]
        jobs.append({"files": files, "argv": argv})
    res = compile_all(jobs)
    sess, recs, meta = [], [], []
    for (mode, past, fs), j, x in zip(progs, jobs, res):
        ins = syngen.INPUTS if mode == "bz" else syngen.BOOLS if mode == "bool" else [("a%d" % k, "b") for k in range(4)]
        rows = [row(r, ins) for _ in range(r.randint(10, 24))]
        rec = {"id": len(recs), "bz": int(mode == "bz"), "past": int(past), "lang": "mltl" if mode == "mltl" else "c2po", "toks": fs, "vars": [[n, t, k] for k, (n, t) in enumerate(ins)],
               "inputs": [[q[k] for q in rows] for k in range(len(ins))], "n": len(rows), "steps": 0, "end": "ill", "outs": []}
        made = os.path.exists(os.path.join(x["dir"], "o.bin"))
        if x["rc"] == 0 and made:
            cm = ["load 0 " + os.path.join(x["dir"], "o.bin")]
            for q in rows:
                cm += ["s 0 %d %s" % (k, fnum(v) if ins[k][1] == "f" else v) for k, v in enumerate(q)] + ["step 0"]
            sess.append((len(recs), rows, cm))
        elif made or x["rc"] == 0 or x["rc"] == 99 or x["rc"] < 0 or "Traceback" in x["err"]:
            rec["end"] = "compiler: exit code %d, binary %s, %s" % (x["rc"], made, x["err"][-300:])
        elif "constant formula" in x["err"]:
            rec["end"] = "constant"
        recs.append(rec)
        meta.append((j, x, rows))
    outs = rig.run_sessions(drv, [s[2] for s in sess])
    for (k, rows, _), o in zip(sess, outs):
        recs[k].update(fields(o, rows))
    bad, st, di = rig.judge("Syntax", recs, spec="SpecSyntax")
    ck.add(states=st, transitions=max(0, st - 1), programs=len(recs), traces_validated_against_impl=len(sess),
           rejected_by_c2po=sum(1 for q in recs if q["end"] == "ill"))
    for b in sorted(bad, key=lambda b: sum(map(len, recs[b["id"]]["toks"]))):
        j, x, rows = meta[b["id"]]
        ck.violation("%s: %s with %s" % (b["why"][0], [v for k, v in j["files"].items() if k[0] == "s"][0], j["argv"]),
                     files=dict(j["files"], **{"record.json": json.dumps([recs[b["id"]]])}), why=b["why"], argv=j["argv"], err=x["err"][-600:], rows=rows)
    for k in range(3):
        ck.sample({"files": jobs[k]["files"], "argv": jobs[k]["argv"]})
    for x in res:
        shutil.rmtree(x["dir"], ignore_errors=True)


def c14():
    ck = Check("C14", "model_checking")
    drv, _ = rig.build_monitor(cli=False, bounds=rig.big_bounds())
    T = rig.THOROUGH
    r = ck.rng
    run(ck, [syngen.program(r) for _ in range(15000 if T else 1500)] +
        [syngen.program(r, r.choice(["bz", "bz", "bool", "mltl"]), .06, 1) for _ in range(8000 if T else 700)], drv)
    return ck.finish()
