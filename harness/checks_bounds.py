"""C13: a monitor built with the bounds file that C2PO writes for a specification runs it."""
import os, re, shutil
import binfmt, formula as fm, rig
import checks_aux, checks_front
from core import Check, compile_all


def with_bounds(r, j):
    """the job of checks_front, also writing the bounds file"""
    if j["argv"][0] == "--script":
        j["files"]["x.cmd"] += "write_bounds_c b.h\n"
    else:
        j["argv"] += ["--write-bounds", "b.h"]
    return j


def read_bounds(fn):
    return {k: int(v) for k, v in re.findall(r"#define\s+(R2U2_\w+)\s+(\d+)\s*$", open(fn).read(), re.M)}


def _build(job):
    name, aux, bounds, cli = job
    try:
        return rig.build_monitor(name=name, defs=("R2U2_AUX_STRING_SPECS=1",) if aux else (), bounds=bounds, cli=cli, driver=not cli, opt="-O0",
                                 extra=("-fsanitize=address", "-fno-omit-frame-pointer"))
    except rig.MachineryError as e:
        return str(e)


def c13():
    ck = Check("C13", "model_checking")
    T = rig.THOROUGH
    r = ck.rng
    items = []
    for _ in range(6000 if T else 700):
        k = r.random()
        if k < .25:
            p = checks_aux.prog(r)
            if p.long:
                continue
            items.append((p, None, {"files": p.files, "argv": p.argv + ["--write-bounds", "b.h"]}))
            continue
        p = checks_front.bool_prog(r, False) if k < .5 else checks_front.bool_prog(r, True) if k < .6 else \
            checks_front.bz_prog(r) if k < .8 else checks_front.surf_prog(r)
        j = checks_front.job(r, p, tight=True)
        items.append((p, j, with_bounds(r, j)))
    res = compile_all([x[2] for x in items])
    recs, live = [], []
    for (p, j, job), x in zip(items, res):
        bn, bh = os.path.join(x["dir"], "o.bin"), os.path.join(x["dir"], "b.h")
        if x["rc"] or not os.path.exists(bn) or not os.path.exists(bh):
            if x["rc"] == 11 and "constant formula" in x["err"]:
                continue
            ck.violation("no binary or no bounds file: exit code %s\n%s\n%s" % (x["rc"], job["argv"], x["err"][-400:]), files=job["files"])
            continue
        t = binfmt.tables(open(bn, "rb").read())
        i = len(live)
        live.append((p, j, job, x, bn, bh))
        if t:
            t.update(id=i, b=read_bounds(bh), cols=j["ncol"] if j else p.nv)
            recs.append(t)
    bad, st, di = rig.judge("Capacity", recs)
    ck.add(states=st, transitions=max(0, st - 1), programs=len(items), bounds_judged=len(recs))
    for b in sorted(bad, key=lambda b: len(live[b["id"]][2]["files"].get("s.c2po", ""))):
        p, j, job, x, bn, bh = live[b["id"]]
        ck.violation("%s %s" % (b["why"][0], job["argv"]), files=dict(job["files"], **{"b.h": open(bh).read()}), why=b["why"], argv=job["argv"])
    # build and run
    n = 600 if T else 72
    pick = r.sample(live, min(n, len(live)))
    builds = rig.pmap(_build, [("b%d" % k, x[1] is None, x[5], x[1] is not None) for k, x in enumerate(pick)])
    procs, front, faux, drv = [], [], [], []
    for (p, j, job, x, bn, bh), b in zip(pick, builds):
        if isinstance(b, str):
            ck.violation("the monitor does not build with the bounds file: " + b[-600:], files=dict(job["files"], **{"b.h": open(bh).read()}))
            continue
        if j:
            procs.append({"argv": [b[1], "o.bin", "t.csv"], "cwd": x["dir"], "stdin": None, "asan": True})
            front.append((p, j, job, x, bh))
        else:
            drv.append(b[0])
            faux.append((p, job, x, bn, bh))
    outs = rig.run_procs(procs)
    recs = []
    for (p, j, job, x, bh), o in zip(front, outs):
        rec = checks_front.base_record(p, j)
        rec["id"] = len(recs)
        checks_front.fill(rec, o)
        recs.append(rec)
    bad, st, di = rig.judge("FrontConf", recs, spec="SpecFront")
    ck.add(states=st, transitions=max(0, st - 1), traces_validated_against_impl=len(recs))
    for b in bad:
        p, j, job, x, bh = front[b["id"]]
        ck.violation("built with its bounds file: %s %s\n%s" % (b["why"][0], job["argv"], p.text),
                     files=dict(job["files"], **{"b.h": open(bh).read(), "out.txt": outs[b["id"]]["out"], "err.txt": outs[b["id"]].get("err", "")}),
                     why=b["why"])
    recs, rowss = [], []
    for (p, job, x, bn, bh), d in zip(faux, drv):
        rows = fm.rows_random(r, r.randint(8, 25), p.nv)
        p.bin = bn
        o = rig.run_sessions(d, [checks_aux.session(p, rows)])[0]
        recs.append(checks_aux.record(len(recs), p, rows, [e for e in o["ev"] if e[0] == "step"], o["end"]))
    bad, st, di = rig.judge("AuxConf", recs, spec="SpecAux")
    ck.add(states=st, transitions=max(0, st - 1), traces_validated_against_impl=len(recs))
    for b in bad:
        p, job, x, bn, bh = faux[b["id"]]
        ck.violation("built with its bounds file: %s %s\n%s" % (b["why"][0], job["argv"], p.spec), files=dict(job["files"], **{"b.h": open(bh).read()}),
                     why=b["why"])
    ck.sample({"files": items[0][2]["files"], "argv": items[0][2]["argv"]})
    for x in res:
        shutil.rmtree(x["dir"], ignore_errors=True)
    return ck.finish()
