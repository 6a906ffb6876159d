"""C10: the monitor library: several monitors, reloading, typed signals, callbacks."""
import os, shutil
import formula as fm
import rig
from bzgen import fnum
from checks_surface import surf_case
from checks_verdict import rand_cases, sharing_cases
from core import Check, compile_all, parse_verdict


def set_cmd(r, prog, k, i, v):
    """a command that gives signal i the (abstract) value v, and the value the model sees"""
    ty = prog["types"][i]
    sig = prog["sig"][i]
    if ty == "f":
        return "%s %d %d %s" % (r.choice("sf"), k, sig, fnum(v))
    if prog["bz"]:
        if ty == "b" and r.random() < .3:
            return "b %d %d %d" % (k, sig, v)
        return "%s %d %d %d" % (r.choice("si"), k, sig, v)
    # without the booleanizer every number other than 0 is true
    kind = r.choice("sbif")
    if kind == "f":
        return "f %d %d %s" % (k, sig, r.choice(["0.5", "-3.25", "1.0", "2e9"]) if v else r.choice(["0.0", "-0.0"]))
    if kind == "i":
        return "i %d %d %d" % (k, sig, r.choice([1, 2, -1, 256, -65536]) if v else 0)
    return "%s %d %d %d" % (kind, k, sig, v)


def programs(r, n):
    """pool of compiled programs"""
    class Dummy:
        def add(self, **kw):
            pass
    cs = []
    for tense in ("FT", "PT"):
        cs += rand_cases(Dummy(), n // 3, tense, r, depth=3, mb=4, traces=0)
    cs += sharing_cases(Dummy(), n // 6, r)
    cs += [surf_case(r) for _ in range(n // 2)]
    for c in cs:
        c.rows = []
    res = compile_all([c.job() for c in cs])
    out = []
    for c, x in zip(cs, res):
        if x["rc"]:
            continue        # rejected as constant; C01-C09 judge rejections
        p = {"path": os.path.join(x["dir"], "o.bin"), "spec": c.spec, "argv": c.argv, "sig": c.sig, "nv": c.nv,
             "bz": "-bz" in c.argv}
        if "surf" in c.info:
            p["types"] = c.info["types"]
            p["row"] = c.info["row"]
            p["model"] = dict(c.info["surf"], nv=c.nv)
        else:
            p["types"] = ["b"] * c.nv
            p["row"] = lambda nv=c.nv: [r.randrange(2) for _ in range(nv)]
            nodes, roots = fm.nodes_of(c.formulas)
            p["model"] = {"nodes": nodes, "roots": roots, "nv": c.nv}
        out.append(p)
    return out, res


def session(r, pool, nmon, nev):
    """random interleaving -> (driver commands, model events with places for the outputs, programs)"""
    cmds, evs, progs = [], [], []
    cur, fresh, quiet, cb = [None] * nmon, [True] * nmon, [0] * nmon, [0] * nmon
    for _ in range(nev):
        k = r.randrange(nmon)
        if cur[k] is None or r.random() < .04:
            p = r.choice(pool)
            if p not in progs:
                progs.append(p)
            if cur[k] is not None and r.random() < .6:
                cmds.append("%s %d" % (r.choice(["hreset", "sreset", "creset"]), k))
            cmds.append("load %d %s" % (k, p["path"]))
            evs.append(["load", k, progs.index(p) + 1])
            cur[k], fresh[k], quiet[k] = p, True, 0
            cb[k] = r.random() < .4
            cmds.append("cb %d %d" % (k, cb[k]))
            if cb[k] and r.random() < .3:
                quiet[k] = 1
                cmds.append("out %d 0" % k)
            continue
        p = cur[k]
        for _ in range(r.randint(1, 3)):
            row = p["row"]()
            ix = [i for i in range(p["nv"]) if fresh[k] or r.random() < .7]
            r.shuffle(ix)
            cmds += [set_cmd(r, p, k, i, row[i]) for i in ix]
            if ix:
                evs.append(["set", k, [[i, row[i]] for i in ix]])
            fresh[k] = False
            cmds.append("step %d" % k)
            evs.append(["step", k, [], [], not quiet[k], bool(cb[k])])
    return cmds, evs, progs


def c10():
    ck = Check("C10", "model_checking")
    drv, _ = rig.build_monitor(cli=False)
    r = ck.rng
    T = rig.THOROUGH
    pool, res = programs(r, 1500 if T else 240)
    ss = [session(r, pool, r.choice([1, 2, 2, 3, 5]), r.randint(20, 90)) for _ in range(6000 if T else 700)]
    outs = rig.run_sessions(drv, [s[0] for s in ss])
    recs, nver = [], 0
    for i, ((cmds, evs, progs), o) in enumerate(zip(ss, outs)):
        steps = [e for e in o["ev"] if e[0] == "step"]
        end = o["end"]
        places = [e for e in evs if e[0] == "step"]
        for e, s in zip(places, steps):
            for ln in s[2]:
                v = parse_verdict(ln.lstrip("~"))
                to = 3 if ln.startswith("~") else 2
                if v is None or not e[to + 2]:
                    end = "unexpected output: " + ln[:60] if end == "ok" else end
                    continue
                e[to].append(list(v))
                nver += 1
        if len(steps) != len(places) and end == "ok":
            end = "steps missing"
        last = -1
        if len(steps) < len(places):        # died: judge what was seen
            seen = len(steps)
            evs = [e for j, e in enumerate(evs) if e[0] != "step" or places.index(e) < seen]
        recs.append({"id": i, "n": 0, "m": max(e[1] for e in evs) + 1, "programs": [p["model"] for p in progs],
                     "events": evs, "end": end})
    bad, st, di = rig.judge("FleetConf", recs, spec="SpecFleet")
    ck.add(states=st, transitions=max(0, st - 1), traces_validated_against_impl=len(recs), programs=len(pool),
           verdicts_judged=nver, events=sum(len(x["events"]) for x in recs))
    for b in sorted(bad, key=lambda b: len(recs[b["id"]]["events"])):
        cmds, evs, progs = ss[b["id"]]
        ck.violation("%s with %d programs" % (b["why"][0], len(progs)),
                     files={"session.txt": "\n".join(cmds), "record.json": str(recs[b["id"]])},
                     why=b["why"], programs=[[p["path"], p["argv"], p["spec"]] for p in progs])
    ck.sample({"session": ss[0][0][:40]})
    for x in res:
        shutil.rmtree(x["dir"], ignore_errors=True)
    return ck.finish()
