"""Model checking of compiled programs with spec/MonitorMC.tla."""
import json, os, re, threading
import binfmt, formula as fm, rig
from core import compile_all, Case


def model_program(pid, case, data, max_depth):
    m = binfmt.program(data)
    if m is None or m["bz"]:
        return None
    nodes, roots = fm.nodes_of(case.formulas)
    wpd = max(fm.wpd(f) for f in case.formulas)
    past = max(fm.horizon_past(f) for f in case.formulas)
    ub = max(fm.max_ub(f) for f in case.formulas)
    readers = [sorted(set(i[5] for i in m["ins"] if (i[1] == 2 and i[2] == q) or (i[3] == 2 and i[4] == q and i[0] != "return")))
               for q in range(1, len(m["size"]) + 1)]
    return dict(id=pid, ins=m["ins"], size=m["size"], lb=m["lb"], ub=m["ub"], nodes=nodes, roots=roots, nv=case.nv, readers=readers,
                need=wpd + past + 1, ahead=past, K=wpd + past + ub + 2, maxDepth=max_depth)


def explore(programs, emit, shards=1, timeout=600, workers=8, stop_after=None):
    """-> (counterexamples, histories {id: {codes: outputs}}, states, distinct, finished)"""
    shards = max(1, min(shards, len(programs)))
    outs = [None] * shards
    files = []

    def go(i):
        fn = os.path.join(rig.scratch(), "progs.%d.json" % i)
        with open(fn, "w") as f:
            json.dump(programs[i::shards], f)
        files.append(fn)
        outs[i] = rig.run_tlc("MonitorMC", "SPECIFICATION Spec\nVIEW View\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n",
                              env={"PROGRAMS": fn, "EMIT": "1" if emit else "0"}, heap="%dg" % (12 if shards == 1 else 3), timeout=timeout,
                              workers=workers if shards == 1 else 1,
                              props=["-Dtlc2.TLC.stopAfter=%d" % stop_after] if stop_after else [])
    ths = [threading.Thread(target=go, args=(i,)) for i in range(shards)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    cex, hist, st, di, fin = [], {}, 0, 0, True
    for r in outs:
        if r["rc"] == -9 or "Model checking completed" not in r["out"]:
            fin = False
            if r["rc"] not in (-9, 0) or not r["distinct"]:
                raise rig.MachineryError("MonitorMC: " + r["out"][-3000:])
        elif r["rc"] != 0:
            raise rig.MachineryError("MonitorMC: " + r["out"][-3000:])
        st += r["states"]
        di += r["distinct"]
        cex += [json.loads(x) for x in rig.tlc_printed(r["out"], "CEX")]
        for x in rig.tlc_printed(r["out"], "H"):
            h = json.loads(x)
            hist.setdefault(h["id"], {})[tuple(h["h"])] = h["log"]
    return cex, hist, st, di, fin


def maximal(hs):
    """histories that are not a proper prefix of another"""
    s = set(tuple(h) for h in hs)
    pre = set()
    for h in s:
        for k in range(len(h)):
            pre.add(h[:k])
    return [h for h in s if h not in pre]


def rows_of(codes, nv):
    return [[(c >> i) & 1 for i in range(nv)] for c in codes]
