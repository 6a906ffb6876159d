"""C17: whole files: exactly the well-formed ones are accepted, the others refused with a message, and accepted
ones mean what spec/Files.tla says."""
import json, os, re, shutil
import rig, filesgen
from bzgen import fnum
from core import Check, compile_all
from checks_syntax import fields

OPTS = ([], [], [], ["--no-rewrite"], ["--no-cse"], ["--extops"])


def bases(g, toks, r):
    """columns for all identifiers, several for those that are arrays in the program"""
    arrays = {n for n, t, _ in g.vars if t[0] == "ina"} | {n for n, _, ty in g.vars if ty[0] == "a" and r.random() < .1}
    bools = {n for n, t, ty in g.vars if ty == "b" or ty[:2] == ("a", "b")}
    floats = {n for n, t, ty in g.vars if ty == "f" or ty[:2] == ("a", "f")}
    out, kinds, c = [], [], 0
    for n in sorted({t[1] for t in toks if t[0] == "id"}):
        k = 10 if n in arrays else 1
        kind = "b" if n in bools or r.random() < .2 else "f" if n in floats or r.random() < .1 else "i"
        out.append([n, c, k, "f" if kind == "f" else "i"])
        kinds += [kind] * k
        c += k
    return out, kinds


def one(r, edits=None):
    g, toks = filesgen.afile(r, edits)
    base, kinds = bases(g, toks, r)
    if r.random() < .3:         # another name for the same thing
        old = r.choice(base)[0]
        new = r.choice(filesgen.ODD)
        if old not in ("bool", "int", "float"):
            toks = [["id", new] if t == ["id", old] else t for t in toks]
            base = [[new if b[0] == old else b[0]] + b[1:] for b in base]
    mission = r.choice([-1, 2, 3]) if ["M"] in toks else -1
    files = {"s.c2po": filesgen.text(r, toks), "m.map": "".join("%s:%d\n" % (n, c) + ("".join("%s[%d]:%d\n" % (n, q, c + q) for q in range(k)) if k > 1 else "")
                                                               for n, c, k, _ in base)}
    argv = ["--spec", "s.c2po", "--map", "m.map", "-o", "o.bin", "-bz"] + list(r.choice(OPTS)) + (["--mission-time", str(mission)] if mission >= 0 else [])
    rows = [[r.randrange(2) if b == "b" else r.randint(-2, 4) if b == "i" else r.choice([-256, 0, 64, 128, 256, 512]) for b in kinds]
            for _ in range(r.randint(8, 14))]
    return toks, base, mission, (kinds, rows), {"files": files, "argv": argv, "timeout": 30}


STEPS = ["expand_definitions", "convert_function_calls_to_structs", "resolve_contracts", "resolve_enum_references", "resolve_struct_accesses",
         "resolve_array_accesses", "unroll_set_aggregation", "resolve_struct_accesses", "unroll_array_accesses", "resolve_struct_accesses", "set_delays"]


def stepwise(r, case):
    """the translation step by step, or steps of it before and after the whole"""
    toks, base, mission, kr, job = case
    cmd = ["enable_booleanizer"] + (["set_mission_time %d" % mission] if mission >= 0 else []) + ["parse_c2po s.c2po", "parse_map m.map", "type_check"]
    how = r.choice("abc")
    cmd += STEPS if how == "a" else STEPS[:r.randint(1, len(STEPS))] + ["desugar"] if how == "b" else ["desugar"] + r.sample(STEPS, r.randint(1, 4))
    # (type_check refuses a prev within a prev, but not one that comes in by a definition)
    again = [] if "prev" in job["files"]["s.c2po"] else ["type_check"]
    cmd += [p for p in again + ["optimize_rewrites", "remove_extended_operators", "optimize_cse"] if r.random() < (.2 if p == "type_check" else .7)]
    job["files"]["x.cmd"] = "\n".join(cmd + ["multi_operators_to_binary", "remove_extended_operators", "assemble o.bin"]) + "\n"
    job["argv"] = ["--script", "x.cmd"]
    return case


def outcome(x, script=False):
    """how C2PO ended: ok, ill (refused), constant, or what went wrong; a script goes on after a refusal"""
    made = os.path.exists(os.path.join(x["dir"], "o.bin"))
    err = x["err"]
    if x["rc"] == -9:
        return "hangs"
    if x["rc"] < 0 or x["rc"] == 99 or "Traceback" in err:
        return "crash: exit code %d: %s" % (x["rc"], err[-300:])
    if re.search(r"internal( error)?:|report this issue", err):
        return "internal error: " + err[:300]
    if x["rc"] == 0:
        return "ok" if made else "exit code 0 without a binary"
    if made and not script:
        return "exit code %d with a binary" % x["rc"]
    if "error" not in err:
        return "exit code %d without a message" % x["rc"]
    return "constant" if "constant formula" in err else "ill"


def run(ck, cases, drv):
    res = compile_all([c[4] for c in cases])
    sess, recs = [], []
    for (toks, base, mission, (kinds, rows), job, *loose), x in zip(cases, res):
        nc = len(rows[0]) if rows[0] else 0
        rec = {"id": len(recs), "toks": toks, "base": base, "mission": mission, "inputs": [[q[k] for q in rows] for k in range(nc)], "n": len(rows),
               "steps": 0, "end": outcome(x, job["argv"][0] == "--script"), "outs": [],
               "loose": int(any(loose))}
        if rec["end"] == "ok":
            cm = ["load 0 " + os.path.join(x["dir"], "o.bin")]
            for q in rows:
                cm += ["s 0 %d %s" % (k, fnum(v) if kinds[k] == "f" else v) for k, v in enumerate(q)] + ["step 0"]
            sess.append((len(recs), rows, cm))
        recs.append(rec)
    outs = rig.run_sessions(drv, [s[2] for s in sess])
    for (k, rows, _), o in zip(sess, outs):
        recs[k].update(fields(o, rows))
        if recs[k]["end"] != "ok":
            recs[k]["why"], recs[k]["end"] = recs[k]["end"], "died"
    bad, st, di = rig.judge("Files", recs, spec="SpecFiles")
    ck.add(states=st, transitions=max(0, st - 1), files=len(recs), traces_validated_against_impl=len(sess),
           refused=sum(1 for q in recs if q["end"] == "ill"), tokens=sum(len(q["toks"]) for q in recs))
    for b in sorted(bad, key=lambda b: len(recs[b["id"]]["toks"])):
        c, x = cases[b["id"]], res[b["id"]]
        ck.violation("%s: %s" % (b["why"][0], c[4]["files"]["s.c2po"][:700]), files=dict(c[4]["files"], **{"record.json": json.dumps([recs[b["id"]]])}),
                     why=b["why"], argv=c[4]["argv"], err=x["err"][-600:], rows=c[3])
    for k in range(3):
        ck.sample({"files": cases[k][4]["files"], "argv": cases[k][4]["argv"]})
    for x in res:
        shutil.rmtree(x["dir"], ignore_errors=True)


def c17():
    ck = Check("C17", "model_checking")
    drv, _ = rig.build_monitor(cli=False, bounds=rig.big_bounds())
    r = ck.rng
    T = rig.THOROUGH
    run(ck, [stepwise(r, one(r)) if k % 4 == 3 else one(r) for k in range(12000 if T else 1500)], drv)
    return ck.finish()
