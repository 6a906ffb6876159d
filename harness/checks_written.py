"""C18: what C2PO writes (write_c2po, write_mltl) can be read again and means the same."""
import rig
import checks_aux, checks_files
from core import Check, campaign
from checks_passes import shaped_cases, TRANSFORMS

CL = ("value", "stream", "late", "died", "reject")
PASSES = [t for t in TRANSFORMS if t != "to_nnf"] + ["optimize_rewrites"]
FINISH = ["type_check", "desugar", "optimize_rewrites", "remove_extended_operators", "optimize_cse", "multi_operators_to_binary", "assemble o.bin"]


def again(r, mltl=False):
    """read what was written, perhaps write it once more, and compile"""
    out = []
    for k in range(r.choice([1, 1, 2])):
        suffix, src = ("mltl", "w%d.mltl" % k) if mltl else ("c2po", "w%d.c2po" % k)
        if k:
            if mltl:
                out += ["type_check", "desugar", "compute_atomics"]
            elif r.random() < .5:
                out += ["type_check"]
        out += ["write_%s %s" % (suffix, src), "parse_%s %s" % (suffix, src)]
        if not mltl and (k or r.random() < .8):
            out += ["parse_map m.map"]
    return out


def script(r, past):
    out = ["parse_c2po s.c2po", "parse_map m.map"]
    stage = r.choice([0, 1, 2, 3, 3])
    mltl = stage > 0 and r.random() < .5
    if stage > 0:
        out += ["type_check"]
    if stage > 1:
        out += ["desugar"]
    if stage > 2:
        out += [r.choice(PASSES) for _ in range(r.randint(1, 2))]
    if mltl:
        out += ["compute_atomics"]
    out += again(r, mltl)
    if not any(o.startswith("parse_map") for o in out[2:]) and not mltl:
        out += ["parse_map m.map"]
    return out + FINISH


def rewrite(r, mission):
    """the script for a whole file; after desugar what is written may hold what has no syntax (counts of formulas, ...)"""
    pre = ["enable_booleanizer"] + (["set_mission_time %d" % mission] if mission >= 0 else [])
    stage = r.choice([0, 0, 1, 1, 2])
    out = pre + ["parse_c2po s.c2po"] + ["type_check"] * (stage > 0) + ["desugar"] * (stage > 1)
    for k in range(r.choice([1, 1, 2])):
        out += (["type_check"] if k and r.random() < .5 else []) + ["write_c2po w%d.c2po" % k, "parse_c2po w%d.c2po" % k]
    return out + ["parse_map m.map"] + FINISH, stage > 1


def one(r):
    toks, base, mission, (kinds, rows), job = checks_files.one(r, edits=0)
    cmd, loose = rewrite(r, mission)
    job["files"]["x.cmd"] = "\n".join(cmd) + "\n"
    job["argv"] = ["--script", "x.cmd"]
    return toks, base, mission, (kinds, rows), job, loose


def named(r):
    """names and contracts are written, too"""
    while True:
        p = checks_aux.prog(r)
        if not p.long and p.aux:
            break
    out = ["parse_c2po s.c2po"] + ["type_check"] * r.randint(0, 1)
    p.files["x.cmd"] = "\n".join(out + ["write_c2po w.c2po", "parse_c2po w.c2po", "parse_map m.map"] + FINISH) + "\n"
    p.argv = ["--script", "x.cmd"]
    return p


def c18():
    ck = Check("C18", "translation_validation")
    drv, _ = rig.build_monitor(cli=False, bounds=rig.big_bounds())
    r = ck.rng
    T = rig.THOROUGH
    campaign(ck, shaped_cases(6000 if T else 700, r, script=script, nf=(1, 4)), drv, CL)
    checks_files.run(ck, [one(r) for _ in range(8000 if T else 900)], drv)
    checks_aux.run(ck, r, [named(r) for _ in range(4000 if T else 400)], checks_aux.monitor())
    return ck.finish()
