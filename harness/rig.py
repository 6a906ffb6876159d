"""Common machinery: building the C monitor, running the real C2PO command line, running TLC,
writing evidence, known findings.  Only the standard library is used."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, random, traceback
from multiprocessing import Process, Pipe

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
NCPU = 8

os.environ["PATH"] = "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["LANG"] = os.environ["LC_ALL"] = "C.UTF-8"
for _v in ("PYTHONPATH", "PYTHONUNBUFFERED", "CFLAGS", "LDFLAGS"):
    os.environ.pop(_v, None)
sys.dont_write_bytecode = True


class MachineryError(Exception):
    """The check could not do its work (never used for a property violation)."""


# ------------------------------------------------------------------ scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = None
        _scratch = tempfile.mkdtemp(prefix="r2verif.", dir=base)
    return _scratch


def cleanup():
    global _scratch
    if _scratch and os.path.isdir(_scratch):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


# ------------------------------------------------------------------ C monitor
def c_sources():
    src = os.path.join(REPO, "monitors/c/src")
    lib, inc = [], set([src])
    for d, _, fs in os.walk(src):
        inc.add(d)
        for f in sorted(fs):
            if f.endswith(".c"):
                lib.append(os.path.join(d, f))
    main = os.path.join(src, "cli/main.c")
    return [x for x in lib if x != main], main, sorted(inc)


def build_monitor(name="mon", defs=(), bounds=None, cli=True, opt="-O1", extra=(), driver=True):
    """Build the driver (and the r2u2 CLI) from the working tree of REPO into scratch.
    `bounds` is an optional bounds.h that replaces the tree's own."""
    out = os.path.join(scratch(), name)
    os.makedirs(out, exist_ok=True)
    libsrc, main, inc = c_sources()
    if bounds is not None:
        cp = os.path.join(out, "src")
        shutil.copytree(os.path.join(REPO, "monitors/c/src"), cp)
        shutil.copy(bounds, os.path.join(cp, "internals/bounds.h"))
        root = os.path.join(REPO, "monitors/c/src")
        libsrc = [x.replace(root, cp) for x in libsrc]
        main = main.replace(root, cp)
        inc = [x.replace(root, cp) for x in inc]
    base = ["gcc", "-std=gnu99", opt, "-w", "-D_POSIX_C_SOURCE=200809L"] + ["-D" + d for d in defs] \
        + list(extra) + ["-I" + i for i in inc]
    jobs = [(base + libsrc + [os.path.join(HARN, "driver.c"), "-lm", "-o", os.path.join(out, "driver")])] if driver else []
    if cli:
        jobs.append(["gcc", "-std=c99", opt, "-w", "-D_POSIX_C_SOURCE=200112L"] + ["-D" + d for d in defs]
                    + list(extra) + ["-I" + i for i in inc] + libsrc + [main, "-lm", "-o", os.path.join(out, "r2u2")])
    ps = [subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for j in jobs]
    for p in ps:
        o, _ = p.communicate()
        if p.returncode != 0:
            raise MachineryError("C monitor does not build: " + o[-2000:])
    return os.path.join(out, "driver"), os.path.join(out, "r2u2")


def big_bounds(factor=16):
    """the tree's bounds.h with larger limits (the limits are not what is being checked)"""
    t = open(os.path.join(REPO, "monitors/c/src/internals/bounds.h")).read()
    t = re.sub(r"(#define R2U2_(?:AUX_)?MAX_\w+\s+)(\d+)", lambda m: m.group(1) + str(int(m.group(2)) * factor), t)
    fn = os.path.join(scratch(), "bounds.big.h")
    with open(fn, "w") as f:
        f.write(t)
    return fn


def session_text(cmds):
    return "S\n" + "\n".join(cmds) + "\nE\n"


def run_sessions(driver, sessions, limit=20):
    """sessions: list of lists of driver commands.  Returns per session
    {"end": "ok"|"died N", "ev": [("load",k,status)|("step",k,[lines])]}"""
    chunks = [sessions[i::NCPU] for i in range(NCPU)]
    procs = []
    for i, ch in enumerate(chunks):
        if not ch:
            continue
        fn = os.path.join(scratch(), "sess.%d.%d" % (os.getpid(), i))
        with open(fn, "w") as f:
            for s in ch:
                f.write(session_text(s))
        fo = open(fn + ".out", "w+b")
        procs.append((i, fn, fo, subprocess.Popen([driver, str(limit)], stdin=open(fn), stdout=fo,
                                                  stderr=subprocess.DEVNULL)))
    res = [None] * len(sessions)
    for i, fn, fo, p in procs:
        p.wait()
        fo.seek(0)
        got = parse_sessions(fo.read().decode("latin-1"))
        fo.close()
        os.unlink(fn)
        os.unlink(fn + ".out")
        if len(got) != len(chunks[i]):
            raise MachineryError("driver answered %d of %d sessions" % (len(got), len(chunks[i])))
        for j, g in enumerate(got):
            res[i + j * NCPU] = g
    return res


def parse_sessions(text):
    out, ev, cur = [], [], None
    for ln in text.split("\n"):
        if ln.startswith("=ok") or ln.startswith("=died"):
            if ln.startswith("=died") and cur is not None:
                del cur[300:]       # it may have been printing without end
            out.append({"end": ln[1:], "ev": ev})
            ev, cur = [], None
        elif ln.startswith("@"):
            cur = []
            ev.append(("step", int(ln[1:]), cur))
        elif ln.startswith("!load"):
            p = ln.split()
            ev.append(("load", int(p[1]), p[2]))
            cur = None
        elif ln == "":
            continue
        elif cur is not None:
            cur.append(ln)
    return out


# ------------------------------------------------------------------ C2PO (real command line, forked)
def _c2po_child(argv, cwd, outf, errf, merge=False):
    import io, resource, runpy
    os.chdir(cwd)
    fo = os.open(outf, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    fe = os.open(errf, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    fi = os.open("/dev/null", os.O_RDONLY)
    os.dup2(fo, 1); os.dup2(fe, 2); os.dup2(fi, 0)
    sys.stdout = os.fdopen(1, "w", closefd=False)
    sys.stderr = os.fdopen(2, "w", closefd=False)
    if merge:       # one stream, in order
        os.dup2(1, 2)
        sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", 0, closefd=False), write_through=True)
        sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", 0, closefd=False), write_through=True)
    sys.argv = [os.path.join(REPO, "compiler/c2po.py")] + argv
    code = 0
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
    try:
        runpy.run_path(sys.argv[0], run_name="__main__")
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException:
        traceback.print_exc()
        code = 99
    try:
        sys.stdout.flush(); sys.stderr.flush()
    finally:
        os._exit(code & 0xFF)


def run_c2po(argv, cwd, timeout=60, tag="c2po", merge=False):
    """Run `python3 c2po.py argv` in a forked child of this process (modules are already imported
    when `import_c2po` was called).  Exit code 99 + traceback = uncaught exception; -9 = timeout."""
    outf, errf = os.path.join(cwd, "." + tag + ".out"), os.path.join(cwd, "." + tag + ".err")
    pid = os.fork()
    if pid == 0:
        os.setsid()
        _c2po_child(argv, cwd, outf, errf, merge)
    end = time.time() + timeout
    nap = 0.0005
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() > end:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            st = None
            break
        time.sleep(nap)
        nap = min(nap * 1.3, 0.01)
    code = -9 if st is None else (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st))
    with open(outf, errors="replace") as f:
        o = f.read()
    with open(errf, errors="replace") as f:
        e = f.read()
    return code, o, e


def import_c2po():
    p = os.path.join(REPO, "compiler")
    if p not in sys.path:
        sys.path.insert(0, p)
    import c2po.main  # noqa: F401  (pre-import so that forked children start fast)
    import runpy  # noqa: F401


def _worker(conn, fn, initfn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if initfn:
        initfn()
    while True:
        try:
            item = conn.recv()
        except EOFError:
            os._exit(0)
        if item is None:
            os._exit(0)
        try:
            conn.send(("ok", fn(item)))
        except BaseException:
            conn.send(("err", traceback.format_exc()))


def pmap(fn, items, initfn=None, n=NCPU):
    """Parallel map in forked single-threaded workers (so they may fork again)."""
    items = list(items)
    n = max(1, min(n, len(items)))
    ws = []
    for _ in range(n):
        a, b = Pipe()
        p = Process(target=_worker, args=(b, fn, initfn))
        p.start()
        b.close()
        ws.append((p, a))
    from multiprocessing.connection import wait
    res = [None] * len(items)
    nxt = 0
    busy = {}
    for p, a in ws:
        if nxt < len(items):
            a.send(items[nxt]); busy[a] = nxt; nxt += 1
    try:
        while busy:
            for a in wait(list(busy)):
                try:
                    k, v = a.recv()
                except EOFError:
                    raise MachineryError("worker died")
                i = busy.pop(a)
                if k == "err":
                    raise MachineryError(v)
                res[i] = v
                if nxt < len(items):
                    a.send(items[nxt]); busy[a] = nxt; nxt += 1
    finally:
        for p, a in ws:
            try:
                a.send(None)
            except Exception:
                pass
            a.close()
        for p, a in ws:
            p.join(2)
            if p.is_alive():
                p.kill()
    return res


def _proc(job):
    import resource

    def limits():
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 22, 1 << 22))
        if not job.get("asan"):         # AddressSanitizer reserves far more than it uses
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    fo, fe = os.path.join(job["cwd"], ".proc.out"), os.path.join(job["cwd"], ".proc.err")
    with open(fo, "wb") as o, open(fe, "wb") as e, open(job.get("stdin") or "/dev/null", "rb") as i:
        p = subprocess.Popen(job["argv"], cwd=job["cwd"], stdin=i, stdout=o, stderr=e, preexec_fn=limits)
        try:
            rc = p.wait(job.get("timeout", 20))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -9
    with open(fo, errors="replace") as f, open(fe, errors="replace") as g:
        return {"rc": rc, "out": f.read(300000), "err": g.read(20000)}


def run_procs(jobs):
    """jobs: dict(argv, cwd, stdin=file or None, timeout) -> list of dict(rc, out)"""
    return pmap(_proc, jobs)


# ------------------------------------------------------------------ TLC
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


def tlc_classpath():
    d = "/opt/veriftools/tla"
    jars = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar")]
    return ":".join(jars)


def run_tlc(module, cfg, env=None, workers=1, timeout=800, extra=(), heap="2g", tag=None, props=()):
    """Run TLC on spec/module.tla with cfg text.  Returns dict(out, rc, states, distinct)."""
    d = tempfile.mkdtemp(prefix="tlc.", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           *props, "-cp", tlc_classpath(), "tlc2.TLC", "-config", "run.cfg", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-deadlock", *extra, module + ".tla"]
    p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        rc = -9
    shutil.rmtree(d, ignore_errors=True)
    m = None
    for m in re.finditer(r"([\d,]+) states generated(?:[^\n]*?), ([\d,]+) distinct", o):
        pass
    st = int(m.group(1).replace(",", "")) if m else 0
    di = int(m.group(2).replace(",", "")) if m else 0
    return {"out": o, "rc": rc, "states": st, "distinct": di, "cmd": " ".join(cmd)}


def tlc_printed(out, key):
    """Values printed by PrintT(<<key, ToJson(record)>>) or <<key, "text">>."""
    res = []
    for m in re.finditer(r'^<<"%s", "((?:[^"\\]|\\.)*)">>$' % re.escape(key), out, re.M):
        s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
        res.append(s)
    return res


def judge(module, records, consts="", shards=NCPU, timeout=800, heap="3g", spec="Spec"):
    """Validate recorded executions against the trace specification `module`.

    The records go to TLC as JSON; the trace specification steps through them, prints
    <<"BAD", json>> for each record (or event) it rejects, naming the failing clause, and
    <<"DONE", n>> when every record has been consumed.  Returns (bad, states, distinct)."""
    if not records:
        return [], 0, 0
    shards = max(1, min(shards, len(records)))
    jobs = []
    for i in range(shards):
        part = records[i::shards]
        fn = os.path.join(scratch(), "rec.%s.%d.%d.json" % (module, os.getpid(), i))
        with open(fn, "w") as f:
            json.dump(part, f)
        jobs.append((fn, len(part)))
    import threading
    outs = [None] * shards

    def go(i):
        cfg = "SPECIFICATION " + spec + "\nCHECK_DEADLOCK FALSE\n" + consts
        outs[i] = run_tlc(module, cfg, env={"RECORDS": jobs[i][0]}, timeout=timeout, heap=heap)
    ths = [threading.Thread(target=go, args=(i,)) for i in range(shards)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    bad, st, di = [], 0, 0
    for i, r in enumerate(outs):
        os.unlink(jobs[i][0])
        done = re.findall(r'^<<"DONE", (\d+)>>$', r["out"], re.M)
        if r["rc"] != 0 or len(done) != 1 or int(done[0]) != jobs[i][1]:
            raise MachineryError("TLC did not consume the records of %s (rc %s): %s" % (module, r["rc"], r["out"][-3000:]))
        st += r["states"]
        di += r["distinct"]
        bad += [json.loads(x) for x in tlc_printed(r["out"], "BAD")]
    return bad, st, di
