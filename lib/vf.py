"""Orchestration shared by the checks: build the driver from /repo's working
tree, run requests through it, hand the recorded events to TLC, report.

Nothing here decides a property: the verdict on every event is TLC's
(spec/ApiTrace.tla and the other trace specifications)."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"


def tidy(out):
    """TLC output without the parser's chatter"""
    skip = ("Parsing file", "Semantic processing", "Linting of", '"G ', '"CHUNK ')
    return "\n".join(l for l in out.splitlines() if not l.startswith(skip))


class Dead(Exception):
    """the process died before the first call: no behaviour of the specification begins like that"""


def died(returncode, err):
    return returncode in (-4, -6, -7, -8, -11, 97) or "ERROR: AddressSanitizer" in err or "runtime error:" in err


class CheckError(Exception):
    """the check itself could not be carried out"""


# ---------------------------------------------------------------- building
def tree_hash(extra=()):
    h = hashlib.sha256()
    for base in ("src", "include", "singleheader"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, base))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for e in extra:
        if os.path.isfile(e):
            with open(e, "rb") as fh:
                h.update(fh.read())
        else:
            h.update(e.encode())
    return h.hexdigest()[:24]


BUILD = os.path.join(VERIF, "build")
FLAGS = {
    "asan": ["g++", "-std=c++20", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "gcc-O0": ["g++", "-std=c++20", "-O0"],
    "gcc-O2": ["g++", "-std=c++20", "-O2", "-DNDEBUG"],
    "gcc-O3": ["g++", "-std=c++20", "-O3", "-march=native", "-DNDEBUG"],
    "clang-O0": ["clang++", "-std=c++20", "-O0"],
    "clang-O2": ["clang++", "-std=c++20", "-O2", "-DNDEBUG"],
    "gcc-O1": ["g++", "-std=c++20", "-O1"],
    "gcc-uchar": ["g++", "-std=c++20", "-O2", "-funsigned-char"],
    "clang-O3-17": ["clang++", "-std=c++23", "-O3", "-march=native", "-DNDEBUG"],
    "memcheck": ["g++", "-std=c++20", "-O1", "-g"],
    "clang-asan": ["clang++", "-std=c++20", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
}


def build(name, source, cmd, sources=None, deps=()):
    """compile once per content of the tree; returns the executable"""
    key = tree_hash([source, *deps, " ".join(cmd)])
    d = os.path.join(BUILD, name + "-" + key)
    exe = os.path.join(d, "exe")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in os.listdir(BUILD):  # keep the folder small
        p = os.path.join(BUILD, old)
        if old.startswith(name + "-") and time.time() - os.path.getmtime(p) > 3600:
            shutil.rmtree(p, ignore_errors=True)
    t = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    r = subprocess.run(cmd + [source] + (sources or []) + ["-o", os.path.join(t, "exe")],
                       capture_output=True, text=True, cwd=t)
    if r.returncode != 0:
        shutil.rmtree(t, ignore_errors=True)
        raise CheckError("cannot build %s:\n%s" % (name, r.stderr[-3000:]))
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)
    return exe


def build_driver(variant="asan", single=None, alone=False, inflate=False, simd=False):
    """single: folder of the amalgamated files; alone: ada_idna.cpp included by the driver itself"""
    src = os.path.join(VERIF, "harness", "driver.cpp")
    cmd = list(FLAGS[variant])
    if single:
        amal = [os.path.join(single, "ada_idna.cpp"), os.path.join(single, "ada_idna.h")]
        if alone:
            return build("driver-alone-" + variant, src, cmd + ["-DVERIF_ALONE", "-I" + single], [], deps=amal)
        return build("driver-single-" + variant, src, cmd + ["-DVERIF_SINGLE", "-I" + single], amal[:1], deps=amal)
    inc = ["-I" + os.path.join(REPO, "include")]
    if inflate:
        return build("driver-inflate-" + variant, src, cmd + ["-DVERIF_INFLATE", "-I" + os.path.join(REPO, "src")] + inc, [os.path.join(REPO, "src", "idna.cpp")])
    if simd:   # the configuration with the other transcoding library, a stand-in of which is in harness/simd
        sd = os.path.join(VERIF, "harness", "simd")
        return build("driver-simd-" + variant, src, cmd + ["-DADA_USE_SIMDUTF", "-I" + sd] + inc, [os.path.join(REPO, "src", "idna.cpp")], deps=[os.path.join(sd, "simdutf.h")])
    return build("driver-" + variant, src, cmd + inc, [os.path.join(REPO, "src", "idna.cpp")])


BE = os.path.join(VERIF, "harness", "be")
BEFLAGS = ["--target=mips-linux-gnu", "-march=mips32", "-mno-abicalls", "-fno-pic", "-msoft-float", "-G0", "-std=c++20", "-w", "-nostdinc++",
           "-isystem", os.path.join(BE, "inc"), "-isystem", "/usr/include/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu/c++/13",
           "-isystem", "/usr/include/x86_64-linux-gnu", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D__regparm__(n)=__unused__", "-U_FORTIFY_SOURCE",
           "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-fno-stack-protector", "-ffunction-sections"]


def build_machine(opt="-O2"):
    """the driver in front of the library compiled for a 32-bit big-endian machine
    (emulated by harness/be/machine.cpp); None, why: it needs more of a run-time
    than harness/be/guest.cpp has"""
    guest, script, mach = (os.path.join(BE, f) for f in ("guest.cpp", "guest.ld", "machine.cpp"))
    inc = ["-I" + os.path.join(REPO, "include")]
    key = tree_hash([guest, script, opt, " ".join(BEFLAGS)])
    d = os.path.join(BUILD, "guest%s-%s" % (opt, key))
    elf = os.path.join(d, "guest.elf")
    if not os.path.exists(elf):
        os.makedirs(BUILD, exist_ok=True)
        for old in os.listdir(BUILD):
            q = os.path.join(BUILD, old)
            if old.startswith("guest%s-" % opt) and time.time() - os.path.getmtime(q) > 3600:
                shutil.rmtree(q, ignore_errors=True)
        t = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        try:
            for cmd in (["clang++", *BEFLAGS, opt, *inc, "-c", os.path.join(REPO, "src", "idna.cpp"), "-o", "idna.o"],
                        ["clang++", *BEFLAGS, opt, "-fno-builtin", *inc, "-c", guest, "-o", "guest.o"],
                        ["ld.lld", "-m", "elf32btsmip", "-T", script, "--gc-sections", "-o", "guest.elf", "guest.o", "idna.o"]):
                r = subprocess.run(cmd, capture_output=True, text=True, cwd=t)
                if r.returncode != 0:
                    return None, r.stderr[-600:]
            try:
                os.rename(t, d)
            except OSError:
                pass
        finally:
            shutil.rmtree(t, ignore_errors=True)
    cmd = ["g++", "-std=c++20", "-O2", "-w", '-DVERIF_GUEST="%s"' % elf, *inc]
    return build("driver-machine" + opt, os.path.join(VERIF, "harness", "driver.cpp"), cmd, [mach], deps=[mach]), None


# ---------------------------------------------------------------- scratch
_scratch = []


def scratch(prefix="verif-"):
    d = tempfile.mkdtemp(prefix=prefix)
    _scratch.append(d)
    return d


def cleanup():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)
    _scratch.clear()


# ---------------------------------------------------------------- driving
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_string_checks=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"


def run_shard(exe, lines, base, limit_s=60.0, max_crashes=25, wrap=()):
    """run request lines through one driver process (restarted after a crash);
    events go to base.ev; a crash or hang becomes an event of its own"""
    req, ev, prog = base + ".req", base + ".ev", base + ".prog"
    with open(req, "w") as f:
        f.write("\n".join(lines) + "\n")
    open(ev, "w").close()
    skip, crashes = 0, []
    while True:
        with open(prog, "wb") as f:
            f.write(b"\0" * 4096)
        err = open(base + ".err", "wb")
        p = subprocess.Popen([*wrap, exe, req, ev, prog, str(skip)], stdout=subprocess.DEVNULL, stderr=err, env=ENV)
        last, since, hung = -1, time.time(), False
        while True:
            try:
                p.wait(timeout=0.25)
                break
            except subprocess.TimeoutExpired:
                with open(prog, "rb") as f:
                    cur = int.from_bytes(f.read(8), "little")
                if cur != last:
                    last, since = cur, time.time()
                elif time.time() - since > limit_s:
                    hung = True
                    p.kill()
                    p.wait()
                    break
        err.close()
        if p.returncode == 0 and not hung:
            return ev, crashes
        if p.returncode == 3 and not hung:
            raise CheckError("driver: " + open(base + ".err", errors="replace").read()[-500:])
        with open(prog, "rb") as f:
            cur = int.from_bytes(f.read(8), "little")
        outside = cur == 0 or cur > len(lines)
        if outside:
            # before main or after the last request: the library's own set-up or end; anything else is trouble of ours
            msg = open(base + ".err", errors="replace").read()
            if not (hung or died(p.returncode, msg)):
                raise CheckError("driver died outside a request: rc=%s %s" % (p.returncode, msg[-1500:]))
            cur = len(lines) if cur else next(i for i, x in enumerate(lines) if not x.startswith("0 ")) + 1
        # drop a partial last line
        with open(ev, "rb") as f:
            data = f.read()
        if data and not data.endswith(b"\n"):
            data = data[: data.rfind(b"\n") + 1]
        rid = lines[cur - 1].split(" ", 1)[0]
        what = "HANG" if hung else "CRASH"
        msg = open(base + ".err", errors="replace").read()
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|terminate called[^\n]*)", msg)
        crashes.append((rid, lines[cur - 1], what, m.group(1)[:300] if m else "rc=%s" % p.returncode))
        data += (json.dumps({"id": int(rid), "op": what}) + "\n").encode()
        with open(ev, "wb") as f:
            f.write(data)
        skip = cur
        if outside or len(crashes) >= max_crashes:
            return ev, crashes


def run_requests(exe, reqs, templates=(), shards=None, limit_s=60.0, ordered=False, wrap=()):
    """reqs: list of 'op args'; returns (dir, list of event files, request lines by id, crashes)"""
    d = scratch()
    lines = ["%d %s" % (i + 1, r) for i, r in enumerate(reqs)]
    tl = ["0 TPL %s %s" % t for t in templates]
    n = 1 if ordered else (shards or NCPU)
    n = max(1, min(n, (len(lines) + 31) // 32))
    parts = [lines[i::n] for i in range(n)]
    res, exc = [None] * n, []

    def work(i):
        try:
            res[i] = run_shard(exe, tl + parts[i], os.path.join(d, "s%d" % i), limit_s, wrap=wrap)
        except Exception as e:  # noqa
            exc.append(e)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if exc:
        raise exc[0]
    return d, [r[0] for r in res], lines, [c for r in res for c in r[1]]


# ---------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=None, args=(), timeout=840, heap="10g", workers=None, cwd=None):
    md = scratch("tlc-")
    e = dict(os.environ)
    e["SPEC_DATA"] = os.path.join(SPEC, "data")
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss128m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-metadir", md,
           "-noGenerateSpecTE", "-config", cfg or os.path.join(SPEC, module + ".cfg"), "-workers", str(workers or NCPU)]
    cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=cwd or md)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r


def states(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


class Tally:
    def __init__(self):
        self.events = self.std = self.built = self.mixed = self.no = 0
        self.branches = {}
        self.rejected = []   # (event dict, request line)
        self.deviating = []
        self.crashes = []
        self.tlc_states = self.tlc_trans = 0
        self.requests = 0
        self.samples = []

    def add(self, o):
        for k in ("events", "std", "built", "mixed", "no", "tlc_states", "tlc_trans", "requests"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.branches.items():
            self.branches[k] = self.branches.get(k, 0) + v
        self.rejected += o.rejected
        self.deviating += o.deviating
        self.crashes += o.crashes
        self.samples += o.samples


def parse_lines(out, tag):
    for l in out.splitlines():
        if l.startswith('"' + tag + " "):
            yield json.loads(json.loads(l)[len(tag) + 1:])


def validate(evfiles, lines=None, templates=(), branches=True, chunk=400, timeout=840):
    """TLC over the recorded events (spec/ApiTrace.tla)"""
    d = scratch("trace-")
    chunks = []
    for f in evfiles:
        with open(f) as fh:
            cur, size = [], 0
            for l in fh:
                cur.append(l)
                size += len(l)
                if len(cur) >= chunk or size > 400000:
                    chunks.append(cur)
                    cur, size = [], 0
            if cur:
                chunks.append(cur)
    if not chunks:
        raise CheckError("nothing was recorded")
    for i, c in enumerate(chunks):
        with open(os.path.join(d, "%d.ndjson" % (i + 1)), "w") as fh:
            fh.writelines(c)

    def cps(t):
        return [] if t == "-" else [int(x, 16) for x in t.split(",")]

    with open(os.path.join(d, "index.json"), "w") as fh:
        json.dump({"chunks": len(chunks), "templates": [[cps(a), cps(b)] for a, b in templates], "branches": branches}, fh)
    r = tlc("ApiTrace", env={"TRACE_DIR": d}, timeout=timeout)
    t = Tally()
    done = {}
    for c in parse_lines(r.stdout, "CHUNK"):
        done[c["k"]] = c
    if r.returncode != 0 or len(done) != len(chunks):
        raise CheckError("trace validation did not complete (rc %d, %d of %d chunks)\n%s" % (
            r.returncode, len(done), len(chunks), tidy(r.stdout)[-2500:] + r.stderr[-1000:]))
    for i, c in enumerate(chunks):
        k = done[i + 1]
        if k["n"] != len(c) or k["t"]["i"] != len(c):
            raise CheckError("chunk %d: %d of %d events consumed" % (i + 1, k["t"]["i"], len(c)))
        t.events += len(c)
        for f in ("std", "built", "mixed", "no"):
            setattr(t, f, getattr(t, f) + k["t"][f])
        for b, v in (k["t"]["br"] or {}).items():
            t.branches[b] = t.branches.get(b, 0) + v
    for m in re.finditer(r'<<\s*"EVENT",\s*"(\w+)",\s*(\d+),\s*(\d+)\s*>>', r.stdout):
        ev = json.loads(chunks[int(m.group(2)) - 1][int(m.group(3))])
        line = lines[ev["id"] - 1] if lines and 0 < ev["id"] <= len(lines) else None
        (t.rejected if m.group(1) == "no" else t.deviating).append((ev, line))
    t.tlc_trans, t.tlc_states = states(r.stdout)
    if len(t.rejected) != t.no:
        raise CheckError("rejections reported %d, counted %d" % (len(t.rejected), t.no))
    for i in {0, len(chunks) // 2, len(chunks) - 1}:
        ev = json.loads(chunks[i][len(chunks[i]) // 2])
        t.samples.append({"request": lines[ev["id"] - 1].split(" ", 1)[1][:300] if lines and 0 < ev["id"] <= len(lines) else None, "event": describe(ev)})
    shutil.rmtree(d, ignore_errors=True)
    return t


def conform(reqs, templates=(), variant="asan", exe=None, branches=True, ordered=False, limit_s=60.0, chunk=400, timeout=840, wrap=()):
    """drive, record, validate; a rejection counts only if a second run repeats it"""
    if exe is None:
        exe = build_driver(variant)

    def once():
        d, evs, lines, crashes = run_requests(exe, reqs, templates, ordered=ordered, limit_s=limit_s, wrap=wrap)
        t = validate(evs, lines, templates, branches, chunk, timeout)
        t.crashes = crashes
        t.requests = len(reqs)
        shutil.rmtree(d, ignore_errors=True)
        return t

    t = once()
    for attempt in range(3):
        if not t.rejected:
            return t
        u = once()
        ids = {ev["id"] for ev, _ in u.rejected}
        rep = [x for x in t.rejected if x[0]["id"] in ids]
        if rep:
            t.rejected = rep
            return t
        t = u
    return t


# ---------------------------------------------------------------- model checking
def model(module, cfg, env=None, workers=None, timeout=840, args=(), invariants=True, heap="10g"):
    """check a model; returns (stdout, generated, distinct).  A counterexample to
    the specification's own invariants is an error of the check."""
    r = tlc(module, cfg=cfg, env=env, workers=workers, timeout=timeout, args=args, heap=heap)
    if r.returncode != 0:
        raise CheckError("model %s fails (rc %d)\n%s" % (module, r.returncode, tidy(r.stdout)[-2500:]))
    g, d = states(r.stdout)
    return r.stdout, g, d


# ---------------------------------------------------------------- reporting
def write_evidence(prop, level, coverage, t0, violations, assumptions=()):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    e = {"property": prop, "tier": "thorough" if not QUICK else "quick", "seed": SEED, "level": level,
         "coverage": coverage, "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)


def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def describe(ev):
    s = json.dumps(ev)
    return s if len(s) < 400 else s[:400] + "..."


def enumerate_model(module, alphabet, contexts=((), ()), maxlen=3, emit=True, timeout=840):
    """exhaustive enumeration by TLC; returns (inputs, generated, distinct)"""
    d = scratch("gen-")
    if contexts and not isinstance(contexts[0][0:1], list) and contexts == ((), ()):
        contexts = [[[], []]]
    g = os.path.join(d, "gen.json")
    json.dump({"alphabet": [list(a) for a in alphabet], "contexts": [[list(a), list(b)] for a, b in contexts],
               "max": maxlen, "emit": emit}, open(g, "w"))
    out, gen_, dis = model(module, os.path.join(SPEC, module + ".cfg"), env={"GEN": g}, timeout=timeout)
    return list(parse_lines(out, "G")), gen_, dis


# ---------------------------------------------------------------- fault scenarios
def blob_bytes():
    """the embedded compressed data, read from the sources (b'' if they are not a byte list)"""
    best = b""
    for d in ("src", "include"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                if not f.endswith((".inc", ".cpp", ".hpp", ".h")):
                    continue
                t = open(os.path.join(root, f), errors="replace").read()
                if len(t) < 20000:
                    continue
                for m in re.finditer(r"\{([\s0-9a-fA-FxXuU,]{20000,})\}", t):
                    v = [x.strip().rstrip("uU") for x in m.group(1).split(",") if x.strip()]
                    try:
                        v = [int(x, 0) for x in v]
                    except ValueError:
                        continue
                    if all(0 <= x < 256 for x in v) and len(v) > len(best):
                        best = bytes(v)
    return best


def build_fault(variant):
    src = os.path.join(VERIF, "harness", "fault.cpp")
    return build("fault-" + variant, src, FLAGS[variant] + ["-I" + os.path.join(REPO, "include"), "-pthread", "-Wl,--wrap=malloc,--wrap=calloc"],
                 [os.path.join(REPO, "src", "idna.cpp")], deps=[os.path.join(VERIF, "harness", "calls.hpp")])


CALLS = os.path.join(VERIF, "harness", "calls.hpp")


def build_stress(variant="gcc-O2"):
    src = os.path.join(VERIF, "harness", "stress.cpp")
    return build("stress-" + variant, src, FLAGS[variant] + ["-I" + os.path.join(REPO, "include"), "-pthread"], [os.path.join(REPO, "src", "idna.cpp")], deps=[CALLS])


def build_phases(variant):
    src = os.path.join(VERIF, "harness", "phases.cpp")
    return build("phases-" + variant, src, FLAGS[variant] + ["-I" + os.path.join(REPO, "include"), "-pthread"], [os.path.join(REPO, "src", "idna.cpp")], deps=[CALLS])


def build_sched():
    """the library instrumented, on the scheduler of harness/sched.cpp"""
    src = os.path.join(VERIF, "harness", "sched.cpp")
    lib = ["clang++", "-std=c++20", "-O1", "-g", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-I" + os.path.join(REPO, "include"), "-c", os.path.join(REPO, "src", "idna.cpp"), "-o", "lib.o"]
    own = ["clang++", "-std=c++20", "-O1", "-g", "-w", "-I" + os.path.join(REPO, "include"), "-c", src, "-o", "sched.o"]
    link = ["clang++", "lib.o", "sched.o", "-pthread", "-rdynamic", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=free", "-ldl", "-o", "exe"]
    key = tree_hash([src, CALLS, " ".join(lib + own + link)])
    d = os.path.join(BUILD, "sched-" + key)
    exe = os.path.join(d, "exe")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in os.listdir(BUILD):
        q = os.path.join(BUILD, old)
        if old.startswith("sched-") and time.time() - os.path.getmtime(q) > 3600:
            shutil.rmtree(q, ignore_errors=True)
    t = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    for cmd in (lib, own, link):
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=t)
        if r.returncode != 0:
            shutil.rmtree(t, ignore_errors=True)
            raise CheckError("cannot build the schedule driver:\n%s" % r.stderr[-3000:])
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)
    return exe


def run_threads(exe, scs, limit_s=60, procs=None, wrap=()):
    """schedule or stress scenarios; returns event files, one JSON object per scenario"""
    d = scratch("threads-")
    k = max(1, min(procs or NCPU, (len(scs) + 15) // 16))
    res, exc = [], []

    def work(i):
        f = os.path.join(d, "%d.sc" % i)
        with open(f, "w") as h:
            for j in range(i, len(scs), k):
                h.write("%d %s\n" % (j + 1, scs[j]))
        r = subprocess.run([*wrap, exe, f, os.path.join(d, "%d.ev" % i), str(limit_s)], env=ENV, capture_output=True, text=True)
        if r.returncode != 0:
            ev = os.path.join(d, "%d.ev" % i)
            early = died(r.returncode, r.stderr) and not (os.path.exists(ev) and os.path.getsize(ev))
            exc.append((Dead if early else CheckError)("thread driver: rc %s %s" % (r.returncode, r.stderr[-800:])))
        res.append(os.path.join(d, "%d.ev" % i))
    ts = [threading.Thread(target=work, args=(i,)) for i in range(k)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if exc:
        raise exc[0]
    return res


def validate_threads(evfiles, chunk=60, timeout=840):
    """RaceTrace over recorded executions"""
    d = scratch("trace-")
    sc = []
    for f in evfiles:
        sc += open(f).read().splitlines()
    chunks = [sc[i:i + chunk] for i in range(0, len(sc), chunk)]
    for i, c in enumerate(chunks):
        open(os.path.join(d, "%d.ndjson" % (i + 1)), "w").write("\n".join(c) + "\n")
    json.dump({"chunks": len(chunks), "templates": [], "branches": False, "digest": ""}, open(os.path.join(d, "index.json"), "w"))
    r = tlc("RaceTrace", env={"TRACE_DIR": d}, timeout=timeout)
    done = {c["k"]: c for c in parse_lines(r.stdout, "CHUNK")}
    if r.returncode != 0 or len(done) != len(chunks):
        raise CheckError("trace validation did not complete (rc %d, %d of %d chunks)\n%s" % (r.returncode, len(done), len(chunks), tidy(r.stdout)[-2500:]))
    out = {"runs": 0, "events": 0, "classes": 0, "br": {}, "bad": []}
    no = 0
    for i, c in enumerate(chunks):
        t = done[i + 1]["t"]
        if t["i"] != len(c):
            raise CheckError("chunk %d not consumed" % (i + 1))
        out["runs"] += len(c)
        out["events"] += t["ev"]
        out["classes"] += t["cl"]
        no += t["no"]
        for b, v in (t["br"] or {}).items():
            out["br"][b] = out["br"].get(b, 0) + v
    for m_ in re.finditer(r'<<\s*"RUN",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', r.stdout):
        s = json.loads(chunks[int(m_.group(1)) - 1][int(m_.group(2))])
        out["bad"].append((s, m_.group(3)))
    if no != len(out["bad"]):
        raise CheckError("rejections do not add up")
    out["tr"], out["st"] = states(r.stdout)
    out["distinct"] = len({json.dumps([json.loads(x)["ops"], json.loads(x)["fault"]]) for x in sc})
    shutil.rmtree(d, ignore_errors=True)
    return out


def run_scenarios(exe, scs, blobfile, limit_s=60):
    """scs: 'fault thr | req | req' strings; returns event files, one JSON object per scenario"""
    d = scratch("fault-")
    k = max(1, min(NCPU, (len(scs) + 15) // 16))
    res = []
    exc = []

    def work(i):
        f = os.path.join(d, "%d.sc" % i)
        with open(f, "w") as h:
            for j in range(i, len(scs), k):
                h.write("%d %s\n" % (j + 1, scs[j]))
        r = subprocess.run([exe, f, os.path.join(d, "%d.ev" % i), blobfile, str(limit_s)], env=ENV, capture_output=True, text=True)
        if r.returncode != 0:
            ev = os.path.join(d, "%d.ev" % i)
            early = died(r.returncode, r.stderr) and not (os.path.exists(ev) and os.path.getsize(ev))
            exc.append((Dead if early else CheckError)("fault driver: rc %s %s" % (r.returncode, r.stderr[-800:])))
        m = re.search(r"copies (\d+)", r.stderr)
        res.append((os.path.join(d, "%d.ev" % i), int(m.group(1)) if m else 0))
    ts = [threading.Thread(target=work, args=(i,)) for i in range(k)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if exc:
        raise exc[0]
    return [r[0] for r in res], min(r[1] for r in res)


def validate_scenarios(evfiles, digest, chunk=120, timeout=840, module="FaultTrace", meta=None):
    d = scratch("trace-")
    sc = []
    for f in evfiles:
        sc += open(f).read().splitlines()
    chunks = [sc[i:i + chunk] for i in range(0, len(sc), chunk)]
    for i, c in enumerate(chunks):
        open(os.path.join(d, "%d.ndjson" % (i + 1)), "w").write("\n".join(c) + "\n")
    m = {"chunks": len(chunks), "templates": [], "branches": False, "digest": digest}
    m.update(meta or {})
    json.dump(m, open(os.path.join(d, "index.json"), "w"))
    r = tlc(module, env={"TRACE_DIR": d}, timeout=timeout)
    done = {c["k"]: c for c in parse_lines(r.stdout, "CHUNK")}
    if r.returncode != 0 or len(done) != len(chunks):
        raise CheckError("trace validation did not complete (rc %d, %d of %d chunks)\n%s" % (r.returncode, len(done), len(chunks), tidy(r.stdout)[-2500:]))
    out = {"scenarios": 0, "events": 0, "br": {}, "bad": [], "sample": None}
    for i, c in enumerate(chunks):
        t = done[i + 1]["t"]
        if t["i"] != len(c):
            raise CheckError("chunk %d not consumed" % (i + 1))
        out["scenarios"] += len(c)
        out["events"] += t["ev"]
        for b, v in (t["br"] or {}).items():
            out["br"][b] = out["br"].get(b, 0) + v
    for m_ in re.finditer(r'<<\s*"SCENARIO",\s*(\d+),\s*(\d+),\s*(\d+)\s*>>', r.stdout):
        s = json.loads(chunks[int(m_.group(1)) - 1][int(m_.group(2))])
        out["bad"].append((s, int(m_.group(3))))
    out["where"] = [w for w in parse_lines(r.stdout, "WHERE")]
    out["tr"], out["st"] = states(r.stdout)
    if sum(v for b, v in out["br"].items() if b.endswith(":no")) != len(out["bad"]):
        raise CheckError("rejections do not add up")
    shutil.rmtree(d, ignore_errors=True)
    return out
