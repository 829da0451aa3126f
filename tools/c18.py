#!/usr/bin/env python3
"""C18: runs the workloads of the other monitors under ThreadSanitizer and AddressSanitizer, and the
socket-free workload under Miri; the verdict is what the sanitizers report."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.environ.get("VERIF_ROOT", "/verif")
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(ROOT, "harness")
TRIPLE = "x86_64-unknown-linux-gnu"
T0 = time.time()

tier = os.environ.get("VERIF_TIER") or "quick"
seed = int(os.environ.get("VERIF_SEED") or 1)
args = sys.argv[1:]
while args:
    a = args.pop(0)
    if a == "--tier":
        tier = args.pop(0)
    elif a == "--seed":
        seed = int(args.pop(0))
    elif a == "--replay":
        v = json.load(open(args.pop(0)))
        seed, tier = int(v.get("seed", 1)), v.get("tier", "quick")
THOROUGH = tier == "thorough"

# (property whose workload runs, scale) -- those that serve concurrent requests first
WORK = [("C13", 1.0), ("C19", 1.0), ("C17", 0.6), ("C14", 0.6), ("C12", 0.3), ("C24", 0.3), ("C20", 0.3),
        ("C15", 0.4), ("C11", 0.2), ("C21", 0.3), ("C08", 0.3), ("C06", 0.3), ("C01", 0.1), ("C05", 0.1),
        ("C10", 0.1), ("C16", 0.2), ("interpreted", 1)]
ASAN = [("C12", 0.6), ("C13", 0.5), ("C19", 0.5), ("C17", 0.4), ("C20", 0.4), ("C11", 0.4), ("C15", 0.4),
        ("C08", 0.4), ("C09", 0.2), ("C06", 0.4), ("C21", 0.3), ("C01", 0.2), ("C04", 0.2), ("C07", 0.2),
        ("C10", 0.2), ("C22", 0.2), ("C16", 0.3), ("C24", 0.2), ("C14", 0.3), ("interpreted", 1)]
BUDGET = 90 if THOROUGH else 12
MULT = 12 if THOROUGH else 1
MIRI_RUNS, MIRI_SCALE = (8, 8) if THOROUGH else (4, 1)

work = tempfile.mkdtemp(prefix="verif-c18.")
for k in ("tsan", "asan"):
    os.makedirs(os.path.join(work, k, "evidence"))
findings = []      # (kind, title, text, command)
notes = []         # reports that do not involve the library
trouble = []       # parts that gave no verdict
stats = {"tsan": {}, "asan": {}, "miri": {}}
lock = threading.Lock()


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "MIRIFLAGS", "VERIF_SCALE", "VERIF_BUDGET"):
        e.pop(k, None)
    e.update({k: str(v) for k, v in kw.items()})
    return e


def build(name, flags, extra):
    tgt = os.path.join(HARNESS, "target-" + name)
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--target", TRIPLE] + extra, cwd=HARNESS,
                       env=env(RUSTFLAGS=flags, CARGO_TARGET_DIR=tgt), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        with lock:
            trouble.append(name + " build failed: " + r.stdout[-1500:])
        return None
    return os.path.join(tgt, TRIPLE, "debug", "verif-harness")


FRAME = re.compile(r"^\s*#\d+ (.*)$")
STD = ("/rustlib/src/rust/", "/rustc/", "/library/std/", "/library/core/", "/library/alloc/")
# containers and values: whoever uses them is who matters
DATA = re.compile(r"/(hashbrown|http|bytes|serde|serde_json|serde_core|url|form_urlencoded|percent-encoding|itoa|ryu|smallvec|indexmap|memchr|colored|lazy_static|once_cell|slab)-\d")


def owner(stack):
    """'library', 'harness' or 'other': who made this access."""
    for f in stack:
        m = re.search(r"\s(/[^\s:]+\.rs)(?::\d+)?", f)
        if m:
            p = m.group(1)
            if p.startswith(REPO + "/src/"):
                return "library"
            if p.startswith(HARNESS + "/src/alloc.rs") or any(s in p for s in STD) or DATA.search(p):
                continue
            if p.startswith(HARNESS + "/src/"):
                return "harness"
            return "other"
        if re.search(r"(^|[<\s])obsidian::", f.split(" /")[0]) and "tokio::" not in f.split("obsidian::")[0]:
            return "library"
    return "other"


def tsan_reports(text):
    for rep in re.split(r"^={10,}$", text, flags=re.M):
        m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", rep)
        if not m:
            if "ThreadSanitizer:DEADLYSIGNAL" in rep or "ThreadSanitizer: SEGV" in rep:
                yield "the process died", ["library"], rep
            continue
        kind = m.group(1)
        # paragraphs: the accesses come first
        stacks = []
        for para in re.split(r"\n\s*\n", rep):
            head = para.strip().split("\n")[0]
            fr = [FRAME.match(l).group(1) for l in para.split("\n") if FRAME.match(l)]
            if not fr:
                continue
            if "WARNING" in head or re.match(r"(Previous |)(atomic )?(read|write)|Previous|(Read|Write|Atomic)", head):
                stacks.append(fr)
        yield kind, [owner(s) for s in stacks[:2]], rep


def one(kind, exe, prop, scale):
    log = os.path.join(work, "%s-%s" % (kind, prop))
    opt = "log_path=%s:exitcode=0" % log
    e = dict(VERIF_ROOT=os.path.join(work, kind), VERIF_REPO=REPO, VERIF_SCALE=scale * MULT, VERIF_BUDGET=BUDGET, VERIF_SEED=seed, VERIF_TIER=tier, VERIF_UB_ABORT=1)
    if prop == "interpreted":
        e["VERIF_SCALE"] = 30000 if THOROUGH else 1500
    if kind == "tsan":
        e["TSAN_OPTIONS"] = opt + ":history_size=4:report_signal_unsafe=0"
    else:
        e["ASAN_OPTIONS"] = "log_path=%s:detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1" % log
    cmd = [exe, prop]
    t = time.time()
    try:
        r = subprocess.run(cmd, env=env(**e), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=max(200, BUDGET * 4), cwd=work)
        rc, out = r.returncode, r.stdout[-4000:] + r.stderr[-4000:]
    except subprocess.TimeoutExpired:
        rc, out = None, ""
    line = " ".join("%s=%s" % kv for kv in sorted(e.items())) + " " + " ".join(cmd)
    text = ""
    for f in sorted(os.listdir(work)):
        if f.startswith("%s-%s." % (kind, prop)):
            text += open(os.path.join(work, f), errors="replace").read()
    ev = {}
    p = os.path.join(work, kind, "evidence", prop + ".json")
    try:
        ev = json.load(open(p))["coverage"]
    except Exception:
        pass
    if prop == "interpreted":
        m = re.search(r"INTERPRETED (\d+) operations (\d+) paths", out)
        ev = {"evaluations": int(m.group(1)), "distinct_nontrivial": int(m.group(2))} if m else {}
        if rc == 0 and not m:
            with lock:
                trouble.append(kind + " interpreted: no result")
    st = {"seconds": round(time.time() - t, 1), "evaluations": ev.get("evaluations", 0), "distinct": ev.get("distinct_nontrivial", 0), "exit": rc}
    if kind == "tsan":
        n = 0
        for what, owners, rep in tsan_reports(text):
            n += 1
            with lock:
                if "library" in owners or "harness" in owners:
                    findings.append((kind, what, rep, line))
                else:
                    m = re.search(r"^SUMMARY: .*? in (.*)$", rep, re.M)
                    notes.append("%s in %s" % (what, m.group(1)[:80] if m else "?"))
        st["reports"] = n
    else:
        if "ERROR: AddressSanitizer" in text or rc == 77:
            with lock:
                m = re.search(r"ERROR: AddressSanitizer:? (.*)", text)
                findings.append((kind, m.group(1)[:120] if m else "report", text, line))
    if rc is None:
        with lock:
            trouble.append("%s %s did not end" % (kind, prop))
    elif rc < 0 and -rc in (4, 6, 7, 8, 11):
        with lock:
            findings.append((kind, "the process died on signal %d" % -rc, text or out, line))
    elif rc < 0:
        with lock:
            trouble.append("%s %s ended on signal %d" % (kind, prop, -rc))
    with lock:
        stats[kind][prop] = st


def sanitizer(kind, flags, extra, todo):
    exe = build(kind, flags, extra)
    if not exe:
        return
    for prop, scale in todo:
        if time.time() - T0 > (3000 if THOROUGH else 600):
            with lock:
                stats[kind]["_skipped_for_time"] = stats[kind].get("_skipped_for_time", []) + [prop]
            continue
        one(kind, exe, prop, scale)
        with lock:
            if any(f[0] == kind for f in findings):
                return


def miri():
    tgt = os.path.join(HARNESS, "target-miri")
    base = dict(CARGO_TARGET_DIR=tgt, XDG_CACHE_HOME=os.path.join(tgt, "cache"))
    runs = []
    total = 0
    for k in range(MIRI_RUNS):
        s = seed * 1000 + k
        e = env(MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=%d" % s + (" -Zmiri-tree-borrows" if k % 2 else ""), VERIF_SEED=s,
                VERIF_SCALE=MIRI_SCALE, **base)
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--", "interpreted"]
        f = open(os.path.join(work, "miri-%d" % k), "w+", errors="replace")
        p = subprocess.Popen(cmd, cwd=HARNESS, env=e, stdout=f, stderr=subprocess.STDOUT)
        runs.append((k, s, p, f))
        if k == 0:
            # builds for all of them
            t = time.time()
            while p.poll() is None and time.time() - t < 600:
                f.flush()
                if os.path.getsize(f.name) and "INTERPRETED" in open(f.name, errors="replace").read():
                    break
                if os.path.exists(os.path.join(tgt, "miri")) and time.time() - t > 5 and "Blocking" not in open(f.name, errors="replace").read():
                    break
                time.sleep(0.5)
    for k, s, p, f in runs:
        try:
            p.wait(timeout=(2400 if THOROUGH else 600))
        except subprocess.TimeoutExpired:
            p.kill()
            with lock:
                trouble.append("miri run %d did not end" % k)
            continue
        text = open(f.name, errors="replace").read()
        m = re.search(r"INTERPRETED (\d+) operations (\d+) paths", text)
        if re.search(r"error: Undefined Behavior|error: .*[Dd]ata race|error: deadlock|error: memory leaked", text):
            mm = re.search(r"error: (.*)", text)
            i = text.find(mm.group(0))
            with lock:
                findings.append(("miri", mm.group(1)[:160], text[max(0, i - 200):i + 6000], "seed %d" % s))
        elif p.returncode or not m:
            with lock:
                trouble.append("miri run %d: exit %s: %s" % (k, p.returncode, text[-800:]))
        else:
            with lock:
                stats["miri"]["seed %d" % s] = {"operations": int(m.group(1)), "paths": int(m.group(2)), "model": "tree borrows" if k % 2 else "stacked borrows"}


# cargo trusts timestamps: forget what was built from other content of the library
def fresh():
    import hashlib
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        ds.sort()
        for f in sorted(fs):
            h.update(os.path.join(d, f).encode() + b"\0" + open(os.path.join(d, f), "rb").read())
    for n in ("tsan", "asan", "miri"):
        tgt = os.path.join(HARNESS, "target-" + n)
        os.makedirs(tgt, exist_ok=True)
        mark = os.path.join(tgt, ".repo-sum")
        if not os.path.exists(mark) or open(mark).read() != h.hexdigest():
            for d, ds, _ in os.walk(tgt):
                if os.path.basename(d) == ".fingerprint":
                    for x in list(ds):
                        if x.startswith("obsidian-"):
                            shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                    ds[:] = []
            open(mark, "w").write(h.hexdigest())


def main():
    fresh()
    if os.environ.get("C18_BUILD_ONLY"):
        ts = [threading.Thread(target=build, args=("tsan", "-Zsanitizer=thread", ["-Zbuild-std"])),
              threading.Thread(target=build, args=("asan", "-Zsanitizer=address", []))]
    else:
        ts = [threading.Thread(target=sanitizer, args=("tsan", "-Zsanitizer=thread", ["-Zbuild-std"], WORK)),
              threading.Thread(target=sanitizer, args=("asan", "-Zsanitizer=address", [], ASAN)),
              threading.Thread(target=miri)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if os.environ.get("C18_BUILD_ONLY"):
        for t in trouble:
            print(t)
        return 0
    known = []
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            m = re.match(r"finding: property=C18 (.*)", l)
            if m:
                known.append(m.group(1).strip())
    except OSError:
        pass
    evals = sum(v["evaluations"] for k in ("tsan", "asan") for v in stats[k].values() if isinstance(v, dict))
    dist = sum(v["distinct"] for k in ("tsan", "asan") for v in stats[k].values() if isinstance(v, dict))
    ops = sum(v["operations"] for v in stats["miri"].values())
    seen = {}
    for n in notes:
        seen[n] = seen.get(n, 0) + 1
    ev = {
        "property": "C18", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals + ops,
            "distinct_nontrivial": dist,
            "rule": "the workloads of the other properties (concurrent, hostile, failing and abandoned requests; decoding; routing; static files) run with the library, its dependencies and the harness built under ThreadSanitizer (standard library included) and AddressSanitizer, and a socket-free workload over routing, dispatch, decoding and responses, single- and multi-threaded, under Miri (stacked and tree borrows, several schedules); an evaluation is one evaluation of such a workload under one sanitizer or one interpreted operation; non-trivial as in the workload's own property",
            "samples": [{"tsan": stats["tsan"].get("C13"), "asan": stats["asan"].get("C12"), "miri": stats["miri"]}],
            "thread_sanitizer": stats["tsan"], "address_sanitizer": stats["asan"], "miri": stats["miri"],
            "thread_sanitizer_reports_outside_the_library": seen,
            "parts_without_verdict": trouble,
        },
        "assumptions": ["ThreadSanitizer reports count when the access was made by the library or by handler code; reports with both accesses inside the async runtime or the HTTP implementation (which it cannot follow through the kernel's event queue and fences) are listed here but not counted",
                        "Miri does not run sockets: the serving loop itself is covered by the other two"],
        "wall_s": time.time() - T0, "violations": len(findings),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", "C18.json"), "w"), indent=1)
    for kind, what, text, cmd in findings:
        sig = "%s: %s" % (kind, what)
        if sig in known:
            print("KNOWN-FINDING: property=C18 " + sig)
            continue
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        p = os.path.join(ROOT, "replays", "C18-%d-%s.json" % (seed, kind))
        json.dump({"property": "C18", "seed": seed, "tier": tier, "kind": kind, "what": what, "command": cmd, "report": text[:20000],
                   "replay": "./check.sh C18 --replay " + p}, open(p, "w"), indent=1)
        print("C18: %s reports %s" % (kind, what))
        print("\n".join(l[:200] for l in text.strip().split("\n")[:25]))
        print("VIOLATION property=C18 replay=" + p)
        return 1
    done = [k for k in ("tsan", "asan") if len(stats[k]) >= 8]
    if trouble or len(done) < 2 or len(stats["miri"]) < MIRI_RUNS:
        print("NO VERDICT C18: " + "; ".join(t[:800] for t in trouble))
        return 3
    print("C18 held: %d evaluations under ThreadSanitizer and AddressSanitizer, %d operations under Miri, %.0f s; outside the library: %s"
          % (evals, ops, time.time() - T0, seen))
    return 0


try:
    rc = main()
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(rc)
