"""Building, observing the implementation, running TLC on the observations."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


def rmtree(path):
    shutil.rmtree(path, ignore_errors=True)


def env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("LOUIS_TABLE_PATH", "RUST_LOG", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def _cargo(dir_, args, flags):
    e = env()
    if flags:
        e["RUSTFLAGS"] = flags
    return subprocess.run(["cargo", "build", "--offline", "-q"] + args, cwd=dir_, env=e,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build():
    """The harness from /repo's working tree; with the trace hook if the tree still has it."""
    for flags in ("--cfg louis_verif", "--cfg louis_verif --cfg louis_no_share", "--cfg louis_no_hook",
                  "--cfg louis_no_hook --cfg louis_no_share"):
        p = _cargo(os.path.join(ROOT, "harness"), [], flags)
        if p.returncode == 0:
            return os.path.join(TARGET, "debug", "louis-harness"), "no_hook" not in flags
    raise ToolError("the harness does not build:\n" + p.stdout[-3000:])


def build_cli():
    e = env()
    p = subprocess.run(["cargo", "build", "--offline", "-q", "--bin", "louis", "--manifest-path", "/repo/Cargo.toml",
                        "--target-dir", os.path.join(TARGET, "cli")], env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("the louis program does not build:\n" + p.stdout[-3000:])
    return os.path.join(TARGET, "cli", "debug", "louis")


def observe(binary, jobs, work, limit=20):
    """Run the jobs; fill job['obs'].  Crashes and hangs are observations too."""
    by_id = {j["id"]: j for j in jobs}
    for j in jobs:
        for name, content in j.get("files", {}).items():
            os.makedirs(os.path.join(work, os.path.dirname(name)), exist_ok=True)
            with open(os.path.join(work, name), "wb") as f:
                f.write(content if isinstance(content, bytes) else content.encode())
    todo = list(jobs)
    rounds = 0
    while todo:
        rounds += 1
        if rounds > 40:
            raise ToolError("too many restarts of the harness")
        src = os.path.join(work, "jobs.ndjson")
        dst = os.path.join(work, "obs.ndjson")
        with open(src, "w") as f:
            for j in todo:
                f.write(json.dumps({k: j[k] for k in ("id", "src", "tables", "copies", "trace", "runs", "srcs", "hist") if k in j}) + "\n")
        e = env()
        e["LOUIS_HARNESS_LIMIT"] = str(limit)
        e["LOUIS_TABLE_PATH"] = work
        e["RUST_BACKTRACE"] = "0"
        cmd = "ulimit -v 8000000; exec %s %s %s" % (binary, src, dst)
        if rounds > 1:
            cmd += " serial"
        p = subprocess.run(["bash", "-c", cmd], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
        seen = set()
        hang = None
        if os.path.exists(dst):
            for line in open(dst):
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                if "hang" in o:
                    hang = (o["id"], o["hang"])
                    continue
                by_id[o["id"]]["obs"] = o["obs"]
                seen.add(o["id"])
            os.remove(dst)
        rest = [j for j in todo if j["id"] not in seen]
        if p.returncode == 0 and not rest:
            return
        if hang is None:
            at = [l for l in p.stderr.splitlines() if l.startswith("AT ")]
            if rounds == 1:
                todo = rest          # find the culprit one by one
                continue
            if not at:
                raise ToolError("the harness fails (%d): %s" % (p.returncode, p.stderr[-500:]))
            _, i, r = at[-1].split()
            bad = (int(i), int(r), "crash")
        else:
            bad = hang + ("hang",)
        j = by_id[bad[0]]
        # observe the other runs without this one
        n = len(j["runs"])
        j["obs"] = [{"t": "skipped"} for _ in range(n)]
        j["obs"][bad[1]] = {"t": bad[2]}
        todo = [x for x in rest if x["id"] != bad[0]]


def tlc(spec, cfg, extra_env, work, workers=1, heap="2500m", timeout=800, args=()):
    meta = tempfile.mkdtemp(dir=work)
    e = env()
    e.update(extra_env)
    cmd = ["java", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m",
           "-XX:CICompilerCount=2", "-Djava.io.tmpdir=" + meta,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-config", os.path.join(SPEC, cfg)]
    cmd += ["-noGenerateSpecTE"] + list(args) + [os.path.join(SPEC, spec)]
    try:
        p = subprocess.run(cmd, env=e, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf-8", "replace") if isinstance(x.stdout, bytes) else x.stdout or ""
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


MM = re.compile(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),\s*"([a-z]+)",\s*(.*)>>$', re.S)


def mismatches(out):
    """The MISMATCH tuples TLC printed (it wraps long values over several lines)."""
    res = []
    at = 0
    for m in re.finditer(r'<<\s*"MISMATCH"', out):
        if m.start() < at:
            continue
        depth, k = 0, m.start()
        while True:
            if out.startswith("<<", k):
                depth += 1
                k += 2
            elif out.startswith(">>", k):
                depth -= 1
                k += 2
                if depth == 0:
                    break
            else:
                k += 1
                if k >= len(out):
                    raise ToolError("truncated output of TLC")
        at = k
        g = MM.match(out[m.start():k])
        res.append((int(g.group(1)), int(g.group(2)) - 1, g.group(3), " ".join(g.group(4).split())))
    return res


def shard(cases, n):
    """Balance by the expected number of states."""
    w = sorted(cases, key=lambda c: -c["cost"])
    bins = [[0, []] for _ in range(n)]
    for c in w:
        b = min(bins, key=lambda b: b[0])
        b[0] += c["cost"]
        b[1].append(c)
    return [b[1] for b in bins if b[1]]


def rows_of(r):
    return 3 + len(r["inp"]) + sum(len(s[1]) for s in r.get("obs", {}).get("tr") or ())


def conform(cases, work, spec="LouisRun.tla", cfg="LouisRun.cfg", timeout=500):
    """cases: [{id, rules, hy, runs (with obs)}].  Returns stats and mismatches [(id, run, what, detail)]."""
    for c in cases:
        c["cost"] = 20 + len(c["rules"]) * 2 + sum(rows_of(r) for r in c["runs"]) * (5 + len(c["rules"]))
    return shards(cases, ("id", "rules", "hy", "runs"), work, spec, cfg, timeout)


UNFINISHED = []      # the parts given up


def shards(cases, fields, work, spec, cfg, timeout=500):
    """Run a specification over the cases on all cores.  A part that takes too long is given up: what it found counts, and
    the evidence says how many were."""
    parts = shard(cases, CORES)
    stats = {"states": 0, "transitions": 0}
    bad = []

    def one(i):
        path = os.path.join(work, "cases%d.ndjson" % i)
        with open(path, "w") as f:
            for c in parts[i]:
                f.write(json.dumps({k: c[k] for k in fields}) + "\n")
        rc, out = tlc(spec, cfg, {"LOUIS_CASES": path}, work, timeout=timeout)
        return rc, out

    with ThreadPoolExecutor(len(parts)) as ex:
        for i, (rc, out) in enumerate(ex.map(one, range(len(parts)))):
            if rc is None:
                UNFINISHED.append(spec)
                bad += mismatches(out)
                continue
            m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
            if rc != 0 or not m:
                open(os.path.join(work, "tlc%d.log" % i), "w").write(out)
                keep = os.path.join(tempfile.gettempdir(), "louis-tlc-error.log")
                open(keep, "w").write(out)
                shutil.copy(os.path.join(work, "cases%d.ndjson" % i), keep + ".cases")
                raise ToolError("TLC fails (%d), see %s:\n%s" % (rc, keep, "\n".join(
                    l for l in out.splitlines() if "Semantic" not in l and "Parsing" not in l and "Linting" not in l)[-2500:]))
            stats["transitions"] += int(m.group(1))
            stats["states"] += int(m.group(2))
            bad += mismatches(out)
    return stats, bad
