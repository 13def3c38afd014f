#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution (Kani/CBMC) of /repo's current code.

usage: run.py <property-id> [--tier quick|thorough] [--only SUBSTR] [--jobs N]
       run.py --replay <file>        re-run a stored counterexample natively

exit 0: every proof obligation discharged and every reachability witness satisfied
exit 1: a counterexample was found AND reproduced against the native build
        (prints `VIOLATION property=<id> replay=<path>`)
exit 2: no answer (build error, solver limit, model bound, counterexample that does
        not reproduce)
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, threading, time

FW = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(FW)
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(ROOT, ".work")
EVID = os.path.join(ROOT, "evidence")
T0 = time.time()
BUDGET = {"quick": int(os.environ.get("VERIF_BUDGET", "860")), "thorough": 6 * 3600}

sys.path.insert(0, FW)
import checks  # noqa: E402


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


PROCS = set()


def spawn(cmd, **kw):
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    PROCS.add(p)
    return p


def end(p):
    """End p and everything in its session (the solver runs in a process group of its own)."""
    subprocess.run(["pkill", "-9", "-s", str(p.pid)], stderr=subprocess.DEVNULL)
    p.wait()


def bury(*_):
    for p in list(PROCS):
        if p.poll() is None:
            end(p)
    os._exit(2)


signal.signal(signal.SIGTERM, bury)
signal.signal(signal.SIGINT, bury)


def env(target):
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTFLAGS", None)
    return e


def native_env(target):
    e = env(target)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    return e


def run(cmd, cwd, e, timeout, out):
    """Run cmd in its own process group; returns rc or None on timeout."""
    with open(out, "ab") as f:
        p = spawn(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)
        try:
            return p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            end(p)
            return None


def mods_source(job, wdir):
    """The module list of a job; generated modules are written next to the crate."""
    out = []
    for m in job["mods"]:
        gen = checks.GENERATED.get(m)
        if gen:
            path = os.path.join(wdir, "src", m + ".rs")
            with open(path, "w") as f:
                f.write(gen(REPO))
        else:
            path = os.path.join(FW, "props", m + ".rs")
        out.append('#[path = "%s"]\npub mod %s;\n' % (path, m))
    for m in job.get("with", []):
        out.append('#[path = "%s/props/%s.rs"]\npub mod %s;\n' % (FW, m, m))
    return "".join(out)


def library(job, wdir, mode):
    """The crate under test: /repo's, or for the network part in the model a copy of its current source in
    which std's sets, locks, shared pointers and I/O errors are those of shims/coll (std's are out of the solver's reach)
    and awaiting runs the awaited future to its end on the stack (coll::AtOnce)."""
    if not job.get("net") or mode != "kani":
        return os.path.join(REPO, "radius")
    dst = os.path.join(wdir, "radius-src")
    shutil.copytree(os.path.join(REPO, "radius"), dst)
    for d, _, fs in os.walk(os.path.join(dst, "src")):
        for f in fs:
            if f.endswith(".rs"):
                path = os.path.join(d, f)
                s = open(path).read()
                if path.endswith(("server.rs", "client.rs")):
                    for a, b in (("std::collections", "coll"), ("std::sync", "coll::sync"), ("std::io", "coll::io")):
                        s = s.replace(a, b)
                    s = re.sub(r"\.\s*await\b", ".at_once()", s)
                    s = re.sub(r"(?m)^use ", "use coll::AtOnce as _;\nuse ", s, count=1)
                    with open(path, "w") as w:
                        w.write(s)
    path = os.path.join(dst, "Cargo.toml")
    s = open(path).read()
    with open(path, "w") as w:
        w.write(s.replace("[dependencies]\n", '[dependencies]\ncoll = { path = "%s/shims/coll" }\n' % FW, 1))
    return dst


def write_crate(job, wdir, mode):
    """mode: kani | real (native, real hash) | model (native, hash values of the solver)"""
    native = mode != "kani"
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(os.path.join(wdir, "src"))
    feat = job["feature"]
    name = "replay" if native else "h"
    toml = ['[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n' % name,
            '[dependencies]\n',
            'radius = { path = "%s", default-features = false, features = ["%s"] }\n' % (library(job, wdir, mode), feat),
            'chrono = "0.4"\nrand = "0.8"\n']
    patch = ['rand = { path = "%s/shims/rand" }\n' % FW]
    if mode == "real":
        toml.append('md5 = "0.7"\n')
    else:
        toml.append('uf = { path = "%s/shims/uf"%s }\n' % (FW, ', features = ["%s"]' % job["uf"] if job.get("uf") else ""))
        if feat == "md5":
            patch.append('md5 = { path = "%s/shims/md5" }\n' % FW)
        else:
            toml.append('openssl = "0.10"\n')
            patch.append('openssl = { path = "%s/shims/openssl" }\n' % FW)
    if job.get("net"):
        toml.append('tokio = { version = "1", features = ["full"] }\nasync-trait = "0.1"\n')
        patch.append('tokio = { path = "%s/shims/tokio" }\n' % FW)
    toml.append('[features]\ndefault = ["%s"%s]\nf_md5 = []\nf_openssl = []\nmodelhash = []\n' % ("f_" + feat, ', "modelhash"' if mode == "model" else ""))
    toml.append("[patch.crates-io]\n" + "".join(patch))
    toml.append("[workspace]\n")
    toml.append('[profile.dev]\ndebug = 0\n[profile.release]\ndebug = 0\n' if native else "")
    # unused patches are only warnings
    with open(os.path.join(wdir, "Cargo.toml"), "w") as f:
        f.write("".join(toml))
    head = "".join("#![feature(%s)]\n" % f for f in job.get("nightly", []) if not native)
    head += ("#![allow(unused)]\nextern crate alloc;\n#[macro_use]\n#[path = \"%s/props/nd.rs\"]\npub mod nd;\n" % FW)
    body = head + mods_source(job, wdir)
    if native:
        arms = "".join('    for (n, f) in %s::table() { if name == format!("%s::{}", n) { f(); println!("REPLAY-DONE"); return; } }\n' % (m, m) for m in job["mods"])
        body += ('fn main() {\n    let a: Vec<String> = std::env::args().collect();\n    let name = a[1].clone();\n'
                 '    let hex = &a[2];\n    let mut tape = Vec::new();\n    let mut i = 0;\n'
                 '    while i + 1 < hex.len() { tape.push(u8::from_str_radix(&hex[i..i + 2], 16).unwrap()); i += 2; }\n'
                 '    nd::load(tape);\n' + ('    unsafe { uf::SOURCE = Some(nd::byte); }\n' if mode == "model" else '') + arms + '    std::process::exit(79);\n}\n')
        with open(os.path.join(wdir, "src", "main.rs"), "w") as f:
            f.write(body)
    else:
        with open(os.path.join(wdir, "src", "lib.rs"), "w") as f:
            f.write(body)
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(wdir, "Cargo.lock"))


KANI = ["cargo", "kani", "-Z", "unstable-options", "-Z", "stubbing",
        "--no-memory-safety-checks", "--no-assertion-reach-checks"]

BENIGN = [  # not evidence about the property: limits of the model
    ("MODEL-BOUND", "model bound"),
    ("unwinding assertion", "unwind"),
    ("recursion unwinding assertion", "unwind"),
    ("is not currently supported by Kani", "unsupported"),
    ("unsupported", "unsupported"),
    ("max allocation size exceeded", "alloc"),
    ("KANI_UNSUPPORTED", "unsupported"),
]


def classify(chk):
    d = chk.get("description", "")
    for pat, cls in BENIGN:
        if pat in d:
            return cls
    if chk.get("category") in ("unwind", "unsupported_construct"):
        return "unwind" if chk["category"] == "unwind" else "unsupported"
    return "property"


def kani(job, wdir, target, tier_filters, jobs, timeout, extra=(), tag="run"):
    js = os.path.join(wdir, tag + ".json")
    if os.path.exists(js):
        os.remove(js)
    cmd = KANI + ["--export-json", js]
    for h in tier_filters:
        cmd += [h] if h.startswith("--") else ["--harness", h]
    if jobs > 1:
        cmd += ["-j", str(jobs), "--output-format", "terse"]
    if job.get("net") or job.get("restrict"):
        cmd += ["-Z", "restrict-vtable"]
    cmd += list(extra)
    # Constant propagation through heap buffers of up to this many bytes.
    cmd += ["--cbmc-args", "--max-field-sensitivity-array-size", str(job.get("fs", 1024))] + job.get("cbmc", [])
    out = os.path.join(wdir, tag + ".log")
    if os.path.exists(out):
        os.remove(out)
    rc = run(cmd, wdir, env(target), timeout, out)
    data = None
    if os.path.exists(js):
        try:
            data = json.load(open(js))
        except ValueError:
            pass
    return rc, data, open(out, errors="replace").read()


def tape_of(trace):
    """The bytes a counterexample assigns to the harness's inputs, in order."""
    b = bytearray()

    def emit(v):
        if "elements" in v:
            for e in sorted(v["elements"], key=lambda e: e["index"]):
                emit(e["value"])
        elif "members" in v:
            for e in v["members"]:
                emit(e["value"])
        elif "binary" in v:
            n = len(v["binary"]) // 8
            b.extend(int(v["binary"], 2).to_bytes(n, "little"))
    whole = None
    for st in trace:
        if st.get("stepType") == "function-return":
            whole = None
        lhs = st.get("lhs", "")
        if st.get("stepType") == "assignment" and lhs.startswith("goto_symex$$return_value$$") \
                and "any_raw_" in (st.get("sourceLocation", {}).get("function") or ""):
            if "[" not in lhs:
                whole = lhs
            elif whole and lhs.startswith(whole + "["):
                continue  # the elements of a value already taken as a whole
            emit(st["value"])
    return bytes(b)


CBMC = ["cbmc", "--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check", "--no-bounds-check",
        "--no-pointer-check", "--nan-check", "--no-self-loops-to-assumptions", "--no-pointer-primitive-check",
        "--object-bits", "16", "--sat-solver", "cadical"]


ALONE = threading.Lock()
STOP = threading.Event()  # quick tier: a violation was reproduced, nothing else is needed


def stop():
    STOP.set()
    for p in list(PROCS):
        if p.poll() is None:
            subprocess.run(["pkill", "-9", "-s", str(p.pid)], stderr=subprocess.DEVNULL)


def cbmc(goto, unwind, fs, timeout, trace, out, more=()):
    """Run CBMC on Kani's goto binary (same options as Kani). -> None | [(name, desc, status, trace)]"""
    cmd = CBMC + ["--unwind", str(unwind), "--max-field-sensitivity-array-size", str(fs), "--json-ui"] + list(more)
    cmd += {True: ["--trace"], False: ["--slice-formula"], "sliced": ["--trace", "--slice-formula"]}[trace]
    with open(out, "wb") as f:
        p = spawn(cmd + [goto], stdout=f, stderr=subprocess.DEVNULL)
        try:
            p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            end(p)
            return None
    try:
        data = json.load(open(out))
    except ValueError:
        return None
    res = None
    for m in data:
        if "result" in m:
            res = [(r["property"], r.get("description", ""), r["status"], r.get("trace")) for r in m["result"]]
    return res


def properties(goto, descs):
    """The names of the properties with these descriptions."""
    p = subprocess.run(["cbmc", "--show-properties", "--json-ui", goto], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    try:
        data = json.loads(p.stdout)
    except ValueError:
        return []
    strip = lambda d: (d or "").strip('"')
    descs = [strip(d) for d in descs]
    return [q["name"] for m in data for q in m.get("properties", []) if strip(q.get("description")) in descs]


class Replay:
    """Native build of the same harness sources."""

    def __init__(self, job, base, mode):
        self.job, self.mode = job, mode
        self.dir, self.target = base + "-replay-" + mode, base + "-replay-target-" + mode
        self.bins = None

    def build(self):
        if self.bins is not None:
            return self.bins
        write_crate(self.job, self.dir, self.mode)
        out = os.path.join(self.dir, "build.log")
        self.bins = {}
        for prof, flag in (("dev", []), ("release", ["--release"])):
            rc = run(["cargo", "build", "--offline"] + flag, self.dir, native_env(self.target), 400, out)
            b = os.path.join(self.target, "debug" if prof == "dev" else "release", "replay")
            if rc == 0 and os.path.exists(b):
                self.bins[prof] = b
        if not self.bins:
            log("native replay build failed:\n" + open(out, errors="replace").read()[-3000:])
        return self.bins

    def play(self, harness, tape):
        """-> {profile: (verdict, text)}; verdict in violated|held|outside|model"""
        res = {}
        for prof, b in self.build().items():
            try:
                p = subprocess.run([b, harness, tape.hex()], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20,
                                   preexec_fn=limits)
                txt = p.stdout.decode(errors="replace")[-4000:]
                if p.returncode == 0 and "REPLAY-DONE" in txt:
                    v = "held"
                elif p.returncode == 77:
                    v = "outside"
                elif p.returncode == 79:
                    v = "unknown-harness"
                elif "MODEL-BOUND" in txt:
                    v = "model"
                else:
                    v = "violated"
                res[prof] = (v, "exit %d\n%s" % (p.returncode, txt))
            except subprocess.TimeoutExpired:
                res[prof] = ("violated", "did not terminate within 20 s")
        return res


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def results_of(data):
    """json -> {harness: dict(status, failed=[...], covers=[...], n=...)}"""
    out = {}
    stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in (data.get("cbmc") or [])}
    for r in data.get("verification_results", {}).get("results", []):
        failed, covers, fns, und = [], [], set(), 0
        n = 0
        for c in r.get("checks", []):
            st = c.get("status", "").lower()
            if c.get("category") == "cover":
                covers.append((c.get("description"), st))
                continue
            n += 1
            if st == "failure":
                failed.append(c)
            elif st in ("undetermined", "unknown", "error"):
                und += 1
            if c.get("function"):
                fns.add(c["function"])
        out[r["harness_id"]] = dict(status=r.get("status"), failed=failed, covers=covers, checks=n, fns=fns,
                                    undetermined=und, ms=r.get("duration_ms", 0), stats=stats.get(r["harness_id"], {}))
    return out


def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "open":
                    out.append(d)
    return out


def replay_file(pid, job, harness, tape, res, desc, mode):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (pid, job["name"], re.sub(r"\W+", "_", harness)))
    with open(path, "w") as f:
        json.dump(dict(property=pid, job=job["name"], harness=harness, tape=tape.hex(), failed_check=desc, hash=mode,
                       native={k: dict(verdict=v[0], output=v[1]) for k, v in res.items()},
                       rerun="python3 fw/run.py --replay " + path), f, indent=1)
    return path


def do_replay(path):
    d = json.load(open(path))
    job = next(j for j in checks.CHECKS[d["property"]]["jobs"] if j["name"] == d["job"])
    rp = Replay(job, os.path.join(WORK, "rerun-" + d["property"] + "-" + job["name"]), d.get("hash", "real"))
    res = rp.play(d["harness"], bytes.fromhex(d["tape"]))
    for k, v in res.items():
        print(k, v[0]); print(v[1])
    return 1 if any(v[0] == "violated" for v in res.values()) else 0


class Job:
    def __init__(self, pid, job, tier, only, jobs):
        self.pid, self.job, self.tier = pid, job, tier
        self.base = os.path.join(WORK, pid, job["name"])
        self.target = self.base + "-target"
        tiers = ["quick"] if tier == "quick" else ["quick", "thorough"]
        self.filters = ["%s::%s" % (m, t) for m in job["mods"] for t in tiers]
        if job.get("filters"):
            self.filters = ["%s::%s::%s" % (m, t, f) for m in job["mods"] for t in tiers for f in job["filters"]]
        if only:
            self.filters = [f for f in only.split(",")]
        self.jobs = jobs or job.get("j", 8)
        self.problems, self.violations, self.results = [], [], {}
        self.replays = 0
        self.queries = 0
        self.rps = [Replay(job, self.base, m) for m in (["real", "model"] if job.get("hash", True) else ["real"])]
        self.lock = threading.Lock()

    def left(self):
        return BUDGET[self.tier] - (time.time() - T0)

    def go(self):
        write_crate(self.job, self.base, "kani")
        log(self.pid, self.job["name"], "symbolic execution of", " ".join(self.filters))
        extra = ["--harness-timeout", "%ds" % max(30, int(self.left() - 60))]
        rc, data, text = kani(self.job, self.base, self.target, self.filters, self.jobs, self.left() - 5, extra)
        if STOP.is_set():
            return
        if data is None:
            tail = text[-3000:]
            self.problems.append("kani gave no result (rc=%s):\n%s" % (rc, tail))
            return
        self.data = data
        meta = [h["pretty_name"] for h in data.get("harness_metadata", [])]
        res = results_of(data)
        self.results = res
        # The solver of a harness may have been ended for want of memory while others ran: once more, alone.
        again = [h for h, r in res.items() if r["status"] != "Success" and not r["failed"] and r["ms"] < 400000]
        for h in again:
            if STOP.is_set() or self.left() < 60:
                break
            with ALONE:
                log("  once more:", h)
                rc, more, _ = kani(self.job, self.base, self.target, [h, "--exact"], 1, self.left() - 5, ["--harness-timeout", "%ds" % max(30, int(self.left() - 40))], "again")
                if more:
                    res.update(results_of(more))
                    meta += [x for x in res if x not in meta]
        if STOP.is_set():
            return
        if not res:
            self.problems.append("no harness was run")
        for h in meta:
            if h not in res:
                self.problems.append("harness %s has no result" % h)
        fails = []
        for h, r in sorted(res.items(), key=lambda kv: kv[1]["ms"]):
            log("  %-40s %-8s %6.1fs checks=%d failed=%d covers=%s" % (
                h, r["status"], r["ms"] / 1000, r["checks"], len(r["failed"]), ",".join(c[1] for c in r["covers"])))
            if r["status"] != "Success" or r["failed"]:
                if not r["failed"]:
                    self.problems.append("%s: solver gave up (%s)" % (h, r["status"]))
                else:
                    fails.append(h)
        self.meta = {}
        outdir = data.get("project", {}).get("output_dir") or ""
        for f in (os.listdir(outdir) if os.path.isdir(outdir) else []):
            if f.endswith(".kani-metadata.json"):
                for p in json.load(open(os.path.join(outdir, f)))["proof_harnesses"]:
                    self.meta[p["pretty_name"]] = (p["goto_file"].replace(".symtab.out", ".out"), p["attributes"].get("unwind_value") or 1)
        fails.sort(key=lambda h: (0 if any(classify(c) == "property" for c in res[h]["failed"]) else 1, res[h]["ms"]))
        n = max(1, self.jobs)
        if any(res[h]["ms"] > 20000 for h in fails):
            n = min(n, 2)  # (their formulas are large)
        for i in range(0, len(fails), n):
            ts = [threading.Thread(target=self.examine, args=(h,)) for h in fails[i:i + n]]
            [t.start() for t in ts]
            [t.join() for t in ts]
            if STOP.is_set():
                return
        seen = {}
        for h, r in self.results.items():
            if r["status"] == "Success" and not r["failed"]:
                for d, st in r["covers"]:
                    ok = st == "satisfied"
                    if d == "END":
                        if not ok:
                            self.problems.append("vacuous: the end of %s is %s" % (h, st))
                    else:
                        seen[d] = seen.get(d, False) or ok
        if not fails:
            for d, ok in seen.items():
                if not ok:
                    self.problems.append("vacuous: witness '%s' is not satisfied in any harness" % d)

    def replay(self, h, tape, desc):
        with self.lock:
            if STOP.is_set():
                return False
            for rp in self.rps:
                res = rp.play(h, tape)
                self.replays += 1
                log("    replay %s (%s hash): %s" % (h, rp.mode, {k: v[0] for k, v in res.items()}))
                if any(v[0] == "violated" for v in res.values()):
                    path = replay_file(self.pid, self.job, h, tape, res, desc, rp.mode)
                    self.violations.append((h, desc, path, tape.hex()))
                    if self.tier == "quick" and not known_findings(self.pid):
                        stop()
                    return True
        return False

    def examine(self, h):
        """A harness failed: replay its counterexamples, and raise its unwind bound if that was too small."""
        r = self.results[h]
        descs = ["%s [%s]" % (c.get("description"), c.get("function")) for c in r["failed"]][:6]
        log("  examining", h, descs)
        goto, base = self.meta.get(h, (None, None))
        if not goto or not os.path.exists(goto):
            self.problems.append("%s failed (%s) and its goto binary is gone" % (h, descs))
            return
        fs = self.job.get("fs", 1024)
        out = os.path.join(self.base, "cbmc-%s.json" % re.sub(r"\W+", "_", h))
        tried = set()
        # First only what failed, in the sliced formula: cheap, but its counterexample lacks the inputs
        # that do not matter, so it may not fit the harness; then everything.
        want = [c.get("description") for c in r["failed"] if classify(c) == "property"]
        names = properties(goto, want)[:3] if want else []
        if names:
            t = time.time()
            more = [x for n in names for x in ("--property", n)]
            res = cbmc(goto, base, fs, min(300, self.left() - 60), "sliced", out, list(self.job.get("cbmc", ())) + more)
            os.path.exists(out) and os.remove(out)
            log("    %s: %s (%.1fs)" % (h, [x[2] for x in res or []], time.time() - t))
            for x in res or []:
                if x[2] == "FAILURE" and not STOP.is_set():
                    tape = tape_of(x[3] or [])
                    if tape not in tried:
                        tried.add(tape)
                        if self.replay(h, tape, x[1]):
                            return
        for u in [base] + [x for x in self.job.get("escalate", [20, 40, 80]) if x > base]:
            if STOP.is_set():
                return
            t = time.time()
            res = cbmc(goto, u, fs, self.left() - 30, True, out, self.job.get("cbmc", ()))
            if STOP.is_set():
                return
            os.path.exists(out) and os.remove(out)
            if res is None:
                self.problems.append("%s: no answer at unwind %d; first failed checks: %s" % (h, u, descs))
                return
            bad = [x for x in res if x[2] == "FAILURE" and ".cover." not in x[0]]
            kinds = {}
            for x in bad:
                kinds.setdefault(classify(dict(description=x[1], category="unwind" if ".unwind." in x[0] else
                                               "unsupported_construct" if "unsupported_construct" in x[0] else "")), []).append(x)
            log("    %s unwind=%d: %s (%.1fs)" % (h, u, {k: len(v) for k, v in kinds.items()}, time.time() - t))
            if not bad:
                cov = [(x[1], "satisfied" if x[2] == "FAILURE" else "unsatisfiable") for x in res if ".cover." in x[0]]
                self.results[h] = dict(r, status="Success", failed=[], covers=cov, checks=len(res) - len(cov), escalated=u)
                return
            for x in kinds.get("property", []) + (kinds.get("unwind", []) if u == base else []):
                tape = tape_of(x[3] or [])
                if tape in tried:
                    continue
                tried.add(tape)
                if self.replay(h, tape, x[1] if ".unwind." not in x[0] else "does not terminate: " + x[0]):
                    return
            if "unwind" not in kinds:
                break
        self.problems.append("%s: undecided; failed checks: %s" % (h, descs))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(do_replay(a.replay))
    pid, tier = a.pid, ("thorough" if a.tier == "thorough" else "quick")
    spec = checks.CHECKS[pid]
    os.makedirs(os.path.join(WORK, pid), exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    jobs = [Job(pid, j, tier, a.only, a.jobs) for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    if a.only:
        jobs = [j for j in jobs if any(f.split("::")[0] in j.job["mods"] for f in a.only.split(","))]
    if spec.get("serial"):
        for j in jobs:
            j.go()
    else:
        ts = [threading.Thread(target=j.go) for j in jobs]
        [t.start() for t in ts]
        [t.join() for t in ts]
    viol = [(j,) + v for j in jobs for v in j.violations]
    prob = [(j.job["name"], p) for j in jobs for p in j.problems]
    kf = known_findings(pid)
    fresh = []
    for v in viol:
        hit = [k for k in kf if k.get("harness") == v[1] and k.get("failed_check", "") in v[2]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0].get("what")))
        else:
            fresh.append(v)
    evidence(pid, tier, spec, jobs, viol, prob)
    for v in fresh:
        print("counterexample in %s: %s" % (v[1], v[2]))
        print("VIOLATION property=%s replay=%s" % (pid, v[3]))
    for n, p in prob:
        print("PROBLEM %s/%s: %s" % (pid, n, p), file=sys.stderr)
    if not a.keep:
        for j in jobs:
            for d in [j.target] + [r.target for r in j.rps]:
                shutil.rmtree(d, ignore_errors=True)
    if fresh:
        sys.exit(1)
    if prob:
        sys.exit(2)
    n = sum(r["checks"] for j in jobs for r in j.results.values())
    print("HELD property=%s harnesses=%d obligations=%d wall=%.0fs" % (
        pid, sum(len(j.results) for j in jobs), n, time.time() - T0))


def evidence(pid, tier, spec, jobs, viol, prob):
    fns, samples = set(), []
    tot = dict(checks=0, covers=0, steps=0, vccs=0, vccs_left=0, symex=0.0, solver=0.0, undet=0)
    repo_fns = set()
    for j in jobs:
        for h, r in sorted(j.results.items()):
            s = r["stats"]
            tot["checks"] += r["checks"]
            tot["covers"] += sum(1 for c in r["covers"] if c[1] == "satisfied")
            tot["steps"] += s.get("size_program_expression") or 0
            tot["vccs"] += s.get("vccs_generated") or 0
            tot["vccs_left"] += s.get("vccs_remaining") or 0
            tot["symex"] += s.get("runtime_symex_s") or 0
            tot["solver"] += s.get("runtime_decision_procedure_s") or 0
            for f in r["fns"]:
                if f.startswith("radius::") or "radius::" in f:
                    repo_fns.add(f)
            samples.append(dict(job=j.job["name"], harness=h, status=r["status"], obligations=r["checks"],
                                witnesses=[c[0] for c in r["covers"] if c[1] == "satisfied"],
                                seconds=round(r["ms"] / 1000, 1),
                                **({"unwind_raised_to": r["escalated"]} if r.get("escalated") else {})))
    cov = dict(states=tot["steps"], transitions=tot["vccs"],
               traces_validated_against_impl=sum(j.replays for j in jobs),
               counting="states = symbolic execution steps (SSA equations) CBMC generated from the current source; "
                        "transitions = verification conditions generated; traces = solver models replayed natively",
               harnesses=sum(len(j.results) for j in jobs),
               obligations=tot["checks"], witnesses_satisfied=tot["covers"],
               vccs_sent_to_solver=tot["vccs_left"],
               symex_s=round(tot["symex"], 2), solver_s=round(tot["solver"], 2),
               functions_encoded=sorted(repo_fns), bounds=spec["bounds"], outside=spec.get("outside", ""),
               samples=samples, problems=[p[1][:400] for p in prob])
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                       level="model_checking", coverage=cov, assumptions=spec.get("assumptions", []),
                       wall_s=round(time.time() - T0, 1), violations=len(viol)), f, indent=1)


main()
