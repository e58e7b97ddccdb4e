#!/usr/bin/env python3
"""Driver of the property checks.

  run.py PROP            run the check of PROP (tier and seed from VERIF_TIER / VERIF_SEED)
  run.py --replay FILE   judge one saved case again: exit 1 if it still fails
  run.py --setup         build every harness binary once
  run.py --sub NAME [checks [seed]]   run one sub-check and print its result (development)

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line:
it is broken. Anything else (2) is an error of the check itself.
"""
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")  # development only: a scratch copy of the repository
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, VERIF)
from checks import CHECKS, FLAVORS  # noqa: E402

START = time.time()
JOBS = 8
FUZZ_SECONDS = 240  # of a thorough run


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def goenv(flavor):
    env = dict(os.environ)
    env.update(HOME=env.get("HOME", "/root"), LANG="C.UTF-8", TZ="UTC", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local",
               GOWORK="off", CGO_ENABLED="1", GOFLAGS="-mod=mod", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
               GOCACHE=env.get("GOCACHE", "/root/.cache/go-build"))
    env.update(FLAVORS[flavor].get("buildenv", {}))
    return env


class Regenerate(Exception):
    """The parser cannot be made from its grammar."""


def regenerate(out, env):
    """A copy of the v6 module with its parser made afresh from the grammar, by the script of the repository."""
    copy = os.path.join(out, "v6")
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "v6", "pkg"), os.path.join(copy, "pkg"), ignore=shutil.ignore_patterns("*_test.go"))
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, "v6", f), copy)
    if not shutil.which("bison") or not shutil.which("flex"):
        die("bison and flex are not installed")
    for f in ("tsl_parser.tab.c", "tsl_parser.tab.h", "lex.yy.c"):
        if os.path.exists(os.path.join(copy, "pkg", "tsl", f)):
            os.unlink(os.path.join(copy, "pkg", "tsl", f))
    p = subprocess.run(["bash", "pkg/parser/build.sh"], cwd=copy, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Regenerate("pkg/parser/build.sh: exit %d\n%s" % (p.returncode, p.stdout[-2000:]))
    p = subprocess.run(["go", "build", "-mod=mod", "./pkg/tsl"], cwd=copy, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Regenerate("the parser made from the grammar does not compile:\n%s" % p.stdout[-2000:])
    return copy


def run_build(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("cannot build %s:\n%s" % (what, p.stdout[-4000:]))


def build(flavor):
    """Build one harness binary (and the CLIs it drives) from the current tree of REPO."""
    fl = FLAVORS[flavor]
    out = os.path.join(BUILD, flavor)
    os.makedirs(out, exist_ok=True)
    env = goenv(flavor)
    src = os.path.join(VERIF, "harness", fl["dir"])
    names = ("go.mod", "go.sum")
    if fl.get("version"):  # one source for two versions of the language
        v = fl["version"]
        copy = os.path.join(out, "src")
        shutil.rmtree(copy, ignore_errors=True)
        os.makedirs(copy)
        for f in sorted(glob.glob(os.path.join(src, "*.go"))):
            text = open(f).read().replace("tree-search-language/v5", "tree-search-language/v%d" % v)
            text = text.replace("const V = 5", "const V = %d" % v)
            with open(os.path.join(copy, os.path.basename(f)), "w") as g:
                g.write(text)
        names = ("v%d.mod" % v, "v%d.sum" % v)
    # private copies of go.mod and go.sum: the build never rewrites committed files
    mod = os.path.join(out, "build.mod")
    with open(os.path.join(src, names[0])) as f:
        text = f.read().replace("=> /repo/", "=> %s/" % REPO).replace("=> ../kit", "=> %s/harness/kit" % VERIF)
    if fl.get("generated"):
        text = text.replace("=> %s/v6" % REPO, "=> " + regenerate(out, env))
    with open(mod, "w") as f:
        f.write(text)
    shutil.copy(os.path.join(src, names[1]), os.path.join(out, "build.sum"))
    if fl.get("version"):
        src = copy
        shutil.copy(mod, os.path.join(copy, "go.mod"))
    binary = os.path.join(out, "bin")
    run_build(["go", "build", "-modfile=" + mod, "-o", binary] + fl.get("args", []) + ["."], src, env, flavor)
    if fl.get("cli"):
        m = fl["cli"]
        root = os.path.join(REPO, m)
        cli = os.path.join(out, "cli")
        os.makedirs(cli, exist_ok=True)
        if os.path.exists(os.path.join(root, "go.sum")):
            env["GOFLAGS"] = "-mod=readonly"
            extra = []
        else:
            cm = os.path.join(out, "cli.mod")
            shutil.copy(os.path.join(root, "go.mod"), cm)
            shutil.copy(os.path.join(VERIF, "harness", "gosum", m + ".sum"), os.path.join(out, "cli.sum"))
            extra = ["-modfile=" + cm]
        run_build(["go", "build"] + extra + ["-o", cli + "/"] + ["./cmd/" + c for c in fl["cmds"]], root, env, flavor + " commands")
    return binary


def build_fuzz(flavor):
    """The harness of a flavor with coverage instrumentation, for Go's fuzzing engine. After build(flavor)."""
    fl = FLAVORS[flavor]
    out = os.path.join(BUILD, flavor)
    src = os.path.join(out, "src") if fl.get("version") else os.path.join(VERIF, "harness", fl["dir"])
    binary = os.path.join(out, "fuzz")
    run_build(["go", "test", "-modfile=" + os.path.join(out, "build.mod"), "-c", "-fuzz=FuzzSub", "-o", binary] + fl.get("args", []) + ["."],
              src, goenv(flavor), flavor + " for fuzzing")
    return binary


def fuzz(binary, s, seconds, tmp):
    """Coverage-guided fuzzing of one sub-check: (counts, failing records)."""
    out = os.path.join(tmp, "fuzz-" + s["name"].replace("/", "_"))
    os.makedirs(os.path.join(out, "run"))
    c = {"executions": 0, "inputs_reaching_new_code": 0, "evaluations": 0, "nontrivial": 0}
    text, end = "", time.time() + seconds
    # rounds share the corpus; a new process forgets what the parsers' caches hold
    while time.time() < end - 5 and not glob.glob(os.path.join(out, "fail-*.json")):
        with open(out + ".log", "wb") as log:
            p = subprocess.Popen([binary, "-test.run=NONE", "-test.fuzz=FuzzSub", "-test.fuzztime=%ds" % min(20, end - time.time()), "-test.fuzzminimizetime=1x",
                                  "-test.parallel=%d" % JOBS, "-test.fuzzcachedir=" + os.path.join(out, "cache")], cwd=os.path.join(out, "run"),
                                 env=dict(runenv(s["flavor"]), VERIF_FUZZ_SUB=s["name"], VERIF_FUZZ_OUT=out, VERIF_SCRATCH=out + ".d"), stdout=log, stderr=log)
            try:
                p.wait(200)
            except subprocess.TimeoutExpired:
                p.kill()
        text = tail(out + ".log", 20000)
        n = [(int(x), int(y)) for x, y in re.findall(r"execs: (\d+) .*new interesting: (\d+)", text)]
        if not n or "--- FAIL" in text:
            break
        c["executions"] += n[-1][0]
        c["inputs_reaching_new_code"] += n[-1][1]
    for f in glob.glob(os.path.join(out, "count-*.json")):
        d = json.load(open(f))
        c["evaluations"] += d["evals"]
        c["nontrivial"] += d["nontrivial"]
    fails = [json.load(open(f)) for f in glob.glob(os.path.join(out, "fail-*.json"))]
    fails.sort(key=lambda r: len(json.dumps(r["case"])))
    return c, fails, text


def runenv(flavor):
    env = dict(os.environ)
    env.update(TZ="UTC", LANG="C.UTF-8", VERIF_CLI=os.path.join(BUILD, flavor, "cli"), VERIF_REPO=REPO)
    env.update(FLAVORS[flavor].get("runenv", {}))
    return env


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""


def interesting(text):
    """The part of a crash log worth keeping."""
    keep = [l for l in text.splitlines() if not l.startswith("Error: Unknown character")]
    return "\n".join(keep[:60])


RESOURCE = re.compile(r"out of memory|cannot allocate|Cannot allocate|pthread_create failed|No space left|resource temporarily unavailable|too many open files", re.I)


class Replay:
    """Outcome of judging one saved case in a fresh process."""

    def __init__(self, binary, flavor, path, limit=180):
        log = tempfile.NamedTemporaryFile(prefix="vrep", delete=False)
        scratch = tempfile.mkdtemp(prefix="vrep")
        try:
            try:
                p = subprocess.run([binary, "replay", path], env=dict(runenv(flavor), VERIF_SCRATCH=scratch), stdout=subprocess.PIPE, stderr=log, timeout=limit)
                self.code, self.out, self.hang = p.returncode, p.stdout.decode("utf-8", "replace"), False
            except subprocess.TimeoutExpired:
                self.code, self.out, self.hang = -9, "", True
            log.close()
            with open(log.name, "rb") as f:
                self.err = interesting(f.read(200000).decode("utf-8", "replace"))
        finally:
            os.unlink(log.name)
            shutil.rmtree(scratch, ignore_errors=True)

    def verdict(self):
        """'ok', 'fail' (judged), 'crash', 'hang', or 'error'"""
        if self.hang:
            return "hang"
        if self.code == 0:
            return "ok"
        if self.code == 1 and self.out.startswith("FAIL "):
            return "fail"
        if self.code == 3 or self.code == -signal.SIGKILL or RESOURCE.search(self.err) or "HARNESS" in self.err:
            return "error"
        if self.code == 2 and "goroutine" not in self.err:
            return "error"
        return "crash"

    def message(self):
        return self.out.strip() if self.code == 1 and self.out else "process died (exit %s)\n%s" % (self.code, self.err)


def strings_in(case, path=()):
    if isinstance(case, str):
        yield path, case
    elif isinstance(case, dict):
        for k, v in case.items():
            yield from strings_in(v, path + (k,))
    elif isinstance(case, list):
        for i, v in enumerate(case):
            yield from strings_in(v, path + (i,))


def put(case, path, val):
    if not path:
        return val
    if isinstance(case, dict):
        d = dict(case)
        d[path[0]] = put(case[path[0]], path[1:], val)
        return d
    l = list(case)
    l[path[0]] = put(case[path[0]], path[1:], val)
    return l


def shrink_crash(binary, flavor, rec, budget=60):
    """Cut pieces out of the case's texts while a fresh process still dies."""
    end = time.time() + budget
    tmp = tempfile.NamedTemporaryFile("w", prefix="vshr", suffix=".json", delete=False).name

    def dies(case):
        r = dict(rec, case=case)
        with open(tmp, "w") as f:
            json.dump(r, f)
        return Replay(binary, flavor, tmp, 60).verdict() == "crash"

    case = rec["case"]
    try:
        progress = True
        while progress and time.time() < end:
            progress = False
            for path, s in list(strings_in(case)):
                step = max(1, len(s) // 2)
                while step >= 1 and time.time() < end:
                    i = 0
                    while i < len(s) and time.time() < end:
                        t = s[:i] + s[i + step:]
                        c = put(case, path, t)
                        if dies(c):
                            case, s, progress = c, t, True
                        else:
                            i += step
                    step //= 2
    finally:
        os.unlink(tmp)
    return dict(rec, case=case)


def save_replay(prop, rec):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(dict(rec, property=prop), indent=1, sort_keys=True)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(body.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def shard_seed(seed, sub, shard):
    h = hashlib.sha256(("%d|%s|%d" % (seed, sub, shard)).encode()).digest()
    return struct.unpack("<Q", h[:8])[0] >> 1 or 1


def known_findings(prop):
    """Lines 'finding: property=ID file=known/NAME.json what fails' of KNOWN_FINDINGS."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) file=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((os.path.join(VERIF, m.group(2)), m.group(3).strip()))
    return out


def main_check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        die("tier must be quick or thorough")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[prop]
    evpath = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evpath), exist_ok=True)
    if os.path.exists(evpath):
        os.unlink(evpath)
    flavors = sorted({s["flavor"] for s in cfg["subs"]})
    try:
        binaries = {f: build(f) for f in flavors}
    except Regenerate as e:
        build("h6")  # what is shipped compiles, or this ends the check
        path = save_replay(prop, {"sub": cfg["subs"][0]["name"], "case": {}, "message": str(e), "property": prop, "seed": seed})
        with open(evpath, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": {
                "evaluations": 1, "distinct_nontrivial": 0, "rule": "the parser is made from its grammar", "samples": [str(e)[:500]]},
                "wall_s": round(time.time() - START, 2), "violations": 1}, f, indent=1)
        print(e)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        sys.exit(1)
    built = time.time() - START
    budget = 170 if tier == "quick" else 700  # generation stops here; the case counts normally end it far sooner
    deadline = START + (820 if tier == "quick" else 3000)

    violations, errors = [], []  # (rec, message)
    regress = 0
    flavor_of = {s["name"]: s["flavor"] for s in cfg["subs"]}

    # 1. saved cases: every failure ever found for this property
    for path in sorted(glob.glob(os.path.join(VERIF, "regress", prop, "*.json"))):
        rec = json.load(open(path))
        if rec["sub"] not in flavor_of:
            errors.append("saved case %s names an unknown sub-check" % path)
            continue
        fl = flavor_of[rec["sub"]]
        r = Replay(binaries[fl], fl, path)
        regress += 1
        v = r.verdict()
        if v in ("fail", "crash", "hang"):
            violations.append((rec, "saved case %s: %s" % (os.path.basename(path), r.message())))
        elif v == "error":
            errors.append("saved case %s: %s" % (path, r.message()))

    # 2. listed findings
    for path, what in known_findings(prop):
        rec = json.load(open(path))
        fl = flavor_of[rec["sub"]]
        if Replay(binaries[fl], fl, path).verdict() in ("fail", "crash", "hang"):
            print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)

    # 3. generated cases
    tmp = tempfile.mkdtemp(prefix="vrun-" + prop + "-")
    jobs, results, lock = [], [], threading.Lock()
    for s in cfg["subs"]:
        total = s[tier]
        # the parsers of v4 and v5 keep what they learn: many short processes
        many = -(-total // 12000) if s["flavor"][:2] in ("h4", "h5") else 0
        shards = min(s.get("shards") or max(8, many), max(1, total))
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            jobs.append((s, k, n))
    # interleave the sub-checks so that all cores stay busy
    jobs.sort(key=lambda j: (j[1], j[0]["name"]))
    running = {}
    stop = threading.Event()

    def crash(s, k, sd, code, base):
        err = interesting(tail(base + ".err", 400000))
        if code == -signal.SIGKILL or RESOURCE.search(err):
            errors.append("%s shard %d: worker was ended (exit %s) %s" % (s["name"], k, code, err[-500:]))
            return
        try:
            with open(base + ".cur", "rb") as f:
                n = struct.unpack("<Q", f.read(8))[0]
                case = json.loads(f.read(n))
        except Exception as e:  # noqa: BLE001
            errors.append("%s shard %d: worker died (exit %s) before a case was noted: %s\n%s" % (s["name"], k, code, e, err))
            return
        fl = s["flavor"]
        rec = {"sub": s["name"], "seed": sd, "case": case, "message": "worker died, exit %s\n%s" % (code, err[:4000])}
        p = base + ".rec.json"
        json.dump(rec, open(p, "w"))
        last = None
        for _ in range(s.get("retries", 3)):
            last = Replay(binaries[fl], fl, p)
            v = last.verdict()
            if v in ("crash", "fail", "hang"):
                if v == "crash" and not s.get("noshrink"):
                    rec = shrink_crash(binaries[fl], fl, rec)
                rec["message"] = last.message()
                violations.append((rec, rec["message"]))
                return
        if code == 66 and "DATA RACE" in err:
            violations.append((rec, rec["message"]))  # the race report is the evidence; schedules need not repeat
            return
        if s.get("crash_is_violation") and code < 0:
            violations.append((rec, rec["message"]))
            return
        errors.append("%s shard %d: worker died (exit %s), not reproduced: %s" % (s["name"], k, code, err[:3000]))

    def work():
        while not stop.is_set():
            with lock:
                if not jobs:
                    return
                s, k, n = jobs.pop(0)
            sd = shard_seed(seed, s["name"], k)
            base = os.path.join(tmp, "%s-%d" % (s["name"].replace("/", "_"), k))
            left = max(5, budget - (time.time() - START - built))
            cmd = [binaries[s["flavor"]], "run", "-sub", s["name"], "-seed", str(sd), "-checks", str(n), "-out", base + ".json",
                   "-cur", base + ".cur", "-maxtime", "%ds" % left]
            with open(base + ".err", "wb") as ef:
                p = subprocess.Popen(cmd, env=dict(runenv(s["flavor"]), VERIF_SCRATCH=base + ".d"), stdout=ef, stderr=ef)
                with lock:
                    running[p.pid] = p
                code = p.wait()
                with lock:
                    running.pop(p.pid, None)
            if stop.is_set():
                return
            res = None
            if os.path.exists(base + ".json"):
                res = json.load(open(base + ".json"))
            with lock:
                if res is None:
                    crash(s, k, sd, code, base)
                elif res.get("harness_error"):
                    errors.append("%s: %s" % (s["name"], res["harness_error"][-2000:]))
                else:
                    with open(base + ".json.hashes", "rb") as f:
                        data = f.read()
                    res["hashes"] = set(struct.unpack("<%dQ" % (len(data) // 8), data))
                    results.append(res)
                    if res.get("failure"):
                        f = res["failure"]
                        violations.append(({"sub": f["sub"], "seed": f["seed"], "case": f["case"], "message": f["message"]}, f["message"]))
                        # one counterexample settles it: stop the rest
                        jobs.clear()

    threads = [threading.Thread(target=work, daemon=True) for _ in range(JOBS)]
    for t in threads:
        t.start()
    for t in threads:
        while t.is_alive():
            t.join(0.2)
            if time.time() > deadline:
                stop.set()
                for p in list(running.values()):
                    p.kill()
                errors.append("the check ran out of its time")
                break
    shutil.rmtree(tmp, ignore_errors=True)

    # 4. coverage-guided fuzzing of the same generators
    fuzzed = {}
    todo = [s for s in cfg["subs"] if s.get("fuzz")] if tier == "thorough" and not violations and not errors else []
    for s in todo:
        tmp = tempfile.mkdtemp(prefix="vfuzz-" + prop + "-")
        c, fails, text = fuzz(build_fuzz(s["flavor"]), s, max(20, FUZZ_SECONDS // len(todo)), tmp)
        shutil.rmtree(tmp, ignore_errors=True)
        fuzzed[s["name"]] = c
        for rec in fails[:3]:
            p = save_replay(prop, rec)
            if Replay(binaries[s["flavor"]], s["flavor"], p).verdict() in ("fail", "crash", "hang"):
                violations.append((rec, rec["message"]))
            else:
                errors.append("%s: a failure found by fuzzing does not repeat: %s" % (s["name"], rec["message"][:2000]))
        if not fails and (c["executions"] == 0 or "--- FAIL" in text):
            errors.append("%s: fuzzing ended early: %s" % (s["name"], text[-2000:]))

    # 5. evidence
    evals = sum(r["evals"] for r in results)
    distinct = len(set().union(*[r["hashes"] for r in results])) if results else 0
    per = {}
    for r in results:
        d = per.setdefault(r["sub"], {"evaluations": 0, "nontrivial": 0, "excluded": 0, "not_run": 0, "classes": {}})
        d["evaluations"] += r["evals"]
        d["nontrivial"] += r["nontrivial"]
        d["excluded"] += r["excluded"]
        d["not_run"] += r["not_run"]
        for k, v in (r["labels"] or {}).items():
            d["classes"][k] = d["classes"].get(k, 0) + v
    rules = {r["sub"]: r["rule"] for r in results}
    samples = []
    for sub in sorted(per):
        pool = [x for r in results if r["sub"] == sub for x in (r["samples"] or [])]
        pool.sort(key=lambda x: len(json.dumps(x)))
        for x in ([pool[0], pool[len(pool) // 2]] if len(pool) > 1 else pool):
            samples.append({"sub": sub, "case": x})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "; ".join("%s: %s" % (k, rules[k]) for k in sorted(rules)),
            "samples": samples or ["no case ran"],
            "saved_cases_replayed": regress,
            "sub_checks": per,
            "coverage_guided": fuzzed,
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - START, 2),
        "violations": len(violations),
    }
    with open(evpath, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")

    if violations:
        # the smallest case, of those that fail by themselves if there is one
        violations.sort(key=lambda v: len(json.dumps(v[0]["case"])))
        rec, msg = violations[0]
        for v in violations[:5] if len(violations) > 1 else []:
            flavor = find_sub(v[0]["sub"])[1]["flavor"]
            if flavor in binaries and Replay(binaries[flavor], flavor, save_replay(prop, v[0]), 30).verdict() in ("fail", "crash", "hang"):
                rec, msg = v
                break
        path = save_replay(prop, rec)
        print("%s: %s" % (rec["sub"], msg[:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        sys.exit(1)
    if errors:
        die("\n".join(errors)[:6000])
    missing = [s["name"] for s in cfg["subs"] if per.get(s["name"], {}).get("evaluations", 0) == 0]
    if missing:
        die("no case was judged by " + ", ".join(missing))
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d saved=%d wall=%.1fs (build %.1fs)" %
          (prop, tier, seed, evals, distinct, regress, time.time() - START, built))


def find_sub(name):
    for prop, cfg in CHECKS.items():
        for s in cfg["subs"]:
            if s["name"] == name:
                return prop, s
    die("no sub-check " + name)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == "--setup":
        for f in FLAVORS:
            try:
                build(f)
            except Regenerate as e:  # for the check to report
                print(e)
            print("built", f, "%.1fs" % (time.time() - START), flush=True)
        return
    if a[0] == "--replay":
        rec = json.load(open(a[1]))
        _, s = find_sub(rec["sub"])
        try:
            r = Replay(build(s["flavor"]), s["flavor"], a[1])
        except Regenerate as e:
            print("fail", e)
            sys.exit(1)
        print(r.verdict(), r.message())
        sys.exit({"ok": 0, "fail": 1, "crash": 1, "hang": 1}.get(r.verdict(), 2))
    if a[0] == "--sub":
        _, s = find_sub(a[1])
        b = build(s["flavor"])
        sys.exit(subprocess.run([b, "run", "-sub", a[1], "-checks", a[2] if len(a) > 2 else "1000", "-seed", a[3] if len(a) > 3 else "1"],
                                env=runenv(s["flavor"])).returncode)
    if a[0] not in CHECKS:
        die("unknown property " + a[0])
    main_check(a[0])


if __name__ == "__main__":
    main()
