#!/usr/bin/env python3
"""Runs one check:   run.py check <property> [quick|thorough]
Replays a failure:   run.py replay <file>
Builds everything:   run.py setup

The harness (harness/) is compiled against /repo's working tree, and the tests of the
property run as a fixed number of processes (shards), each with its own rapid seed derived
from VERIF_SEED and a fixed number of generated cases.

Exit 0: held on everything generated.  Exit 1 + VIOLATION line: a generated case fails.
Exit 2: the check itself could not run (build failure, out of memory, time budget).
"""
import base64, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))
BUDGET_S = {"quick": 800, "thorough": 5400}
LR = ["lr_full", "lr_toy", "lr_minibatch", "lr_minibatch_toy"]


class Infra(Exception):
    pass


def go_env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin"
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=readonly -buildvcs=false", GOWORK="off", GOPROXY="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    return e


OPTIONAL = ["gamma", "numIter", "SumRowVec", "SumColVec", "readData", "numSlots", "slotNum", "numBatch"]
KNOBS = ["PN15QP880", "numSlots", "slotNum", "numData", "numFeature", "numCompany", "batchSize", "numTrain", "numBatch",
         "numIter", "gamma"]


class Unsettable(Infra):
    """An lr program whose size cannot be set from outside."""


def consts_to_vars(src):
    """The program text with package-level constants among KNOBS declared as variables, so that the
    harness can set them to small sizes."""
    name = r"(?:%s)\b" % "|".join(KNOBS)
    src = re.sub(r"(?m)^const(\s+%s)" % name, r"var\1", src)
    return re.sub(r"(?ms)^const(\s*\(.*?^\))",
                  lambda m: ("var" if re.search(r"(?m)^\s+%s[^\n]*=" % name, m.group(1)) else "const") + m.group(1), src)


def build(pkg, out, race=False):
    """Compiles a test binary, if asked with the race detector. For the lr programs returns the optional identifiers that the
    program does not offer (any more) and that the harness therefore does without."""
    without, relaxed, lit = [], False, "PN15QP880"
    if pkg in LR:  # the name of the program's parameter literal
        ov = json.load(open(os.path.join(HARNESS, "overlay.json")))
        text = open(ov["Replace"][os.path.join(HARNESS, pkg, "prog.go")]).read()
        names = re.findall(r"(?m)^(?:\t|var )(\w+)\s*=\s*ckks\.ParametersLiteral\{", text)
        lit = names[0] if len(names) == 1 else lit
    while True:
        cmd = ["go", "test", "-c", "-o", out] + (["-race"] if race else [])
        if pkg in LR:
            ov = json.load(open(os.path.join(HARNESS, "overlay.json")))
            if without or lit != "PN15QP880":
                src = os.path.join(HARNESS, pkg, "prog_test.go")
                lines = [l for l in open(src) if not any("//opt:%s\n" % w in l for w in without)]
                open(out + "_test.go", "w").write("".join(lines).replace("PN15QP880", lit))
                ov["Replace"][src] = out + "_test.go"
            if relaxed:
                prog = os.path.join(HARNESS, pkg, "prog.go")
                open(out + "_prog.go", "w").write(consts_to_vars(open(ov["Replace"][prog]).read()))
                ov["Replace"][prog] = out + "_prog.go"
            json.dump(ov, open(out + ".overlay.json", "w"))
            cmd += ["-overlay", out + ".overlay.json"]
        r = subprocess.run(cmd + ["./" + pkg], cwd=HARNESS, env=go_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0 and os.path.exists(out):
            return without
        bad = [l for l in r.stdout.splitlines() if "_test.go:" in l]
        more = [w for w in OPTIONAL if pkg in LR and w not in without and any(re.search(r"\b%s\b" % w, l) for l in bad)]
        if more and (relaxed or not any("cannot assign" in l for l in bad)):
            without += more
        elif pkg in LR and not relaxed:
            relaxed = True
        elif more:
            without += more
        elif pkg in LR and bad and all("_test.go:" in l for l in r.stdout.splitlines() if ".go:" in l):
            raise Unsettable("cannot build %s:\n%s" % (pkg, r.stdout))
        else:
            raise Infra("cannot build %s:\n%s" % (pkg, r.stdout))


def shard_seed(*parts):
    h = hashlib.sha256("/".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:6], "big") + 1  # never 0, which rapid takes for "random"


class Shard:
    def __init__(self, pid, n, pkg, binary, run, seed, env, scratch, extra=()):
        self.pid, self.n, self.pkg, self.run, self.seed, self.envvars = pid, n, pkg, run, seed, env
        self.dir = os.path.join(scratch, "shard%d" % n)
        os.makedirs(os.path.join(self.dir, "tmp"))
        self.log = os.path.join(self.dir, "log")
        self.stats = os.path.join(self.dir, "stats.json")
        e = go_env()
        e.update(env)
        e.update(VERIF_STATS=self.stats, TMPDIR=os.path.join(self.dir, "tmp"), GOTRACEBACK="single",
                 GOMAXPROCS="4" if pkg == "conc" else "2", GORACE="suppress_equal_stacks=0 suppress_equal_addresses=0")
        cmd = [binary, "-test.run", run, "-test.timeout", "0", "-rapid.seed", str(seed),
               "-rapid.shrinktime", "25s"] + list(extra)
        self.proc = subprocess.Popen(cmd, cwd=self.dir, env=e, stdout=open(self.log, "wb"),
                                     stderr=subprocess.STDOUT, start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def text(self):
        return open(self.log, errors="replace").read()

    def failfile(self):
        for root, _, files in os.walk(os.path.join(self.dir, "testdata")):
            for f in sorted(files):
                if f.endswith(".fail"):
                    return os.path.join(root, f)
        return None


def wait_all(shards, deadline):
    """Waits for all shards; stops the rest once one has failed."""
    while True:
        live = [s for s in shards if s.proc.poll() is None]
        bad = [s for s in shards if s.proc.poll() not in (None, 0)]
        if bad:
            for s in live:
                s.kill()
            return bad[0]
        if not live:
            return None
        if time.time() > deadline:
            for s in live:
                s.kill()
            raise Infra("time budget exhausted (inconclusive)")
        time.sleep(0.2)


def failing_test(text):
    m = re.findall(r"--- FAIL: (\S+)", text)
    return max(m, key=len) if m else None


def save_replay(pid, sh, tier):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    text = sh.text()
    ff = sh.failfile()
    doc = {
        "property": pid, "package": sh.pkg, "tests": sh.run, "failing_test": failing_test(text),
        "seed": sh.seed, "env": sh.envvars, "tier": tier, "exit": sh.proc.returncode,
        "how": "python3 run.py replay <this file> rebuilds the harness against /repo and runs the shrunk case",
        "failfile": base64.b64encode(open(ff, "rb").read()).decode() if ff else None,
        "log_tail": text[-12000:],
    }
    path = os.path.join(VERIF, "replays", "%s-%d.json" % (pid, sh.seed))
    json.dump(doc, open(path, "w"), indent=1)
    return path


def plan(pid, tier, scratch, seed):
    """Builds the binaries of a check and yields (pkg, binary, run, env) per shard."""
    c = CHECKS[pid]
    out = []
    if pid == "C19":
        for p in LR:
            b = os.path.join(scratch, p + ".test")
            try:
                without = ",".join(build(p, b))
            except Unsettable as e:
                print("%s: its size cannot be set from outside, not run\n%s" % (p, e))
                continue
            if without:
                print("%s: not settable or callable from outside, checked without: %s" % (p, without))
            for _ in range(2):
                out.append((p, b, "^TestC19$", dict(c[tier], VERIF_LR_WITHOUT=without)))
        out += [(p, os.path.join(scratch, p + ".test"), "^TestC19$/^Run$", dict(c["full_size"]))
                for p in c["full_size_programs"] if tier == "thorough" and os.path.exists(os.path.join(scratch, p + ".test"))]
        return out
    if pid == "C21":
        for mode in ("race", "plain"):
            b = os.path.join(scratch, "conc.%s.test" % mode)
            build("conc", b, mode == "race")
            env = {"VERIF_CHECKS": str(c[tier][mode]), "VERIF_RACE": str(int(mode == "race"))}
            # many short processes: package-level state is new in each of them
            out += [("conc", b, "^TestC21", env)] * c["processes"]
        return out
    b = os.path.join(scratch, "props.test")
    build("props", b)
    out = [("props", b, "^Test%s" % pid, {"VERIF_CHECKS": str(c[tier])}) for _ in range(8)]
    if "large" in c:  # ring degrees 2^10..2^15
        env = {"VERIF_CHECKS": str(c["large"][tier]), "VERIF_LARGE": "2"}
        out += [("props", b, "^Test%s" % pid, env)] * 4
    return out


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    deadline = t0 + BUDGET_S[tier]
    shards, bad, replay = [], None, None
    try:
        todo = plan(pid, tier, scratch, seed)
        for at in range(0, len(todo), 8):
            wave = []
            for k, (pkg, binary, run, env) in enumerate(todo[at:at + 8]):
                n = at + k
                wave.append(Shard(pid, n, pkg, binary, run, shard_seed(seed, tier, pid, n), env, scratch))
            shards += wave
            bad = wait_all(wave, deadline)
            if bad:
                break
        if bad and (bad.proc.returncode in (-9, 137, -15, -2, -1) or bad.proc.returncode == 3):
            raise Infra("shard %d ended with %d:\n%s" % (bad.n, bad.proc.returncode, bad.text()[-3000:]))
        if bad:
            replay = save_replay(pid, bad, tier)
            text = bad.text()
            sys.stdout.write(text[-6000:] + "\n")
        evidence(pid, tier, seed, shards, bad, t0)
    finally:
        for s in shards:
            if s.proc.poll() is None:
                s.kill()
        shutil.rmtree(scratch, ignore_errors=True)
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        if line.startswith("finding: property=%s " % pid):
            print("KNOWN-FINDING: " + line[len("finding: "):].strip())
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    print("%s %s: no violation, %.1f s" % (pid, tier, time.time() - t0))
    return 0


def evidence(pid, tier, seed, shards, bad, t0):
    tot = {"evaluations": 0, "nontrivial": 0}
    hashes, classes, tests, samples = set(), {}, {}, []
    for s in shards:
        if not os.path.exists(s.stats):
            continue
        d = json.load(open(s.stats))
        tot["evaluations"] += d["evaluations"]
        tot["nontrivial"] += d["nontrivial"]
        hashes.update(d.get("hashes") or [])
        for k, v in (d.get("classes") or {}).items():
            classes[k] = classes.get(k, 0) + v
        for k, v in (d.get("tests") or {}).items():
            tests[k] = tests.get(k, 0) + v
        samples += (d.get("samples") or [])[:3]
    if not bad and tot["evaluations"] == 0:
        raise Infra("no case was generated")
    if not bad and not hashes:
        raise Infra("no non-trivial case was generated")
    c = CHECKS[pid]
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["evaluations"],
            "distinct_nontrivial": len(hashes),
            "nontrivial_including_repeats": tot["nontrivial"],
            "rule": c["rule"],
            "samples": [s[:1500] for s in samples[:8]],
            "cases_per_test": dict(sorted(tests.items())),
            "classes": dict(sorted(classes.items(), key=lambda kv: -kv[1])[:60]),
            "shards": len(shards),
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if bad else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    json.dump(doc, open(path + ".tmp", "w"), indent=1)
    os.replace(path + ".tmp", path)


def replay(path):
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        b = os.path.join(scratch, "t.test")
        build(d["package"], b, d["env"].get("VERIF_RACE") == "1")
        extra, run = [], d["tests"]
        if d["failfile"] and d["failing_test"]:
            ff = os.path.join(scratch, "case.fail")
            open(ff, "wb").write(base64.b64decode(d["failfile"]))
            extra = ["-rapid.failfile", ff]
            run = "/".join("^%s$" % p for p in d["failing_test"].split("/"))
        s = Shard(d["property"], 0, d["package"], b, run, d["seed"], d["env"], scratch, extra)
        s.proc.wait()
        sys.stdout.write(s.text()[-8000:])
        if s.proc.returncode:
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        print("the replayed case passes")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    scratch = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        for p in ["props", "conc", "conc -race"] + LR:
            try:
                build(p.split()[0], os.path.join(scratch, "x.test"), "-race" in p)
                print("built", p)
            except Unsettable as e:
                print(e)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(a):
    try:
        if a[:1] == ["setup"]:
            return setup()
        if a[:1] == ["replay"] and len(a) == 2:
            return replay(a[1])
        if a[:1] == ["check"] and len(a) >= 2 and a[1] in CHECKS:
            return check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except Infra as e:
        print("ERROR:", e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
