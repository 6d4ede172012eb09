#!/usr/bin/env python3
"""Runs the generated-input check of one property against /repo's working tree.

  check.py ID [--tier quick|thorough]     decide the property
  check.py --replay FILE                  run one recorded case again
  check.py --setup                        build everything once

Exit 0: the property held on everything explored. Exit 1: violated, with a line
VIOLATION property=ID replay=PATH. Exit 2: the check itself could not run.
"""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
KNOWN = os.path.join(HERE, "known-findings.txt")
RACE = {"R01"}
SHARDS = 8
FUZZ = {"C03": ("FuzzHostile", "hostile octets"), "C09": ("FuzzOctets", "any octets"), "C14": ("FuzzOctets", "any octets"), "K11": ("FuzzReply", "any frame in reply")}
FUZZ_S = 200

ASSUMPTIONS = [
    "the oracle (harness/ref, an independent BACnet codec, and the models in harness/checks) states the standard correctly",
    "inputs outside the generators' stated ranges are not explored",
]


def environment():
    env = dict(os.environ)
    env.update(HOME=env.get("HOME", "/root"), GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off")
    env.pop("GODEBUG", None)
    for k in list(env):
        if k.startswith("VERIF_") and k != "VERIF_SEED":
            del env[k]
    return env


def seed():
    try:
        s = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        s = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    return s


def build(out, race):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.insert(3, "-race")
    p = subprocess.run(cmd + ["./checks"], cwd=HARNESS, env=environment(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        print("ERROR: the harness does not build against /repo")
        sys.exit(2)


def fuzz(prop, work):
    """The coverage-guided search of the thorough tier: (stats, failure, note)."""
    target, facet = FUZZ[prop]
    binary, out, cache, log = (os.path.join(work, n) for n in ("fuzz.test", "fuzz.json", "fuzzcache", "fuzz.log"))
    p = subprocess.run(["go", "test", "-c", "-vet=off", "-fuzz=" + target, "-o", binary, "./checks"], cwd=HARNESS, env=environment(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, None, "the fuzz target does not build: " + p.stdout[-500:]
    where = os.path.join(work, "fuzz")
    os.makedirs(where)
    e = environment()
    e.update(VERIF_PROP=prop, VERIF_FUZZ_OUT=out, VERIF_LOUD="1", TMPDIR=where)
    started = time.time()
    with open(log, "w") as f:
        p = subprocess.Popen([binary, "-test.run", "^$", "-test.fuzz", "^%s$" % target, "-test.fuzztime", "%ds" % FUZZ_S, "-test.fuzzminimizetime", "10s",
                              "-test.fuzzcachedir", cache, "-test.parallel", str(SHARDS), "-test.timeout", "0"],
                             cwd=where, env=e, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(FUZZ_S + 60)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    if rc != 0 and not os.path.exists(out):
        e["VERIF_FUZZ_SAVE"] = "1"
        try:
            rc2 = subprocess.run([binary, "-test.run", "^%s$" % target, "-test.timeout", "60s"], cwd=where, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90).returncode
        except subprocess.TimeoutExpired:
            rc2 = None
        if rc2 == 0 and os.path.exists(out):
            os.remove(out)
    with open(log, errors="replace") as f:
        text = f.read()
    runs = re.findall(r"execs: (\d+)", text)
    new = re.findall(r"new interesting: (\d+) \(total: (\d+)\)", text)
    st = {"facet": facet + " (coverage-guided)", "rule": "the input was kept because it reaches something no earlier one did", "evaluations": int(runs[-1]) if runs else 0,
          "nontrivial": int(new[-1][1]) if new else 0, "wall_s": time.time() - started, "timed_out": False, "samples": corpus(cache), "labels": {}}
    st["hashes"] = ["fuzz%d" % i for i in range(st["nontrivial"])]
    try:
        with open(out) as f:
            r = json.load(f)
        return st, {"facet": facet, "case": r["case"], "message": r["message"], "kind": "fail", "realtime": True}, None
    except (OSError, ValueError):
        return st, None, None if rc == 0 else "the fuzzer ended with %s: %s" % (rc, text[-600:])


def corpus(cache):
    """A few of the inputs the fuzzer kept."""
    out = []
    for d, _, files in os.walk(cache):
        for n in sorted(files)[:3]:
            with open(os.path.join(d, n), errors="replace") as f:
                out.append(f.read().splitlines()[1:])
    return out


class Proc:
    """One process of the test binary."""

    def __init__(self, binary, work, name, env, race=False):
        self.dir = os.path.join(work, name)
        os.makedirs(self.dir, exist_ok=True)
        self.out = os.path.join(self.dir, "out.json")
        self.cur = os.path.join(self.dir, "current")
        self.log = os.path.join(self.dir, "log")
        e = environment()
        e.update(VERIF_OUT=self.out, VERIF_CURRENT=self.cur, TMPDIR=self.dir, **{k: str(v) for k, v in env.items()})
        e["VERIF_SEED"] = str(seed())
        if race:
            e["GORACE"] = "halt_on_error=1 exitcode=66"
        e["GOMAXPROCS"] = str(env.get("PROCS", 4))
        self.started = time.time()
        self.p = subprocess.Popen([binary, "-test.run", "^TestProp$", "-test.timeout", "0"], cwd=self.dir, env=e,
                                  stdin=subprocess.DEVNULL, stdout=open(self.log, "w"), stderr=subprocess.STDOUT, start_new_session=True)

    def wait(self, limit):
        try:
            self.rc = self.p.wait(max(1, limit - (time.time() - self.started)))
            self.late = False
        except subprocess.TimeoutExpired:
            self.late = True
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.rc = self.p.wait()
        try:
            with open(self.out) as f:
                self.res = json.load(f)
        except (OSError, ValueError):
            self.res = None
        return self

    def current(self):
        try:
            with open(self.cur, "rb") as f:
                b = f.read()
            return json.loads(b[:b.index(b"\0")])
        except (OSError, ValueError):
            return None

    def tail(self):
        with open(self.log, "rb") as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - 400000))
            s = f.read().decode("utf8", "replace")
        i = max(s.rfind("\npanic: "), s.rfind("\nfatal error: "), s.rfind("WARNING: DATA RACE"))
        if i < 0 and s.startswith(("panic: ", "fatal error: ")):
            i = 0
        return s[i:i + 5000] if i >= 0 else s[-3000:]

    def done(self):
        return self.res is not None and self.res.get("done")


def signature(text):
    """What makes two crashes the same one: the kind and the first function of the repository."""
    kind = re.search(r"(panic|fatal error|DATA RACE|memory exhausted)", text)
    fn = re.search(r"github\.com/NubeDev/bacnet[\w./]*\.[\w().*]+", text)
    return (kind.group(1) if kind else "", fn.group(0) if fn else "")


def outcome(proc):
    """(message, kind) of a finished replay process, message is None if the case passed."""
    if proc.done():
        f = proc.res.get("failures") or []
        return (f[0]["message"], "fail") if f else (None, "pass")
    if proc.res is not None and proc.res.get("hang"):
        return "the case hangs or exhausts the memory:\n" + proc.res["hang"], "hang"
    if proc.late:
        return "the case does not end:\n" + proc.tail(), "hang"
    return "the process dies:\n" + proc.tail(), "crash"


class Replayer:
    def __init__(self, binary, work, race, known=None):
        self.binary, self.work, self.race, self.known, self.n = binary, work, race, known or os.devnull, 0

    def run(self, prop, facet, case, repeat=1, limit=120):
        self.n += 1
        path = os.path.join(self.work, "replay%d.json" % self.n)
        with open(path, "w") as f:
            json.dump({"property": prop, "facet": facet, "case": case}, f)
        p = Proc(self.binary, self.work, "r%d" % self.n, {"VERIF_REPLAY": path, "VERIF_REPEAT": repeat, "VERIF_KNOWN": self.known}, self.race).wait(limit)
        r = outcome(p)
        shutil.rmtree(p.dir, ignore_errors=True)
        return r


def smaller(x):
    """Simpler variants of a JSON value, the simplest first."""
    if isinstance(x, list):
        n = len(x)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                yield x[:i] + x[i + size:]
            size //= 2
        for i, e in enumerate(x):
            for s in smaller(e):
                yield x[:i] + [s] + x[i + 1:]
    elif isinstance(x, dict):
        for k in x:
            for s in smaller(x[k]):
                yield {**x, k: s}
    elif isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        if x:
            yield 0
            if abs(x) > 1:
                yield x // 2 if x > 0 else -(-x // 2)
                yield x - 1 if x > 0 else x + 1


def shrink(rep, prop, facet, case, message, budget):
    """Shrinks a case that takes the process down, which rapid can't do from inside."""
    end, sig, best = time.time() + budget, signature(message), message
    progress = True
    while progress and time.time() < end:
        progress = False
        for s in smaller(case):
            if time.time() >= end:
                break
            m, kind = rep.run(prop, facet, s, repeat=3, limit=60)
            if m and kind == "crash" and signature(m) == sig:
                case, best, progress = s, m, True
                break
    return case, best


def evidence(prop, tier, started, stats, violations, note):
    by = {}
    for st in stats:
        f = by.setdefault(st["facet"], {"rule": st["rule"], "evaluations": 0, "nontrivial": 0, "hashes": set(), "classes": {}, "samples": [], "cpu_s": 0.0, "cut_short": False})
        f["evaluations"] += st["evaluations"]
        f["nontrivial"] += st["nontrivial"]
        f["hashes"].update(st.get("hashes") or [])
        f["samples"] += st.get("samples") or []
        f["cpu_s"] += st["wall_s"]
        f["cut_short"] = f["cut_short"] or st["timed_out"]
        for k, v in (st.get("labels") or {}).items():
            f["classes"][k] = f["classes"].get(k, 0) + v
    facets, samples = {}, []
    for name, f in by.items():
        samples += [{"facet": name, "case": s} for s in f["samples"][:3]]
        facets[name] = {"evaluations": f["evaluations"], "nontrivial": f["nontrivial"], "distinct_nontrivial": len(f["hashes"]), "rule": f["rule"],
                        "classes": dict(sorted(f["classes"].items())), "process_seconds": round(f["cpu_s"], 2), "cut_short": f["cut_short"]}
    e = {
        "property": prop, "tier": tier, "seed": seed(), "level": "exploration",
        "coverage": {
            "evaluations": sum(f["evaluations"] for f in facets.values()),
            "distinct_nontrivial": sum(f["distinct_nontrivial"] for f in facets.values()),
            "rule": "cases are drawn by rapid from the facet's generator; non-trivial: " + "; ".join("%s: %s" % (n, f["rule"]) for n, f in facets.items()),
            "samples": samples,
            "facets": facets,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - started, 2),
        "violations": violations,
    }
    if note:
        e["coverage"]["note"] = note
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
    os.replace(path + ".tmp", path)
    return e


def known(prop):
    """The recorded findings of the property that are not repaired: (facet, case, text)."""
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) facet=\"([^\"]*)\" case=(\{.*?\}) # (.*)", line)
                if m and m.group(1) == prop:
                    out.append((m.group(2), json.loads(m.group(3)), m.group(4).strip()))
    except OSError:
        pass
    return out


def case_id(facet, case):
    return hashlib.sha256(json.dumps([facet, case], sort_keys=True).encode()).hexdigest()[:16]


def check(prop, tier, only):
    started = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, tier, only, started, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, only, started, work):
    race = prop in RACE
    binary = os.path.join(work, "checks.test")
    build(binary, race)
    p = Proc(binary, work, "list", {"VERIF_PROP": prop, "VERIF_LIST": 1}).wait(120)
    if not p.done():
        print(p.tail())
        print("ERROR: can't list the facets of %s" % prop)
        return 2
    infos = p.res["facets"]
    findings = known(prop)
    kpath = os.path.join(work, "known.json")
    with open(kpath, "w") as f:
        json.dump([{"facet": fc, "case": c} for fc, c, _ in findings], f)
    total = 120 if tier == "quick" else 480
    if tier != "quick" and prop in FUZZ:
        total -= FUZZ_S
    base = {"VERIF_PROP": prop, "VERIF_TIER": tier, "VERIF_SHARDS": SHARDS, "VERIF_FACET_BUDGET_S": max(10, total // len(infos)), "VERIF_KNOWN": kpath}
    if only:
        base["VERIF_FACET"] = only
    limit = 420 if tier == "quick" else 840
    parallel = any(not i["single"] for i in infos)
    procs = [Proc(binary, work, "s%d" % i, {**base, "VERIF_SHARD": i, "PROCS": 2 if parallel else 4}, race) for i in range(SHARDS if parallel else 1)]
    stats, failures, broken = [], [], []
    rep = Replayer(binary, work, race, kpath)
    for p in procs:
        p.wait(limit)
    for i, p in enumerate(procs):
        if p.res:
            stats += p.res.get("stats") or []
            for f in p.res.get("failures") or []:
                failures.append({**f, "kind": "fail"})
        if p.done():
            continue
        cur = p.current()
        m, kind = outcome(p)
        if cur is None or (kind == "crash" and signature(m)[0] == "" and p.rc in (-9, -15)):
            broken.append("process %d ended with %s: %s" % (i, p.rc, m[-1500:]))
            continue
        failures.append({"facet": cur["facet"], "case": cur["case"], "message": m, "realtime": False, "kind": kind})

    if tier == "thorough" and prop in FUZZ and not only and not failures:
        st, failure, note = fuzz(prop, work)
        stats += [st] if st else []
        failures += [failure] if failure else []
        fuzznotes = [note] if note else []
    else:
        fuzznotes = []

    # one failure for each facet, the smallest case
    failures.sort(key=lambda f: (f["kind"] != "fail", len(json.dumps(f["case"]))))
    violations, notes, seen = [], fuzznotes, set()
    for f in failures:
        if f["facet"] in seen:
            continue
        again = None
        tries = 3 if f["kind"] != "fail" else 2
        for _ in range(tries):
            m, kind = rep.run(prop, f["facet"], f["case"], repeat=20 if race or f["kind"] == "crash" else 3)
            if m:
                again = (m, kind)
                break
        if again is None:
            if f["realtime"] or f["kind"] == "hang":
                notes.append("not reproduced, ignored: %s: %s" % (f["facet"], f["message"][:300]))
                continue
            f["message"] += "\n(seen once; it depends on the schedule and did not repeat in the replays)"
        else:
            f["message"] = again[0]
            if again[1] == "crash":
                f["case"], f["message"] = shrink(rep, prop, f["facet"], f["case"], again[0], 40 if tier == "quick" else 120)
        if any(fc == f["facet"] and c == f["case"] for fc, c, _ in findings):
            continue
        seen.add(f["facet"])
        violations.append(f)
    for _, _, text in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    e = evidence(prop, tier, started, stats, len(violations), "\n".join(notes + broken))
    for n in notes:
        print("NOTE:", n)
    for n, f in e["coverage"]["facets"].items():
        print("%s %s: %d cases, %d distinct non-trivial%s" % (prop, n, f["evaluations"], f["distinct_nontrivial"], " (cut short)" if f["cut_short"] else ""))
    if violations:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for f in violations:
            name = "%s-%s-%s.json" % (prop, re.sub(r"\W+", "_", f["facet"]), case_id(f["facet"], f["case"])[:10])
            path = os.path.join(HERE, "replays", name)
            with open(path, "w") as o:
                json.dump({"property": prop, "facet": f["facet"], "case": f["case"], "message": f["message"]}, o, indent=1)
            print("facet %s: %s" % (f["facet"], f["message"][:3000]))
            print("case: %s" % json.dumps(f["case"])[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if broken:
        for b in broken:
            print("ERROR:", b)
        return 2
    if e["coverage"]["evaluations"] == 0:
        print("ERROR: nothing was run")
        return 2
    print("OK property=%s %d cases in %.1f s" % (prop, e["coverage"]["evaluations"], e["wall_s"]))
    return 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property", nargs="?")
    a.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--facet", default="")
    a.add_argument("--replay")
    a.add_argument("--setup", action="store_true")
    o = a.parse_args()
    if o.setup:
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            for race in (False, True):
                build(os.path.join(work, "x"), race)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    if o.replay:
        with open(o.replay) as f:
            r = json.load(f)
        work = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            race = r["property"] in RACE
            build(os.path.join(work, "b"), race)
            m, _ = Replayer(os.path.join(work, "b"), work, race).run(r["property"], r["facet"], r["case"], repeat=20 if race else 3)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if m:
            print(m)
            print("VIOLATION property=%s replay=%s" % (r["property"], o.replay))
            return 1
        print("the case passes")
        return 0
    return check(o.property, o.tier, o.facet)


if __name__ == "__main__":
    sys.exit(main())
