#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

    run.py C12 [--tier quick|thorough] [--seed N] [--case K]    (--case: replay one case)

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: no verdict (build error, inconclusive run, harness error).
"""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, ".build")
LIB = "github.com/jsimonetti/go-artnet"

sys.path.insert(0, HERE)
from properties_meta import META, RULES  # noqa: E402

def goenv():
    env = dict(os.environ)
    for d in ("/opt/veriftools/go1.27.3/bin", "/usr/local/go/bin"):
        if os.path.exists(os.path.join(d, "go")):
            env["PATH"] = d + ":" + env.get("PATH", "")
            break
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1", GOWORK="off", CGO_ENABLED="1")
    env.pop("GODEBUG", None)
    return env

def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)

def sh(cmd, env, cwd, what, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        die("%s failed (%s):\n%s" % (what, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def build(work, env, kind, race):
    """Builds the test binary of one harness package from /repo's working tree."""
    mod = os.path.join(work, "go.mod")
    shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(work, "go.sum"))
    if REPO != "/repo":
        s = open(mod).read().replace("=> /repo", "=> " + REPO)
        open(mod, "w").write(s)
    cmd = ["go", "test", "-c"] + (["-race"] if race else []) + ["-vet=off", "-modfile=" + mod, "-o", os.path.join(work, kind + ".test")]
    if kind == "system":
        sh(["go", "run", "-modfile=" + mod, "./cmd/overlay", "-repo", REPO, "-out", work, "-points"], env, HARNESS, "making the overlay")
        cmd.append("-overlay=" + os.path.join(work, "overlay.json"))
    cmd.append("./" + kind)
    sh(cmd, env, HARNESS, "building")
    return os.path.join(work, kind + ".test")

class Shard:
    def __init__(self, prop, binary, out, no, n, args, env, only, procs):
        self.no, self.out = no, out
        os.makedirs(out, exist_ok=True)
        e = dict(env)
        e.update(VP_PROP=prop, VP_SEED=str(args.seed), VP_TIER=args.tier, VP_SHARD=str(no), VP_NSHARDS=str(n), VP_OUT=out,
                 VP_ONLY=str(only), GOMAXPROCS=str(procs), GOTRACEBACK="all",
                 GORACE="halt_on_error=0 history_size=2 exitcode=0 log_path=" + os.path.join(out, "race.%d" % no))
        self.log = open(os.path.join(out, "log.%d" % no), "w+b")
        self.p = subprocess.Popen([binary, "-test.run", "^Test%s$" % prop, "-test.timeout", "0"], env=e, cwd=out,
                                  stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def text(self):
        self.log.flush()
        with open(self.log.name, "rb") as f:
            return f.read().decode("utf-8", "replace")

    def current(self):
        try:
            a = open(os.path.join(self.out, "current.%d" % self.no)).read().split("\n", 1)
            return int(a[0]), a[1].strip()
        except Exception:
            return -1, "?"

    def result(self):
        try:
            return json.load(open(os.path.join(self.out, "result.%d.json" % self.no)))
        except Exception:
            return None

def crash(text):
    """A Go crash in the log: (message, in the library?)."""
    m = re.search(r"^(panic: .*|fatal error: .*|unexpected fault address.*|SIG[A-Z]+: .*)$", text, re.M)
    if not m:
        return None
    rest = text[m.start():]
    if "fatal error" in m.group(1) and ("deadlock" in m.group(1) or "concurrent map" in m.group(1)):
        return rest[:6000], LIB in rest
    if "deadlock" in m.group(1):
        return rest[:8000], LIB in rest
    # the first goroutine printed is the one that panicked
    g = re.search(r"^goroutine \d+ .*?(?=^\s*$|\Z)", rest, re.M | re.S)
    g = g.group(0) if g else rest
    if "without a pause" in m.group(1): # the simulated network stops who goes on and on in vain
        return rest[:6000], LIB in g
    # the frame that panicked: first frame that is neither runtime nor the standard library
    inlib = False
    for line in g.splitlines()[1:]:
        if line.startswith("\t") or line.startswith("created by"):
            if line.startswith("created by") and LIB in line:
                inlib = True
            continue
        if line.startswith(LIB):
            inlib = True
            break
        if line.startswith("verif/"):
            break
    return rest[:6000], inlib

def races(out, no, own):
    """Race reports in which one of the two accesses is made by the library."""
    found = []
    for f in glob.glob(os.path.join(out, "race.%d.*" % no)):
        t = open(f, errors="replace").read()
        for rep in t.split("==================")[1:]:
            if "DATA RACE" not in rep:
                continue
            lib = False
            for part in re.split(r"\n\s*\n", rep):
                if not re.match(r"\s*(WARNING: DATA RACE\s*)?(Previous )?(atomic )?(read|write|Read|Write)", part.strip()) and "DATA RACE" not in part:
                    continue
                for line in part.splitlines():
                    s = line.strip()
                    if s.startswith("verif/") or s.startswith(own):
                        if s.startswith(own):
                            lib = True
                        break
            found.append((rep.strip(), lib))
    return found

def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    except FileNotFoundError:
        pass
    return out

def setup():
    """Builds every harness once, which also warms the build cache."""
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="setup-", dir=BUILD)
    try:
        for kind, race in (("codec", False), ("codec", True), ("system", False), ("system", True), ("real", True)):
            build(work, goenv(), kind, race)
        print("built")
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main():
    if sys.argv[1:] == ["--setup"]:
        setup()
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case", type=int, default=-1)
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--keep", action="store_true")
    args = ap.parse_args()
    prop = args.prop
    if prop not in META:
        die("unknown property " + prop)
    meta = META[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    env = goenv()
    shards = []
    try:
        ncpu = os.cpu_count() or 4
        bins = [(k, build(work, env, k, meta.get("races", False))) for k in meta["bins"]]
        tb = time.time() - t0
        limit = 780 if args.tier == "quick" else 6 * 3600
        for k, b in bins:
            # a shard takes several cores in the concurrent workloads: fewer shards then
            n = args.shards or meta.get("shards", {}).get(k, ncpu)
            if args.case >= 0:
                n = 1
            for i in range(n):
                procs = meta.get("procs", [2])[i % len(meta.get("procs", [2]))]
                shards.append(Shard(prop, b, os.path.join(work, "out-" + k), i, n, args, env, args.case, procs))
        pending = list(shards)
        bad = None
        while pending and not bad:
            time.sleep(0.05)
            for s in list(pending):
                if s.p.poll() is not None:
                    pending.remove(s)
                    res = s.result()
                    if res is None or res.get("violation") or s.p.returncode in (10, 20):
                        bad = s
                        break
            if time.time() - t0 > limit:
                for s in pending:
                    print("shard %d still at case %d (%s)" % ((s.no,) + s.current()))
                die("time limit reached: inconclusive")
        violation, error = None, None
        if bad:
            for s in pending:
                s.kill()
            res, text = bad.result(), bad.text()
            if res and res.get("violation"):
                violation = res["violation"]
            elif res and res.get("inconclusive"):
                error = res["inconclusive"]
            else:
                c = crash(text)
                no, desc = bad.current()
                if c and "blocked goroutines remain" in c[0] and not meta.get("leaks"):
                    error = "goroutines are left behind after the case, which another property forbids:\n" + c[0]
                elif c and c[1]:
                    violation = {"case": no, "case_description": desc, "message": "the library crashed or blocked for good:\n" + c[0], "history": []}
                elif not c and bad.p.returncode >= 0 and bad.p.returncode not in (2, 10, 20) and "FAIL" not in text and "PASS" not in text:
                    # the harness ends with a result, a signal or a crash; the library asked the program to end
                    violation = {"case": no, "case_description": desc, "message": "the library ended the program (exit status %d): %s" % (bad.p.returncode, text[-2000:]), "history": []}
                else:
                    error = "shard %d ended (exit %s) without a result at case %d (%s):\n%s" % (bad.no, bad.p.returncode, no, desc, text[-5000:])
        nraces = 0
        allraces = []
        for s in shards:
            for rep, lib in races(s.out, s.no, (LIB,) + tuple(meta.get("also", ()))):
                allraces.append((rep, lib, s))
        if not violation and allraces:
            libr = [x for x in allraces if x[1]]
            if libr and meta.get("races"):
                rep, _, s = libr[0]
                violation = {"case": -1, "case_description": "shard %d" % s.no, "message": "data race (%d reports)" % len(libr), "history": rep.splitlines()}
                error = None
            elif not libr and not error:
                error = "data race inside the harness:\n" + allraces[0][0]
        nraces = len(allraces)
        # evidence
        evals, counts, distinct, samples = 0, {}, set(), []
        for s in shards:
            res = s.result()
            if not res:
                continue
            evals += res["evaluations"]
            for k, v in (res.get("counts") or {}).items():
                counts[k] = counts.get(k, 0) + v
            distinct.update(res.get("distinct") or [])
            samples += (res.get("samples") or [])
        if not violation and not error and args.case < 0:
            if evals < meta["min_evals"] or len(distinct) < meta["min_distinct"]:
                error = "the monitors observed too little: %d evaluations, %d distinct (expected at least %d, %d)" % (evals, len(distinct), meta["min_evals"], meta["min_distinct"])
            for k, v in meta.get("min_counts", {}).items():
                if counts.get(k, 0) < v:
                    error = "the monitors observed too little: %s = %d (expected at least %d)" % (k, counts.get(k, 0), v)
        if args.case < 0:
            ev = {"property": prop, "tier": args.tier, "seed": args.seed, "level": meta["level"],
                  "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": RULES[prop], "samples": samples[:6],
                               "observed": counts, "race_reports": nraces, "processes": len(shards), "build_s": round(tb, 1)},
                  "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
            if meta.get("exhaustive"):
                ev["coverage"]["exhaustive"] = True
            tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
            json.dump(ev, open(tmp, "w"), indent=1)
            os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
        if violation:
            os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
            rp = os.path.join(HERE, "evidence", "replay", "%s-seed%d-case%d.json" % (prop, args.seed, violation["case"]))
            violation.update(property=prop, seed=args.seed, tier=args.tier,
                             replay_cmd="python3 run.py %s --tier %s --seed %d --case %d" % (prop, args.tier, args.seed, violation["case"]))
            json.dump(violation, open(rp, "w"), indent=1)
            print("%s: case %s (%s)\n%s" % (prop, violation["case"], violation["case_description"], str(violation["message"])[:3000]))
            for l in (violation.get("history") or [])[-40:]:
                print("    " + l)
            print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
            return 1
        if error:
            die(error)
        for f in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, f))
        print("%s held: %d evaluations, %d distinct, %s; build %.1f s, total %.1f s" % (prop, evals, len(distinct), counts, tb, time.time() - t0))
        return 0
    finally:
        for s in shards:
            if s.p.poll() is None:
                s.kill()
            s.log.close()
        if args.keep:
            print("kept " + work)
        else:
            shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
