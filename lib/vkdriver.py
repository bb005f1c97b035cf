"""Runs the analyses of one property over /repo's current tree and reports."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CLANG = "clang++-20"
VKA = os.path.join(VERIF, "build", "vka")


class NoAnswer(Exception):
    """The analysis could not be carried out: neither pass nor violation."""


class Violation:
    def __init__(self, key, what, where=(), detail=""):
        self.key = key  # stable identity, matched against the known findings
        self.what = what
        self.where = list(where)
        self.detail = detail


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.tmp = tempfile.mkdtemp(prefix="vk_%s_" % prop)
        self.violations = []
        self.obligations = 0
        self.discharged = 0
        self.functions = set()
        self.units = []
        self.samples = []
        self.rules = []
        self.stats = {}
        self._config()

    def _config(self):
        """pystd_config.hpp as the build configures it, from the current template."""
        src = os.path.join(REPO, "include", "pystd_config.hpp.in")
        d = os.path.join(self.tmp, "cfg")
        os.makedirs(d)
        out = []
        for line in open(src):
            if line.startswith("#mesondefine"):
                out.append("#define %s\n" % line.split()[1])
            else:
                out.append(line)
        with open(os.path.join(d, "pystd_config.hpp"), "w") as f:
            f.write("".join(out))
        self.cfg = d

    def includes(self):
        return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + self.cfg]

    def base_flags(self):
        # the project's own flags (meson.build): C++26, no ISO C++ library headers
        return ["-std=c++26", "-nostdinc++", "-DPYSTD_HAS_REGEX"] + self.includes()

    def sh(self, cmd, timeout=600, **kw):
        return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)

    def add(self, v):
        self.violations.append(v)

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


SLOTS = threading.Semaphore(8)  # analyser processes at a time
SHARDS = 8


def contracts(run, fname, epoch, extra=(), prefix=""):
    """Compiles one contract unit against /repo and returns the analyser's verdicts."""
    src = os.path.join(VERIF, "contracts", fname)
    stem = os.path.join(run.tmp, "%s_%s" % (fname.replace(".cpp", ""), epoch))
    cmd = [CLANG] + run.base_flags() + ["-DEPOCH=%s" % epoch, "-I" + os.path.join(VERIF, "contracts"), "-O2", "-gmlt",
           "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-w", "-c", src, "-o", stem + ".bc"] + list(extra)
    first = open(src).readline()
    if first.startswith("// flags:"):
        cmd += first[len("// flags:"):].split()
    r = run.sh(cmd)
    if r.returncode:
        raise NoAnswer("contract unit %s (epoch %s) does not compile against /repo:\n%s" % (fname, epoch, r.stderr[:3000]))

    def shard(i):
        out = "%s.%d.json" % (stem, i)
        with SLOTS:
            r = run.sh([VKA, stem + ".bc", "-o", out, "-prefix", prefix, "-shard", str(i), "-shards", str(SHARDS), "-j", "2"], timeout=880)
        if r.returncode:
            raise NoAnswer("analyser failed on %s: %s" % (fname, r.stderr[-2000:]))
        return json.load(open(out))

    with cf.ThreadPoolExecutor(max_workers=SHARDS) as ex:
        got = [c for part in ex.map(shard, range(SHARDS)) for c in part]
    return sorted(got, key=lambda c: c["name"])


def ends(*units):
    """One obligation of every contract: whatever happens, the program is not ended."""
    def one(run, fname):
        apply_contracts(run, fname, "2026", prefix="", only="the program is not ended")
    return [lambda run, f=f: one(run, f) for f in units]


def folds(fname):
    """Obligations the compiler's optimiser must be able to remove for arbitrary inputs."""
    def rule(run):
        src = os.path.join(VERIF, "contracts", fname)
        r = run.sh([CLANG] + run.base_flags() + ["-DEPOCH=2026", "-I" + os.path.join(VERIF, "contracts"), "-O3", "-mllvm", "-inline-threshold=5000",
                    "-S", "-emit-llvm", "-g0", "-w", "-o", "-", src])
        if r.returncode:
            raise NoAnswer("unit %s does not compile against /repo:\n%s" % (fname, r.stderr[:3000]))
        body, name, n = [], None, 0
        for line in r.stdout.splitlines():
            if line.startswith("define"):
                name = line.split("@VK__")[1].split("(")[0] if "@VK__" in line else None
                body = []
            elif name and line == "}":
                n += 1
                run.obligations += 1
                run.functions.add(name)
                if any("@vk_fail" in b for b in body):
                    run.add(Violation("fold:%s" % name, "%s: the two results are not the same for every input" % name, [], "unit " + fname))
                else:
                    run.discharged += 1
                name = None
            elif name:
                body.append(line)
        if not n:
            raise NoAnswer("no obligation in " + fname)
        run.units.append({"unit": fname, "epoch": "2026", "folded": n})
    return rule


def apply_contracts(run, fname, epoch, extra=(), prefix=None, only=None):
    pre = run.prop + "_" if prefix is None else prefix
    got = contracts(run, fname, epoch, extra, pre)
    if not got:
        raise NoAnswer("no contract named %s* in %s (epoch %s)" % (pre, fname, epoch))
    unit = {"unit": fname, "epoch": epoch, "contracts": len(got)}
    run.units.append(unit)
    for c in got:
        if only:
            c = dict(c, obligations=1, fails=[f for f in c["fails"] if f["text"] == only])
        run.obligations += max(1, c["obligations"])
        bad = 0
        run.stat("contracts")
        run.stat("linear_domain_queries", c.get("queries", 0))
        run.functions.update(f for f in c["functions"])
        seen = set()
        for f in c["fails"]:
            key = "%s:%s:%s" % (epoch, c["name"], f["text"])
            bad += 1
            if key in seen:
                continue
            seen.add(key)
            run.add(Violation(key, "epoch %s, contract %s: obligation `%s` is not established" % (epoch, c["name"][len(pre):], f["text"]),
                              f.get("locs", []), "contract file %s line %s" % (fname, f.get("line"))))
        if not c["reaches"] and not c["fails"] and not only:
            bad += 1
            run.add(Violation("%s:%s:unreachable" % (epoch, c["name"]),
                              "epoch %s, contract %s: the operation can no longer complete" % (epoch, c["name"][len(pre):]),
                              sorted(c["functions"])[:6], "contract file " + fname))
        run.discharged += max(0, max(1, c["obligations"]) - bad)
        if len(run.samples) < 12:
            run.samples.append({"contract": c["name"], "epoch": epoch, "obligations": c["obligations"],
                                "functions": sorted(c["functions"])[:8], "open": [f["text"] for f in c["fails"]]})


def known_findings():
    return json.load(open(os.path.join(VERIF, "known_findings.json")))


def main(prop, spec):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rc = subprocess.run(["bash", os.path.join(VERIF, "setup.sh")], capture_output=True, text=True)
    if rc.returncode:
        print("analyser does not build:\n" + rc.stderr[-3000:])
        return 2
    run = Run(prop)
    run.tier = tier
    try:
        jobs = list(spec.get("rules", []))
        for fname, epochs in spec.get("contracts", []):
            for e in epochs:
                jobs.append(lambda r, fname=fname, e=e: apply_contracts(r, fname, e))
        errs = []
        # contract units are independent: analyse them concurrently
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            futs = [ex.submit(j, run) for j in jobs]
            for f in futs:
                try:
                    f.result()
                except NoAnswer as e:
                    errs.append(str(e))
        return report(run, spec, tier, seed, t0, errs)
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


def report(run, spec, tier, seed, t0, errs):
    prop = run.prop
    kf = known_findings()
    known = {k["key"]: k for k in kf["known"] if k["property"] == prop}
    fresh, listed = [], []
    for v in run.violations:
        (listed if v.key in known else fresh).append(v)
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    for v in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[v.key]["what"]))
    for i, v in enumerate(fresh):
        path = os.path.join(VERIF, "evidence", "replay", "%s-%d.txt" % (prop, i))
        with open(path, "w") as f:
            f.write("property: %s\nkey: %s\nwhat: %s\n%s\n" % (prop, v.key, v.what, v.detail))
            for w in v.where:
                f.write("at: %s\n" % w)
            f.write("re-run: cd /verif && python3 check.py %s\n" % prop)
        if i < 25:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + v.what)
            for w in v.where[:4]:
                print("    at " + w)
    cov = {
        "obligations": run.obligations,
        "discharged": run.discharged,
        "checker_cmd": "python3 check.py %s" % prop,
        "trusted_base": ["clang 20 front end and LLVM 20 analyses", "tool/vka.cpp, tool/absint.hpp, tool/lin.hpp", "contracts/ and lib/ rules"],
        "explanation": spec["explain"],
        "analysed_units": run.units,
        "functions_analysed": len(run.functions),
        "functions_sample": sorted(run.functions)[:25],
        "known_findings": len(listed),
        "samples": run.samples[:12],
        "rules": run.rules,
    }
    cov.update(run.stats)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "proof"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for e in errs:
        print("ERROR " + e)
    if fresh:
        return 1
    if errs:
        return 2
    if run.obligations == 0:
        print("nothing was analysed")
        return 2
    print("%s: %d obligations, %d discharged, %d known findings, %d functions, %.1f s" %
          (prop, run.obligations, run.discharged, len(listed), len(run.functions), time.time() - t0))
    return 0
