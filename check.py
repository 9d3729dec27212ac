#!/usr/bin/env python3
"""check.py PROP  -- decide one property of /repo's working tree (see DESIGN.md, "How a check decides").

 1. vx copies the functions under contract out of /repo and weaves the contracts in; Verus discharges
    every obligation (and a vacuity run in which every function and loop body must be reachable).
 2. All accepted -> held (proved).  A short concrete run of the real code cross-checks the assumptions.
 3. Otherwise the contract is searched for a concrete failing input on the real code; found -> VIOLATION
    with that input.  Not found: a named obligation failed on code whose structure the contracts still
    fit -> VIOLATION ... no-failing-input-found; the verifier could not judge (lost anchor, unsupported
    construct, resource limit) -> the search stands in, labelled bounded.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, VERIF)
from units import PROPS, UNITS  # noqa: E402

PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if len(sys.argv) > 2:
    TIER = sys.argv[2]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
CFG = PROPS[PID]
ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"
ENV.pop("RUSTC_WRAPPER", None)
ENV.pop("CARGO_TARGET_DIR", None)
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
WORK = tempfile.mkdtemp(prefix="vcheck-%s-" % PID)


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace") + "\ntimeout"


# ---------------------------------------------------------------- harness (real code)
class Harness(threading.Thread):
    """builds the search harness against /repo"""

    def __init__(self):
        super().__init__()
        self.pid = None  # property id to search for
        self.bin = None
        self.err = ""

    def run(self):
        h = os.path.join(VERIF, "harness")
        for feats, pid in ((["--features", "structs"], PID), ([], PID)):
            rc, out, err = sh(["cargo", "build", "--offline", "--manifest-path", h + "/Cargo.toml"] + feats, 600)
            self.feats = feats
            if rc == 0:
                self.bin = h + "/target/debug/pz"
                self.pid = PID if feats or PID not in ("U01", "X01", "X02") else {"U01": "M01", "X01": "S02", "X02": "S03"}[PID]
                return
            self.err = err[-3000:]


def search(h, secs, proved):
    """concrete contract search with 8 workers; returns dict(cases, distinct, violation|None, bounds, samples)"""
    res = {"cases": 0, "distinct": 0, "violation": None, "bounds": "", "samples": [], "hangs": []}
    if not h.bin:
        res["bounds"] = "not run: the harness does not build against this tree"
        return res
    n = 8
    procs = []

    def limits():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    for k in range(n):
        cf = os.path.join(WORK, "case%d" % k)
        procs.append((k, cf, subprocess.Popen(
            [h.bin, "search", h.pid, str(secs), str(SEED), str(k), str(n), cf],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, preexec_fn=limits)))
    for k, cf, p in procs:
        try:
            out, _ = p.communicate(timeout=secs + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
        try:
            r = json.loads(out.decode() or "{}")
        except ValueError:
            r = {}
        case = None
        try:
            b = open(cf, "rb").read()
            ln = int.from_bytes(b[:8], "little")
            case = json.loads(b[8:8 + ln].decode())
        except Exception:
            pass
        if r.get("unsupported"):
            res["bounds"] = "not run"
            continue
        res["cases"] += r.get("cases", 0)
        res["distinct"] += r.get("distinct", 0)
        res["bounds"] = r.get("bounds", res["bounds"])
        v = None
        if r.get("violation"):
            v = dict(r["violation"])
        elif r.get("hang"):
            v = {"case": case, "what": "did not finish within %s s" % r["hang"], "hang": True}
        elif p.returncode != 0 and case is not None:
            v = {"case": case, "what": "process died (status %s)" % p.returncode}
        elif case is not None and len(res["samples"]) < 3:
            s = json.dumps(case)
            res["samples"].append(case if len(s) < 600 else s[:600] + "...")
        if v and v.get("hang"):
            res["hangs"].append(v)
        elif v and (res["violation"] is None or len(json.dumps(v)) < len(json.dumps(res["violation"]))):
            v["searched"] = h.pid
            res["violation"] = v
    # slow is not wrong: only a property about termination is broken by it, and only after a second, longer run alone
    if res["hangs"] and res["violation"] is None and not proved and h.pid in ("S03", "N04", "M03", "X02", "U01"):
        v = min(res["hangs"], key=lambda v: len(json.dumps(v)))
        cf = os.path.join(WORK, "hang.json")
        json.dump(v["case"], open(cf, "w"))
        rc, out, err = sh([h.bin, "replay", h.pid, cf], 200)
        if rc != 0:
            v["searched"] = h.pid
            res["violation"] = v
    return res


# ---------------------------------------------------------------- proof
UNSURE = re.compile(r"rlimit|resource limit|timed? ?out|unsupported|not supported|not yet|panicked|canceled", re.I)
OBLIG = re.compile(
    r"(postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
    r"possible arithmetic underflow/overflow|possible division by zero|decreases not satisfied|"
    r"termination|possible bit shift|unreachable|recommendation|cannot show|might not)", re.I)


class Unit(threading.Thread):
    def __init__(self, name, vx, h):
        super().__init__()
        self.h = h
        self.expanded = None
        self.name_ = name
        self.vx = vx
        self.ok = False
        self.failed = []      # (function, message, text, labels)
        self.unsure = []      # reasons why the verifier could not judge
        self.verified = 0
        self.errors = 0
        self.functions = []
        self.problems = []
        self.smt_ms = 0
        self.trusted = []
        self.items = []
        self.canaries = 0
        self.raw = ""

    def expansion(self):
        """rustc's own expansion of the working tree, for derived code (dependencies as the harness built them)"""
        self.h.join()
        man = os.path.join(VERIF, "harness", "Cargo.toml")
        rc, meta, e = sh(["cargo", "metadata", "--offline", "--format-version", "1", "--manifest-path", man], 120)
        if rc != 0:
            return None, "cargo metadata: " + e[-300:]
        meta = json.loads(meta)
        pk = [p for p in meta["packages"] if os.path.dirname(p["manifest_path"]) == REPO][0]
        deps = [n for n in meta["resolve"]["nodes"] if n["id"] == pk["id"]][0]["deps"]
        rc, out, e = sh(["cargo", "build", "--offline", "--manifest-path", man, "--message-format=json"] + self.h.feats, 600)
        art = {}
        for line in out.splitlines():
            if line.startswith("{"):
                m = json.loads(line)
                if m.get("reason") == "compiler-artifact":
                    for f in m["filenames"]:
                        if f.endswith((".rlib", ".so")):
                            art[m["package_id"]] = f
        lib = [t for t in pk["targets"] if "lib" in t["kind"]][0]
        cmd = ["rustc", "--crate-name", lib["name"].replace("-", "_"), "--crate-type", "lib", "--edition", lib["edition"], lib["src_path"],
               "-L", "dependency=" + os.path.join(VERIF, "harness", "target", "debug", "deps"), "-Zunpretty=expanded"]
        for d in deps:
            if d["pkg"] in art:
                cmd += ["--extern", "%s=%s" % (d["name"], art[d["pkg"]])]
        rc, out, e = sh(cmd, 120, env=dict(ENV, RUSTC_BOOTSTRAP="1", CARGO_MANIFEST_DIR=REPO, CARGO_PKG_NAME=pk["name"], CARGO_PKG_VERSION=pk["version"]))
        if rc != 0 or not out:
            return None, "expansion failed: " + e[-300:]
        p = os.path.join(WORK, "expanded.rs")
        with open(p, "w") as f:
            f.write(out)
        return p, None

    def extract(self, canary):
        out = os.path.join(WORK, self.name_ + ("_canary" if canary else "") + ".rs")
        mp = out + ".json"
        env = dict(ENV)
        if canary:
            env["VX_CANARY"] = "1"
        more = ["--expanded", self.expanded] if self.expanded else []
        rc, o, e = sh([self.vx, "--repo", REPO, "--template", "%s/proofs/%s.vt" % (VERIF, self.name_), "--out", out, "--map", mp] + more, 120, env=env)
        if rc != 0:
            return None, None, "extraction failed: " + (e or o)[-500:]
        return out, json.load(open(mp)), None

    def verus(self, path, rlimit=None, timeout=None):
        opts = list(UNITS.get(self.name_, {}).get("verus", []))
        if rlimit:
            opts = [o for o in opts if True] + ["--rlimit", str(rlimit)]
        cmd = ["verus", path, "--output-json", "--time-expanded", "--num-threads", "8", "--triggers-mode", "silent"] + opts + ["--", "--error-format=json"]
        if "_canary" not in path:
            self.cmd = " ".join(["verus", "<extracted %s.rs>" % self.name_] + cmd[2:])
        if "_canary" in path:
            cmd[2:2] = ["--multiple-errors", "60"]
        t = timeout or UNITS.get(self.name_, {}).get("timeout", 400)
        return sh(cmd, t, cwd=WORK)

    def parse(self, rc, out, err, mp):
        failed, unsure = [], []
        try:
            d = json.loads(out[out.index("{"):])
        except ValueError:
            d = {}
        vr = d.get("verification-results", {})
        for line in err.splitlines():
            if not line.startswith("{"):
                continue
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") != "error" or m["message"].startswith("aborting due to"):
                continue
            msg = m["message"]
            lines = sorted({s["line_start"] for s in m.get("spans", [])})
            fn = None
            for f in mp["functions"]:
                if any(f["out_start"] <= l <= f["out_end"] for l in lines):
                    prim = [s["line_start"] for s in m["spans"] if s.get("is_primary")] or lines
                    if any(f["out_start"] <= l <= f["out_end"] for l in prim) or fn is None:
                        fn = f["name"]
            text = m.get("rendered", msg)
            labels = set(re.findall(r"\[([A-Z]\d\d(?: [A-Z]\d\d)*)\]", " ".join(t["text"] for s in m.get("spans", []) for t in s.get("text", []))))
            labels = {x for l in labels for x in l.split()}
            if UNSURE.search(msg) or not OBLIG.search(msg):
                unsure.append("%s: %s" % (fn or "?", msg))
            failed.append((fn, msg, text, labels, bool(UNSURE.search(msg) or not OBLIG.search(msg))))
        if not vr or vr.get("encountered-vir-error") or (rc != 0 and not failed):
            unsure.append("verifier error: " + (err[-400:] if not failed else failed[0][1]))
        return d, vr, failed, unsure

    def run(self):
        try:
            self.go()
        except Exception as e:  # noqa: BLE001
            self.unsure.append("driver: %r" % (e,))

    def go(self):
        if UNITS.get(self.name_, {}).get("expand"):
            self.expanded, e = self.expansion()
            if e:
                self.unsure.append(e)
                return
        path, mp, e = self.extract(False)
        if e:
            self.unsure.append(e)
            return
        self.functions = mp["functions"]
        self.problems = mp["problems"]
        text = open(path).read()
        self.trusted = sorted(set(
            re.sub(r"\s+", " ", m.group(0)) for m in re.finditer(
                r"(assume_specification[^;]{0,160}|#\[verifier::external[^\]]*\]\s*(?:pub )?(?:unsafe )?(?:fn|struct|enum|proof fn|trait|type)?[^\n{]{0,80}|\badmit\(\)|\bassume\([^;]{0,80}|axiom fn[^\n]{0,80}|uninterp spec fn[^\n]{0,80})", text)))
        can = {}

        def canary():
            p2, m2, e2 = self.extract(True)
            if e2:
                can["e"] = e2
                return
            src = open(p2).read().splitlines()
            want = {i + 1 for i, l in enumerate(src) if "// canary " in l}
            hit = set()
            # a probe is reachable once the verifier refuses to prove it; one it gave up on is asked again with more resources
            for rl in (None, 40, 120):
                rc2, o2, er2 = self.verus(p2, rlimit=rl)
                for line in er2.splitlines():
                    if line.startswith("{"):
                        try:
                            m = json.loads(line)
                        except ValueError:
                            continue
                        for s in m.get("spans", []):
                            if s["line_start"] in want and s.get("is_primary"):
                                hit.add(s["line_start"])
                if hit >= want or rc2 == -99 or "esource limit" not in er2 or time.time() - T0 > 300:
                    break
            can["want"], can["hit"] = want, hit
            can["miss"] = [src[i - 1].split("// canary ")[1] for i in sorted(want - hit)]

        ct = threading.Thread(target=canary)
        ct.start()
        rc, out, err = self.verus(path)
        d, vr, failed, unsure = self.parse(rc, out, err, mp)
        ct.join()
        if failed and not vr.get("encountered-vir-error") and rc != -99 and vr:
            # once more with four times the resources: is it the obligation or the solver?
            base = UNITS.get(self.name_, {}).get("rlimit", 30)
            rc, out, err2 = self.verus(path, rlimit=base * 4, timeout=300)
            d2, vr2, failed2, unsure2 = self.parse(rc, out, err2, mp)
            if vr2 and rc != -99:
                d, vr, failed, unsure, err = d2, vr2, failed2, unsure2, err2
        self.raw = err[-20000:]
        self.verified = vr.get("verified", 0)
        self.errors = vr.get("errors", 0)
        try:
            smt = d["times-ms"]["smt"]
            self.smt_ms = smt["total"]
            for mod in smt["smt-run-module-times"]:
                for f in mod.get("function-breakdown", []):
                    self.items.append((f["function"].split("::", 1)[-1], f["mode:"], f["time"], f["success"]))
        except (KeyError, TypeError):
            pass
        allowed = set(UNITS.get(self.name_, {}).get("dead", []))
        miss = [m for m in can.get("miss", []) if m not in allowed]
        self.canaries = len(can.get("hit", ()))
        if can.get("e"):
            unsure.append(can["e"])
        elif not failed and not unsure:
            if not can.get("want") or not can.get("hit"):
                unsure.append("vacuity run gave no answer")
            elif miss:
                unsure.append("vacuous (unreachable under its contract): " + ", ".join(miss))
        self.failed, self.unsure = failed, unsure
        self.unsure += [p for p in self.problems if "no function" in p or "missing" in p.lower()]
        if failed:
            self.unsure += [p for p in self.problems]
        self.ok = not self.failed and not self.unsure and vr.get("success") is True and self.verified > 0


def relevant(u, f):
    """does failed obligation f of unit u bear on this property?"""
    fn, msg, text, labels, un = f
    if labels:
        return PID in labels
    only = CFG.get("functions", {}).get(u.name_)
    if only is None or fn is None:
        return True
    return fn in only


def main():
    vxdir = os.path.join(VERIF, "vx")
    h = Harness()
    rc, o, e = sh(["cargo", "build", "--offline", "--release", "--manifest-path", vxdir + "/Cargo.toml"], 300)
    if rc != 0:
        log("extraction tool does not build", e[-500:])
    vx = vxdir + "/target/release/vx"
    h.start()
    units = [Unit(n, vx, h) for n in CFG["units"]]
    for u in units:
        u.start()
    for u in units:
        u.join()
    proved = True
    undecided, broken = [], []
    for u in units:
        rel = [f for f in u.failed if relevant(u, f)]
        if u.ok or (u.failed and not rel and not u.unsure):
            # obligations of other properties may fail in a shared unit; callers rely on contracts only
            other = [f for f in u.failed if not relevant(u, f)]
            if other:
                proved = False
                undecided.append("%s: an obligation of another property failed: %s" % (u.name_, other[0][1]))
        else:
            proved = False
            undecided += ["%s: %s" % (u.name_, x) for x in u.unsure]
            if not u.unsure:
                broken += [(u.name_, f) for f in rel]
        log("unit %s: %d verified, %d errors, %d reachability probes, %d ms solver%s" % (
            u.name_, u.verified, u.errors, u.canaries, u.smt_ms, "" if u.ok else "; " + "; ".join([f[1] + " in " + str(f[0]) for f in u.failed][:5] + u.unsure[:5])))
    h.join()
    if not h.bin:
        log("harness does not build:", h.err[-600:])
    thorough = TIER == "thorough"
    secs = (120 if thorough else 4) if proved else (300 if thorough else 60)
    res = search(h, secs, proved)
    log("concrete runs: %d cases (%s)" % (res["cases"], res["bounds"]))
    # known findings: listed inputs are reported and not counted
    known = []
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"finding: property=(\w+) (.*)", line.strip())
            if m and m.group(1) == PID:
                known.append(m.group(2))
                print("KNOWN-FINDING: property=%s %s" % (PID, m.group(2)))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, PID + ".json")
    violation = None
    if res["violation"]:
        v = res["violation"]
        json.dump({"property": v["searched"], "case": v["case"], "what": v["what"],
                   "replay": "harness/target/debug/pz replay %s %s" % (v["searched"], rfile),
                   "failed_obligations": [[u, f[0], f[1]] for u, f in broken]}, open(rfile, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s" % (PID, rfile)
        log("failing input:", json.dumps(v["case"])[:500], "--", v["what"][:500])
    elif broken:
        # name the obligations, with the verifier's output
        json.dump({"property": PID, "failed_obligations": [
            {"unit": u, "function": f[0], "obligation": f[1], "verifier": f[2]} for u, f in broken],
            "searched": {"cases": res["cases"], "bounds": res["bounds"]}}, open(rfile, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (PID, rfile)
        for u, f in broken[:5]:
            log("failed obligation in %s (%s): %s" % (f[0], u, f[2].strip()))
    elif undecided:
        log("UNDECIDED by the verifier, bounded search is quiet:", "; ".join(undecided)[:1500])
    # evidence
    obligations = sum(u.verified + u.errors for u in units)
    discharged = sum(u.verified for u in units)
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "; ".join(getattr(u, "cmd", "") for u in units),
        "trusted_base": ["Verus 0.2026.09.13 with Z3", "vx extraction rules (DESIGN.md)"] + sorted({t for u in units for t in u.trusted}),
        "back_end": "Verus/Z3; an obligation is one function's or lemma's set of verification conditions",
        "functions_under_contract": sorted({f["name"] + " (" + f["file"] + ")" for u in units for f in u.functions if f["contract"]}),
        "extraction_rewrites": sorted({f["name"] + ": " + n for u in units for f in u.functions for n in f["notes"]}),
        "reachability_probes_hit": sum(u.canaries for u in units),
        "solver_ms": sum(u.smt_ms for u in units),
        "slowest": sorted([[f, t] for u in units for f, m, t, s in u.items], key=lambda x: -x[1])[:5],
        "undecided": undecided,
        "failed": [[u, f[0], f[1]] for u, f in broken],
        "concrete_cross_check": {"evaluations": res["cases"], "distinct": res["distinct"], "bounds": res["bounds"], "searched": h.pid},
    }
    level = CFG.get("level", "proof")
    if not proved:
        level = "exploration"
        cov["evaluations"] = res["cases"]
        cov["distinct_nontrivial"] = res["distinct"]
        cov["rule"] = "BOUNDED stand-in (the verifier did not discharge everything): enumerated then random cases, distinct by content; " + res["bounds"]
        cov["samples"] = res["samples"] or ["none"]
    if CFG.get("bounded"):
        cov["bounded_parts"] = CFG["bounded"]
        cov["samples"] = res["samples"]
    ev = {"property": PID, "tier": "thorough" if thorough else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": CFG.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", PID + ".json"), "w"), indent=1)
    if violation:
        print(violation, flush=True)
        return 1
    log("%s %s: %s" % (PID, "held", "proved" if proved else "bounded only"))
    return 0


try:
    rc = main()
finally:
    shutil.rmtree(WORK, ignore_errors=True)
sys.exit(rc)
