#!/usr/bin/env python3
"""check.py PID quick|thorough : decide one property on /repo's working tree.

 1. extract the functions under contract from /repo's current source and let
    Verus discharge every obligation of the property's units;
 2. run the concrete-execution harness of the property against the real code
    (replays of failed obligations; bounded stand-in for what is not under
    contract).
Exit 0 held, 1 violated (VIOLATION line), 2 the check itself is broken.
"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
START = time.time()
V = "/verif"
sys.path.insert(0, V + "/tools")
import props
REPO = "/repo"
EXTRACT = V + "/target/tools/release/zkextract"
HARNESS = V + "/target/harness/debug/zkh"
DBG = V + "/target/harness/zkh-dbg"
OUTD = V + "/target/verus"


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return 124, d(e.stdout), d(e.stderr)


def build_tools():
    if not os.path.exists(EXTRACT):
        rc, o, e = sh(["cargo", "build", "--offline", "--release"], 600, cwd=V + "/tools/zkextract",
                      env=dict(os.environ, CARGO_TARGET_DIR=V + "/target/tools", CARGO_NET_OFFLINE="true"))
        if rc != 0:
            raise RuntimeError("zkextract does not build:\n" + e[-2000:])


# ---------------------------------------------------------------- harness
def harness(pid, seed, tier):
    rc, o, e = sh(["bash", V + "/tools/hbuild.sh"], 500)
    if rc != 0:
        return {"status": "nobuild", "log": (o + e)[-6000:]}
    # the second run has the crate's debug assertions compiled in: they must not reject what holds
    with ThreadPoolExecutor(2) as ex:
        fh = ex.submit(run_harness, HARNESS, pid, seed, tier, "")
        fd = ex.submit(run_harness, DBG, pid, seed + 1000, "quick", "d")
        h, d = fh.result(), fd.result()
    for f in d["failures"]:
        f["input"] = "with debug assertions: " + str(f["input"])
        f["command"] = d["cmd"]
    h["failures"] = h["failures"] + d["failures"]
    for k in ("evaluations", "distinct"):
        h[k] = h.get(k, 0) + d.get(k, 0)
    for k, n in d.get("kinds", {}).items():
        if isinstance(n, int) and isinstance(h["kinds"].get(k, 0), int):
            h["kinds"][k] = h["kinds"].get(k, 0) + n
    h["debug_assertions_run"] = {"cmd": d["cmd"], "evaluations": d["evaluations"], "failures": len(d["failures"])}
    return h


def run_harness(binary, pid, seed, tier, tag):
    out = "%s/target/h%s_%s.json" % (V, tag, pid)
    if os.path.exists(out):
        os.unlink(out)
    lim = 330 if tier == "quick" else 5400
    cmd = [binary, pid, "--seed", str(seed), "--tier", tier, "--out", out]
    rc, o, e = sh(cmd, lim)
    cmdline = " ".join(cmd[:-2])
    if rc == 124:
        return {"status": "ran", "cmd": cmdline, "evaluations": 0, "distinct": 0, "kinds": {}, "samples": [],
                "failures": [{"key": pid + "/no-termination", "input": "the harness did not finish within %d s" % lim}]}
    if rc != 0 or not os.path.exists(out):
        return {"status": "ran", "cmd": cmdline, "evaluations": 0, "distinct": 0, "kinds": {}, "samples": [],
                "failures": [{"key": pid + "/abort", "input": "the code under test ended the process (rc %s): %s" % (rc, e[-500:])}]}
    d = json.load(open(out))
    d["status"] = "ran"
    d["cmd"] = cmdline
    return d


# ------------------------------------------------------------------ verus
def blocks(text):
    """line ranges of extracted functions: [(first, last, head)]"""
    res, cur = [], None
    for n, l in enumerate(text.split("\n"), 1):
        m = re.match(r"\s*// ZKFN-BEGIN (.*)", l)
        if m:
            cur = (n, m.group(1).strip())
        elif re.match(r"\s*// ZKFN-END", l) and cur:
            res.append((cur[0], n, cur[1]))
            cur = None
    return res


def verus_run(path, rlimit, seed, timeout):
    cmd = ["verus", "--crate-type=lib", path, "--rlimit", str(rlimit), "--multiple-errors", "3",
           "--output-json", "--time-expanded"]
    if seed:
        cmd += ["--smt-option", "smt.random_seed=%d" % seed, "--smt-option", "sat.random_seed=%d" % seed]
    t = time.time()
    rc, o, e = sh(cmd, timeout, cwd=OUTD)
    r = {"cmd": " ".join(cmd), "rc": rc, "stderr": e, "wall": time.time() - t}
    try:
        r["json"] = json.loads(o)
    except Exception:
        r["json"] = None
    return r


def errors_of(stderr):
    """[(message, [line numbers], text)]"""
    out = []
    for part in re.split(r"(?m)^(?=error)", stderr):
        if not part.startswith("error"):
            continue
        part = re.split(r"(?m)^(?=warning|note: )", part)[0]
        msg = part.split("\n", 1)[0]
        if msg.startswith("error: aborting") or "previous error" in msg:
            continue
        lines = [int(x) for x in re.findall(r"(?m)^\s*--> [^\n:]*:(\d+):", part)]
        lines += [int(x) for x in re.findall(r"(?m)^\s*(\d+) +\|", part)]
        out.append((msg, lines, part))
    return out


PROOF_ERR = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion fail|possible arithmetic|"
                       r"possible division by zero|decreases not satisfied|loop.*ensures|not satisfied|assert_by|recommendation not met|"
                       r"unable to prove|could not prove|failed|possible")
RLIM = re.compile(r"[Rr]esource limit|rlimit|timed? ?out")


def fnset(j):
    """{function: success} over the modules of this crate"""
    r = {}
    try:
        for m in j["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m["function-breakdown"]:
                r[f["function"]] = r.get(f["function"], True) and bool(f["success"])
    except Exception:
        pass
    return r


def trusted_of(text):
    """names declared without proof in a unit (external bodies, assumed specs)"""
    res = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if "/*imported*/" in l:   # discharged in the imported file's own unit
            continue
        if "external_body" in l or "assume_specification" in l or re.search(r"\buninterp spec fn\b", l):
            for k in range(i, min(i + 4, len(lines))):
                m = re.search(r"\b(?:fn|struct)\s+(\w+)", lines[k]) or re.search(r"assume_specification.*\[\s*([^\]]+)\]", lines[k])
                if m:
                    res.append(m.group(1).strip())
                    break
    return sorted(set(res))


def unit(name, tier):
    src = "%s/verus/%s.rs" % (V, name)
    out = "%s/%s.rs" % (OUTD, name)
    u = {"unit": name, "functions": [], "obligations": 0, "discharged": 0, "solver_ms": 0, "fails": [], "log": ""}
    if os.path.exists(out):
        os.unlink(out)
    rc, o, e = sh([EXTRACT, REPO, src, out], 60)
    try:
        st = json.loads(o.strip().split("\n")[-1])
    except Exception:
        st = {"status": "extractor-error"}
    if rc != 0 or st.get("status") != "ok":
        u["status"] = "undecided"
        u["why"] = "extraction: %s" % json.dumps(st)[:1500] + (e[-500:] if e else "")
        return u
    text = open(out).read()
    u["functions"] = st.get("functions", [])
    u["notes"] = st.get("notes", {})
    u["trusted"] = trusted_of(text)
    bl = blocks(text)
    attempts = [(60, 0), (150, 7), (150, 23), (300, 91)]
    if tier == "thorough":
        attempts += [(600, s) for s in (101, 202)]
    ok, t0 = {}, START if tier == "quick" else time.time()
    for k, (rl, seed) in enumerate(attempts):
        if k and time.time() - t0 > (300 if tier == "quick" else 1500):
            break
        # a quick check has 900 s for all its units and the harness together
        r = verus_run(out, rl, seed, max(30, min(400, 600 - (time.time() - t0))) if tier == "quick" else 1800)
        u["cmd"] = r["cmd"] if k == 0 else u["cmd"]
        j = r["json"]
        vr = (j or {}).get("verification-results", {})
        if j is None or vr.get("encountered-vir-error") or "verified" not in vr:
            u["status"] = "undecided"
            u["why"] = "verus could not read the extracted text (rc %s): %s" % (r["rc"], r["stderr"][-1500:])
            u["log"] = r["stderr"][-4000:]
            return u
        fs = fnset(j)
        for f, s in fs.items():
            ok[f] = ok.get(f, False) or s
        u["obligations"] = max(u["obligations"], vr["verified"] + vr["errors"])
        try:
            u["solver_ms"] += j["times-ms"]["smt"]["smt-run"]
        except Exception:
            pass
        if vr.get("success") and vr["errors"] == 0:
            u["status"] = "proved"
            u["discharged"] = vr["verified"]
            u["attempts"] = k + 1
            u["fails"] = []
            return u
        er = errors_of(r["stderr"])
        if not er or any(re.match(r"error\[E\d+\]", m) for m, _, _ in er):
            u["status"] = "undecided"
            u["why"] = "verus rejected the extracted text: " + r["stderr"][-1500:]
            u["log"] = r["stderr"][-4000:]
            return u
        fails = []
        for msg, ls, part in er:
            hit = None
            for a, b, head in bl:
                if any(a <= x <= b for x in ls[:1]):
                    hit = head
                    break
            kind = "rlimit" if RLIM.search(part) else ("obligation" if PROOF_ERR.search(msg) else "other")
            fails.append({"message": msg, "function": hit, "kind": kind, "text": part[:2500]})
        u["fails"] = fails
        u["discharged"] = max(u["discharged"], vr["verified"])
        u["log"] = r["stderr"][-8000:]
        if ok and all(ok.get(f) for f in ok) and set(fs) <= set(ok):
            u["status"] = "proved"  # every function accepted in one of the runs
            u["discharged"] = u["obligations"]
            u["attempts"] = k + 1
            u["fails"] = []
            return u
        if any(x["kind"] == "other" for x in fails):
            u["status"] = "undecided"
            u["why"] = "verus: " + [x for x in fails if x["kind"] == "other"][0]["text"][:1500]
            return u
    real = [x for x in u["fails"] if x["function"] and x["kind"] == "obligation"]
    if real:
        u["status"] = "failed"
    else:
        u["status"] = "undecided"
        u["why"] = "no obligation of the code itself failed definitely (resource limit, or a failure in lemma text only)"
    return u


def known():
    """{key: (pid, text)} ; fixed entries suppress nothing"""
    k = {}
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                k[m.group(2)] = (m.group(1), m.group(3))
    return k


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = START
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    os.makedirs(OUTD, exist_ok=True)
    build_tools()
    with ThreadPoolExecutor(4) as ex:
        fh = ex.submit(harness, pid, seed, tier)
        us = list(ex.map(lambda n: unit(n, tier), props.UNITS.get(pid, [])))
        h = fh.result()
    kn = known()
    new, old = [], []
    for f in h.get("failures", []):
        (old if f["key"] in kn and kn[f["key"]][0] == pid else new).append(f)
    violations = []
    rp = "%s/evidence/replay/%s.json" % (V, pid)
    failed_units = [u for u in us if u["status"] == "failed"]
    if new:
        json.dump({"property": pid, "command": h.get("cmd"), "failures": new,
                   "failed_obligations": [{"unit": u["unit"], "fails": u["fails"]} for u in failed_units],
                   "how_to_replay": "bash /verif/tools/hbuild.sh && " + str(h.get("cmd"))}, open(rp, "w"), indent=1)
        violations.append("VIOLATION property=%s replay=%s" % (pid, rp))
    elif failed_units:
        json.dump({"property": pid, "failed_obligations": [
            {"unit": u["unit"], "cmd": u["cmd"], "fails": u["fails"], "verifier_output": u["log"]} for u in failed_units],
            "how_to_replay": "python3 /verif/check.py %s %s" % (pid, tier)}, open(rp, "w"), indent=1)
        violations.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
    # evidence
    want_proof = bool(us)
    proved = want_proof and all(u["status"] == "proved" for u in us)
    ran = h["status"] == "ran"
    trusted = [props.EXTR, props.VERUS, props.FIELD, props.SEQ, props.INTS] if want_proof else []
    trusted += props.ASSUME.get(pid, [])
    names = sorted({n for u in us for n in u.get("trusted", [])})
    if names:
        trusted.append("declared without proof in the units (types, dependency contracts, field axioms): " + ", ".join(names))
    cov = {}
    if want_proof:
        cov.update({
            "obligations": sum(u["obligations"] for u in us),
            "discharged": sum(u["discharged"] for u in us),
            "checker_cmd": " && ".join(u.get("cmd", "") for u in us),
            "back_end": "Verus 0.2026.09.13.671956e (Z3)",
            "solver_ms": sum(u["solver_ms"] for u in us),
            "trusted_base": trusted,
            "functions_under_contract": [
                "%s:%s %s%s" % (f.get("file"), f.get("line"), f.get("fn", "").split("::", 1)[-1], " (contract imported, discharged in its own unit)" if f.get("imported") else " (assumed, external)" if f.get("external") else "")
                for u in us for f in u["functions"]],
            "units": [{k: u.get(k) for k in ("unit", "status", "why", "obligations", "discharged", "solver_ms", "attempts", "notes", "fails")} for u in us],
        })
    if ran:
        cov.update({
            "evaluations": h["evaluations"], "distinct_nontrivial": h.get("distinct", 0),
            "rule": "seeded random cases of the real code against an independently written oracle, counted distinct by (kind, written-out input); this part is bounded and not counted as proved",
            "samples": h["samples"] or ["none"], "bounded_kinds": h["kinds"], "harness_cmd": h.get("cmd")})
    else:
        cov["harness"] = "did not build: " + h.get("log", "")[-1500:]
    level = props.LEVEL.get(pid, "proof" if want_proof else "exploration")
    if want_proof and not proved and not violations:
        cov["note"] = "the proof was not completed on this tree; the bounded stand-in decided (not counted as proved)"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": trusted, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    for u in us:
        print("unit %s: %s (%d of %d obligations, %d functions)%s" % (
            u["unit"], u["status"], u["discharged"], u["obligations"], len(u["functions"]),
            "" if u["status"] == "proved" else " " + str(u.get("why", ""))[:600]))
        for x in u["fails"][:4]:
            print("   %s in %s" % (x["message"], x["function"]))
    if ran:
        print("harness: %d cases (%d distinct), %d failures" % (h["evaluations"], h.get("distinct", 0), len(h["failures"])))
    else:
        print("harness did not build")
    for k in sorted({f["key"] for f in old}):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kn[k][1]))
    for f in new[:3]:
        print("   failing: %s: %s" % (f["key"], f["input"][:400]))
    for v in violations:
        print(v)
    if violations:
        return 1
    if not ran and not proved:
        print(h.get("log", "")[-3000:])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
