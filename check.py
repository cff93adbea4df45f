#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for /repo's current working tree.

1. vx extracts the functions of the property's units from /repo and Verus has
   to discharge every obligation generated from them.
2. The oracle (harness/) searches for an input that breaks the property on the
   real code: it gives the counterexample when an obligation fails, and stands
   in, bounded, for what is outside the verifier's reach.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
VX = f"{ROOT}/tools/vx/target/release/vx"
ORACLE = f"{ROOT}/harness/target/release/oracle"
# C20 compares the Python package with the Rust API
PYTHON = "/opt/vp/venv/bin/python"
PYLIB = f"{ROOT}/harness/target/py/debug/librspolib.so"
PYCMD = [PYTHON, f"{ROOT}/harness/py/c20.py", PYLIB, ORACLE]
# messages of Verus about an obligation that was not discharged; any other
# error (a construct outside of the subset, a type error) is no verdict
FAILED = (
    "not satisfied", "assertion failed", "possible arithmetic", "possible division",
    "might not hold", "might not be allowed", "could not prove", "decreases", "possible bit shift",
    "unreachable", "invariant", "cannot show",
)


# a check ends within 900 s
START = time.time()
GEN = ""


def left(most):
    return max(5, min(most, START + 720 - time.time()))


def build(crate):
    """-> directory of the files generated by rspolib's build script"""
    r = subprocess.run(
        ["cargo", "build", "--release", "--offline", "--quiet", "--message-format=json", "--manifest-path", f"{ROOT}/{crate}/Cargo.toml"],
        capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        print(f"ERROR: {crate} does not build")
        sys.exit(3)
    for l in r.stdout.split("\n"):
        if '"build-script-executed"' in l:
            j = json.loads(l)
            if j["reason"] == "build-script-executed" and "/repo/rust" in j["package_id"]:
                return j["out_dir"]


def build_py():
    r = subprocess.run(
        ["cargo", "build", "-p", "py-rspolib", "--offline", "--quiet", "--manifest-path", f"{REPO}/Cargo.toml", "--target-dir", f"{ROOT}/harness/target/py"],
        capture_output=True, text=True, env=dict(os.environ, PYO3_PYTHON=PYTHON))
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        print("ERROR: the Python package does not build")
        sys.exit(3)


def regions(text):
    out, cur = [], None
    for i, l in enumerate(text.split("\n"), 1):
        m = re.match(r"//@(fn|endfn) (\S+)", l)
        if m and m.group(1) == "fn":
            cur = (m.group(2), i)
        elif m and cur:
            out.append((cur[0], cur[1], i))
            cur = None
    return out


def verus(path, extra, most=400):
    t = time.time()
    cmd = ["verus", path, "--crate-type=lib", "--output-json", "--time", "--error-format=json"] + extra
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(path), timeout=left(most))
    except subprocess.TimeoutExpired:
        return {"cmd": cmd, "timeout": True, "diags": [], "json": {}, "wall": time.time() - t}
    try:
        j = json.loads(r.stdout[r.stdout.index("{"):])
    except ValueError:
        j = {}
    diags = []
    for l in r.stderr.split("\n"):
        if l.startswith("{"):
            d = json.loads(l)
            if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                diags.append(d)
    return {"cmd": cmd, "timeout": False, "diags": diags, "json": j, "wall": time.time() - t, "rc": r.returncode}


def run_unit(unit, work, seed, tier):
    """-> dict with status proved|failed|undecided"""
    base = f"{work}/{unit}"
    src, rep = base + ".rs", base + ".json"
    res = {"unit": unit, "status": "undecided", "reason": "", "failures": [], "functions": [], "trusted": [],
           "verified": 0, "errors": 0, "smt_ms": 0, "probes": 0, "vacuous": []}
    r = subprocess.run([VX, "--repo", REPO, "--root", ROOT, "--unit", f"verus/units/{unit}.vx", "--out", src, "--report", rep,
                        "--gen", GEN],
                       capture_output=True, text=True)
    if r.returncode != 0:
        res["reason"] = "extraction: " + r.stderr.strip()
        return res
    report = json.load(open(rep))
    res["functions"] = report["extracted"]
    res["trusted"] = report["trusted"]
    text = open(src).read()
    regs = regions(text)
    res["assumed"] = scan_assumptions(text)
    attempts = [["--rlimit", "60"], ["--rlimit", "120", "--smt-option", f"smt.random_seed={seed % 1000 + 7}"]]
    for n, extra in enumerate(attempts):
        v = verus(src, extra)
        res["cmd"] = " ".join(v["cmd"])
        vr = v["json"].get("verification-results", {})
        tm = v["json"].get("times-ms", {})
        res["smt_ms"] = tm.get("smt", {}).get("total", 0)
        res["verified"] = vr.get("verified", 0)
        res["errors"] = vr.get("errors", 0)
        res["failures"] = []
        other = []
        for d in v["diags"]:
            m = d["message"]
            if "rlimit" in m or "Resource limit" in m or not any(x in m for x in FAILED):
                other.append(d.get("rendered") or m)
                continue
            line = next((s["line_start"] for s in d["spans"] if s["is_primary"]), 0)
            lines = [s["line_start"] for s in d["spans"]] or [line]
            fn = next((n for n, a, b in regs for l in lines if a <= l <= b and "at " in "".join(
                (s.get("label") or "") for s in d["spans"] if s["line_start"] == l)), None)
            fn = fn or next((n for n, a, b in regs if a <= line <= b), None)
            res["failures"].append({"function": fn, "obligation": m, "output": d.get("rendered", "")})
        if v["timeout"] or not vr or vr.get("encountered-vir-error"):
            res["status"], res["reason"] = "undecided", ("timeout" if v["timeout"] else "; ".join(other)[:3000] or "no verdict")
            res["failures"] = []
            if not v["timeout"]:
                break
            continue
        if vr.get("success") and vr.get("verified", 0) > 0:
            res["status"], res["reason"] = "proved", ""
            break
        if other or not res["failures"]:
            res["status"], res["reason"] = "undecided", "; ".join(other)[:3000]
        else:
            res["status"], res["reason"] = "failed", ""
    if res["status"] == "proved":
        # every contract must be satisfiable and every loop reachable
        psrc = base + "_probe.rs"
        subprocess.run([VX, "--repo", REPO, "--root", ROOT, "--unit", f"verus/units/{unit}.vx", "--out", psrc,
                        "--report", base + "_probe.json", "--gen", GEN, "--probe"], capture_output=True)
        n = json.load(open(base + "_probe.json"))["probes"]
        if n == 0:
            return res
        v = verus(psrc, ["--rlimit", "10", "--multiple-errors", "60", "--no-auto-recommends-check"], 150)
        ptext = open(psrc).read().split("\n")
        hit = set()
        lost = set()
        for d in v["diags"]:
            if "rlimit" in d["message"]:
                # the solver found no contradiction and no model
                for _, a, b in regions("\n".join(ptext)):
                    if any(a <= s["line_start"] <= b for s in d["spans"]):
                        lost |= {int(m.group(1)) for l in ptext[a:b] for m in re.finditer(r"if vx_arb\((\d+)\)", l)}
            for s in d["spans"]:
                m = re.search(r"if vx_arb\((\d+)\)", ptext[s["line_start"] - 1])
                if m:
                    hit.add(int(m.group(1)))
        res["probes"] = n
        res["unresolved"] = sorted(lost - hit)
        res["vacuous"] = sorted(set(range(n)) - hit - lost)
        if v["timeout"] or not v["json"].get("verification-results"):
            res["vacuous"] = []
            res["probes"] = 0
    return res


def scan_assumptions(text):
    """everything in the verified text that Verus takes without proof"""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.split("//")[0]
        if "assume_specification" in s:
            out.append("assumed: " + re.sub(r"\s+", " ", s.strip())[:160])
        elif "external_body" in s:
            nxt = " ".join(x.strip() for x in lines[i:i + 4])
            m = re.search(r"(fn|struct|enum) (\w+)", nxt.split("external_body", 1)[1])
            out.append("external body: " + (m.group(2) if m else nxt[:80]))
        elif re.search(r"\b(assume|admit)\s*\(", s):
            out.append("assume: " + s.strip()[:160])
        elif "axiom fn" in s:
            out.append("axiom: " + s.strip()[:160])
    return sorted(set(out))


def run_oracle(pid, seed, ms, work, out, part=0, parts=1):
    os.makedirs(f"{work}/cwd", exist_ok=True)
    env = dict(os.environ, ORACLE_SCRATCH=f"{work}/cwd", PYTHONDONTWRITEBYTECODE="1")
    cmd = PYCMD if pid == "C20" else [ORACLE, pid, "--part", str(part), "--parts", str(parts)]
    try:
        r = subprocess.run(cmd + ["--seed", str(seed), "--ms", str(ms), "--out", out], capture_output=True, text=True,
                           cwd=f"{work}/cwd", env=env, timeout=ms / 1000 + 120)
    except subprocess.TimeoutExpired:
        return None
    last = r.stdout.strip().split("\n")[-1] if r.stdout.strip() else ""
    try:
        j = json.loads(last)
    except ValueError:
        j = {}
    if r.returncode == 1:
        j.setdefault("violation", "the oracle stopped")
        return j
    if r.returncode < 0 or r.returncode == 134:
        # the process was ended by the code under test (stack overflow, abort)
        j["violation"] = f"the process is ended by signal {-r.returncode}"
        case = json.load(open(out)).get("case", {}) if os.path.exists(out) else {}
        json.dump({"property": pid, "violation": j["violation"], "seed": seed, "case": case}, open(out, "w"))
        return j
    if r.returncode != 0 or not j:
        print(f"ERROR: the oracle fails: {r.stderr[-1000:]}{r.stdout[-1000:]}")
        sys.exit(3)
    return j


def known(pid):
    out = []
    for l in open(f"{ROOT}/known-findings.txt"):
        m = re.match(r"known: property=(\S+) contains=(\".*?\") (.*)", l.strip())
        if m and m.group(1) == pid:
            out.append((json.loads(m.group(2)), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    conf = json.load(open(f"{ROOT}/tools/checks.json"))[pid]
    os.makedirs(f"{ROOT}/evidence/replay", exist_ok=True)
    build("tools/vx")
    global GEN
    GEN = build("harness") or ""
    if pid == "C20":
        build_py()
    work = tempfile.mkdtemp(prefix="rspolib-verif-")
    replay = f"{ROOT}/evidence/replay/{pid}.json"
    if os.path.exists(replay):
        os.remove(replay)
    try:
        ms = conf.get("ms", 15000) * (8 if tier == "thorough" else 1)
        nor = 4
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            ofs = [ex.submit(run_oracle, pid, seed * 10 + k, ms, f"{work}/o{k}", f"{work}/o{k}.json", k, nor) for k in range(nor)]
            ufs = [ex.submit(run_unit, u, work, seed, tier) for u in conf["units"]]
            units = [f.result() for f in ufs]
            runs = [f.result() for f in ofs]
        funcs = conf.get("functions")
        for u in units:
            if u["status"] == "failed" and funcs:
                # only obligations that the property rests on
                if all(f["function"] is not None and f["function"] not in funcs for f in u["failures"]):
                    u["status"] = "proved"
                    u["note"] = "obligations of other properties fail"
        failed = [u for u in units if u["status"] == "failed"]
        bad = [(k, r) for k, r in enumerate(runs) if r is None or r.get("violation")]
        if failed and not bad:
            # look longer for an input before giving up
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                fs = [ex.submit(run_oracle, pid, seed * 10 + 100 + k, max(ms, 60000), f"{work}/p{k}", f"{work}/p{k}.json", k, 8) for k in range(8)]
                more = [f.result() for f in fs]
            bad = [(100 + k, r) for k, r in enumerate(more) if r is None or r.get("violation")]
            runs += more
        shown = []
        kf = known(pid)
        real = []
        for k, r in bad:
            text = "does not end" if r is None else r["violation"]
            hit = next((d for c, d in kf if c in text), None)
            if hit:
                shown.append(hit)
            else:
                real.append((k, r, text))
        for d in sorted(set(shown)):
            print(f"KNOWN-FINDING: property={pid} {d}")
        violation = None
        if real:
            k, r, text = real[0]
            src = f"{work}/o{k}.json" if k < 100 else f"{work}/p{k - 100}.json"
            data = json.load(open(src)) if os.path.exists(src) else {"property": pid, "violation": text}
            data["replay_cmd"] = " ".join(PYCMD if pid == "C20" else [ORACLE, pid]) + f" --replay {replay}"
            data["failed_obligations"] = [f for u in units for f in u["failures"]]
            json.dump(data, open(replay, "w"), indent=1)
            print("input: " + json.dumps(data.get("case"))[:1500])
            print("what fails: " + text[:1500])
            violation = f"VIOLATION property={pid} replay={replay}"
        elif failed and not shown:
            data = {"property": pid, "failed_obligations": [dict(f, unit=u["unit"], checker_cmd=u["cmd"]) for u in failed for f in u["failures"]]}
            json.dump(data, open(replay, "w"), indent=1)
            violation = f"VIOLATION property={pid} replay={replay} no-failing-input-found"
        for u in units:
            print(f"unit {u['unit']}: {u['status']} ({u['verified']} verified, {u['errors']} errors, {u['smt_ms']} ms SMT)"
                  + (f" {u['reason'][:1500]}" if u["reason"] else ""))
            for f in u["failures"]:
                print(f"  failed obligation in {f['function']}: {f['obligation']}\n{f['output']}")
            if u["vacuous"]:
                print(f"  WARNING: probes not reached: {u['vacuous']}")
        ok_runs = [r for r in runs if r]
        obligations = sum(u["verified"] + u["errors"] for u in units)
        discharged = sum(u["verified"] for u in units if u["status"] != "undecided")
        trusted = list(conf.get("trusted", []))
        for u in units:
            trusted += u["trusted"] + u.get("assumed", [])
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": conf.get("level", "proof"),
            "coverage": {
                "obligations": obligations, "discharged": discharged,
                "checker_cmd": "; ".join(u.get("cmd", "") for u in units),
                "trusted_base": sorted(set(trusted)) + ["Verus 0.2026.09.13 and Z3", "vx extraction rules (DESIGN.md)", "rustc"],
                "back_end": "Verus / Z3, one query per function",
                "functions_under_contract": [f["function"] for u in units for f in u["functions"] if f.get("mode") == "proved" and not f.get("trusted")],
                "extracted": [{"unit": u["unit"], "items": u["functions"]} for u in units],
                "solver_ms": sum(u["smt_ms"] for u in units),
                "units": [{k: u.get(k) for k in ("unit", "status", "reason", "verified", "errors", "smt_ms", "probes", "unresolved", "vacuous")} for u in units],
                "undecided_units": [u["unit"] for u in units if u["status"] == "undecided"],
                "reachability_probes": sum(u["probes"] for u in units),
                "bounded": {
                    "what": conf.get("bounded", "search for a counterexample on the real code; decides nothing that is proved"),
                    "evaluations": sum(r.get("evaluations", 0) for r in ok_runs),
                    "distinct_nontrivial": sum(r.get("distinct_nontrivial", 0) for r in ok_runs),
                    "rule": next((r["rule"] for r in ok_runs if "rule" in r), ""),
                    "samples": [s for r in ok_runs for s in r.get("samples", [])][:4],
                },
            },
            "assumptions": conf.get("assumptions", []) + sorted(set(trusted)),
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if violation else 0,
        }
        json.dump(ev, open(f"{ROOT}/evidence/{pid}.json", "w"), indent=1)
        if violation:
            print(violation)
            sys.exit(1)
        print(f"{pid} holds: {discharged} obligations discharged, {ev['coverage']['bounded']['evaluations']} inputs tried, {ev['wall_s']} s")
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        main()
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(3)
