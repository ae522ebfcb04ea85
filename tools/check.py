#!/usr/bin/env python3
"""Decide one property on /repo's current working tree.

1. Extract the functions the property depends on from /repo (tools/vx), with the contracts of
   proofs/<template>.rs, and let Verus discharge every obligation.
2. Build the harness against /repo and run the bounded replay / stand-in check of the property.

Exit 0: held.  Exit 1 + "VIOLATION property=<id> replay=<path>[ no-failing-input-found]": broken.
Exit 2: the check itself could not run.
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
VX = os.path.join(BUILD, "vx/release/vx")
VH = os.path.join(BUILD, "harness/release/vh")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable")

sys.path.insert(0, os.path.join(VERIF, "tools"))
from table import TABLE  # noqa: E402

PROOF_ERR = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|assertion failure|"
    r"possible arithmetic (underflow/overflow|overflow|underflow)|decreases not satisfied|possible division by zero|"
    r"failed to satisfy|recommendation not met|unreachable|bound checks?|constructed value may fail|loop must have a decreases|"
    r"could not prove termination|index out of bounds|not all errors may have been reported|possible bit shift|split assertion failure|"
    r"failed precondition|failed this postcondition|forall statement|by\(.*\)"
)
RLIMIT = re.compile(r"[Rr]esource limit|rlimit|while loop: Resource|canceled|timed? ?out")


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=kw.pop("env", ENV), **kw)


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def build_vx():
    r = sh(["cargo", "build", "--offline", "--release", "--locked", "--target-dir", os.path.join(BUILD, "vx")], 800, cwd=os.path.join(VERIF, "tools/vx"))
    if r.returncode != 0:
        die("building vx failed:\n" + r.stderr[-3000:])


def build_harness():
    """Returns None, or the compiler's complaint when /repo no longer builds with the public API."""
    lock = os.path.join(VERIF, "harness/Cargo.lock")
    r = sh(["cargo", "build", "--offline", "--release", "--target-dir", os.path.join(BUILD, "harness")], 850, cwd=os.path.join(VERIF, "harness"))
    if r.returncode != 0:
        return r.stderr[-4000:]
    return None


def verus(path, log, extra=()):
    t = time.time()
    try:
        r = sh(["verus", "--triggers-mode", "silent", "--multiple-errors", "20", "--time", "--output-json", path] + list(extra), 600)
    except subprocess.TimeoutExpired:
        return dict(ok=False, timeout=True, err="verus timed out", verified=0, errors=0, smt_ms=0, wall=time.time() - t)
    js = {}
    try:
        js = json.loads(r.stdout[r.stdout.index("{"):])
    except Exception:
        pass
    vr = js.get("verification-results", {})
    smt = (js.get("times-ms", {}) or {}).get("smt", {})
    with open(log, "w") as f:
        f.write(r.stderr)
    return dict(
        ok=r.returncode == 0 and vr.get("success") is True,
        timeout=False,
        err=r.stderr,
        verified=vr.get("verified", 0) or 0,
        errors=vr.get("errors", 0) or 0,
        smt_ms=smt.get("total", 0) if isinstance(smt, dict) else 0,
        wall=time.time() - t,
    )


def blocks(err, out_name):
    """Split rustc-style output into (kind, message, line in extracted file, text)."""
    res = []
    cur = None
    for l in err.splitlines():
        m = re.match(r"^(error|warning)(\[\w+\])?: (.*)$", l)
        if m:
            cur = [m.group(1) + (m.group(2) or ""), m.group(3), None, [l]]
            res.append(cur)
        elif cur is not None:
            cur[3].append(l)
            m = re.match(r"^\s*--> (.*):(\d+):\d+$", l)
            if m and cur[2] is None and os.path.basename(m.group(1)) == out_name:
                cur[2] = int(m.group(2))
    return [(k, m, n, "\n".join(t)) for k, m, n, t in res if k.startswith("error")]


def fn_at(meta, line):
    for f in meta["fns"]:
        if f.get("out_lines") and line is not None and f["out_lines"][0] <= line <= f["out_lines"][1]:
            return f
    return None


def prove(tpl, work, canary):
    """Extract and verify one template. Functions outside the verifier's subset on this tree are
    left out one by one (their contract is then an assumption of this run)."""
    src = os.path.join(VERIF, "proofs", tpl + ".rs")
    out = os.path.join(work, tpl + ".rs")
    meta_p = os.path.join(work, tpl + ".json")
    skip = []
    res = dict(template=tpl, undecided=[], failed=[], skipped={}, verified=0, smt_ms=0, wall=0.0, meta=None, fatal=None, canary=None)
    for _ in range(12):
        env = dict(ENV)
        if skip:
            env["VX_SKIP"] = ",".join(skip)
        r = sh([VX, src, REPO, out, meta_p], 120, env=env)
        if r.returncode != 0:
            res["fatal"] = "extraction failed: " + r.stderr.strip()
            return res
        meta = json.load(open(meta_p))
        res["meta"] = meta
        v = verus(out, os.path.join(work, tpl + ".log"))
        res["wall"] += v["wall"]
        res["smt_ms"] += v["smt_ms"]
        if v["ok"]:
            res["verified"] = v["verified"]
            break
        if v["timeout"]:
            res["fatal"] = "verus timed out"
            return res
        bl = [b for b in blocks(v["err"], os.path.basename(out)) if not b[1].startswith("aborting due to")]
        proof = [b for b in bl if b[0] == "error" and PROOF_ERR.search(b[1]) and not RLIMIT.search(b[1])]
        limit = [b for b in bl if RLIMIT.search(b[1])]
        other = [b for b in bl if b not in proof and b not in limit]
        if other and v["verified"] + v["errors"] == 0:
            # not accepted as Verus source: leave out the functions the complaints point at
            new = []
            for b in other:
                f = fn_at(meta, b[2])
                if f and f["status"] == "extracted" and f["path"] not in skip and f["path"] not in new:
                    new.append(f["path"])
                    res["skipped"][f["path"]] = b[1]
            if not new:
                res["fatal"] = "not accepted by the verifier front end: " + "; ".join(b[1] for b in other)[:600]
                res["log"] = v["err"]
                return res
            skip += new
            continue
        res["verified"] = v["verified"]
        # a function counts as discharged when one solver seed discharges all its obligations
        key = lambda b: (fn_at(meta, b[2]) or {}).get("path") or "line %s" % b[2]
        if not other:
            for k in (11, 23):
                w = verus(out, os.path.join(work, "%s_seed%d.log" % (tpl, k)), ["--smt-option", "smt.random_seed=%d" % k, "--rlimit", "30"])
                res["wall"] += w["wall"]
                res["smt_ms"] += w["smt_ms"]
                res["retries"] = res.get("retries", 0) + 1
                if w["timeout"]:
                    break
                wb = [b for b in blocks(w["err"], os.path.basename(out)) if not b[1].startswith("aborting due to")]
                if w["verified"] + w["errors"] == 0 or any(not PROOF_ERR.search(b[1]) and not RLIMIT.search(b[1]) for b in wb):
                    break
                bad = {key(b) for b in wb}
                proof = [b for b in proof if key(b) in bad]
                limit = [b for b in limit if key(b) in bad]
                res["verified"] = max(res["verified"], w["verified"])
                if not proof and not limit:
                    res["verified"] = v["verified"] + v["errors"]
                    break
        for b in proof:
            f = fn_at(meta, b[2])
            res["failed"].append(dict(function=f["path"] if f else None, file=f.get("file") if f else None, obligation=b[1], text=b[3]))
        for b in limit + (other if not proof else []):
            f = fn_at(meta, b[2])
            res["undecided"].append(dict(function=f["path"] if f else None, why=b[1]))
        break
    # a failing obligation in a function that relies on a function left out is not a verdict on the code
    if res["failed"] and (res["skipped"] or any(f["status"] != "extracted" for f in res["meta"]["fns"])):
        pass
    if canary and not res["failed"] and not res["fatal"]:
        env = dict(ENV, VX_CANARY="1")
        if skip:
            env["VX_SKIP"] = ",".join(skip)
        cout = os.path.join(work, tpl + "_canary.rs")
        cmeta = os.path.join(work, tpl + "_canary.json")
        sh([VX, src, REPO, cout, cmeta], 120, env=env)
        v = verus(cout, os.path.join(work, tpl + "_canary.log"))
        m = json.load(open(cmeta))
        hit = set()
        for b in blocks(v["err"], os.path.basename(cout)):
            f = fn_at(m, b[2])
            if f:
                hit.add(f["path"])
        want = {f["path"] for f in m["fns"] if f["status"] == "extracted"}
        res["canary"] = dict(expected=len(want), failed_as_expected=len(hit & want), vacuous=sorted(want - hit))
    return res


def run_harness(pid, tier, seed, work, replay_dir, known):
    scratch = os.path.join(work, "scratch")
    shutil.rmtree(scratch, ignore_errors=True)
    t = time.time()
    try:
        r = sh([VH, pid, tier, str(seed), replay_dir, scratch, ",".join(known)], 700 if tier == "quick" else 3000)
    except subprocess.TimeoutExpired:
        shutil.rmtree(scratch, ignore_errors=True)
        return dict(error="harness timed out")
    shutil.rmtree(scratch, ignore_errors=True)
    try:
        d = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return dict(error="harness gave no answer: rc=%d %s %s" % (r.returncode, r.stdout[-500:], r.stderr[-1500:]))
    d["wall"] = time.time() - t
    return d


def assumptions_of(tpls):
    """Every assumption stated in the templates: external_body, assume_specification, axioms."""
    out = []
    seen = set()

    def scan(name):
        if name in seen:
            return
        seen.add(name)
        text = open(os.path.join(VERIF, "proofs", name)).read().splitlines()
        for i, l in enumerate(text):
            m = re.match(r"\s*//@include (\S+)", l)
            if m:
                scan(m.group(1))
            if re.search(r"external_body|external_type_specification|assume_specification|broadcast axiom fn|\baxiom fn|\badmit\(\)|assume\(", l) and not l.strip().startswith("//"):
                k = i
                sig = l.strip()
                while not re.search(r"\b(fn|struct|enum|type|impl)\b", text[k]) and k + 1 < len(text):
                    k += 1
                sig = text[k].strip()
                out.append("%s:%d %s" % (name, i + 1, sig[:160]))

    for t in tpls:
        scan(t + ".rs")
    return out


def known_list(pid):
    ids = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) ", l)
            if m:
                ids.append((m.group(1), m.group(2)))
    return ids


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    row = TABLE[pid]
    work = os.path.join(BUILD, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replay_dir = os.path.join(BUILD, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    build_vx()
    proofs = [prove(t, work, True) for t in row["proofs"]]
    herr = build_harness()
    known = known_list(pid)
    ids = [k for _, k in known]
    bounded = None
    if herr is None:
        bounded = run_harness(pid, tier, seed, work, replay_dir, ids)
        if "error" in bounded:
            die(bounded["error"])
    failed = [dict(f, template=p["template"]) for p in proofs for f in p["failed"]]
    if failed and bounded is not None and not bounded.get("failures") and tier == "quick":
        # search harder for a failing input before reporting the obligation alone
        for s in (seed, seed + 1):
            if time.time() - t0 > 450:
                break
            b2 = run_harness(pid, "thorough" if time.time() - t0 < 300 else "quick", s, work, replay_dir, ids)
            if b2.get("failures"):
                bounded = b2
                break
    total = sum(len(p["meta"]["fns"]) if p["meta"] else 0 for p in proofs)
    under = [f for p in proofs if p["meta"] for f in p["meta"]["fns"] if f["status"] == "extracted"]
    lost = [dict(function=f["path"], file=f["file"], why=f["status"]) for p in proofs if p["meta"] for f in p["meta"]["fns"] if f["status"] != "extracted"]
    undecided = [u for p in proofs for u in p["undecided"]] + [dict(function=None, why=p["fatal"]) for p in proofs if p["fatal"]]
    vac = [x for p in proofs if p["canary"] for x in p["canary"]["vacuous"]]
    discharged = sum(p["verified"] for p in proofs)
    proved = bool(proofs) and not failed and not undecided and not lost and not vac
    level = "proof" if proofs else "other"
    cov = dict(
        obligations=discharged + len(failed) + len(undecided),
        discharged=discharged,
        checker_cmd="verus --triggers-mode silent --multiple-errors 20 --time --output-json <extracted file> (Verus 0.2026.09.13, Z3 back end); files extracted on this run by tools/vx from /repo",
        trusted_base=["Verus and its Z3", "rustc front end", "tools/vx desugaring rules (DESIGN.md)", "vstd specifications of std"] + assumptions_of(row["proofs"]),
        proved_on_this_tree=proved,
        functions_under_contract=["%s %s" % (f["file"], f["path"]) for f in under],
        functions_in_contract_not_proved_on_this_tree=lost,
        undecided=undecided,
        failed_obligations=[dict(function=f["function"], obligation=f["obligation"], template=f["template"]) for f in failed],
        vacuity_canary=[p["canary"] for p in proofs],
        solver_ms=sum(p["smt_ms"] for p in proofs),
        verifier_wall_s=round(sum(p["wall"] for p in proofs), 2),
        extraction=[dict(function=f["path"], source_hash=f["source_hash"], lines=f["lines"], rules=f["rules"], inlined=f["inlined"], substitutions=f["substitutions"], panics=f["panics"]) for f in under],
        partial_correctness_functions=[f["path"] for f in under if f["panics"] != "proved unreachable"],
    )
    if bounded is not None:
        cov["bounded_stand_in"] = dict(
            label="bounded, not counted as proved",
            covers=row.get("bounded_for", ""),
            evaluations=bounded.get("cases", 0),
            nontrivial=bounded.get("nontrivial", 0),
            bounds=bounded.get("bounds", []),
            failures=bounded.get("failures", 0),
            wall_s=round(bounded.get("wall", 0), 2),
        )
    else:
        cov["bounded_stand_in"] = dict(label="not run: /repo's library does not build with the harness", error=(herr or "")[-800:])
    nviol = (bounded or {}).get("failures", 0) or len(failed)
    ev = dict(
        property=pid, tier=tier, seed=seed, level=level, coverage=cov,
        assumptions=row.get("assumptions", []) + cov["trusted_base"][2:], wall_s=round(time.time() - t0, 2), violations=nviol,
    )
    if level == "other":
        cov["explanation"] = row.get("bounded_for", "")
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)

    for k in (bounded or {}).get("known", []):
        kid = k.split(":")[0]
        owner = next((p for p, i in known if i == kid), None)
        if owner == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if herr is not None and not failed:
        die("the harness does not build against /repo:\n" + herr)
    if bounded and bounded.get("failures"):
        if any(w.startswith("HARNESS-PANIC") for w in bounded["what"]) and bounded["failures"] == sum(w.startswith("HARNESS-PANIC") for w in bounded["what"]):
            die("harness panicked: " + bounded["what"][0])
        path = bounded["replays"][0]
        if failed:
            with open(path, "a") as f:
                f.write("\nFailed proof obligations:\n")
                for x in failed:
                    f.write("%s (%s): %s\n%s\n" % (x["function"], x["template"], x["obligation"], x["text"]))
        print("property %s: %s" % (pid, bounded["what"][0]))
        for x in failed:
            print("failed obligation: %s: %s" % (x["function"], x["obligation"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if failed:
        path = os.path.join(replay_dir, pid + "-obligation.txt")
        with open(path, "w") as f:
            f.write("property %s: the verifier rejects an obligation generated from /repo's current source.\nNo failing input was found by the bounded search.\n\n" % pid)
            for x in failed:
                f.write("function %s (%s), contract file proofs/%s.rs\nobligation: %s\nverifier output:\n%s\n\n" % (x["function"], x["file"], x["template"], x["obligation"], x["text"]))
        for x in failed:
            print("failed obligation: %s: %s" % (x["function"], x["obligation"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        sys.exit(1)
    if vac:
        die("contracts of these functions are vacuous: " + ", ".join(vac))
    print("OK property=%s: %d obligations discharged over %d functions%s; bounded stand-in: %s cases, no failure; %.1fs" % (
        pid, discharged, len(under), "" if proved else " (NOT fully proved on this tree: %s)" % json.dumps(lost + undecided)[:400], (bounded or {}).get("cases"), time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
