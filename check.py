#!/usr/bin/env python3
"""check.py <property-id>: decides one property on /repo's current working tree.

Layer A: contracts on the extracted real code, discharged by Verus (tools/vx + contracts/).
Layer B: the same contracts evaluated on the running crates (harness/).
See DESIGN.md for the verdict table. Exit 0: held; exit 1 with a VIOLATION line: broken."""
import json, os, subprocess, sys, time, signal

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
TARGET = os.path.join(V, "target")
EV = os.path.join(V, "evidence")


def run(cmd, timeout, env=None, cwd=None, out=None):
    """(rc, text); rc None on a timeout. The whole process group is ended."""
    e = dict(os.environ)
    e.update(env or {})
    f = out if out is not None else subprocess.PIPE
    p = subprocess.Popen(cmd, cwd=cwd or V, env=e, stdout=f, stderr=subprocess.STDOUT if out is None else f, start_new_session=True, text=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o or ""
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return None, o or ""


def build_harness(log):
    """hooked build, else one without the hooks (private items renamed or gone)"""
    h = os.path.join(V, "harness")
    base = ["cargo", "build", "--offline", "--release"]
    rc, o = run(base, 800, {"RUSTFLAGS": "--cfg vp_hooks -Awarnings", "CARGO_TARGET_DIR": TARGET}, h)
    if rc == 0:
        return os.path.join(TARGET, "release", "vpb"), True
    log.append("hooked harness build failed: " + o[-1500:])
    t2 = os.path.join(V, "target", "nohooks")
    rc, o = run(base + ["--no-default-features"], 800, {"RUSTFLAGS": "-Awarnings", "CARGO_TARGET_DIR": t2}, h)
    if rc == 0:
        return os.path.join(t2, "release", "vpb"), False
    log.append("harness build failed: " + o[-3000:])
    return None, False


def layer_b(pid, seed, tier, log):
    exe, hooks = build_harness(log)
    if exe is None:
        return {"error": "harness does not build"}
    out = os.path.join(EV, f".b_{pid}.json")
    for f in (out, out + ".progress"):
        if os.path.exists(f):
            os.remove(f)
    with open(os.devnull, "w") as nul:
        rc, _ = run([exe, pid, str(seed), tier, out], 420 if tier == "quick" else 700, {"VPB_BUDGET_S": os.environ.get("VPB_BUDGET_S", "60" if tier == "quick" else "300")}, out=nul)
    if rc != 0 or not os.path.exists(out):
        try:
            pr = open(out + ".progress").read()
        except OSError:
            pr = "?"
        what = "does not terminate" if rc is None else f"ended the process (status {rc})"
        return {"hooks": hooks, "evaluations": 1, "distinct_nontrivial": 1, "samples": [pr[:500]], "skipped": [], "rule": "",
                "failures": [{"case": -1, "input": pr[:4000], "what": f"the code under test {what}", "finding": None}], "wall_s": 0}
    d = json.load(open(out))
    d["hooks"] = hooks
    for f in (out, out + ".progress"):
        if os.path.exists(f):
            os.remove(f)
    return d


def known():
    """known findings: {(property, key)}; fixed entries suppress nothing"""
    k = set()
    try:
        for l in open(os.path.join(V, "known-findings.txt")):
            if l.startswith("known: property="):
                p, key = l[len("known: property="):].split(None, 1)
                k.add((p, key.split("|")[0].strip()))
    except OSError:
        pass
    return k


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    os.makedirs(EV, exist_ok=True)
    log = []
    try:
        import layera
        a = layera.prove(pid, tier, log)
    except Exception as x:  # the extractor or verifier could not be run at all
        a = None
        log.append(f"layer A unavailable: {x!r}")
    b = layer_b(pid, seed, tier, log)
    if "error" in b:
        print("\n".join(log))
        print(f"check {pid}: {b['error']}")
        sys.exit(2)
    kf = known()
    fails, shown = [], []
    for f in b["failures"]:
        if f["finding"] and (pid, f["finding"]) in kf:
            shown.append(f"KNOWN-FINDING: property={pid} {f['finding']}: {f['what']}")
        else:
            fails.append(f)
    for s in sorted(set(shown)):
        print(s)
    afail = (a or {}).get("failed", [])
    # a proof that could not be redone on this tree (see "undecided") leaves the decision to the bounded run
    proof = a is not None and a.get("obligations", 0) > 0 and not a["undecided"]
    cov = {"evaluations": b["evaluations"], "distinct_nontrivial": b["distinct_nontrivial"], "rule": b["rule"], "samples": b["samples"] or ["-"],
           "skipped": b["skipped"], "harness_hooks": b["hooks"], "harness_wall_s": b["wall_s"]}
    if a is not None:
        cov.update({k: a[k] for k in a if k not in ("failed", "output")})
        cov["failed"] = [x["name"] for x in afail]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof" if proof else "exploration", "coverage": cov,
          "assumptions": (a or {}).get("assumptions", []) + log, "wall_s": 0.0, "violations": len(fails) + len(afail)}
    rc = 0
    rp = os.path.join("evidence", f"replay-{pid}.json")
    if fails:
        f = fails[0]
        json.dump({"property": pid, "input": f["input"], "observed": f["what"], "failed_obligations": afail,
                   "replay": f"/verif/target/release/vpb {pid} {seed} {tier} OUT.json {f['case']}", "all": fails}, open(os.path.join(V, rp), "w"), indent=1)
        print(f"{pid}: input {f['input'][:600]}")
        print(f"{pid}: {f['what'][:900]}")
        print(f"VIOLATION property={pid} replay={rp}")
        rc = 1
    elif afail:
        json.dump({"property": pid, "failed_obligations": afail, "verifier_output": (a or {}).get("output", "")[-20000:]}, open(os.path.join(V, rp), "w"), indent=1)
        for x in afail[:5]:
            print(f"{pid}: obligation not discharged: {x['name']}: {x['why']}")
        print(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        rc = 1
    else:
        und = (a or {}).get("undecided", [])
        print(f"{pid}: held; proof: {cov.get('discharged', 0)}/{cov.get('obligations', 0)} obligations over {len(cov.get('functions', []))} functions"
              f"{', undecided by proof: ' + ', '.join(und) if und else ''}; bounded: {b['evaluations']} cases ({b['distinct_nontrivial']} distinct)")
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(EV, f"{pid}.json"), "w"), indent=1)
    sys.exit(rc)


main()
