#!/usr/bin/env python3
"""Runs the check of one property:  run.py C05   |   run.py --setup

Builds what the check needs from /repo's current working tree, runs its parts, applies the
known-findings file, writes evidence/<id>.json and prints the verdict."""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VK_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
OUT = os.path.join(HERE, "out")

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


class Broken(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_MANIFEST_DIR"):
        e.pop(k, None)
    e["VK_OUT"] = OUT
    e["VK_REPO"] = REPO
    e["VK_HERE"] = HERE
    e.setdefault("VERIF_TIER", "quick")
    e.setdefault("VERIF_SEED", "1")
    return e


def cargo(crate, args, e):
    d = os.path.join(HERE, "harness", crate)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--message-format=json"] + args, cwd=d, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    msgs = []
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            msgs.append(json.loads(l))
    if r.returncode:
        t = "\n".join(m["message"]["rendered"] for m in msgs if m.get("reason") == "compiler-message" and m["message"]["level"] == "error")
        raise Broken("building %s failed:\n%s\n%s" % (crate, t[-6000:], r.stderr[-3000:]))
    return msgs


def build_bin(crate, name, e):
    for m in cargo(crate, ["--bin", name], e):
        if m.get("reason") == "compiler-artifact" and m.get("executable") and m["target"]["name"] == name:
            return m["executable"]
    raise Broken("no executable for %s/%s" % (crate, name))


def build_deps(e):
    rlibs = {"askama": "VK_ASKAMA_RLIB", "askama_escape": "VK_ESCAPE_RLIB"}
    for m in cargo("deps", [], e):
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] in rlibs:
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    e[rlibs.pop(m["target"]["name"])] = f
                    break
    if rlibs:
        raise Broken("no rlib of " + ", ".join(rlibs))
    e["VK_DEPS"] = os.path.join(TARGET, "debug", "deps")


def known(pid):
    """(kind, key) entries of the known-findings file for this property."""
    v = []
    p = os.path.join(HERE, "known_findings.jsonl")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l:
            d = json.loads(l)
            if d["property"] == pid and d["status"] == "known":
                v.append(d)
    return v


def run(pid):
    t0 = time.time()
    e = env()
    tier = e["VERIF_TIER"] if e["VERIF_TIER"] in ("quick", "thorough") else "quick"
    spec = CHECKS[pid]
    os.makedirs(os.path.join(OUT, "parts"), exist_ok=True)
    ev = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.unlink(ev)
    parts = []
    # The quick checks have to end in time, whatever they find.
    end = t0 + (800 if tier == "quick" else 6 * 3600)
    e["VK_DEADLINE"] = str(end - 60)
    for k, part in enumerate(spec["parts"]):
        if tier == "quick" and part.get("thorough_only"):
            continue
        if part.get("e2e"):
            build_deps(e)
        exe = build_bin(part["crate"], part["bin"], e)
        res = os.path.join(OUT, "parts", "%s-%d.json" % (pid, k))
        if os.path.exists(res):
            os.unlink(res)
        cmd = [exe, "--out", res] + part.get("args", [])
        try:
            r = subprocess.run(cmd, env=e, cwd=OUT, timeout=max(5, end - time.time()))
        except subprocess.TimeoutExpired:
            if any(d["violations"] for _, d in parts):
                break
            raise Broken("%s timed out" % part["bin"])
        if r.returncode or not os.path.exists(res):
            raise Broken("part %s ended with %d" % (part["bin"], r.returncode))
        parts.append((part, json.load(open(res))))

    counts, notes, samples, viol = {}, {}, [], []
    exhaustive, suppressed = True, 0
    for part, d in parts:
        for n, v in d["counts"].items():
            counts[n] = counts.get(n, 0) + v
        notes.update(d["notes"])
        samples += d["samples"]
        exhaustive = exhaustive and d["exhaustive"]
        suppressed += d["suppressed"]
        viol += d["violations"]

    kf = known(pid)
    fresh = []
    seen_known = []
    for v in viol:
        hit = [d for d in kf if d["key"] == v["key"]]
        if hit:
            if hit[0]["key"] not in seen_known:
                seen_known.append(hit[0]["key"])
        else:
            fresh.append(v)
    for d in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, d["what"]))
    lines = []
    rdir = os.path.join(OUT, "replay")
    os.makedirs(rdir, exist_ok=True)
    for n, v in enumerate(fresh[:10]):
        p = os.path.join(rdir, "%s-%d.txt" % (pid, n))
        with open(p, "w") as f:
            f.write("property %s: %s\ncase: %s\n\n%s\n" % (pid, spec["technique"], v["key"], v["detail"]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, p))

    level = spec["level"]
    cov = {}
    if level == "model_checking":
        cov["states"] = counts.pop("states", 0)
        cov["transitions"] = counts.pop("transitions", 0)
        cov["traces_validated_against_impl"] = counts.pop("traces", 0)
    else:
        cov["evaluations"] = counts.pop("traces", 0)
        cov["distinct_nontrivial"] = counts.pop("distinct_nontrivial", 0)
        cov["rule"] = spec["rule"]
    cov["samples"] = samples[:12]
    cov["exhaustive"] = exhaustive
    cov["bounds"] = spec["bounds"]
    cov["other_counts"] = counts
    if notes:
        cov["notes"] = notes
    cov["known_findings_seen"] = len(seen_known)
    doc = {
        "property": pid, "tier": tier, "seed": int(e["VERIF_SEED"]) if e["VERIF_SEED"].isdigit() else 1, "level": level,
        "coverage": cov, "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh) + (suppressed if fresh else 0),
    }
    with open(ev, "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    for l in lines:
        print(l)
    for v in fresh[:3]:
        print("  case: %s\n%s" % (v["key"][:600], "\n".join("    " + x for x in v["detail"][:2500].splitlines())))
    print("%s: %s, %s, %.1fs" % (pid, "VIOLATED" if fresh else "held", json.dumps({k: v for k, v in cov.items() if isinstance(v, int)}), time.time() - t0))
    sys.stdout.flush()
    return 1 if fresh else 0


def setup():
    e = env()
    build_deps(e)
    done = set()
    for pid, spec in CHECKS.items():
        for part in spec["parts"]:
            k = (part["crate"], part["bin"])
            if k not in done:
                done.add(k)
                build_bin(part["crate"], part["bin"], e)
    print("built %d programs" % len(done))
    return 0


def manifest():
    """Rewrites MANIFEST.json from checks.py."""
    import checks
    have = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    doc = {
        "version": 1,
        "setup_cmd": "python3 run.py --setup",
        "hooks": checks.HOOKS,
        "checks": [{
            "property": p,
            "quick_cmd": "python3 run.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": CHECKS[p]["technique"],
            "level": CHECKS[p]["level"],
            "level_note": CHECKS[p]["note"],
        } for p in have if p in CHECKS],
        "not_applicable": [{"property": p, "reason": checks.NOT_APPLICABLE.get(p, "not built yet")} for p in have if p not in CHECKS],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    return 0


def printenv():
    """Shell exports for running a program of harness/kit by hand."""
    e = env()
    build_deps(e)
    for k in ("VK_ASKAMA_RLIB", "VK_ESCAPE_RLIB", "VK_DEPS", "VK_OUT"):
        print("export %s=%s" % (k, e[k]))
    return 0


if __name__ == "__main__":
    try:
        special = {"--setup": setup, "--manifest": manifest, "--env": printenv}.get(sys.argv[1])
        if special:
            sys.exit(special())
        sys.exit(run(sys.argv[1]))
    except Broken as x:
        print("ERROR: %s" % x)
        sys.exit(3)
