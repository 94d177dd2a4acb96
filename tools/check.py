#!/usr/bin/env python3
"""Decide one property: run the deductive verifier on /repo's current source, and when an
obligation is not discharged, search the real code for a concrete failing input."""
import json, os, subprocess, sys, time, tempfile, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKGDIR = {"jlib": "", "schema": "schema", "http": "http", "fifo": "examples/fifo"}


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(V, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) obligation=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def replay(prop, seed, tier):
    """Run the replay drivers of a property against the real code. -> (found, text)"""
    text, found = "", False
    budget = 60 if tier == "quick" else 300
    for d, sub in PKGDIR.items():
        src = os.path.join(V, "replay", d)
        if not os.path.isdir(src):
            continue
        files = [f for f in sorted(os.listdir(src)) if f.endswith("_test.go")]
        body = "".join(open(os.path.join(src, f)).read() for f in files)
        if not re.search(r"func TestReplay%s[A-Z_(]" % prop, body):
            continue
        # only the driver files of this property and the shared helpers (so that a change
        # elsewhere cannot stop them from compiling)
        use = [f for f in files if f.startswith(prop.lower() + "_") or f.startswith("common_")]
        with tempfile.TemporaryDirectory(prefix="vreplay") as tmp:
            # the package's own tests stay out of the way
            rep = {os.path.join(REPO, sub, "zz_verif_" + f): os.path.join(src, f) for f in use}
            pkgdir = os.path.join(REPO, sub)
            for f in os.listdir(pkgdir):
                if f.endswith("_test.go"):
                    rep[os.path.join(pkgdir, f)] = ""
            ov = os.path.join(tmp, "overlay.json")
            json.dump({"Replace": rep}, open(ov, "w"))
            env = dict(os.environ, VERIF_SEED=str(seed), VERIF_BUDGET_S=str(budget), TMPDIR=tmp)
            race = ["-race"] if prop == "C25" else []
            cmd = ["go", "test"] + race + ["-overlay", ov, "-count=1", "-vet=off", "-timeout", "%ds" % (budget + 120),
                   "-run", "^TestReplay%s" % prop, "./" + sub]
            try:
                p = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True, timeout=budget + 240)
                o = p.stdout + p.stderr
            except subprocess.TimeoutExpired as e:
                o = "replay driver timed out\n" + ((e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else str(e.stdout or ""))
            text += "$ " + " ".join(cmd) + "\n" + o[-20000:] + "\n"
            if "FAILING-INPUT" in o:
                found = True
    return found, text


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    b = subprocess.run([os.path.join(V, "setup.sh")], capture_output=True, text=True)
    if b.returncode != 0:
        print("cannot build the verifier:", b.stdout, b.stderr)
        return 1
    with tempfile.TemporaryDirectory(prefix="govc") as tmp:
        out = os.path.join(tmp, "report.json")
        cmd = [os.path.join(V, "bin", "govc"), "-repo", REPO, "-spec", os.path.join(V, "specs"), "-prop", prop, "-out", out]
        if tier == "thorough":
            cmd += ["-sec", "600", "-thorough"]
        for attempt in range(2):
            t1 = time.time()
            try:
                p = subprocess.run(cmd, capture_output=True, text=True, timeout=700 if tier == "quick" else 3000)
                log = p.stdout + p.stderr
            except subprocess.TimeoutExpired:
                log = "the verifier ran out of time"
            try:
                rep = json.load(open(out))
            except Exception:
                rep = {}
            # a run of the verifier that itself broke off is repeated once
            if rep or time.time() - t1 > 200:
                break
    failed = rep.get("failed") or []
    missing = rep.get("missing_targets") or []
    bad = rep.get("bad_specs") or []
    names = sorted({f["name"] for f in failed} | {"missing-function:" + m for m in missing} | {"spec-does-not-fit-code:" + x.split("\n")[0] for x in bad})
    if not rep:
        names = ["verifier-run"]
    elif rep.get("obligations", 0) == 0:
        names.append("no-obligations-generated")
    known = known_findings(prop)
    kn = [k for k in known if k[0] in names]
    fresh = [n for n in names if n not in {k[0] for k in known}]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": rep.get("obligations", 0),
            "discharged": rep.get("discharged", 0),
            "checker_cmd": " ".join(cmd),
            "trusted_base": ["govc (the obligation generator in /verif/govc, over go/ssa of the current source)", "z3 4.x (z3-new)", "cvc5 1.1.2"],
            "named_obligations": rep.get("named_obligations", 0),
            "by_backend": rep.get("by_backend", {}),
            "by_kind": rep.get("by_kind", {}),
            "functions_under_contract": rep.get("functions_under_contract") or [],
            "functions_inlined": rep.get("functions_inlined") or [],
            "loop_invariants": rep.get("loop_invariants", 0),
            "solver_ms": rep.get("solver_ms", 0),
            "solver_queries": rep.get("solver_queries", 0),
            "second_solver": {k: rep.get("second_solver_" + k, 0) for k in ("agreed", "no_answer", "disagreed")},
            "slowest": rep.get("slowest") or [],
            "undischarged": names,
        },
        "assumptions": rep.get("assumptions") or [],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }

    def write():
        ev["wall_s"] = round(time.time() - t0, 2)
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    write()
    for n, why in kn:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, n, why))
    if not fresh:
        print("property=%s held: %d obligations discharged over %d functions (%.1f s)" % (
            prop, rep["discharged"], len(rep["functions_under_contract"]), time.time() - t0))
        return 0
    found, text = replay(prop, seed, tier)
    path = os.path.join(V, "replays", "%s-%d.txt" % (prop, os.getpid()))
    with open(path, "w") as f:
        f.write("property %s\nundischarged obligations:\n" % prop)
        for n in fresh:
            f.write("  " + n + "\n")
        f.write("\n--- verifier output\n" + log + "\n")
        for m in failed:
            f.write("\n--- %s [%s]\n%s\n" % (m.get("name"), m.get("kind"), m.get("detail")))
        f.write("\n--- search for a failing input on the real code\n" + (text or "no replay driver\n"))
    for n in fresh[:20]:
        print("undischarged:", n)
    if found:
        for l in [l for l in text.splitlines() if "FAILING-INPUT" in l][:3]:
            print(l.strip())
    ev["coverage"]["failing_input_found"] = found
    write()
    print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if found else " no-failing-input-found"))
    return 1


sys.exit(main())
