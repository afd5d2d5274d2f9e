#!/usr/bin/env python3
"""check.py PROP: decides one property of /repo's current tree.

1. deductive part: the Verus units of the property are generated from /repo's current source
   (extract/), their obligations are discharged by Verus/Z3; Kani harnesses run on the real crate.
2. bounded part (labelled bounded): the replay engine drives the real crate against a model; it
   also is what turns a failed obligation into a failing input.
"""
import json, os, re, subprocess, sys, threading, time, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIAMESE_REPO", "/repo")
B = os.path.join(V, ".build")
OUT = os.path.join(B, "out")
sys.path.insert(0, V)
from conf import UNITS, PROPS, TRUST, ALWAYS_TRUST  # noqa: E402

ENV = dict(os.environ, RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
T0 = time.time()
VERIF_FAIL = [
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
    "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
    "could not prove termination", "index out of bounds", "possible bit shift", "unreachable",
    "requirement not met", "ensures not satisfied", "assert_by", "loop ensures",
]


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def sh(cmd, timeout=None, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env or ENV,
                         cwd=cwd or V, start_new_session=True, errors="replace")
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


def build(name):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(B, name))
    rc, o, e = sh(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(V, name, "Cargo.toml")], 600, env)
    exe = os.path.join(B, name, "release", name)
    return (exe if rc == 0 else None), e


# ------------------------------------------------------------------ Verus
def funcs_of(js):
    r = []
    for m in js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        r += m.get("function-breakdown", [])
    return r


def verus_run(path, extra=(), timeout=700):
    rc, o, e = sh(["verus", "--output-json", "--time-expanded", "--error-format=json", *extra, os.path.basename(path)], timeout,
                  cwd=os.path.dirname(path))
    js = None
    try:
        js = json.loads(o[o.index("{"):])
    except ValueError:
        pass
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                diags.append(d)
    return rc, js, diags, e


SHAPES = json.load(open(os.path.join(V, "units/shapes.json")))


def sub(a, b):
    """a is b with some parts left out"""
    it = iter(b)
    return all(x in it for x in a)


def run_unit(u, exe, res, tier):
    """result: proved / failed / undecided, with the numbers"""
    r = res[u] = {"unit": u, "state": "undecided", "why": "", "failures": [], "lost": [], "verified": 0, "functions": [], "smt_ms": 0, "rlimit": 0, "slow": []}
    t0 = time.time()
    d = os.path.join(B, "units")
    os.makedirs(d, exist_ok=True)
    src, rep = os.path.join(d, u + ".rs"), os.path.join(d, u + ".rep")
    rc, o, e = sh([exe, "unit", os.path.join(V, "units", u + ".rs"), REPO, src, rep], 60)
    if rc != 0:
        r["why"] = "extraction: " + (o + e).strip()[:400]
        return
    # vacuity: the same functions, each asked to prove false on entry
    vac = {}

    def vacuity():
        vs = os.path.join(d, u + "_vac.rs")
        rc, o, e = sh([exe, "unit", os.path.join(V, "units", u + ".rs"), REPO, vs, vs + ".rep"], 60, dict(ENV, EXTRACT_VACUITY="1"))
        if rc != 0:
            vac["err"] = "extraction"
            return
        # a contradiction is found at once or the function counts as reachable: little effort is enough
        t = open(vs).read()
        open(vs, "w").write(re.sub(r"#\[verifier::rlimit\(\d+\)\]", "", t))
        rc, js, diags, _ = verus_run(vs, ("--rlimit", "2", "--multiple-errors", "1"))
        if js is None:
            vac["err"] = "no output"
            return
        vac["failed"] = [f["function"].split("::", 1)[1] for f in funcs_of(js) if not f["success"]]
        vac["passed"] = [f["function"].split("::", 1)[1] for f in funcs_of(js) if f["success"]]
        # lines of an error inside an extracted function
        vac["lines"] = [s["line_start"] for dg in diags for s in dg.get("spans", [])]
        vac["rep"] = [l.split("\t") for l in open(vs + ".rep").read().splitlines()]

    th = threading.Thread(target=vacuity)
    th.start()
    ex = []
    for l in open(rep).read().splitlines():
        c = (l.split("\t") + [""] * 9)[:9]
        x = {"file": c[0], "fn": c[1], "src_lines": int(c[2]), "l0": int(c[3]), "l1": int(c[4]), "lost": c[5], "props": c[6].split(), "reshaped": ""}
        ref = SHAPES.get(c[0] + "::" + c[1])
        if int(c[7] or 0) > 0 and ref is not None and not sub(ref.split(), c[8].split()) and not sub(c[8].split(), ref.split()):
            x["reshaped"] = "written in another way than the one its hints and invariants belong to"
        ex.append(x)
    r["functions"] = [x["file"] + "::" + x["fn"] for x in ex]
    r["lost"] = [x["fn"] + ": " + x["lost"] for x in ex if x["lost"]]
    rc, js, diags, err = verus_run(src)
    th.join()
    r["wall"] = round(time.time() - t0, 1)
    if rc is None or js is None:
        r["why"] = "verus gave no result: " + (err or "timeout").strip()[-300:]
        return
    vr = js.get("verification-results", {})
    fs = funcs_of(js)
    r["verified"] = vr.get("verified", 0)
    r["smt_ms"] = js.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
    r["rlimit"] = js.get("times-ms", {}).get("smt", {}).get("rlimit-run", 0)
    r["slow"] = [(f["function"].split("::", 1)[1], f["time"]) for f in sorted(fs, key=lambda f: -f["time"])[:3]]
    r["verus"] = js.get("verus", {}).get("version", "")
    text = open(src).read().splitlines()
    r["by_other_units"] = sum(1 for l in text if "proved in another unit" in l)
    r["assumed"] = sum(1 for l in text if "external_body" in l and "proved in another unit" not in l) + sum(1 for l in text if "assume_specification" in l)
    r["axioms"] = sum(1 for l in text if re.search(r"\baxiom fn\b", l))
    r["assumes"] = sum(1 for l in text if re.search(r"\b(assume|admit)\(", l))
    if vr.get("success") and rc == 0 and r["verified"] > 0:
        # the reachability run must fail in every extracted function
        if "err" in vac or "lines" not in vac:
            r["why"] = "vacuity run: " + vac.get("err", "no result")
            r["vacuity_ok"] = False
        else:
            dead = [x[1] for x in vac["rep"] if not any(int(x[3]) <= l <= int(x[4]) for l in vac["lines"])]
            r["vacuity_ok"] = not dead
            r["vacuity_dead"] = dead
            if dead:
                r["why"] = "precondition of " + ", ".join(dead) + " cannot be met"
        r["state"] = "proved" if r.get("vacuity_ok") else "undecided"
        return
    # which obligations failed
    other = []
    for dg in diags:
        msg = dg["message"]
        if msg.startswith("aborting due"):
            continue
        sp = dg.get("spans", [])
        if "esource limit" in msg or "rlimit" in msg:
            other.append(msg)
            continue
        if dg.get("code") or not any(k in msg for k in VERIF_FAIL):
            other.append(msg)
            continue
        owner = None
        for s in sp:
            for x in ex:
                if x["l0"] <= s["line_start"] <= x["l1"]:
                    owner = owner or (x if not any(x2 is x for x2 in []) else x)
        # the function that fails is the one whose body holds the primary span
        for s in sp:
            if s.get("is_primary"):
                for x in ex:
                    if x["l0"] <= s["line_start"] <= x["l1"]:
                        owner = x
        if owner is None and not any(re.search(r"//.*\bC\d\d\b", t["text"]) for s in sp for t in s.get("text", [])):
            other.append("in the proof library: " + msg)
            continue
        # a lemma about constants of the source, tagged with properties
        owner = owner or {"fn": "lemma about the source's constants", "file": "units/%s.rs" % u, "props": [], "lost": ""}
        lab = [(s.get("label") or "") + " | " + " ".join(t["text"].strip() for t in s.get("text", [])[:2]) for s in sp]
        tag = set()
        for s in sp:
            if "failed this" in (s.get("label") or "") or "assertion failed" in (s.get("label") or "") or "failed precondition" in (s.get("label") or "") or "this postcondition" in (s.get("label") or ""):
                for t in s.get("text", []):
                    tag |= set(re.findall(r"\bC\d\d\b", t["text"].split("//", 1)[1] if "//" in t["text"] else ""))
        props = tag or set(owner["props"]) or set(UNITS[u]["props"])
        f = {"fn": owner["fn"], "file": owner["file"], "msg": msg, "where": lab[:3], "props": sorted(props), "lost": owner["lost"] or owner.get("reshaped", ""), "rendered": (dg.get("rendered") or "")[:1500]}
        r["failures"].append(f)
    # callers are checked against contracts: a function with a lost hint proves nothing about the code
    solid = [f for f in r["failures"] if not f["lost"]]
    soft = [f for f in r["failures"] if f["lost"]]
    r["failures"] = solid
    r["failed_functions"] = [f["function"] for f in fs if not f["success"]]
    if solid:
        r["state"] = "failed"
    else:
        r["why"] = "; ".join(["undecided %s (%s): %s" % (f["fn"], f["lost"], f["msg"]) for f in soft] + other)[:600] or "verus: no result"
    r["other"] = other[:5]


# ------------------------------------------------------------------ Kani
def run_kani(hs, res):
    from kani import run_harnesses
    run_harnesses(hs, res, REPO, B, ENV, sh)


# ------------------------------------------------------------------ the engine
def explore(exe, prop, seed, secs, jobs, tag):
    sc = os.path.join(OUT, "%s%s.script" % (prop, tag))
    rp = os.path.join(OUT, "%s%s.json" % (prop, tag))
    for f in (sc, rp):
        if os.path.exists(f):
            os.remove(f)
    rc, o, e = sh([exe, "explore", "--prop", prop, "--seed", str(seed), "--secs", str(secs), "--jobs", str(jobs), "--out", sc, "--report", rp], secs + 150)
    try:
        js = json.load(open(rp))
    except (OSError, ValueError):
        js = {"result": "error", "message": (o + e)[-500:], "evaluations": 0, "distinct": 0, "samples": []}
    js["script"] = sc
    return js


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    secs = P.get("secs", 25) if tier == "quick" else P.get("thorough_secs", 400)
    res, eng, kres, errs = {}, {}, {}, []

    def deductive():
        exe, e = build("extract")
        if not exe:
            errs.append("extractor does not build: " + e[-800:])
            return
        ths = [threading.Thread(target=run_unit, args=(u, exe, res, tier)) for u in P["units"]]
        for t in ths:
            t.start()
        for t in ths:
            t.join()

    def kani():
        hs = P.get("kani", []) + (P.get("kani_thorough", []) if tier == "thorough" else [])
        if hs:
            run_kani(hs, kres)

    def engine():
        exe, e = build("replay")
        if not exe:
            errs.append("/repo does not build: " + e[-1500:])
            return
        eng["exe"] = exe
        eng["r"] = explore(exe, prop, seed, secs, 6, "")

    ths = [threading.Thread(target=f) for f in (deductive, engine, kani)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs:
        print("\n".join(errs))
        sys.exit(2)

    r = eng["r"]
    log("engine:", r.get("result"), r.get("evaluations"), "evaluations", r.get("message", "")[:300])
    failures, undecided = [], []
    for u, x in res.items():
        log("unit", u, x["state"], x["verified"], "verified", x["why"])
        for l in x["lost"]:
            log("  lost hint:", l)
        if x["state"] == "failed":
            mine = [f for f in x["failures"] if prop in f["props"]]
            for f in x["failures"]:
                log("  failed obligation:", f["fn"], "-", f["msg"], f["where"][:2], f["props"])
            failures += [dict(f, unit=u) for f in mine]
            if not mine:
                undecided.append("unit %s: obligations of other properties fail (%s)" % (u, ", ".join(sorted({f["fn"] for f in x["failures"]}))))
        elif x["state"] != "proved":
            undecided.append("unit %s: %s" % (u, x["why"]))
    for h, x in kres.items():
        log("kani", h, x["state"], x.get("why", ""))
        if x["state"] == "failed":
            failures.append({"unit": "kani", "fn": h, "msg": x["why"], "where": x.get("checks", []), "props": [prop], "rendered": x.get("output", "")[-3000:]})
        elif x["state"] != "proved":
            undecided.append("kani %s: %s" % (h, x.get("why", "")))

    # a failed obligation: look longer for a failing input
    second = None
    if failures and r.get("result") == "pass":
        second = explore(eng["exe"], prop, seed + 1000003, 60 if tier == "quick" else 300, 8, "-more")
        log("engine, again:", second.get("result"), second.get("message", "")[:300])
    bad = next((x for x in (r, second) if x and x.get("result") == "fail"), None)

    # known findings
    known = []
    for l in open(os.path.join(V, "KNOWN_FINDINGS.md")):
        m = re.match(r"open: property=(\S+) match=/(.*?)/ (.*)", l)
        if m and m.group(1) == prop:
            known.append((m.group(2), m.group(3)))
            print("KNOWN-FINDING: property=%s %s" % (prop, m.group(3)))
    if bad and any(re.search(k, bad.get("message", "")) for k, _ in known):
        bad = None

    obligations = sum(x["verified"] + len(x.get("failed_functions", [])) for x in res.values()) + sum(x.get("obligations", 0) for x in kres.values())
    discharged = sum(x["verified"] for x in res.values()) + sum(x.get("discharged", 0) for x in kres.values())
    trust = list(ALWAYS_TRUST)
    for u in P["units"]:
        trust += [x for x in TRUST.get(u, []) if x not in trust]
    trust += P.get("trust", [])
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(["extract unit units/%s.rs /repo .build/units/%s.rs && verus .build/units/%s.rs" % (u, u, u) for u in P["units"]]
                                 + (["cargo kani --harness " + ",".join(P.get("kani", []))] if P.get("kani") else [])),
        "trusted_base": trust,
        "units": [{k: x.get(k) for k in ("unit", "state", "why", "verified", "functions", "smt_ms", "rlimit", "slow", "lost", "vacuity_ok", "assumed", "by_other_units", "axioms", "assumes", "wall", "failed_functions")} for x in res.values()],
        "kani": kres,
        "undecided": undecided,
        "backends": ["Verus (Z3)"] + (["Kani (CBMC)"] if kres else []),
        "bounded_part": "replay engine on the real crate, labelled bounded: random and structured histories, not counted in obligations",
        "evaluations": r.get("evaluations", 0) + (second or {}).get("evaluations", 0),
        "distinct_nontrivial": r.get("distinct", 0) + (second or {}).get("distinct", 0),
        "rule": P.get("rule", "scripts generated from the seed for this property; a script counts as non-trivial when it performs at least one operation and its text was not seen before in the run"),
        "samples": r.get("samples", [])[:2],
        "engine": {k: r.get(k) for k in ("result", "message", "ops", "compares", "fscks", "stats", "snaps", "reopens", "max_depth", "max_entries", "secs")},
    }
    level = P["level"] if not undecided else ("exploration" if P["level"] == "proof" else P["level"])
    viol = 1 if (bad or failures) else 0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": P.get("assumptions", []) + (["UNDECIDED: " + x for x in undecided]),
          "wall_s": round(time.time() - T0, 1), "violations": viol}
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if undecided:
        for x in undecided:
            log("UNDECIDED", x)
    if bad:
        rp = os.path.join(OUT, prop + ".replay")
        with open(rp, "w") as f:
            f.write("# %s: %s\n# run: %s run %s\n" % (prop, bad.get("message", "").replace("\n", " "), eng["exe"], rp))
            for x in failures:
                f.write("# failed obligation: %s %s: %s\n" % (x["unit"], x["fn"], x["msg"].replace("\n", " ")))
            f.write(open(bad["script"]).read())
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if failures:
        rp = os.path.join(OUT, prop + ".obligation.txt")
        with open(rp, "w") as f:
            for x in failures:
                f.write("failed obligation: unit %s, function %s: %s\n" % (x["unit"], x["fn"], x["msg"]))
                for w in x["where"]:
                    f.write("   %s\n" % w)
                f.write(x["rendered"] + "\n\n")
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        sys.exit(1)
    log("held:", prop)
    sys.exit(0)


if __name__ == "__main__":
    main()
