#!/usr/bin/env python3
"""check.py <PROPERTY>: decide one property of /repo's current tree.

  V  deductive proof (Verus) of the functions extracted from /repo/src on this run
  K  full-domain symbolic contract harnesses of the public functions (Kani/CBMC)
  W  the same executable contracts on concrete inputs (search for a failing input; bounded)

Exit 0: holds on everything explored.  Exit 1 + VIOLATION line: broken.  Anything else: no answer.
"""
import json, os, re, subprocess, sys, time, threading, shutil

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
T0 = time.time()
sys.path.insert(0, ROOT)
import plan  # noqa: E402

DEADLINE = {"quick": 780, "thorough": 860}


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def env_for(target):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, target)
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e


def run(cmd, timeout, env=None, cwd=ROOT, out=None):
    """-> (rc or None on timeout, stdout+stderr)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, o
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return None, o


# ---- W -------------------------------------------------------------------------------------------

def build_witness():
    e = env_for("w")
    e["RUSTFLAGS"] = "--cap-lints allow"
    rc, o = run(["cargo", "build", "--release", "--offline", "--bin", "witness"], 400, e, os.path.join(ROOT, "contracts"))
    if rc != 0:
        print(o[-6000:])
        log("the crate or the contracts do not build: no answer")
        sys.exit(3)
    return os.path.join(BUILD, "w", "release", "witness")


def witness_search(exe, prop, seed, tier, limit):
    t = time.time()
    rc, o = run([exe, "search", prop, str(seed), tier], limit)
    if rc is not None and rc not in (0, 1):
        # the process died (abort, stack overflow, memory): find the case that kills it
        trace = os.path.join(BUILD, "trace-%s.txt" % prop)
        e = dict(os.environ, WITNESS_TRACE=trace)
        rc2, o2 = run([exe, "search", prop, str(seed), "quick"], limit, e)
        if rc2 not in (0, 1, None) and os.path.exists(trace):
            case = open(trace).read().strip()
            o = "EVALUATIONS 0\nDISTINCT 0\nFAILURES 1\nFAIL %s ; the process died (exit %s)\n" % (case, rc2)
        else:
            o = o2
    r = {"evaluations": 0, "distinct": 0, "samples": [], "fails": [], "nfails": 0, "complete": rc in (0, 1)}
    for l in o.splitlines():
        k, _, v = l.partition(" ")
        if k == "EVALUATIONS":
            r["evaluations"] = int(v)
        elif k == "DISTINCT":
            r["distinct"] = int(v)
        elif k == "SAMPLE":
            r["samples"].append(v)
        elif k == "FAILURES":
            r["nfails"] = int(v)
        elif k == "FAIL":
            r["fails"].append(v)
    r["wall"] = time.time() - t
    return r


def replay_fails(exe, case):
    rc, o = run([exe, "replay", case], 60)
    return rc != 0, o


# ---- K -------------------------------------------------------------------------------------------

def kani(harnesses, seed, limit, per):
    """-> {harness: (verdict, seconds, text)}; verdict in holds/fails/undecided"""
    res = {h: ("undecided", 0.0, "not run") for h in harnesses}
    if not harnesses:
        return res
    e = env_for("k")
    e["RUSTFLAGS"] = "--cap-lints allow"
    cmd = ["cargo", "kani", "--lib", "--exact", "-Z", "unstable-options", "-j", "8", "--output-format", "terse",
           "--harness-timeout", "%ds" % per]
    for h in harnesses:
        cmd += ["--harness", "harness::" + h]
    rc, o = run(cmd, limit, e, os.path.join(ROOT, "contracts"))
    open(os.path.join(BUILD, "kani-%s.log" % "last"), "w").write(o)
    thread, cur = {}, {}
    for l in o.splitlines():
        m = re.match(r"Thread (\d+): Checking harness harness::(\w+)", l)
        if m:
            cur[m.group(1)] = m.group(2)
            continue
        m = re.match(r"Checking harness harness::(\w+)", l)
        if m:
            cur["0"] = m.group(1)
            thread["now"] = "0"
            continue
        m = re.match(r"Thread (\d+):\s*$", l)
        if m:
            thread["now"] = m.group(1)
            thread["buf"] = []
            continue
        if "now" in thread:
            thread.setdefault("buf", []).append(l)
            h = cur.get(thread["now"])
            m = re.match(r"Verification Time: ([\d.]+)s", l)
            if m and h in res:
                txt = "\n".join(thread["buf"])
                v = "undecided"
                if "VERIFICATION:- SUCCESSFUL" in txt:
                    v = "holds" if "1 of 1 cover properties satisfied" in txt else "undecided"
                elif "VERIFICATION:- FAILED" in txt:
                    bad = re.findall(r"Failed Checks: (.*)", txt)
                    # an unwinding or unsupported-construct failure is a limit of the tool
                    soft = [b for b in bad if "unwinding assertion" in b or "not currently supported" in b or "unsupported" in b]
                    v = "fails" if bad and not soft else "undecided"
                res[h] = (v, float(m.group(1)), txt)
                thread["buf"] = []
    return res


def kani_case(h, limit):
    """concrete counterexample of a failing harness, as a witness case line"""
    e = env_for("k")
    e["RUSTFLAGS"] = "--cap-lints allow"
    cmd = ["cargo", "kani", "--lib", "--exact", "-Z", "unstable-options", "-Z", "concrete-playback",
           "--concrete-playback=print", "--harness", "harness::" + h]
    rc, o = run(cmd, limit, e, os.path.join(ROOT, "contracts"))
    cases = []
    for blk in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", o, re.S):
        vals = [int.from_bytes(bytes(int(x) for x in v.split(",") if x.strip()), "little")
                for v in re.findall(r"vec!\[([\d, ]*)\]", blk)]
        c = plan.kani_vals_to_case(h, vals)
        if c:
            cases.append(c)
    return cases, o


# ---- main ----------------------------------------------------------------------------------------

def known_findings(prop):
    """cases listed as `finding: property=<id> case=<case line>`"""
    res = []
    f = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\w+) case=(.*?) ;; (.*)", l)
            if m and m.group(1) == prop:
                res.append((m.group(2).strip(), m.group(3).strip()))
    return res


def write_replay(prop, name, body):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.txt" % (prop, name))
    open(p, "w").write(body)
    return p


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = plan.PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    end = T0 + DEADLINE[tier]
    left = lambda: end - time.time()
    violations = []  # (kind, message, replay path, has_input)

    exe = build_witness()
    log("witness built")

    # W
    w = witness_search(exe, prop, seed, tier, min(250 if tier == "quick" else 500, left() - 60))
    log("W: %d evaluations, %d failures" % (w["evaluations"], w["nfails"]))
    known = known_findings(prop)
    kcases = {c for c, _ in known}
    fails = [f for f in w["fails"] if f.split(" ; ")[0].strip() not in kcases]
    for c, why in known:
        if replay_fails(exe, c)[0]:
            print("KNOWN-FINDING: property=%s %s" % (prop, why))
    if fails:
        case = fails[0].split(" ; ")[0].strip()
        body = "property %s\ncase: %s\n\n%d failing inputs found by the search; the first:\n%s\n\nreplay: (cd %s/contracts && cargo run --release --offline --bin witness -- replay '%s' -v)\n" % (
            prop, case, w["nfails"], "\n".join(fails[:20]), ROOT, case)
        violations.append(("W", fails[0], write_replay(prop, "input", body), True))

    # V
    v = None
    if P.get("verus") and not (violations and tier == "quick"):
        import vxc
        v = vxc.check(prop, P["verus"], seed, min(left() - 120, 400 if tier == "quick" else 600), log)
        log("V: %d obligations, %d discharged, %d rejected, %d undecided" % (
            v["obligations"], v["discharged"], len(v["rejected"]), len(v["undecided"])))

    # K
    hs = list(P.get("kani_quick", []))
    if tier == "thorough":
        hs += P.get("kani_thorough", [])
    k = {}
    if hs and not (violations and tier == "quick"):
        k = kani(hs, seed, left() - 60, P.get("kani_per", 240) if tier == "quick" else 600)
        n = {x: sum(1 for r in k.values() if r[0] == x) for x in ("holds", "fails", "undecided")}
        log("K: %d harnesses hold, %d fail, %d undecided" % (n["holds"], n["fails"], n["undecided"]))
        for h, (verdict, secs, txt) in k.items():
            if verdict == "undecided":
                log("K undecided:", h, txt.strip().splitlines()[-1:] or "")
        for h, (verdict, secs, txt) in k.items():
            if verdict != "fails":
                continue
            cases, o = kani_case(h, max(30, left() - 20))
            real = [c for c in cases if replay_fails(exe, c)[0]]
            if real:
                body = "property %s\nharness %s\ncase: %s\n\n%s\n\n%s\n" % (prop, h, real[0], replay_fails(exe, real[0])[1], txt)
                violations.append(("K", h + ": " + real[0], write_replay(prop, h, body), True))
            else:
                body = "property %s\nharness %s failed; no concrete input could be replayed\n\n%s\n\n%s\n" % (prop, h, txt, o[-8000:])
                violations.append(("K", h, write_replay(prop, h, body), False))
            break

    if v and v["rejected"] and not violations and P.get("kfull") and k and all(r[0] == "holds" for r in k.values()):
        # the symbolic harnesses cover the whole domain and hold: the code changed shape under the proof
        v["undecided"] += ["rejected, but the property holds on the full domain (Kani): " + r["obligation"] for r in v["rejected"]]
        v["rejected"] = []
    if v and v["rejected"] and not any(x[3] for x in violations):
        # look harder for a failing input before reporting the obligation alone
        if tier == "quick" and left() > 100:
            w2 = witness_search(exe, prop, seed + 1000, "thorough", min(200, left() - 30))
            f2 = [f for f in w2["fails"] if f.split(" ; ")[0].strip() not in kcases]
            if f2:
                case = f2[0].split(" ; ")[0].strip()
                violations.append(("V", f2[0], write_replay(prop, "input", "property %s\ncase: %s\n\n%s\n" % (prop, case, "\n".join(f2[:20]))), True))
        if not any(x[3] for x in violations):
            names = [r["obligation"] for r in v["rejected"]]
            body = "property %s\nobligations the verifier rejected (no failing input found):\n%s\n\n%s\n" % (
                prop, "\n".join(names), "\n\n".join(r["output"] for r in v["rejected"]))
            violations.append(("V", "; ".join(names), write_replay(prop, "obligation", body), False))

    # evidence
    ko = len(k)
    kd = sum(1 for r in k.values() if r[0] == "holds")
    cov = {
        "evaluations": w["evaluations"],
        "distinct_nontrivial": w["distinct"],
        "rule": "W: boundary-directed random inputs per format and operation, every input of the 8-bit formats (pairs too) "
                "and every input of the 16-bit formats for one-operand operations; non-trivial: the first operand is a finite "
                "non-zero number (or the text is not empty), distinct by hash of the whole case",
        "samples": w["samples"][:6],
    }
    level = P["level"]
    if level == "proof":
        cov["obligations"] = (v["obligations"] if v else 0) + ko
        cov["discharged"] = (v["discharged"] if v else 0) + kd
        cov["checker_cmd"] = "python3 check.py %s (verus on the functions extracted from /repo/src; cargo kani on the harnesses)" % prop
        cov["trusted_base"] = plan.TRUSTED + (v["trusted"] if v else [])
    if v:
        cov["verus"] = {x: v[x] for x in ("obligations", "discharged", "functions", "undecided", "solver_s", "wall_s", "dropped", "loops")
                        if x in v}
        cov["verus"]["rejected"] = [r["obligation"] for r in v["rejected"]]
    if k:
        cov["kani"] = {h: {"verdict": r[0], "seconds": round(r[1], 2)} for h, r in k.items()}
    cov["witness_search"] = {"complete": w["complete"], "seconds": round(w["wall"], 2), "label": "bounded"}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": P.get("assumptions", []) + plan.ASSUMPTIONS, "wall_s": round(time.time() - T0, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)

    if violations:
        violations.sort(key=lambda x: not x[3])
        kind, msg, path, has = violations[0]
        print("%s: %s" % (kind, msg))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if has else " no-failing-input-found"))
        sys.exit(1)
    if not w["complete"]:
        log("the witness search did not finish within its time")
    print("OK property=%s" % prop)
    sys.exit(0)


if __name__ == "__main__":
    main()
