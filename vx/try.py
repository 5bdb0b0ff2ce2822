#!/usr/bin/env python3
"""try.py <module,..> [--fn key] : compose and verify, print errors (development aid)"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vxc
def main():
    mods_w = sys.argv[1].split(",")
    extra = sys.argv[2:]
    src = os.environ.get("VX_SRC", vxc.REPO_SRC)
    exe = os.path.join(vxc.BUILD, "vx", "release", "vx")
    if os.environ.get("VX_BUILD"): exe = vxc.build_extractor()
    con, mods = vxc.load_contracts()
    use = vxc.closure(con, mods, [m for m in mods_w if m in mods])
    keys = [k for m in use for k in mods[m]["fns"]]
    fns, consts, types = vxc.extract(exe, con, keys, "try", src)
    for k in keys:
        if k not in fns: print("MISSING", k)
    text, notes = vxc.compose(con, mods, fns, consts, types, set(), use)
    for k, n in notes.items():
        for x in n: print("NOTE", k, x)
    path = "/tmp/vt/try.rs"
    open(path, "w").write(text)
    t = time.time()
    r = vxc.run_verus(path, mods_w, 880, extra=extra)
    where = vxc.fn_lines(text)
    if r is None: print("TIMEOUT"); return
    for d in r["errors"][:int(os.environ.get("NE","10"))]:
        sp = d.get("spans", [])
        print("ERR", d["message"][:300])
        for s in sp[:4]:
            print("    %s:%d [%s] %s" % (s.get("label") or "", s["line_start"], where.get(s["line_start"], "-"), "; ".join(x["text"].strip() for x in s["text"])[:200]))
        if not sp: print("   ", (d.get("rendered") or "")[:500])
    for l in r.get("raw", [])[:20]: print("RAW", l)
    j = r["json"] or {}
    sys.exit(1) if r["errors"] and False else None
    print(j.get("verification-results"), "%.1fs" % (time.time() - t))
    tm = j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", [])
    for m in tm:
        fb = sorted(m.get("function-breakdown", []), key=lambda x: -x["time"])[:8]
        print(m["module"], m["time"], [(x["function"].split("::")[-1], x["time"], x.get("rlimit")) for x in fb])
ok = main()
