"""V: compose the Verus program from /repo's current source and the contracts, run Verus, read the result.

The bodies come from the extractor (vx/), which rewrites the parsed source mechanically into the subset
Verus accepts; the contracts (vx/contracts/*.vrs), the lemmas (vx/proofs/*.rs) and the specification of the
arithmetic (vx/proofs/spec.rs) come from /verif.  Nothing of a body is written by hand.
"""
import json, os, re, subprocess, time, glob

ROOT = os.path.dirname(os.path.abspath(__file__))
VX = os.path.join(ROOT, "vx")
REPO_SRC = "/repo/src"
BUILD = os.path.join(ROOT, "build")


# ---- contract files ------------------------------------------------------------------------------

class C:
    def __init__(self, key):
        self.key, self.spec, self.loops, self.hints, self.attrs, self.file = key, "", {}, [], [], ""
        self.module = None


def load_contracts():
    """@module name / @fn key [attr...] / @loop k / @hint where nth pattern / @raw"""
    out, mods = {}, {}
    for f in sorted(glob.glob(os.path.join(VX, "contracts", "*.vrs"))):
        cur, mod, sink = None, None, None
        for n, l in enumerate(open(f)):
            if l.startswith("@module "):
                t = l.split()
                mod = t[1]
                mods[mod] = {"raw": "", "fns": [], "uses": t[2:]}
                sink = ("raw", mod)
            elif l.startswith("@raw"):
                sink = ("raw", mod)
            elif l.startswith("@fn "):
                t = l.split()
                cur = C(t[1])
                cur.attrs = t[2:]
                cur.module, cur.file = mod, os.path.basename(f)
                assert cur.key not in out, cur.key
                out[cur.key] = cur
                mods[mod]["fns"].append(cur.key)
                sink = ("spec",)
            elif l.startswith("@loop "):
                k = int(l.split()[1])
                cur.loops[k] = ""
                sink = ("loop", k)
            elif l.startswith("@hint "):
                t = l.rstrip("\n").split(None, 3)
                cur.hints.append([t[1], int(t[2]) if len(t) > 2 else 0, t[3] if len(t) > 3 else "", ""])
                sink = ("hint",)
            elif l.startswith("@@"):
                continue
            elif sink is None:
                continue
            elif sink[0] == "raw":
                mods[sink[1]]["raw"] += l
            elif sink[0] == "spec":
                cur.spec += l
            elif sink[0] == "loop":
                cur.loops[sink[1]] += l
            elif sink[0] == "hint":
                cur.hints[-1][3] += l
    return out, mods


def build_extractor(log=lambda *a: None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "vx"))
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=VX, env=e, capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError("extractor does not build: " + p.stderr[-2000:])
    return os.path.join(BUILD, "vx", "release", "vx")


def extract(exe, contracts, keys, tag, src=REPO_SRC):
    cfg = os.path.join(BUILD, "vx-%s.cfg" % tag)
    with open(cfg, "w") as f:
        for k in dict.fromkeys(k.split("#")[0] for k in keys):
            f.write("fn %s\n" % k)
            if k not in contracts:
                continue
            for i, h in enumerate(contracts[k].hints):
                f.write("hint %s h%d %s %d %s\n" % (k, i, h[0], h[1], h[2].replace(" ", "")))
    p = subprocess.run([exe, src, cfg], capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError("extraction failed: " + p.stderr[-2000:])
    fns, consts, types = {}, {}, {}
    have = []
    for l in p.stdout.splitlines():
        d = json.loads(l)
        if d["kind"] == "fn":
            fns[d["name"]] = d
        elif d["kind"] == "have":
            have = d["names"]
        elif d["kind"] == "const":
            consts[d["name"]] = d
        elif d["kind"] == "type":
            types[d["name"]] = d["text"]
    # a provided method that an implementation overrides is not the one that runs
    consts["overrides"] = overrides(have, contracts)
    # FloatConvert has the target format as a second parameter: it becomes a parameter of the function
    for k in ("IeeeFloat::convert_r", "FloatConvert::convert"):
        if k in fns:
            d = fns[k]
            n = k.split("::")[1]
            t = re.sub(r"\bfn\s+%s\s*\(" % n, "fn %s<T: Semantics>(" % n, d["text"], count=1)
            if k.startswith("Float"):
                t = re.sub(r"StatusAnd\s*<\s*T\s*>", "StatusAnd<IeeeFloat<T>>", t)
            fns[k] = dict(d, text=t, owner="IeeeFloat", notes=d.get("notes", []) + ["the target format of a conversion becomes a parameter of the function"])
    # the formats' own functions are called through the trait: the generic ones, and x87's
    for k in ("IeeeFloat::from_bits", "IeeeFloat::to_bits"):
        if k in fns:
            d = fns[k]
            n = k.split("::")[1]
            fns[k] = dict(d, text=re.sub(r"\bS\s*::\s*(from_bits|to_bits)\b", r"crate::bits::\1::<S>", d["text"]))
            x = re.sub(r"\bS\s*::\s*(from_bits|to_bits)\b", r"crate::bits87::\1", d["text"])
            x = re.sub(r"\bfn\s+%s\b" % n, "fn %s_x87" % n, x, count=1)
            fns[k + "#x87"] = dict(d, text=x, owner="x87", name=k + "#x87")
    # the Formatter and the buffer of characters
    for k, d in list(fns.items()):
        if "Formatter" in d["text"]:
            t = re.sub(r"fmt\s*::\s*Formatter\s*<\s*'_\s*>", "Formatter", d["text"])
            t = re.sub(r"fmt\s*::\s*Result", "FmtResult", t)
            t = re.sub(r"(smallvec\s*::\s*)?SmallVec\s*::\s*<\s*\[\s*(\w+)\s*;\s*\d+\s*\]\s*>", r"Vec::<\2>", t)
            fns[k] = dict(d, text=t, notes=d.get("notes", []) + ["fmt::Formatter is read as a record of options and the text written so far"])
    # the pair of doubles: its parameter is the double, its fallback formats are the ones of `sem`
    for k, d in list(fns.items()):
        if d["owner"] in ("DoubleFloat", "Fallback"):
            t = dd_text(d["text"])
            if "#" not in k and d["owner"] == "Fallback":
                t = re.sub(r"\bSelf\b", "IeeeFloat<FmtFallbackS>", t)
            fns[k] = dict(d, text=t, notes=d.get("notes", []) + ["the component type of DoubleFloat is fixed to the double"])
    # the text of a blanket trait's function, for one more type
    for k in keys:
        if "#" in k and k not in fns and k.split("#")[0] in fns:
            fns[k] = dict(fns[k.split("#")[0]], owner=k.split("#")[1], name=k)
            if k.endswith("#i32"):
                fns[k]["text"] = re.sub(r"\(\s*self\s*\)\s*\.\s*neg\s*\(\s*\)", "(- self)", fns[k]["text"])
    # an associated constant of the float type becomes a function with the same expression
    for k in keys:
        m = re.match(r"const:(\w+)::(\w+)$", k)
        if m and m.group(1) + "::" + m.group(2) in consts:
            c = consts[m.group(1) + "::" + m.group(2)]
            h = "".join('vx_hint!("h%d"); ' % i for i in range(len(contracts[k].hints)))
            e = re.sub(r"\b(Self|F) :: (ZERO|INFINITY|NAN|SMALLEST)\b", r"\1 :: \2()", c["text"])
            e = h + (dd_text(e) if m.group(1) == "DoubleFloat" else e)
            fns[k] = {"name": k, "owner": m.group(1), "loops": 0, "missing": [], "notes": ["constants of the float type become functions"],
                      "src": c["text"], "text": 'pub fn %s() -> VxRet<%s> { vx_fn_marker!("x"); %s }' % (m.group(2), c["type"], e)}
    return fns, consts, types


def dd_text(t):
    t = re.sub(r"\bF\s*::\s*(BITS|PRECISION|MAX_EXP|MIN_EXP)\b", r"FmtDoubleS::\1", t)
    t = re.sub(r"\bF\s*::", r"IeeeFloat::<FmtDoubleS>::", t)
    t = re.sub(r"\bFallbackExtended\s*<\s*F\s*>", "IeeeFloat<FmtFallbackExtendedS>", t)
    t = re.sub(r"\bFallback\s*::\s*<\s*F\s*>\s*::\s*(PRECISION|MAX_EXP|MIN_EXP)\b", r"FmtFallbackS::\1", t)
    t = re.sub(r"\bFallback\s*(::\s*)?<\s*F\s*>", r"IeeeFloat\1<FmtFallbackS>", t)
    t = re.sub(r"\bFallback\s*::", "IeeeFloat::<FmtFallbackS>::", t)
    t = re.sub(r"\bDoubleFloat\s*<\s*F\s*>", "DoubleFloat<IeeeFloat<FmtDoubleS>>", t)
    return re.sub(r"\bSelf\s*::\s*(ZERO|INFINITY|NAN|SMALLEST)\b(?!\s*\()", r"Self::\1()", t)


def overrides(have, contracts):
    o = []
    for k in have:
        t = k.split("@")[0].split("::")
        if len(t) != 2 or k in contracts:
            continue
        for tr in ("Float", "NegExt", "FloatConvert"):
            if t[0] == "IeeeFloat" and tr + "::" + t[1] in contracts and tr + "::" + t[1] in have:
                o.append("%s overrides %s::%s" % (k, tr, t[1]))
        for tr in ("Float", "NegExt"):
            if t[0] == "DoubleFloat" and tr + "::" + t[1] + "#DoubleFloat" in contracts:
                o.append("%s overrides %s::%s" % (k, tr, t[1]))
        if t[0] in ("IeeeFloat", "DoubleFloat") and t[1] in ("lt", "gt", "le", "ge", "ne"):
            o.append("%s overrides the comparison operator" % k)
        if t[0] in FORMATS and "Semantics::" + t[1] in contracts:
            o.append("%s overrides Semantics::%s" % (k, t[1]))
    return o


def fmt(text):
    text = re.sub(r"&\s+(mut\s+)?self\b", lambda m: "&" + (m.group(1) or "") + "self", text)
    p = subprocess.run(["rustfmt", "--edition", "2021", "--config", "max_width=130"], input=text, capture_output=True, text=True)
    if p.returncode != 0:
        return text
    return p.stdout


def place(c, d, body=True):
    """insert the contract text into the extracted function"""
    t = fmt(d["text"])
    notes = []
    ret = "res" if re.search(r"\bres\b", c.spec) else "r"
    t = re.sub(r"-> VxRet<(.*?)>\s*\{\s*vx_fn_marker", r"-> (%s: \1) {\n vx_fn_marker" % ret, t, count=1, flags=re.S)
    spec = c.spec.rstrip()
    t = re.sub(r"\{\s*vx_fn_marker!\(\"[^\"]*\"\);", lambda m: "\n" + spec + "\n{", t, count=1)
    if not body:
        return t[: t.index("\n{", t.index(spec) if spec else 0)] + "\n{ unimplemented!() }\n", notes
    for k in range(d["loops"]):
        inv = c.loops.get(k, "").rstrip()
        if not inv:
            notes.append("loop %d has no invariant" % k)
        t, n = re.subn(r"\{\s*vx_loop_marker!\(%d\);" % k, lambda m: "\n" + inv + "\n{", t, count=1)
    for k in c.loops:
        if k >= d["loops"]:
            notes.append("invariant for loop %d, which is gone" % k)
    for i, h in enumerate(c.hints):
        t, n = re.subn(r"vx_hint!\(\"h%d\"\);?" % i, lambda m: h[3].rstrip() + "\n", t)
        if n == 0:
            notes.append("no place for proof text at `%s %s`" % (h[0], h[2]))
    return t, notes


def statuses(consts):
    t = consts["macro:bitflags:"]["text"]
    return re.findall(r"const (\w+) = (0x[0-9a-f]+|\d+)", t)


def head(consts, types):
    o = []
    for n in ("Category", "Round", "Loss", "NonfiniteBehavior"):
        o.append("#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n" + types[n])
    o.append("#[derive(Copy, Clone, PartialEq, Eq, Structural)]\npub struct Status { pub bits: u8 }")
    o.append("impl Status {")
    for n, v in statuses(consts):
        o.append("  pub const %s: Status = Status { bits: %s };" % (n, v))
    o.append("}")
    o.append(types["IeeeFloat"])
    o.append(types["StatusAnd"])
    if "DoubleFloat" in types:
        o.append(types["DoubleFloat"].replace("(F , F)", "(pub F , pub F)"))
        o.append("impl<F: Copy> Copy for DoubleFloat<F> {}\nimpl<F: Copy> Clone for DoubleFloat<F> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }")
    o.append("impl<T: Copy> Copy for StatusAnd<T> {}\nimpl<T: Copy> Clone for StatusAnd<T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }")
    o.append("impl<S> Copy for IeeeFloat<S> {}\nimpl<S> Clone for IeeeFloat<S> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }")
    o.append("pub trait Semantics: Sized { const BITS: usize; const EXP_BITS: usize; const PRECISION: usize; const NONFINITE_BEHAVIOR: NonfiniteBehavior;"
             " const MAX_EXP: ExpInt; const MIN_EXP: ExpInt; const NAN_SIGNIFICAND_BASE: Limb; const NAN_PAYLOAD_MASK: Limb; const QNAN_SIGNIFICAND: Limb; }")
    for n in ("IEK_INF", "IEK_NAN", "IEK_ZERO"):
        e = consts[n]["text"].replace(":: max_value ()", ":: MAX").replace(":: min_value ()", ":: MIN")
        o.append("pub const %s: %s = %s;" % (n, consts[n]["type"], e))
    o.append(types["IeeeDefaultExceptionHandling"])
    o.append("pub struct X87DoubleExtendedS; impl X87DoubleExtendedS {")
    for n in ("PRECISION", "QNAN_SIGNIFICAND"):
        c = consts["X87DoubleExtendedS::" + n]
        o.append("  pub const %s: %s = %s;" % (n, c["type"], c["text"]))
    o.append("}")
    return "\n".join(o)


# ---- the constants of the formats ------------------------------------------------------------------

#            bits exp  p    lo      hi     no_inf qnan (0: the top payload bit)
FORMATS = {
    "HalfS": (16, 5, 11, -14, 15, False, 0),
    "BFloatS": (16, 8, 8, -126, 127, False, 0),
    "SingleS": (32, 8, 24, -126, 127, False, 0),
    "DoubleS": (64, 11, 53, -1022, 1023, False, 0),
    "QuadS": (128, 15, 113, -16382, 16383, False, 0),
    "Float8E5M2S": (8, 5, 3, -14, 15, False, 0),
    "Float8E4M3FNS": (8, 4, 4, -6, 8, True, 0),
    "X87DoubleExtendedS": (80, 15, 64, -16382, 16383, False, 3 << 62),
    "FallbackS": (0, 0, 106, -1022 + 53, 1023, False, 0),  # of IeeeFloat<DoubleS>
    "FallbackExtendedS": (0, 0, 106, -1022, 1023, False, 0),
}
CONST_T = {"BITS": "usize", "EXP_BITS": "usize", "PRECISION": "usize", "NONFINITE_BEHAVIOR": "NonfiniteBehavior", "IEEE_MIN_EXP": "ExpInt",
           "IEEE_MAX_EXP": "ExpInt", "MIN_EXP": "ExpInt", "MAX_EXP": "ExpInt", "NAN_SIGNIFICAND_BASE": "Limb", "NAN_PAYLOAD_MASK": "Limb",
           "QNAN_SIGNIFICAND": "Limb"}


def sem_module(consts, with_bits=False):
    """every format's constants: the source's expressions are evaluated and compared with the table above"""
    macro = consts.get("macro:ieee_semantics:", {"text": ""})["text"]
    own = {}
    for m in re.finditer(r"\w+ = (\w+) \((\d+) : (\d+)\) (\{[^}]*\})?", macro):
        o = {"BITS": m.group(2), "EXP_BITS": m.group(3)}
        for c in re.finditer(r"const (\w+) : [^=]*= ([^;]*) ;", m.group(4) or ""):
            o[c.group(1)] = c.group(2)
        own[m.group(1)] = o
    for k, c in consts.items():
        if k == "overrides":
            continue
        t = k.split("::")
        if len(t) == 2 and t[0] in FORMATS:
            own.setdefault(t[0], {})[t[1]] = c["text"]
    o, missing = [], []
    for f, (bits, eb, p, lo, hi, no_inf, qn) in FORMATS.items():
        if f not in own:
            missing.append(f)
            continue
        nf = "NonfiniteBehavior::NanOnly" if no_inf else "NonfiniteBehavior::IEEE754"
        one = (1 << (p - 1)) - 1
        val = {"BITS": bits, "EXP_BITS": eb, "PRECISION": p, "NONFINITE_BEHAVIOR": nf, "MIN_EXP": lo, "MAX_EXP": hi,
               "IEEE_MIN_EXP": 2 - (1 << (eb - 1)) if eb else None, "IEEE_MAX_EXP": (1 << (eb - 1)) - 1 if eb else None,
               "NAN_SIGNIFICAND_BASE": one if no_inf else 0, "NAN_PAYLOAD_MASK": 0 if no_inf else one,
               "QNAN_SIGNIFICAND": qn or (0 if no_inf else 1 << (p - 2))}
        facts = "assert(1u128 << %du128 == %#xu128 && 1u128 << %du128 == %#xu128 && 0b11u128 << %du128 == %#xu128) by (bit_vector);" % (
            p - 1, 1 << (p - 1), p - 2, 1 << (p - 2), p - 2, 3 << (p - 2))
        if eb:
            facts += " assert(1i32 << %di32 == %di32) by (bit_vector);" % (eb - 1, 1 << (eb - 1))
        name = lambda c: "vx_%s_%s" % (f, c)
        tr = []
        for c, ty in CONST_T.items():
            if val[c] is None:
                continue
            if c[:5] != "IEEE_":
                tr.append("const %s: %s = %s;" % (c, ty, val[c]))
            e = own[f].get(c) or consts.get("Semantics::" + c, {}).get("text")
            if e is None:
                missing.append("%s::%s" % (f, c))
                continue
            e = re.sub(r"\bSelf :: ([A-Z_]+)\b", lambda m: name(m.group(1)) + "()", e)
            e = re.sub(r"\bFallback :: < F > :: ([A-Z_]+)\b", r"vx_FallbackS_\1()", e)
            e = re.sub(r"\bF :: ([A-Z_]+)\b", lambda m: "vx_DoubleS_%s()" % m.group(1), e)
            o.append("/*VXFN const:%s::%s*/\nfn %s() -> (r: %s)\n ensures r == %s\n{ proof { %s }\n %s }\n/*VXEND*/" % (f, c, name(c), ty, val[c], facts, e))
        st = "Fmt" + f
        o.append("pub struct %s; impl Semantics for %s { %s }" % (st, st, " ".join(tr)))
        if with_bits and eb and f != "X87DoubleExtendedS":
            o.append("pub proof fn wfenc_%s() ensures crate::bits::wfenc::<%s>() {\n wfs_%s(); p128(); one_shl(%d); one_shl(%d); one_shl(%d); %s"
                     " assert(1u128 << %du128 == %d) by (bit_vector); reveal(crate::bits::wfenc); reveal(wfs); }" % (f, st, f, p - 1, p - 2, eb, facts, eb, 1 << eb))
        o.append("pub proof fn consts_%s() ensures %s { }" % (f, ", ".join("%s::%s == %s" % (st, c, val[c]) for c in CONST_T if c[:5] != "IEEE_" and val[c] is not None)))
        o.append("pub proof fn wfs_%s() ensures wfs::<%s>() {\n p128(); one_shl(%d); one_shl(%d); %s reveal(wfs); }" % (f, st, p - 1, p - 2, facts))
    c = consts.get("LIMB_BITS")
    if c:
        o.append("/*VXFN const:LIMB_BITS*/\nfn vx_limb_bits() -> (r: usize) ensures r == 128 { %s }\n/*VXEND*/" % c["text"])
    else:
        missing.append("LIMB_BITS")
    for n in ("BITS", "PRECISION", "MAX_EXP", "MIN_EXP"):
        c = consts.get("IeeeFloat::" + n)
        if c:
            o.append("/*VXFN const:IeeeFloat::%s*/\nfn vx_%s<S: Semantics>() -> (r: %s) ensures r == S::%s { %s }\n/*VXEND*/" % (n, n, c["type"], n, c["text"]))
    return "\n".join(o), missing


def closure(contracts, mods, wanted):
    """modules a set of modules depends on (declared with `uses`)"""
    seen = []

    def go(m):
        if m in seen or m not in mods:
            return
        for u in mods[m]["uses"]:
            go(u)
        seen.append(m)
    for m in wanted:
        go(m)
    return seen


def compose(contracts, mods, fns, consts, types, opaque, use_mods):
    read = lambda n: open(os.path.join(VX, "proofs", n)).read()
    o = ["#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_assignments, dead_code, unused_braces, unused_labels)]",
         "use vstd::prelude::*;"]
    use = "use vstd::prelude::*; use vstd::arithmetic::{power::*, power2::*, div_mod::*, mul::*}; use vstd::bits::*; use vstd::slice::*; use vstd::std_specs::num::*; use core::cmp::Ordering; use core::mem; use core::marker::PhantomData;"
    o.append("pub mod math { %s verus! {\n%s\n} }" % (use, read("math.rs")))
    o.append("pub mod base { %s use crate::math::*; verus! {\n%s\n%s\n%s\n} }" % (use, head(consts, types), read("prelude.rs"), read("base.rs")))
    where, notes = {}, {}
    opaque = set(opaque) | {k for k in contracts if "assumed" in contracts[k].attrs}
    for m in use_mods:
        md = mods[m]
        deps = "".join(" use crate::%s::*;" % u for u in closure(contracts, mods, md["uses"]) if u != "sig") + (" use crate::sem::*;" if "sem" in md["uses"] else "")
        o.append("pub mod %s { %s use crate::math::*; use crate::base::*; use crate::base::IeeeFloat; %s verus! {" % (m, use, deps))
        if "sig" in use_mods:
            o.append("use crate::sig; use crate::sig::{limbs_for_bits, LIMB_BITS};" if m != "sig" else "use crate::sig;")
        o.append(md["raw"])
        groups = {}
        for k in md["fns"]:
            if k not in fns:
                continue
            groups.setdefault(fns[k]["owner"] if fns[k]["owner"] else "", []).append(k)
        for owner, ks in groups.items():
            if owner in ("Loss", "Round", "Status"):
                o.append("impl %s {" % owner)
            elif owner == "IeeeDefaultExceptionHandling":
                o.append("impl IeeeDefaultExceptionHandling {")
            elif owner in ("IeeeFloat", "Float", "NegExt"):
                o.append("impl<S: Semantics> IeeeFloat<S> {")
            elif owner == "DoubleFloat":
                o.append("impl DoubleFloat<IeeeFloat<FmtDoubleS>> {")
            elif owner == "Fallback":
                o.append("impl IeeeFloat<FmtFallbackS> {")
            elif owner == "x87":
                o.append("impl IeeeFloat<FmtX87DoubleExtendedS> {")
            elif owner == "i32":
                o.append("impl VxNegExt for i32 { open spec fn vx_int(self) -> int { self as int }")
            for k in ks:
                c = contracts[k]
                t, nt = place(c, fns[k], k not in opaque)
                if owner == "i32":
                    t = re.sub(r"^\s*pub fn", "fn", t)
                notes[k] = nt
                if k in opaque:
                    o.append("#[verifier::external_body]")
                for a in c.attrs:
                    if a == "assumed":
                        continue
                    o.append("#[verifier::%s]" % a)
                o.append("/*VXFN %s*/" % k)
                o.append(t)
                o.append("/*VXEND %s*/" % k)
            if owner in ("Loss", "Round", "Status", "IeeeFloat", "Float", "NegExt", "IeeeDefaultExceptionHandling", "x87", "i32", "DoubleFloat", "Fallback"):
                o.append("}")
        o.append("} }")
    t, missing = sem_module(consts, "bits" in use_mods)
    o.append("pub mod sem { %s use crate::math::*; use crate::base::*; use crate::rnd::*; use crate::flt::*; verus! {\n%s\n} }" % (use, t))
    notes["sem"] = ["constant %s not found" % x for x in missing]
    o.append("fn main() {}")
    text = "\n".join(o)
    return text, notes


def fn_lines(text):
    """line number -> function key"""
    r, cur = {}, None
    for n, l in enumerate(text.split("\n"), 1):
        m = re.search(r"/\*VXFN (.*?)\*/", l)
        if m:
            cur = m.group(1)
        if cur:
            r[n] = cur
        if "/*VXEND" in l:
            cur = None
    return r


def run_verus(path, modules, limit, seed=None, rlimit=None, extra=()):
    cmd = ["verus", path, "--error-format=json", "--output-json", "--time", "--multiple-errors", "4", "--num-threads", "8", *extra]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    for m in modules:
        cmd += ["--verify-module", m]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=max(5, limit))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None
    res = {"rc": p.returncode, "wall": time.time() - t, "errors": [], "json": None}
    try:
        res["json"] = json.loads(out[out.index("{"):])
    except Exception:
        pass
    for l in err.splitlines():
        if not l.startswith("{"):
            if l.strip():
                res.setdefault("raw", []).append(l)
            continue
        try:
            d = json.loads(l)
        except Exception:
            continue
        if d.get("level") == "error":
            res["errors"].append(d)
    return res

# ---- deciding a property --------------------------------------------------------------------------

def callees(text, contracts, owner):
    """keys of the contracts a function's text refers to"""
    t = re.sub(r"\s+", "", text)
    res = set()
    by_last = {}
    for k in contracts:
        by_last.setdefault(k.split("#")[0].split("::")[-1], []).append(k)
    for m in re.finditer(r"(sig::|Self::|IeeeFloat::(?:<[ST]>::)?|\.|)\b(\w+)\(", t):
        pre, name = m.groups()
        for k in by_last.get(name, []):
            in_sig = k.startswith("sig::")
            if pre == "sig::" and not in_sig:
                continue
            if pre in (".", "Self::") and in_sig:
                continue
            if pre == "" and in_sig and owner:
                continue
            if pre.startswith("IeeeFloat") and in_sig:
                continue
            res.add(k)
    for m in re.finditer(r"(?:IeeeFloat(?:::<[ST]>)?|Self|<Self>|S)::([A-Z]\w+)", t):
        if "const:IeeeFloat::" + m.group(1) in contracts:
            res.add("const:IeeeFloat::" + m.group(1))
    return res


def call_closure(contracts, fns, keys):
    seen, todo = [], list(keys)
    while todo:
        k = todo.pop()
        if k in seen or k not in contracts:
            continue
        seen.append(k)
        if k in fns and "assumed" not in contracts[k].attrs:
            todo += sorted(callees(fns[k]["text"], contracts, fns[k]["owner"]))
    return seen


DEFINITE = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
            "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
            "possible bit shift underflow/overflow", "cannot show invariant", "possible truncation", "assertion not satisfied",
            "precondition", "postcondition", "unreachable", "index out of bounds")


def where_of(d, lines):
    sp = [s for s in d.get("spans", []) if s.get("is_primary")] or d.get("spans", [])
    keys = [lines.get(s["line_start"]) for s in sp] + [lines.get(s["line_start"]) for s in d.get("spans", [])]
    # for a failed precondition the first span of a function other than the callee is the call site
    if "precondition" in d["message"]:
        for s in d.get("spans", []):
            if "failed precondition" not in (s.get("label") or "") and lines.get(s["line_start"]):
                return lines[s["line_start"]]
    keys = [k for k in keys if k]
    return keys[0] if keys else None


def brief(d, text_lines):
    o = [d["message"]]
    for s in d.get("spans", [])[:4]:
        o.append("  %s" % (s.get("label") or ""))
        for x in s["text"][:6]:
            o.append("    | " + x["text"].rstrip()[:160])
    return "\n".join(o)


def check(prop, units, seed, limit, log, src=REPO_SRC):
    t0 = time.time()
    end = t0 + limit
    res = {"obligations": 0, "discharged": 0, "rejected": [], "undecided": [], "trusted": [], "functions": [], "solver_s": 0.0,
           "wall_s": 0.0, "dropped": [], "loops": 0, "lemmas": 0}

    def done():
        res["wall_s"] = round(time.time() - t0, 2)
        res["solver_s"] = round(res["solver_s"], 2)
        return res
    try:
        exe = build_extractor()
        con, mods = load_contracts()
        allmods = closure(con, mods, list(mods))
        keys = [k for m in allmods for k in mods[m]["fns"]]
        fns, consts, types = extract(exe, con, keys, prop, src)
    except Exception as e:  # the source has no longer the shape the extractor reads
        res["undecided"].append("extraction: %s" % str(e)[-400:])
        log("V: no extraction:", str(e)[-300:])
        return done()
    lemmas = [u[7:] for u in units if u.startswith("lemmas:")]  # modules of proofs over the contracts
    need = call_closure(con, fns, units)
    for k in need:
        if k not in fns:
            res["undecided"].append("%s: not found in the source" % k)
    res["undecided"] += consts["overrides"]
    res["undecided"] += ["constant %s not found in the source" % x for x in sem_module(consts)[1]]
    want = closure(con, mods, [con[k].module for k in need] + lemmas)
    opaque, gone, bad = set(), set(), {}
    text = lines = r = None
    for attempt in range(12):
        live = {k: v for k, v in fns.items() if k not in gone}
        try:
            text, notes = compose(con, mods, live, consts, types, opaque, allmods)
        except Exception as e:
            res["undecided"].append("composition: %r" % e)
            return done()
        path = os.path.join(BUILD, "v-%s.rs" % prop)
        open(path, "w").write(text)
        lines = fn_lines(text)
        r = run_verus(path, ["math", "base", "sem"] + want, end - time.time())
        if r is None:
            res["undecided"].append("time limit reached")
            return done()
        j = r["json"] or {}
        if j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times"):
            break
        # the program is outside the accepted subset: name the functions, take their bodies out, try again
        hit = set()
        for d in r["errors"]:
            k = where_of(d, lines)
            if k:
                hit.add(k)
                bad[k] = d["message"]
        if not hit:
            res["undecided"].append("verifier: " + "; ".join([d["message"][:200] for d in r["errors"][:3]] + r.get("raw", [])[:2]))
            return done()
        for k in hit:
            (gone if k in opaque else opaque).add(k)
    else:
        res["undecided"].append("the extracted program could not be brought into the accepted subset")
        return done()
    j = r["json"]
    vr = j["verification-results"]

    def sort_errors(r):
        rej, und = {}, {}
        for d in r["errors"]:
            if d["message"].startswith("aborting"):
                continue
            k = where_of(d, lines)
            m = d["message"]
            if k is None or (k.startswith("const:") and k not in con):
                # a constant whose value is not what the table says: the contracts say nothing about such a format
                und.setdefault(k or "lemma", []).append(m + " " + brief(d, None)[:400])
            elif "rlimit" in m or "Resource limit" in m or not m.startswith(DEFINITE):
                und.setdefault(k, []).append(m)
            else:
                rej.setdefault(k, []).append(brief(d, None))
        return rej, und
    rej, und = sort_errors(r)
    # a rejected or unanswered function gets other solver seeds and more resources before the answer counts
    for k in [x for x in dict.fromkeys(list(rej) + list(und)) if x in con and x in need]:
        for sd in (7, 23):
            if end - time.time() < 60:
                break
            base = con[k].key.split("#")[0].split("::")[-1]
            owner = fns[k]["owner"]
            pat = base if not owner or con[k].module == "sig" else "%s::%s" % (owner, base)
            m = con[k].module
            r2 = run_verus(path, [], min(150, end - time.time()), rlimit=60,
                           extra=["--verify-only-module", m, "--verify-function", "*" + base, "--smt-option", "smt.random_seed=%d" % sd])
            if not r2 or not r2["json"] or not r2["json"].get("times-ms", {}).get("smt"):
                break
            rj, ud = sort_errors(r2)
            if k not in rj and k not in ud and r2["json"]["verification-results"]["verified"] > 0:
                log("V: %s: discharged with solver seed %d" % (k, sd))
                rej.pop(k, None)
                und.pop(k, None)
                break
            if k in ud and k not in rj:
                rej.pop(k, None)
                und[k] = ud[k]
    res["obligations"] = vr["verified"] + len(rej) + len(und)
    res["discharged"] = vr["verified"]
    res["loops"] = sum(fns[k]["loops"] for k in need if k in fns)
    for m in j["times-ms"]["smt"]["smt-run-module-times"]:
        res["solver_s"] += m["time"] / 1000.0
    for k, ms in und.items():
        if k == "lemma" or k in need or k not in con:
            res["undecided"].append("%s: %s" % (k, ms[0][:300]))
    for k in sorted(opaque | gone):
        if k in need:
            res["undecided"].append("%s: outside the verifier's subset (%s); its contract is assumed" % (k, bad.get(k, "")[:200]))
    for k, ms in rej.items():
        if k not in need:
            continue
        misses = [n for n in notes.get(k, []) if n.startswith(("no place", "loop", "invariant"))]
        if misses:
            res["undecided"].append("%s: the code changed shape (%s) and the proof no longer applies" % (k, "; ".join(misses)[:300]))
            continue
        res["rejected"].append({"obligation": "%s (%s)" % (k, "; ".join(sorted({x.split("\n")[0] for x in ms}))), "output": "%s\n%s" % (k, "\n".join(ms))})
    failed = set(rej) | set(und) | opaque | gone | {k for k in con if "assumed" in con[k].attrs}
    res["functions"] = sorted(k for k in need if k in fns and k not in failed)
    drop = set()
    for k in need:
        if k in fns and "assumed" not in con[k].attrs:
            drop |= set(fns[k].get("notes", []))
    res["dropped"] = sorted(drop)
    res["trusted"] = trusted(text)
    return done()


def trusted(text):
    o = ["Verus 0.2026.09.13 + Z3, and vstd", "the extractor (vx/src): which syntax it rewrites is listed under coverage.verus.dropped"]
    for m in re.finditer(r"assume_specification(?:<[^\[]*)?\[\s*([^\]]*?)\s*\]", text):
        o.append("assumed: specification of %s" % m.group(1))
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:/\*VXFN (\S+)\*/\s*)?(?:pub )?(?:const )?(?:proof )?fn (\w+)", text):
        o.append("assumed: contract of %s" % (m.group(1) or m.group(2)))
    n = len(re.findall(r"\b(?:assume|admit)\(", text))
    if n:
        o.append("assume/admit statements: %d" % n)
    return sorted(set(o))
