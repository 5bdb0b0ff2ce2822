"""What each check runs."""

FMT = ["half", "bfloat", "single", "double", "quad", "x87", "e5m2", "e4m3"]
RM = ["NearestTiesToEven", "TowardPositive", "TowardNegative", "TowardZero", "NearestTiesToAway"]

# the inputs a harness draws, in order
ARGS = {
    "bits": "a", "add": "abr", "sub": "abr", "mul": "abr", "cmp": "ab", "min": "ab", "max": "ab", "minimum": "ab",
    "maximum": "ab", "to_u": "anr", "to_i": "anr", "from_u": "ar", "from_i": "ar", "round_int": "ar", "is_integer": "a",
    "next_up": "a", "next_down": "a", "scalbn": "anr", "ilogb": "a", "frexp": "ar", "signs": "ab", "consts": "a",
    "convert": "ar", "status": "a", "dd_bits": "a", "dd_signs": "ab", "dd_consts": "a",
}


def split_name(h):
    """k_<op>_<fmt>[_<fmt2>] -> op, fmt, fmt2"""
    t = h[2:].split("_")
    if t[0] == "dd":
        return "_".join(t), "double", "double"
    if t[0] == "status":
        return "status", "half", "half"
    if t[0] == "convert":
        return "convert", t[1], t[2]
    return "_".join(t[:-1]), t[-1], t[-1]


def kani_vals_to_case(h, vals):
    op, f, f2 = split_name(h)
    want = ARGS[op]
    if len(vals) < len(want):
        return None
    c = {"a": 0, "b": 0, "c": 0, "n": 0, "r": 0}
    for k, v in zip(want, vals):
        c[k] = v
    if c["r"] > 4:
        return None
    n = c["n"]
    if op == "scalbn" and n >= 1 << 31:
        n -= 1 << 32
    return "%s %s %s %s %#x %#x %#x %d |" % (op, f, f2, RM[c["r"]], c["a"], c["b"], c["c"], n)


def hs(ops, fmts=FMT):
    return ["k_%s_%s" % (o, f) for o in ops for f in fmts]


WIDE = FMT[:6]
SMALLPAIR = {"half": 0, "bfloat": 0}

CONV = ["k_convert_%s_%s" % (a, b) for a in FMT for b in FMT]
CONV_Q = ["k_convert_%s_%s" % p for p in [
    ("single", "half"), ("single", "bfloat"), ("double", "single"), ("double", "half"), ("quad", "double"), ("quad", "x87"),
    ("quad", "single"), ("x87", "double"), ("x87", "quad"), ("half", "single"), ("single", "double"), ("double", "quad"),
    ("double", "x87"), ("single", "e4m3"), ("single", "e5m2"), ("x87", "x87"), ("double", "e4m3"), ("quad", "quad"),
]]

ASSUMPTIONS = [
    "rustc, Kani/CBMC and Verus/Z3 are sound; the executable contract (contracts/src/spec.rs) states IEEE 754 as intended",
]
TRUSTED = ["Kani 0.68.0 + CBMC (SAT back end), Rust semantics as modelled by Kani, contracts/src/spec.rs as the statement"]

PROPS = {}


def prop(i, level, technique, note, quick=(), thorough=(), verus=None, per=200, assumptions=(), kfull=False):
    PROPS[i] = dict(level=level, technique=technique, note=note, kani_quick=list(quick), kani_thorough=list(thorough),
                    verus=verus, kani_per=per, kfull=kfull, assumptions=list(assumptions))


VT = "contracts on the functions of /repo/src (extracted on every run), every obligation discharged by Verus/Z3 for all formats and inputs; "
KT = "Kani contract harnesses, full symbolic domain, on the public functions"
WT = "executable contract checked on concrete inputs (bounded)"

ALLCMP = ["IeeeFloat::partial_cmp", "IeeeFloat::eq", "IeeeFloat::cmp_abs_normal", "IeeeFloat::bitwise_eq"]
SPECIALS = ["is_zero", "is_infinite", "is_nan", "is_finite", "is_finite_non_zero", "is_non_zero", "is_pos_zero", "is_neg_zero",
            "is_pos_infinity", "is_neg_infinity", "is_normal"]

prop("A01", "proof", VT + KT, "", hs(["bits"]), kfull=True,
     verus=["Semantics::from_bits", "Semantics::to_bits", "X87DoubleExtendedS::from_bits", "X87DoubleExtendedS::to_bits",
            "IeeeFloat::from_bits", "IeeeFloat::to_bits", "IeeeFloat::from_bits#x87", "IeeeFloat::to_bits#x87"])
prop("A02", "proof", VT + WT, "", [], hs(["add", "sub"], WIDE), verus=["IeeeFloat::add_r", "IeeeFloat::sub_r"])
prop("A03", "proof", VT + WT, "", [], hs(["mul"], ["half", "bfloat"]), verus=["IeeeFloat::mul_r"])
prop("A04", "proof", VT + WT, "", verus=["IeeeFloat::div_r"])
prop("A05", "proof", VT + WT, "", verus=["IeeeFloat::mul_add_r"])
prop("A06", "proof", VT + WT, "", verus=["IeeeFloat::c_fmod", "IeeeFloat::ieee_rem", "IeeeFloat::rem", "IeeeFloat::rem_assign"])
prop("A07", "proof", VT + WT, "",
     verus=["IeeeFloat::is_signaling", "IeeeDefaultExceptionHandling::result_from_nan", "IeeeDefaultExceptionHandling::binop_result_from_either_nan", "IeeeFloat::qnan", "IeeeFloat::snan", "IeeeFloat::add_r", "IeeeFloat::sub_r", "IeeeFloat::mul_r",
            "IeeeFloat::div_r", "IeeeFloat::mul_add_r", "IeeeFloat::c_fmod", "IeeeFloat::ieee_rem", "IeeeFloat::convert_r",
            "IeeeFloat::round_to_integral", "IeeeFloat::next_up", "Float::next_down", "IeeeFloat::scalbn_r", "IeeeFloat::frexp_r"])
prop("A08", "proof", VT + WT, "", ["k_status"],
     verus=["IeeeFloat::add", "IeeeFloat::sub", "IeeeFloat::mul", "IeeeFloat::div", "Float::mul_add", "IeeeFloat::add_assign",
            "IeeeFloat::sub_assign", "IeeeFloat::mul_assign", "IeeeFloat::div_assign", "IeeeFloat::rem", "IeeeFloat::rem_assign", "Float::scalbn", "Float::frexp",
            "Float::from_u128", "Float::from_i128", "Float::to_i128", "Float::to_u128", "FloatConvert::convert"]
     + ["DoubleFloat::" + x for x in ("add", "sub", "mul", "div", "add_assign", "sub_assign", "mul_assign", "div_assign")])
prop("A09", "proof", VT + KT, "", hs(["cmp"]), verus=ALLCMP, kfull=True)
prop("A10", "proof", VT + KT, "", hs(["min", "max", "minimum", "maximum"]), kfull=True,
     verus=["Float::min", "Float::max", "Float::minimum", "Float::maximum"])
prop("A11", "proof", VT + KT, "", hs(["to_u", "to_i"]), kfull=True,
     verus=["IeeeFloat::to_u128_r", "Float::to_i128_r", "Float::to_u128", "Float::to_i128"])
prop("A12", "proof", VT + KT, "", hs(["from_u", "from_i"]), kfull=True,
     verus=["IeeeFloat::from_u128_r", "Float::from_i128_r", "Float::from_u128", "Float::from_i128"])
prop("A13", "proof", VT + KT, "", CONV_Q, [c for c in CONV if c not in CONV_Q], verus=["IeeeFloat::convert_r", "FloatConvert::convert"])
prop("A14", "proof", VT + KT, "", hs(["is_integer"], ["half"]), hs(["round_int", "is_integer"]),
     verus=["IeeeFloat::round_to_integral", "Float::is_integer"])
prop("A15", "proof", VT + KT, "", hs(["next_up", "next_down"]), kfull=True, verus=["IeeeFloat::next_up", "Float::next_down"])
prop("A16", "proof", VT + KT, "", hs(["scalbn", "ilogb", "frexp"], ["half", "single", "double", "e4m3"]),
     hs(["scalbn", "ilogb", "frexp"], ["bfloat", "quad", "x87", "e5m2"]),
     verus=["IeeeFloat::ilogb", "IeeeFloat::scalbn_r", "Float::scalbn", "IeeeFloat::frexp_r", "Float::frexp"])
prop("A17", "proof", VT + WT, "", verus=["IeeeFloat::from_decimal_string", "IeeeFloat::calc_normal_from_limbs", "IeeeFloat::from_str_r"])
prop("A18", "proof", VT + WT, "", verus=["IeeeFloat::from_hexadecimal_string", "IeeeFloat::from_str_r"])
prop("A19", "proof", VT + WT, "", verus=["IeeeFloat::from_str_r", "IeeeFloat::from_hexadecimal_string", "IeeeFloat::from_decimal_string"])
prop("A20", "proof", VT + WT, "", verus=["IeeeFloat::fmt", "lemmas:back"],
     assumptions=["V: fmt::Formatter is a record of width, precision, alternate flag and text; precision at most 2^24 (2^19 for reading back, which is proved from the contract of from_str_r that A19 decides)"])
prop("A21", "proof", VT + KT, "", hs(["signs", "consts"]), kfull=True,
     verus=["IeeeFloat::neg", "Float::abs", "Float::copy_sign", "NegExt::with_sign", "NegExt::negate_if", "const:IeeeFloat::ZERO",
            "const:IeeeFloat::NAN", "const:IeeeFloat::INFINITY", "const:IeeeFloat::SMALLEST", "IeeeFloat::largest",
            "IeeeFloat::smallest_normalized", "IeeeFloat::qnan", "IeeeFloat::default"])
prop("A22", "proof", VT + WT, "", verus=["IeeeFloat::get_exact_inverse"])
D = "DoubleFloat::"
prop("A23", "proof", VT + KT, "", ["k_dd_bits", "k_dd_signs", "k_dd_consts"],
     verus=[D + x for x in ("category", "is_negative", "is_signaling", "neg", "default", "from_bits", "to_bits", "eq", "partial_cmp",
                            "cmp_abs_normal", "bitwise_eq", "add_r", "mul_r", "mul_add_r", "div_r", "ieee_rem", "c_fmod",
                            "round_to_integral", "next_up", "get_exact_inverse", "is_integer", "is_denormal", "ilogb", "scalbn_r",
                            "frexp_r", "qnan", "snan", "largest", "smallest_normalized", "to_u128_r", "from_str_r")]
     + ["Float::%s#DoubleFloat" % x for x in ("copy_sign", "abs", "is_zero", "is_infinite", "is_nan", "is_finite", "is_finite_non_zero",
                                              "sub_r", "next_down")]
     + ["const:DoubleFloat::" + x for x in ("ZERO", "INFINITY", "NAN", "SMALLEST")])
prop("A24", "proof", VT + WT, "",
     verus=[D + x for x in ("add_r", "mul_r", "from", "from_u128_r", "to_u128_r", "from_str_r")] + ["Float::sub_r#DoubleFloat", "Fallback::from"])

NOTES = ("No hooks in /repo: Verus proves functions extracted mechanically from /repo/src on every run, Kani and the witness search "
         "use the public API. Commits in /repo are fix: commits only; see known-findings.txt.")
