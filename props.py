"""Registry: which harnesses (contracts) decide which property."""
import itertools

TRUSTED = [
    "clang 18 front end and the listed LLVM normalisation passes (SROA, inlining, instcombine, simplifycfg, EarlyCSE, SCCP, loop-simplify) preserve meaning",
    "llvc's semantics of LLVM IR and z3/cvc5 are sound; integer overflow flags (nsw/nuw) are treated as wrapping",
    "allocation never fails; distinct objects do not overlap; objects are smaller than 2^47 bytes",
    "loop iteration counts are below 2^62; termination is not proved (partial correctness)",
]


class H:
    def __init__(self, root, file, doc, preds=(), cover=("end",), splits=None, opts=None, replace=None, keep=(), jobs=1, ms=30000, deadline=420, weight=1, native=True, fuzz=6, max_len=400, bounded_only=False, thorough_only=False, min_obligations=1, real_root=None):
        self.root, self.file, self.doc = root, file, doc
        self.preds, self.cover, self.splits = list(preds), list(cover), splits or {}
        self.opts, self.replace, self.keep = opts or {}, replace or {}, list(keep)
        self.jobs, self.ms, self.deadline, self.weight = jobs, ms, deadline, weight
        self.native, self.fuzz, self.max_len = native, fuzz, max_len
        self.bounded_only, self.thorough_only, self.min_obligations = bounded_only, thorough_only, min_obligations

    def cases(self):
        ks = list(self.splits)
        return [dict(zip(ks, v)) for v in itertools.product(*[range(self.splits[k]) for k in ks])]


class P:
    def __init__(self, title, harnesses, level="proof", note="", technique="contract-based deductive verification of the compiled real code (VC generation over LLVM IR, z3/cvc5)", trusted=(), assumptions=()):
        self.title, self.harnesses, self.level, self.note, self.technique = title, harnesses, level, note, technique
        self.trusted, self.assumptions = list(trusted), list(assumptions)


PROPS = {}

B64_STUB = {"fastgltf::base64::fallback_decode_inplace(": "stub_fallback"}
PROPS["P01"] = P("base64 decoding is exact", [
    H("h_b64_fallback", "b64.cpp", "fallback_decode_inplace == RFC 4648 for every byte, stays inside input and output", preds=["b64_in", "b64_out"], splits=dict(r=1, j=3), weight=3),
    H("h_b64_sse4", "b64.cpp", "sse4_decode_inplace == RFC 4648 (callee fallback by contract)", preds=["b64_in"], splits=dict(r=4, j=3), replace=B64_STUB, weight=2),
    H("h_b64_avx2", "b64.cpp", "avx2_decode_inplace == RFC 4648 (callee fallback by contract)", preds=["b64_in"], splits=dict(r=8, j=3), replace=B64_STUB, weight=4),
])

CRC = dict(crc_uf=True)
PROPS["P02"] = P("CRC-32C and bit utilities are exact", [
    H("h_crc_lemma", "util.cpp", "the SSE4.2 crc32b instruction is one bitwise CRC-32C step"),
    H("h_crc_table", "util.cpp", "crc32c(string_view) == CRC-32C for every length", preds=["crc_inv", "crc_ax"], splits=dict(len_mod_4=4), weight=2),
    H("h_crc_table_ptr", "util.cpp", "crc32c(ptr, len) == CRC-32C for every length", preds=["crc_inv", "crc_ax"], splits=dict(len_mod_4=4), weight=2),
    H("h_crc_sse", "util.cpp", "sse_crc32c(string_view) == CRC-32C for every length", preds=["crc_inv", "crc_ax"], splits=dict(len_mod_4=4), opts=CRC),
    H("h_crc_sse_ptr", "util.cpp", "sse_crc32c(ptr, len) == CRC-32C for every length", preds=["crc_inv", "crc_ax"], splits=dict(len_mod_4=4), opts=CRC),
] + [H("h_bits%d" % w, "util.cpp", "clz and popcount on %d-bit values" % w, opts=dict(unroll_sym=70)) for w in (8, 16, 32, 64)] + [
    H("h_arith", "util.cpp", "uabs on all signed widths"),
    H("h_align", "util.cpp", "alignUp / alignDown"),
    H("h_le", "util.cpp", "little-endian 32-bit header fields"),
])

CT = dict(ctype=8)
PROPS["P03"] = P("accessor components are decoded, converted and normalised per glTF", [
    H("h_comp_" + d, "comp.cpp", "deserialize/convert/getAccessorComponentAt to %s from all component types" % d, splits=CT)
    for d in ("float", "double", "u8", "s8", "u16", "s16", "u32", "s32")] + [
    H("h_types", "comp.cpp", "component and accessor type tables"),
])
PROPS["P04"] = P("accessor elements keep component order and matrix layout", [
    H("h_el_" + e, "comp.cpp", "getAccessorElementAt<%s>" % e, splits=CT)
    for e in ("u8", "u16", "u32", "s32", "float", "fvec2", "fvec3", "fvec4", "fquat", "dvec3", "u8vec4", "s8vec3", "u16vec4", "s16vec2", "u32vec2", "s32vec3")] + [
    H("h_el_mat%d" % n, "comp.cpp", "matrix element, %d columns" % n, splits=CT) for n in (2, 3, 4)])

RM = dict(real=True, unroll_sym=9)


def rh(names, doc, **k):
    return [H(n, "math.cpp", doc, opts=dict(RM), ms=60000, **k) for n in names]


REALS = ["floating-point arithmetic of math.hpp is treated as exact real arithmetic: rounding, overflow, NaN and infinities are not modelled",
         "libm trigonometry (only used by slerp's non-linear branch) is uninterpreted; sqrt is the exact square root"]
PROPS["P05"] = P("vector, quaternion and matrix algebra",
    rh(["h_vec2", "h_vec3", "h_vec4", "h_dvec2", "h_dvec3", "h_dvec4"], "component-wise operators, dot, sum, access", fuzz=3) +
    rh(["h_conv2", "h_conv3", "h_conv4", "h_dconv2", "h_dconv3", "h_dconv4"], "vector resizing, conversion, clamp, lerp", fuzz=3) +
    rh(["h_len2", "h_len3", "h_len4", "h_dlen2", "h_dlen3", "h_dlen4"], "length and normalize", fuzz=3) +
    rh(["h_cross", "h_dcross"], "cross product", fuzz=3) +
    rh(["h_quat", "h_dquat", "h_qnorm", "h_dqnorm", "h_slerp"], "quaternion operators, normalize, slerp end points", fuzz=3) +
    rh(["h_qmat", "h_dqmat"], "rotation matrix of a unit quaternion", fuzz=3) +
    rh(["h_mat%s" % x for x in "22 23 24 32 33 34 42 43 44".split()] + ["h_dmat33", "h_dmat44", "h_dmat34"], "matrix scalar operators, transpose, access, comparison", fuzz=3) +
    rh(["h_matc%s" % x for x in "22 23 24 32 33 34 42 43 44".split()], "matrix constructors are column-major", fuzz=3) +
    rh(["h_mul%s" % x for x in "222 333 444 234 432 342".split()] + ["h_dmul444", "h_dmul333"], "matrix product", fuzz=3) +
    rh(["h_inv2", "h_inv3", "h_inv4", "h_dinv2", "h_dinv3", "h_dinv4", "h_affine", "h_daffine", "h_resize"], "determinant, inverse, affine inverse, resizing", fuzz=5),
    assumptions=REALS)
PROPS["P06"] = P("node transforms compose and decompose",
    rh(["h_elem", "h_delem"], "translate, rotate and scale are M*T, M*R, M*S") +
    rh(["h_local", "h_localm"], "getLocalTransformMatrix / getTransformMatrix == T*R*S or the node's matrix") +
    rh(["h_qneg"], "q and -q denote the same rotation") +
    rh(["h_decompose"], "decomposeTransformMatrix recovers translation, scale and rotation", splits=dict(signs=8, largest=4), weight=5),
    assumptions=REALS)
