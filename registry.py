"""What each property's check runs: units (sources and flags), entries, bounds."""
GF_MULA = "_ZN22distributed_vector_ole5gf128mLERKS0_"
UNITS = {
    "gf128_asm": {"src": ["h_gf128.cpp", ("repo:gf128.cpp", ["-DUSE_ASM", "-mpclmul", "-msse4.1"])]},
    "gf128_soft": {"src": ["h_gf128.cpp", "repo:gf128.cpp"]},
    "gf128_asm_s": {"src": ["h_gf128.cpp", ("repo:gf128.cpp", ["-DUSE_ASM", "-mpclmul", "-msse4.1"])], "noinline": ["repo:gf128.cpp"], "intercept": {GF_MULA: "gfmul_assign"}},
    "gf128_soft_s": {"src": ["h_gf128.cpp", "repo:gf128.cpp"], "noinline": ["repo:gf128.cpp"], "intercept": {GF_MULA: "gfmul_assign"}},
}
NTLU = {"stubs": ["ntl_model", "common"], "native_stubs": ["ntl_native", "common"]}
GF_SOFT = ("repo:gf128.cpp", [])
GF_ICPT = {"noinline": ["repo:gf128.cpp"], "intercept": {GF_MULA: "gfmul_assign"}}
BASE = ["ntl_model.cpp", "repo:gf128.cpp", "repo:internal/ntl_helpers.cpp"]
TYPES = ["u8", "u16", "u32", "u64", "u128", "gf", "ZZp", "zzp"]


def typed(f, types=TYPES):
    """One translation unit of the harness per scalar type (parallel compilation)."""
    return [(f, ["-DSX_T=%d" % TYPES.index(t)] + (["-DSX_MAIN"] if t == types[0] else [])) for t in types]


VOLE_SRC = ["repo:" + f for f in ("scalar_vector_gilboa_product.cpp", "mpfss_known_indices.cpp", "cuckoo_hasher.cpp", "spfss_known_index.cpp", "all_but_one_random_ot.cpp",
                                  "ggm_tree.cpp", "aes_uniform_bit_generator.cpp")]
WIDE = ["u64", "u128", "gf", "ZZp", "zzp"]
UNITS.update({
    "aesgen": {"src": ["h_aesgen.cpp", "repo:aes_uniform_bit_generator.cpp"]},
    "ggm": {"src": ["h_ggm.cpp", "repo:ggm_tree.cpp"]},
    "scalar": {"src": typed("h_scalar.cpp") + BASE, **NTLU, **GF_ICPT},
    "spfss": {"src": typed("h_spfss.cpp") + ["repo:spfss_known_index.cpp", "repo:all_but_one_random_ot.cpp", "repo:ggm_tree.cpp"] + BASE, **NTLU, **GF_ICPT},
    "gilboa": {"src": typed("h_gilboa.cpp") + ["repo:scalar_vector_gilboa_product.cpp"] + BASE, **NTLU, **GF_ICPT},
    "cuckoo": {"src": ["h_cuckoo.cpp", "repo:cuckoo_hasher.cpp"] + BASE, **NTLU, **GF_ICPT},
    "mpfss": {"src": typed("h_mpfss.cpp") + ["repo:mpfss_known_indices.cpp", "repo:cuckoo_hasher.cpp", "repo:spfss_known_index.cpp", "repo:all_but_one_random_ot.cpp", "repo:ggm_tree.cpp"] + BASE, **NTLU, **GF_ICPT},
    "secret": {"src": typed("h_secret.cpp") + ["repo:scalar_vector_gilboa_product.cpp", "repo:mpfss_known_indices.cpp", "repo:cuckoo_hasher.cpp", "repo:spfss_known_index.cpp", "repo:all_but_one_random_ot.cpp", "repo:ggm_tree.cpp"] + BASE, **NTLU, **GF_ICPT},
    "args": {"src": typed("h_args.cpp") + ["repo:scalar_vector_gilboa_product.cpp", "repo:mpfss_known_indices.cpp", "repo:cuckoo_hasher.cpp", "repo:spfss_known_index.cpp", "repo:all_but_one_random_ot.cpp", "repo:ggm_tree.cpp"] + BASE, **NTLU, **GF_ICPT},
    "vole": {"src": typed("h_vole.cpp") + VOLE_SRC + BASE, **NTLU, **GF_ICPT},
    "volew": {"src": typed("h_vole.cpp", WIDE) + VOLE_SRC + BASE, **NTLU, **GF_ICPT},
    "noise": {"src": typed("h_noise.cpp") + VOLE_SRC + BASE, **NTLU, **GF_ICPT},
    "boot": {"src": ["h_boot.cpp", "repo:distributed_vector_ole.cpp"] + VOLE_SRC + BASE, **NTLU, **GF_ICPT},
    "abo": {"src": typed("h_abo.cpp") + ["repo:all_but_one_random_ot.cpp", "repo:ggm_tree.cpp"] + BASE, **NTLU, **GF_ICPT},
})


def E(unit, fn, **kw):
    d = {"unit": unit, "fn": fn}
    d.update(kw)
    return d


CHECKS = {
    "C01": {
        "entries": [E(u, f, reach=[r]) for u in ("gf128_asm", "gf128_soft") for f, r in (("c01_mul_assign", "mul_assign"), ("c01_mul", "mul"), ("c01_square", "square"), ("c01_alias", "alias"), ("c01_sequence", "sequence"))],
        "bounds": "none on the inputs: all 2^256 pairs of elements; both the USE_ASM and the portable build",
    },
    "C02": {
        "entries": [E("gf128_asm", f, reach=[f[4:]]) for f in ("c02_add", "c02_compare", "c02_convert", "c02_serialize")],
        "bounds": "none on the inputs: all pairs of elements",
    },
    "C03": {
        "entries": [E(u, f, reach=[f[4:]]) for u in ("gf128_asm_s", "gf128_soft_s") for f in ("c03_inverse", "c03_zero", "c03_sequence")],
        "bounds": "all non-zero elements",
    },
    "C04": {"entries": [E("scalar", "c04_%s_%s" % (k, t), reach=["done"]) for k in ("round", "from") for t in TYPES]},
    "C05": {"entries": [E("scalar", "c05_%s_%s" % (k, t), reach=["done"]) for k in ("bits", "setbit") for t in TYPES]},
    "C06": {"entries": [E("scalar", "c06_%s_%s" % (k, t), reach=["done"]) for k in ("history", "threads", "temp") for t in TYPES[6:]] +
                       [E("scalar", "c06_history5_%s" % t, reach=["done"], thorough=True) for t in TYPES[6:]]},
    "C07": {"entries": [E("scalar", "c07_list_%s" % t, reach=["accepted"]) for t in TYPES] + [E("scalar", "c07_all_%s" % t, reach=["accepted"], thorough=True) for t in TYPES]},
    "C28": {"entries": [E("scalar", "c28_randomize_%s" % t, reach=["done"]) for t in TYPES] + [E("scalar", "c28_element", reach=["done"])] +
                       [E(u, "c28_%s_%s" % (k, t), reach=["done"]) for u, k in (("abo", "abo"), ("abo", "abo_batch"), ("abo", "abo_private"), ("spfss", "spfss"), ("spfss", "spfss_batch"), ("mpfss", "mpfss"), ("gilboa", "gilboa"), ("volew", "vole")) for t in WIDE] +
                       [E("abo", "c28_abo_long_%s" % t, reach=["done"], thorough=True) for t in WIDE] +
                       [E("scalar", "c28_randomize_long_%s" % t, reach=["done"], thorough=True) for t in TYPES]},
    "C08": {"entries": [E("aesgen", f, reach=["done"]) for f in ("c08_buffers", "c08_default", "c08_default_wrap", "c08_reseed", "c08_instances")] +
                       [E("aesgen", f, reach=["done"], thorough=True) for f in ("c08_buffers_long", "c08_reseed_long")]},
    "C09": {"entries": [E("aesgen", "c09_short", reach=["short", "long"]), E("aesgen", "c09_limit", reach=["over", "within"])]},
    "C10": {"entries": [E("ggm", f, reach=["done"]) for f in ("c10_small", "c10_powers", "c10_arity", "c10_sequence")] + [E("ggm", "c10_large", reach=["done"]), E("ggm", "c10_wide", reach=["done"], thorough=True)]},
    "C11": {"entries": [E("ggm", f, reach=["done"]) for f in ("c11_small", "c11_powers", "c11_sequence")] + [E("ggm", "c11_large", reach=["done"]), E("ggm", "c11_wide", reach=["done"], thorough=True)]},
    "C12": {"entries": [E("ggm", "c12_create", reach=["done"]), E("ggm", "c12_create_arity", reach=["done"]), E("ggm", "c12_rebuild_scalars", reach=["inside", "outside"]),
                        E("ggm", "c12_rebuild_shapes", reach=["valid", "invalid"]), E("ggm", "c12_query", reach=["inside", "outside"]),
                        E("ggm", "c12_rebuild_shapes_wide", reach=["valid", "invalid"], thorough=True)]},
    "C13": {
        "entries": [E("abo", "c13_%s_%s" % (k, t), reach=["done"]) for k in ("single", "batch", "mixed", "large", "many") for t in TYPES] + [E("abo", f, reach=["done"]) for f in ("c13_empty", "c13_sequence", "c13_big")],
    },
    "C14": {"entries": [E("secret", "c14_%s_%s" % (k, t), reach=["done"]) for k in ("abo", "spfss", "mpfss", "gilboa") for t in TYPES] +
                       [E("secret", "c14_%s_%s" % (k, t), reach=["done"], thorough=k.endswith("secure") and t != "zzp") for k in ("abo_calls", "spfss_calls", "mpfss_two", "mpfss_secure") for t in TYPES] +
                       [E("vole", "c14_vole_%s" % t, reach=["done"], thorough=t not in ("u64", "gf", "ZZp")) for t in TYPES] +
                       [E("secret", "c14_masks_%s" % t, reach=["done"]) for t in TYPES[6:]] +
                       [E("secret", "c14_%s_%s" % (k, t), reach=["done"], thorough=True) for k in ("abo_big",) for t in TYPES]},
    "C15": {"entries": [E("spfss", "c15_%s_%s" % (k, t), reach=["done"]) for k in ("single", "batch", "vector", "mixed", "large", "many") for t in TYPES] +
                       [E("spfss", "c15_%s_%s" % (k, t), reach=["done"], thorough=True) for k in ("big", "sequence") for t in TYPES]},
    "C16": {"entries": [E("gilboa", "c16_%s_%s" % (k, t), reach=["done"]) for k in ("small", "stride", "over", "empty", "kinds", "mixed", "many") for t in TYPES] +
                       [E("gilboa", "c16_moduli_%s" % t, reach=["done"]) for t in TYPES[6:]] +
                       [E("gilboa", "c16_%s_%s" % (k, t), reach=["done"], thorough=True) for k in ("security", "long") for t in TYPES]},
    "C17": {"entries": [E("gilboa", "c17_%s_%s" % (k, t), reach=["done"]) for k in ("pack", "unpack", "sequence") for t in TYPES]},
    "C18": {"entries": [E("cuckoo", "c18_" + f, reach=["done"]) for f in ("symbolic", "wide_i64", "wide_u8", "wide_u128", "context_i64", "context_u8", "context_u128", "threads", "threads_wide", "instances", "many")] +
                       [E("cuckoo", "c18_symbolic_big", reach=["done"], thorough=True)]},
    "C19": {"entries": [E("cuckoo", "c19_small", reach=["placed", "failed"]), E("cuckoo", "c19_three", reach=["placed", "failed"]), E("cuckoo", "c19_u8", reach=["placed"]),
                        E("cuckoo", "c19_u128", reach=["placed"]), E("cuckoo", "c19_wide", reach=["placed"]), E("cuckoo", "c19_big", reach=["placed"]), E("cuckoo", "c19_reject", reach=["rejected", "valid"]),
                        E("cuckoo", "c19_four", reach=["placed"], thorough=True), E("cuckoo", "c19_three_spare", reach=["placed"])]},
    "C20": {"entries": [E("mpfss", "c20_%s_%s" % (k, t), reach=["done"]) for k in ("one", "two", "sequence", "secure", "regrow", "instances", "large") for t in TYPES] +
                       [E("mpfss", "c20_%s_%s" % (k, t), reach=["done"], thorough=True) for k in ("three",) for t in TYPES]},
    "C21": {"entries": [E("args", "c21_" + f, reach=["done"]) for f in ("create", "cuckoo")] +
                       [E("args", "c21_%s_%s" % (k, t), reach=["done"]) for k in ("abo", "spfss", "mpfss", "repeated", "gilboa", "resume", "resume_spfss") for t in TYPES] +
                       [E("vole", "c21_vole_%s" % t, reach=["done"]) for t in TYPES] + [E("vole", "c21_vole_create", reach=["done"])]},
    "C22": {"entries": [E("vole", "c22_%s_%s" % (k, t), reach=["done"]) for k in ("plain", "cached", "again", "instances", "roles", "roles_rows") for t in TYPES] + [E("vole", "c22_pair_u32", reach=["done"])] +
                       [E("vole", "c22_levels_%s" % t, reach=["done"], thorough=t not in ("u8", "u64", "gf", "ZZp")) for t in TYPES] +
                       [E("vole", "c22_secure_%s" % t, reach=["done"], thorough=t not in ("u16", "zzp")) for t in TYPES] +
                       [E("vole", "c22_pair_%s" % t, reach=["done"], thorough=True) for t in TYPES if t != "u32"] +
                       [E("vole", "c22_triple_%s" % t, reach=["done"], thorough=True) for t in ("u32", "gf", "ZZp")]},
    "C23": {"entries": [E("volew", "c23_%s_%s" % (k, t), reach=["done"]) for k in ("plain", "again") for t in WIDE] + [E("volew", "c23_pair_u64", reach=["done"])] +
                       [E("volew", "c23_levels_%s" % t, reach=["done"], thorough=t != "gf") for t in WIDE] +
                       [E("volew", "c23_pair_%s" % t, reach=["done"], thorough=True) for t in WIDE[1:]] +
                       [E("volew", "c23_triple_%s" % t, reach=["done"], thorough=True) for t in ("u64", "gf")]},
    "C24": {"entries": [E("boot", f, reach=["done"]) for f in ("c24_any", "c24_twice")] + [E("boot", "c24_thrice", reach=["done"], thorough=True)]},
    "C25": {"entries": [E("cuckoo", "c18_threads", reach=["done"]), E("cuckoo", "c18_threads_wide", reach=["done"]), E("cuckoo", "c25_hash", reach=["done"]), E("cuckoo", "c25_hash_wide", reach=["done"])] +
                       [E(u, "c25_%s_%s" % (k, t), reach=["done"]) for u, k in (("abo", "abo"), ("abo", "abo_assign"), ("spfss", "spfss"), ("spfss", "spfss_assign"), ("mpfss", "mpfss")) for t in TYPES] +
                       [E("mpfss", "c25_mpfss_assign_%s" % t, reach=["done"], thorough=False) for t in TYPES] +
                       [E("vole", "c25_vole_%s" % t, reach=["done"], thorough=t not in ("u64", "gf", "ZZp", "zzp")) for t in TYPES] +
                       [E("vole", "c25_vole_assign_%s" % t, reach=["done"], thorough=True) for t in ("u32", "ZZp")] +
                       [E(u, "c25_%s_assign3_%s" % (u, t), reach=["done"], thorough=u == "mpfss") for u in ("abo", "spfss", "mpfss") for t in TYPES]},
    "C27": {"entries": [E("noise", "c27_%s_%s" % (k, t), reach=["done"]) for k in ("levels", "first", "large") for t in TYPES] +
                       [E("noise", "c27_where_%s" % t, reach=["done"], thorough=t not in ("u8", "u64"), novalidate=True) for t in TYPES]},
}

NOT_APPLICABLE = {
    "C26": "the statement is about a failure probability of random hashing given by a floating-point model (log2, pow, lgamma-like terms) over all table sizes; neither the "
           "probability nor the transcendental functions can be encoded as an SMT query whose answer says anything about the real code",
}

import bounds
for _id, _c in CHECKS.items():
    if _id in bounds.BOUNDS:
        _c["bounds"] = bounds.BOUNDS[_id]
    if _id in bounds.THOROUGH:
        _c["bounds_thorough"] = _c["bounds"] + "; in addition: " + bounds.THOROUGH[_id]
    _c.setdefault("assumptions", bounds.ASSUME.get(_id, []))
