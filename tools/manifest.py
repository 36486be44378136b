#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule modules present and known_findings.json from the list of repairs below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PDA = "path-sensitive interprocedural dataflow over value numbers (Python/Cython syntax trees)"
TECH = {
    "C01": PDA + ": alias and write-effect analysis of every query method",
    "C02": PDA + ": alias and write-effect analysis of every public entry point, tracking caller-owned memory",
    "C03": PDA + ": typestate of each derived cache against the factors it is computed from",
    "C04": PDA + ": each returning path is matched against the exclusion it must apply; row alignment of masks",
    "C05": PDA + ": option liveness on every returning path and argument equality at every forwarding call",
    "C06": "dimension (user/item axis) inference over value numbers of every combination of matrices, ids and factors",
    "C07": PDA + ": the position-changing operations on ids and on scores are extracted and compared",
    "C08": PDA + ": symbolic result counts, candidate counts and padding values on every returning path",
    "C09": "provenance analysis of every random draw back to the generator built from random_state",
    "C10": "ownership analysis of writes in parallel regions; lock and GIL typestate",
    "C11": "allocation/free typestate on every path of native code including raising ones",
    "C12": "bounds obligations of native accesses discharged against dominating checks, allocation sizes and integer widths",
    "C13": "completeness of saved and restored attributes against the attributes construction and training set",
    "C14": "argument-to-attribute flow through constructors, factories and conversions",
    "C15": PDA + ": the selections that build both outputs are shown complementary and aligned",
    "C16": "per-iteration dataflow of the metric accumulators; alignment of rows; result keys",
    "C17": "must-check analysis: solver status tested before its result is stored, NaN checks of both factor matrices on every exit of fit",
    "C18": "effect ordering of the download path and agreement of written and read dataset fields",
    "C19": "loop and event-order analysis of training: one callback per iteration after its updates; rejection or forwarding elsewhere",
    "C20": "symbolic coefficient extraction (polynomial normal forms) of every solver and the loss, compared with the model's equations",
    "C21": "typestate of accumulators and structural proof of the bounded-heap selection (Cython and clang AST)",
}
NOTE = {
    "default": "Decides the rule on every abstract path of the analysed functions (loops are followed for two iterations, library calls are modelled); "
               "constructs outside the modelled library are reported as not understood rather than assumed to hold.",
}
NA = {
    "C22": "whether the loss decreases depends on the numerical values of the solved systems; no static argument over the source bounds them "
           "(C20 checks statically that loss and solver use the same objective)",
    "C23": "recall of an approximate index is a statistical property of third-party index structures and the data, not of this source",
    "C24": "the CUDA kernels cannot be parsed against a CUDA toolkit here, and equality up to rounding of two numerical programs is not decidable "
           "from their source",
}
FIXED = """2ff2764 C20 the training loss counted a constant error of one full confidence for every disliked item
c9a2db8 C18 lastfm generator stored its matrix as users by artists, its reader returns artists by users
1642235 C14 NMSLibModel built its recommend index with method hnsw whatever method setting was given
eb2e298 C12 nearest neighbour recommend with N=0 (and fit with K=0) read an empty heap out of bounds
4fbd1ef C04 explicitly stored zero interactions were not filtered when recommending from an item subset
6d1c99b C14 LogisticMatrixFactorization ignored its dtype setting
3760c71 C12 BPR and LMF refit with a different number of users or items indexed old factors out of bounds
3554e44 C12 native ALS solvers accepted factor matrices whose shape does not match the ratings matrix
2c1f459 C13 models saved with a random generator object could not be loaded again
354d9e7 C13 num_threads, K1 and B of nearest neighbour models were lost by save and load
a558094 C12 neighbour scorer read out of bounds for item ids outside of the model
1e20f2d C05 nearest neighbour similar_items failed on lists and accepted ids outside of the model
3e31e9e C08 nearest neighbour recommend with items returned more than N results
d0cd4df C06 nearest neighbour recommend silently used the first row of a multi-row user_items
c04fea3 C08 batch calls padded short rows with item 0
a4f3014 C15 leave_k_out_split treated positions as user ids when reserving training users
71a3bfd C15 leave_k_out_split put ratings in both outputs or the wrong ones
12230d8 C09 leave_k_out_split ignored random_state when shuffling
f216a80 C12 32 bit overflow of output offsets in topk and select
9be6f2b C12 32 bit overflow of output offsets in all_pairs_knn
0661691 C18 million song dataset looked up one file name and downloaded another
a86c17f C18 dataset generator used the removed numpy.object alias
eb899ad C18 an interrupted download was left under the dataset's final name
8c2b82f C05 recommend_all ignored users_items_offset
ff804ba C14 cg_steps was lost converting between CPU and GPU models
dd80b99 C06 GPU similar_items with recalculate_item divided by the norm of the stored item
24b7e1b C20 GPU recalculate_item ignored alpha
683f472 C02 BPR and LMF fit sorted the indices of the caller's matrix in place
30f5547 C03 caches filled by a training callback stayed stale after fit
66fbe16 C03 refitting LMF kept the previous fit's norms
0a86a6d C05 FaissModel emitted its fallback notice by raising it
c0fda83 C05 approximate models probed a misspelt method name and ignored recalculate_user
e8a3231 C05 matrix factorization models failed on ndarray exclusion lists given with items
1df4a68 C04 approximate models added an ndarray exclusion list elementwise to the candidate count
9ca8cac C08 Annoy similar_items fetched too few candidates before filtering
cc3a33f C01 Faiss similar_items normalised the model's own factors in place
2e2853e C09 GPU random_state=0 was treated as no seed
f30833c C09 check_random_state failed on RandomState objects"""


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(HERE, "sa/rules/%s.py" % p.lower())):
            checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                           "technique": "static analysis: " + TECH[p], "level": "other", "level_note": NOTE.get(p, NOTE["default"])})
        else:
            na.append({"property": p, "reason": NA.get(p, "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    fx = []
    for l in FIXED.splitlines():
        h, p, what = l.split(" ", 2)
        fx.append("fixed: property=%s %s %s" % (p, h, what))
    path = os.path.join(HERE, "known_findings.json")
    old = json.load(open(path)).get("findings", []) if os.path.exists(path) else []
    with open(path, "w") as f:
        json.dump({"findings": old, "fixed": fx}, f, indent=1)
        f.write("\n")


main()
