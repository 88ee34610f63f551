#!/usr/bin/env python3
"""Writes checks.json (budgets and rules) and MANIFEST.json."""
import json
W = ("Cases are drawn by rapid generators from scratch: random parameter sets (ring degree, moduli chain, special "
     "moduli, scale, error width, slot count), parties, messages and operation arguments. ")
T = {}


def c(id, quick, thorough, technique, rule, note):
    T[id] = dict(quick=quick, thorough=thorough, technique=technique, rule=W + rule, note=note)


HE = ("Random testing against an exact plaintext model with an analytic noise bound: no case found is evidence over the "
      "generated domain, not a proof. Trusts lattigo's ring arithmetic and CKKS encoder, the bound formulas in hx/ref.go and hx/world.go, and "
      "small rings (degree 2^4..2^9) standing for large ones in most cases (some cases have degree 2^10..2^15). ")
c("C01", 9000, 126000, "stateful property-based testing, plaintext model with analytic noise bound",
  "A case is a history of encryptions (all entry points, levels, partial messages) and decryptions on shared encryptors/decryptors; non-trivial: at least two steps, or sparse packing, or below top level.", HE)
c("C02", 9000, 126000, "property-based testing, order-permutation and joint/partial differential oracle",
  "A case is a joint ciphertext and a random mixture of partial and joint decryptions in a random order; non-trivial: at least two involved parties.", HE)
c("C03", 10000, 140000, "property-based testing, exact modular phase oracle and slot-wise model",
  "A case is a pool of ciphertexts over random member sets, levels and scales and several additions/subtractions; non-trivial: distinct operands with different levels, member sets or scales.", HE)
c("C04", 8000, 112000, "property-based testing, slot-wise model plus scale/level model, history independence",
  "A case is a pool of ciphertexts and several products with a shared evaluator; non-trivial: at least two members in the union, or different levels, or below top level.", HE)
c("C05", 8000, 112000, "property-based testing, cyclic-shift model",
  "A case is several rotations by drawn integers (small, around multiples of the slot count, huge, negative), registered and unregistered; non-trivial: a non-zero shift needing two hops, or two members, or below top level.", HE)
c("C06", 8000, 112000, "property-based testing, conjugation model and involution",
  "A case is several conjugations; non-trivial: below top level or at least two members.", HE)
c("C07", 7000, 98000, "property-based testing, differential against the plain operation and the model",
  "A case is a history of hoisted multiplications and rotations reusing hoisted forms; non-trivial: one hoisted form used at least twice.", HE)
c("C08", 4500, 63000, "property-based testing, slot-wise model with scale model",
  "A case is a sequence of plaintext or constant multiplications with constants of every magnitude and type; non-trivial: below top level, own scale or two members (plaintext), non-zero constant and message (constant).", HE)
c("C09", 7000, 98000, "property-based testing, reference rescaling rule and message invariance",
  "A case is a sequence of rescalings or level drops with drawn scales and minimum scales; non-trivial: zero or several moduli removed, below top level, or a positive drop.", HE)
c("C10", 6000, 84000, "stateful model-based property testing of random circuits",
  "A case is a random circuit on one shared evaluator checked after each step against a plaintext model, with fingerprints of all live ciphertexts and keys; non-trivial: at least four operations of three kinds.", HE)
c("C11", 6000, 84000, "stateful model-based property testing with parties joining",
  "A case is a random circuit during which parties join, or a sequence of extensions and copies; non-trivial: as C10, or an extension that adds a party.", HE)
c("C12", 8000, 112000, "property-based testing, defining equation checked by integer reference arithmetic",
  "A case generates keys of several kinds and recovers their errors digit by digit with an O(N^2) integer reference; non-trivial: two kinds of keys or two digits.",
  "Random testing against an independent integer reference. Trusts lattigo's NTT and CRT helpers used to leave the evaluation domain; statistical thresholds are at eight standard deviations or more.")
c("C13", 8000, 112000, "property-based testing, exact residue consistency and distribution checks",
  "A case draws a distribution and generates several secrets; non-trivial: at least 64 coefficients observed.",
  "Random testing; distribution thresholds at eight standard deviations. Randomness of the operating system is replaced by a seeded generator, so predictability of crypto/rand itself is out of scope.")
c("C14", 5000, 70000, "property-based testing, randomness-exposing public keys and statistical oracle",
  "A case encrypts several times under constant-polynomial public keys that expose mask and errors, or decrypts with wrong or missing keys, or registers reference strings; non-trivial: every exposure and reference-string case, and hiding cases with two members.",
  "Detects reused, missing, correlated or wrongly sized randomness, not computational insecurity. Thresholds at eight standard deviations.")
c("C15", 8000, 112000, "property-based testing against big-integer arithmetic",
  "A case draws moduli, digit grouping, level and structured polynomials; non-trivial: below top level or several moduli per digit.",
  "Random testing against math/big. Trusts lattigo's NTT.")
c("C16", 10000, 140000, "property-based testing against big-integer arithmetic",
  "A case draws two bases, levels and structured integers (uniform, near the ends, near rounding boundaries); non-trivial: different, non-maximal levels.",
  "Random testing against math/big with an explicit exclusion zone of 2^-40 around rounding boundaries.")
c("C17", 10000, 140000, "stateful property-based testing over representation flags",
  "A case is a sequence of generic encryptions and decryptions over all flag and level combinations with reused outputs; non-trivial: flags or levels differ, or an output is reused.", HE)
c("C18", 20000, 280000, "stateful model-based property testing against Go maps",
  "A case is a sequence of set or key-set operations; non-trivial: a union/intersection, or an addition and a deletion.",
  "Random testing against a map model.")
T["C19"] = dict(
    quick={"VERIF_LR_RUNS": "6", "VERIF_CHECKS": "60"},
    thorough={"VERIF_LR_RUNS": "80", "VERIF_CHECKS": "1200"},
    full_size={"VERIF_LR_RUNS": "1", "VERIF_LR_LOGN": "15", "VERIF_CHECKS": "1", "VERIF_HANG_S": "4000"},
    full_size_programs=["lr_toy"],
    technique="property-based testing, differential against a plaintext training model",
    rule="A Run case generates a data set (location, scale, label mix, class separation, number of companies, batch size), runs one of the four unmodified programs in process at ring degree 2^9 or 2^10 and parses its output; a Sums case sums a random packed matrix; a Read case parses a generated CSV. Non-trivial: every program run, summations whose result fits the modulus, files of at least two rows and columns.",
    note="Random testing of the real program sources, compiled through an overlay, with reduced ring degree (the thorough tier adds one full-size run). Weights are compared with an analytically propagated tolerance of about 2e-4 relative, so smaller deviations are not seen; only the weights the programs print are compared directly, the others through the classification of adversarial rows.")
c("C20", 20000, 280000, "property-based testing against definitional references",
  "A case draws sizes and contents for one helper; non-trivial: at least four elements (bit reversal), two values (deviation), any modulus pair (rescaling).",
  "Random testing against definitions; floating-point comparison with relative tolerance.")

c("C22", 4000, 56000, "stateful property-based testing with injected refusals (missing keys, invalid arguments), plaintext model",
  "A case is a history of operations on shared objects some of which are refused (a needed key is taken away, an argument is invalid) and repeated once they can succeed; non-trivial: at least one call refused for want of a key.", HE)
T["C21"] = dict(
    quick={"race": 130, "plain": 700}, thorough={"race": 3000, "plain": 20000}, processes=24,
    technique="stateful property-based testing of concurrent workers, differential against a sequential run, with the race detector",
    rule=W + "A case is a set of 2 to 6 workers, each a random sequence of operations on encryptor, decryptor, evaluator and key generator of its own over shared keys and ciphertexts of one or two parameter sets, run one after another and then one to three times at the same time; half of the processes run under the race detector. Non-trivial: at least two kinds of operation.",
    note="Random schedules, not all of them: interleavings come from the Go scheduler. The race detector sees unsynchronised accesses whatever the timing, within its shadow history. Registering new reference strings and sharing one relinearisation key set (which carries working memory) are outside the property.")

# cases per process at ring degrees 2^10..2^15 (four processes)
LARGE = dict(C01=40, C02=40, C03=40, C04=30, C05=15, C06=30, C07=15, C08=30, C09=30, C10=8, C11=8, C12=4, C13=8, C14=8, C15=8,
             C16=15, C17=40, C22=8)
for k, n in LARGE.items():
    T[k]["large"] = {"quick": n, "thorough": 12 * n}
    T[k]["rule"] += " Four further processes draw ring degrees 2^10..2^15."

json.dump({k: {x: y for x, y in v.items() if x not in ("technique", "note")} for k, v in sorted(T.items())},
          open("checks.json", "w"), indent=1)
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [{"property": k, "quick_cmd": "python3 run.py check %s quick" % k,
                 "thorough_cmd": "python3 run.py check %s thorough" % k,
                 "technique": v["technique"], "level": "exploration", "level_note": v["note"].strip()}
                for k, v in sorted(T.items())],
     "not_applicable": [],
     "notes": "No hooks in /repo. run.py compiles harness/ against /repo's working tree on every run; see DESIGN.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
