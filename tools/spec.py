#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = ["src/buildzqfield.js", "src/fr.cpp.ejs", "src/fr_generic.cpp.ejs", "src/fr_raw_generic.cpp.ejs", "src/fr.asm.ejs", "src/asmbuilder.js", "src/montgomerybuilder.js", "src/armbuilder.js", "src/fr_raw_arm64.s.ejs"]
ENC = "every operand value and each of its encodings (small integer, long, long Montgomery), for every odd prime of 63 to 768 bits, on each backend (x86-64 assembly, ARM64 assembly, portable C++)"
NOTEST = "The six unit tests only exercise the string splitter; no generated field is built or executed by them"
T = "differential runtime monitor (GMP model) over hostile operands, under ASan/UBSan"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=T, note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {})},
                  technique=technique, note=note))


ST = [("element type tag", "which of small integer / long / Montgomery forms the limbs or the short value hold", "src/fr_element.hpp.ejs")]
prop("C01", "Field addition, subtraction, multiplication, negation, squaring are exact",
     "For every prime the generator accepts, the sum, difference, product, square, negation and copy of field elements, and the conversions of an element between its encodings, yield an element whose value is exactly the mathematical result modulo the prime. The answer depends only on the operands' values, never on which encoding each of them is held in, and is the same on every backend. The result is always a well-formed element: its tag matches what it holds and its limbs are below the modulus.",
     ["inputs", "configurations"], ENC, NOTEST + ", and the 4x4 encoding dispatch with its overflow, sign and carry boundaries has far more cases than a sample reaches.",
     ["src/add.asm.ejs", "src/sub.asm.ejs", "src/mul.asm.ejs", "src/neg.asm.ejs", "src/copy.asm.ejs", "src/montgomery.asm.ejs"] + GEN,
     [("encoding dispatch", "src/add.asm.ejs, src/sub.asm.ejs, src/mul.asm.ejs; src/fr_generic.cpp.ejs"), ("carry and reduction", "src/asmbuilder.js, src/montgomerybuilder.js")], state=ST)
prop("C02", "Division, inversion, powers and integer division/remainder are exact",
     "Field division and inversion by a non-zero element, exponentiation by any field element taken as a non-negative integer, and integer division and remainder of the operands' canonical values all yield the mathematically exact field element. The answer does not depend on how either operand is encoded, nor on the backend.",
     ["inputs", "configurations"], ENC + "; division by zero is outside the contract", NOTEST + "; the operations go through big-integer conversions whose behaviour depends on value and encoding.",
     ["src/fr.cpp.ejs"] + GEN, [("big-integer conversions", "src/fr.cpp.ejs")], state=ST)
prop("C03", "Comparisons and logical operators agree with the signed interpretation",
     "Equality and inequality of elements decide equality of their values; less-than, greater-than and their non-strict forms order elements by the signed interpretation, in which values above half the prime count as negative. Logical and/or/not and the truth test depend only on whether each value is zero. Results are the small integers 0 or 1 and are independent of the operands' encodings and of the backend.",
     ["inputs", "configurations"], ENC, NOTEST + "; boundary values around half the prime and mixed encodings are where the dispatch can go wrong.",
     ["src/cmpops.asm.ejs", "src/logicalops.asm.ejs"] + GEN, [("comparison dispatch", "src/cmpops.asm.ejs; src/fr_generic.cpp.ejs"), ("logical operators", "src/logicalops.asm.ejs; src/fr_generic.cpp.ejs")], state=ST)
prop("C04", "Bitwise operators and shifts follow the field's bit semantics",
     "Bitwise and, or, xor and not act on the canonical values' binary digits, cut to the bit length of the prime, and reduce the result below the prime. A shift by k moves the canonical value by k bits and drops bits beyond the prime's length, a shift by prime minus k moves it the opposite way by k, and any other amount gives zero. Results do not depend on the operands' encodings or the backend and are always fully reduced.",
     ["inputs", "configurations"], ENC + "; every shift amount", NOTEST + "; shift amounts, word boundaries, negative small integers and the mask differ per prime.",
     ["src/binops.asm.ejs"] + GEN, [("bitwise dispatch and mask", "src/binops.asm.ejs"), ("shifts", "src/binops.asm.ejs; src/fr_generic.cpp.ejs, src/fr_raw_generic.cpp.ejs, src/armbuilder.js")], state=ST)
prop("C05", "Conversion to a machine integer is exact or aborts",
     "Converting a field element to a 32-bit signed integer returns exactly the element's signed value when that value fits in 32 bits, and terminates the program otherwise. It never returns a wrong integer, whatever encoding the element is held in and whichever backend is used.",
     ["inputs", "configurations"], ENC, NOTEST + "; the property is about the values just outside the range and about high limbs that look small in the low word.",
     ["src/utils.asm.ejs"] + GEN, [("range check", "src/utils.asm.ejs; src/fr_generic.cpp.ejs")], state=ST)
prop("C06", "Raw Montgomery arithmetic is exact and canonical",
     "On arrays of limbs holding fully reduced values, raw addition, subtraction, negation, Montgomery product, square and product by a machine word, conversion to and from Montgomery form, copy, swap, equality and zero tests, shifts and the published constants give exactly the defined result on every backend. Every result that is a field value is again fully reduced.",
     ["inputs", "configurations"], "every reduced limb array, odd primes of 63 to 768 bits (1 to 12 limbs, with and without spare top bits), every backend", NOTEST + "; carries out of the top limb and register spilling happen for particular limb patterns and prime sizes only.",
     ["src/montgomery.asm.ejs"] + GEN, [("Montgomery product", "src/montgomerybuilder.js, src/armbuilder.js, src/fr_raw_generic.cpp.ejs"), ("limb allocation and spilling", "src/asmbuilder.js")])
prop("C07", "Results may overwrite operands",
     "Every operation of the generated field, tagged or raw, gives the same result when its destination is the same object as one or both of its operands, or when both operands are the same object, as it gives with three separate objects. This holds for all encodings of the operands and on every backend.",
     ["inputs", "configurations"], ENC + "; every overlap pattern (r=a, r=b, a=b, r=a=b)", NOTEST + "; in-place use is what client code does everywhere, and a premature store shows only for certain encodings.",
     ["src/add.asm.ejs", "src/binops.asm.ejs"] + GEN, [("order of stores and loads", "src/*.asm.ejs; src/fr_generic.cpp.ejs; src/fr_raw_generic.cpp.ejs; src/armbuilder.js")], state=ST)
prop("C08", "Operations touch only their own operands and respect the calling convention",
     "No operation of the generated field reads or writes memory outside the objects it is given, and no operation changes an operand that is not also its destination. No operation leaves heap memory allocated, apart from strings it returns, and every assembly routine preserves the registers, stack and flags that the platform's calling convention says it must.",
     ["inputs", "configurations"], ENC + "; operands placed directly against inaccessible pages on either side", NOTEST + "; a stray access or a clobbered register is invisible to a result check and depends on the caller's layout.",
     ["src/asmbuilder.js", "src/armbuilder.js"] + GEN, [("prologues, spills and limb addressing", "src/asmbuilder.js, src/armbuilder.js, src/utils.asm.ejs")], technique="guard pages, canaries, register sentinels and sanitizers around every entry point")
prop("C09", "Conversions to and from strings, big integers and byte images are faithful",
     "Parsing a decimal or other-radix string, a machine integer, a big integer of any size or a big-endian byte image into an element yields exactly that number modulo the prime. Converting an element back yields its canonical value; printing and parsing round-trip, buffers are written completely and only within the given length, and returned strings can be released the way the documentation shows without leaking or corrupting memory.",
     ["inputs", "configurations"], "every integer (including negative and larger than the prime), radix, buffer length and element encoding, for every prime and backend", NOTEST + "; negative and oversized inputs, zero and wide buffers are outside any sample.",
     ["src/fr.cpp.ejs", "src/fr.hpp.ejs"], [("string and big-integer conversions", "src/fr.cpp.ejs"), ("byte images", "src/fr.cpp.ejs")])
prop("C10", "The field class's derived operations and constants are exact",
     "The field class generated for a prime offers inversion, division, exponentiation by any byte string, construction from a machine integer (positive or negative) and arithmetic mixing elements with machine integers; each yields the exact field result in canonical form, also in place. Its constants zero, one and minus one, its element size and its published modulus are those of the prime.",
     ["inputs", "configurations"], "every element, exponent byte string of any length (including empty) and machine integer, for every prime and backend", NOTEST + ".",
     ["src/fr.cpp.ejs", "src/fr.hpp.ejs", "c/naf.cpp", "c/exp.hpp"], [("class methods", "src/fr.cpp.ejs, src/fr.hpp.ejs"), ("exponentiation by recoded exponent", "c/exp.hpp, c/naf.cpp")])
prop("C11", "The generator is deterministic and its output builds and works on every target",
     "For every odd prime and every valid name, the generator yields, deterministically, sources that compile without errors with both common compilers, assemble, link with no unresolved symbol and run correctly: the documented example program works as documented. The command line and the library interface give the same sources, each output option writes exactly its own file whatever was there before, a run that cannot write a file fails, and libraries generated for several primes can be linked into one program without interfering.",
     ["inputs", "configurations"], "every prime and field name, every output option, every backend and compiler installed", "The test suite never runs the generator, so nothing in it can notice a template that stops compiling for some limb count, name or target.",
     ["index.js", "src/buildzqfield.js"] + GEN[1:], [("template instantiation and output options", "src/buildzqfield.js"), ("limb-count specialisation", "src/asmbuilder.js, src/armbuilder.js, src/montgomerybuilder.js")],
     technique="generate, build, link and run monitored programs for many primes; symbol and determinism monitors")
TW = "the six unit tests never instantiate the field or curve templates"
prop("C12", "Extension-field towers are fields",
     "Over any base field and non-residue, the quadratic extension's operations (sum, difference, product, square, double, negation, conjugate, inverse, quotient, scalar and non-residue multiples, equality, parsing) are exactly those of the extension field; likewise the sextic and dodecic towers above it, including exponentiation, Frobenius and the towers' constants. Results are the same in place and operands that are not destinations stay unchanged.",
     ["inputs", "configurations"], "every element, over several base fields, every kind of non-residue (minus one, small, negative, arbitrary), destination overlapping operands or not", TW + "; the specialised paths per non-residue are different code.",
     ["c/f2field.cpp", "c/f2field.hpp", "c/f6field.cpp", "c/f6field.hpp", "c/f12field.cpp", "c/f12field.hpp"], [("non-residue specialisations", "c/f2field.cpp, c/f2field.hpp"), ("tower formulas", "c/f6field.cpp, c/f12field.cpp")])
prop("C13", "Curve operations form the curve's group, including every special case",
     "Addition, subtraction, doubling, negation, equality, zero test, copying and conversion of curve points, in affine and extended coordinates and every mix of the two, follow the chord-and-tangent group law exactly, including equal and opposite operands, the neutral element in any representation and points of order two. Results do not depend on the coordinates' scaling, and in-place use is allowed. The shipped BN254 groups have the standard modulus, order, coefficients and generators, regardless of the order in which object files are linked.",
     ["inputs", "configurations"], "every pair of points in every representation, on curves with zero, small and arbitrary coefficients over prime and quadratic extension fields", TW + "; exceptional pairs (P+P, P-P, neutral elements) are missed by random sampling.",
     ["c/curve.cpp", "c/curve.hpp", "c/alt_bn128.cpp", "c/alt_bn128.hpp"], [("formulas and special cases", "c/curve.cpp"), ("coefficient specialisations", "c/curve.hpp, c/curve.cpp"), ("engine construction", "c/alt_bn128.cpp, c/alt_bn128.hpp")])
prop("C14", "Scalar recoding and scalar multiplication are exact for every scalar",
     "Recoding a little-endian scalar of any length gives digits in {-1, 0, 1}, no two adjacent non-zero, whose weighted sum is the scalar, in a buffer of the documented size, without touching memory outside the scalar or the buffer. Multiplying a point by any scalar of any byte length, zero, above the group order or all ones included, yields exactly that multiple, for affine and extended bases, in place or not.",
     ["inputs"], "every scalar of every byte length, every base point", TW + "; carries out of the top byte happen for few scalars.",
     ["c/naf.cpp", "c/naf.hpp", "c/exp.hpp", "c/curve.hpp"], [("recoding", "c/naf.cpp"), ("double-and-add", "c/exp.hpp")])
prop("C15", "Parallel multiexponentiation equals the sum of the individual multiples",
     "For any number of bases (none and one included), scalars of any byte length, any thread count, with or without OpenMP, multiexponentiation yields exactly the sum of each base multiplied by its scalar; neutral, repeated and opposite bases are allowed. The variant with a list of lengths sums exactly the interleaved entries within each length. Inputs and the caller's OpenMP settings are unchanged, nothing outside the inputs is read, and one object can be used repeatedly.",
     ["inputs", "schedules", "configurations"], "every count, scalar size and content, base list, thread count and schedule", TW + "; window boundaries depend on count and scalar length together.",
     ["c/multiexp.cpp", "c/multiexp.hpp", "c/misc.cpp", "c/curve.hpp"], [("window extraction and buckets", "c/multiexp.cpp"), ("window size from the integer logarithm", "c/misc.cpp")])
prop("C16", "Multi-scalar multiplication equals the sum of the individual multiples",
     "For any number of bases (none and one included), scalars of any byte length and content, any number of worker threads and any window size chosen automatically or at build time, multi-scalar multiplication with signed windows yields exactly the sum of each base multiplied by its scalar. Inputs are unchanged, nothing outside them is read, and one object can be used repeatedly.",
     ["inputs", "schedules", "configurations"], "every count, scalar size and content (top-window carries included), base list, worker count and window size", TW + "; a carry out of a window propagates only for particular bit patterns.",
     ["c/msm.hpp", "c/msm.cpp", "c/curve.hpp", "c/misc.hpp"], [("signed digit extraction", "c/msm.hpp, c/msm.cpp"), ("bucket accumulation", "c/msm.cpp")])

exec(open(os.path.join(V, "tools", "spec_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "spec_more.py")) else None

import sys
sys.path.insert(0, V)
os.environ.setdefault("VF_NOLOAD", "1")
from vf import props as registry
claimed = [p for p in P if p["id"] in registry.CHECKS]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
na = globals().get("NOT_APPLICABLE", [])
man = {"version": 1, "setup_cmd": "python3 setup.py",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": p["technique"], "level": "exploration",
                   "level_note": p["note"] or "Every monitored execution is judged by an independent oracle; the executions are generated (boundary-directed and random), not exhaustive."} for p in claimed],
       "not_applicable": na,
       "notes": "The oracle of every check observes executions of the real code; see DESIGN.md. No hooks are needed in /repo: monitors interpose at the C library, the templates' type parameters and the assembly boundary."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(claimed), "claimed")
