#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of LLVM IR (interprocedural constant propagation + value numbering)"
T = {
 "C01": (AI + " compared with the specification's expressions", "proof", "all random strings; 27 builds; relies on the clang front end and on the analyser's transfer functions; hash/cipher leaf routines proved separately in the same run"),
 "C02": (AI + " compared with the specification's expressions", "proof", "all public keys and messages; 27 builds"),
 "C03": (AI + " compared with the specification's expressions", "proof", "all ciphertexts and secret keys; 27 builds"),
 "C04": ("value numbering of the sponge and bit-level value numbering of the permutation", "other", "all message contents; lengths: a dense grid over three blocks and every length the KEM uses, not all lengths"),
 "C05": ("byte-function value numbering of key schedule and rounds", "proof", "all keys and blocks; 0 to 257 blocks and counts next to every constant the code compares with"),
 "C06": ("tabulated transfer functions: sampler as a function on 16-bit words", "proof", "all input words, every position; vector lengths 0,1,2,7,64 and the KEM's"),
 "C07": ("bit-level value numbering of pack/unpack/encode/decode", "other", "all element values and widths 1..16; grid of lengths"),
 "C08": ("interval analysis of every signed operation, shift, division and pointer computation over the abstract interpretation", "proof", "all inputs; signed overflow, shift amounts, division by zero, pointer bounds; not type-based aliasing"),
 "C09": ("secret/public taint dataflow over the abstract interpretation", "proof", "every branch, address and division of every operation in 27 builds as written and after -O3 with link-time optimisation (quick: 640 only); clang, not gcc"),
 "C10": ("dataflow of secret value numbers into dying stack objects, removable-store rule", "proof", "every byte of every object when its frame ends, as written and after -O3 with link-time optimisation (quick: 640 only)"),
 "C11": ("failure-path analysis of callers, polyhedral abstract interpretation of randombytes", "proof", ""),
 "C12": ("abstract interpretation: object/offset bounds of every access", "proof", "27 builds plus helper functions on a grid of lengths"),
 "C13": ("abstract interpretation: alignment of every access from object alignment and offset", "proof", "caller buffers assumed 1-byte aligned"),
 "C14": ("effect analysis of writable globals over the whole IR", "proof", ""),
 "C15": ("definedness dataflow over the abstract interpretation", "proof", "27 builds plus helper functions on a grid of lengths"),
 "C16": ("typestate of cipher contexts and failure continuation of every OpenSSL call", "proof", "every OpenSSL call reached by the nine OpenSSL builds"),
 "C17": ("effect analysis: reachable external functions and their arguments", "proof", ""),
 "C18": ("compile-fail witnesses over the headers, abstract interpretation for the extents, Python syntax-tree evaluation for the constants", "proof", "quick: 9 builds, thorough: 27"),
 "C19": ("abstract interpretation of the Python syntax tree, same value domain", "proof", ""),
 "C20": (AI + " of big-endian IR", "proof", "powerpc64 big-endian target, reference and portable builds"),
 "C23": (AI + " of the IR for other targets", "proof", "i686, armv7, aarch64, x86_64-windows (quick: all with 640, 976/1344 on two of them)"),
 "C24": ("abstract interpretation: bounded loops, sum of local variables over every call chain", "proof", "27 builds; register spills of the compiler are not counted (a few hundred bytes per frame)"),
 "C21": ("abstract interpretation (code equals specification) plus exact convolution of the specified noise table", "proof", "sufficient condition: exact functions and the exact error distribution; noise words uniform (random oracle)"),
}
NA = {"C22": "a reduction-based computational hardness statement over all efficient adversaries; no source-level static argument can bound it (its code-level ingredients - exact functions, implicit rejection, constant time - are C01-C03, C09)"}
sys.path.insert(0, V)
from vlib import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'.'); from vlib import run; print(run.analyser())\"", "checks": [], "not_applicable": [],
     "notes": "Every check compiles /repo's current tree to LLVM IR itself and builds the analyser when it is missing. VERIF_REPO selects another tree for experiments."}
for i in ids:
    if i in props.CHECKS:
        t, l, n = T[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "technique": t, "level": l, "level_note": n or "see DESIGN.md"})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not decided yet: its check is not built")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
