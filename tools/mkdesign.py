#!/usr/bin/env python3
"""Composes /verif/DESIGN.md from tools/design_head.md, the property texts, props_config.py and tools/seeded_results.txt."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props_config import CONFIG, NOT_CLAIMED
ORACLE = {
"C01": "Carry-less multiplication and reduction written from the definition; inverses by exhaustive search. Every operator and assignment operator is called on values and on indices.",
"C02": "128-bit integer arithmetic modulo P.",
"C03": "Bit-serial division on an explicit list of bits. The one-step relation is explored over all registers; histories over two coexisting objects expose shared state.",
"C04": "Marsaglia's recurrences, written again. For Xorshift32 the complete state graph (one cycle of 2^32-1 states) is walked. The others are linear over GF(2) (plus a counter), so the transition is fixed by its values on words of weight up to two.",
"C05": "Multiplication by x modulo the polynomial; bad() against an explicit walk of the cycle.",
"C06": "A vector<bool> with a cursor. Explicit-state search: a state is (buffer content, position); every operation with every argument is applied in every state for small capacities and the complete buffer (guards included) compared.",
"C07": "Elements are distinct tags, so one run per size shows the whole permutation; it is compared with Fisher-Yates driven by an independent Xorshift32, with reversed index bits, and with the inverse's result. Second and later uses of an object are explored too.",
"C08": "Elements carry (key, original index). Since the sorts only compare, all weak orders of n keys cover all inputs of length n; the 0/1 principle covers the merge structure of longer ones.",
"C09": "Operands of the free commutative monoid (multisets), so the multiplicity with which each input enters each output is observed, not a value.",
"C10": "A scalar definition of every operation in plain C++, evaluated lane by lane. The digests of all outputs must also agree between back ends. c10b.cc instantiates every declared operation of every native width; failing to compile is a violation.",
"C11": "Index arithmetic; a vector with a single marked lane is rotated by every shift for every lane.",
"C12": "Evaluation of the received polynomial at every prescribed root, and long division by the generator polynomial, in an independent field implementation.",
"C13": "The transmitted codeword. Patterns are enumerated, not drawn: all position sets times all values (or all values of a stated alphabet) times all erasure sets and listing orders.",
"C14": "Membership by root evaluation (and binary symbols for BCH), Hamming distance between what was handed in and what came out, guards around the buffers. All cosets of the small codes, i.e. all behaviours of the decoder.",
"C15": "As C12/C13 with the binary generator polynomial of the cyclotomic cosets computed independently.",
"C16": "Exhaustive search over all codewords; for the Chase search a literal re-statement (all flips of the T least reliable positions, each decoded by exhaustive nearest-codeword search).",
"C17": "Correlation with every codeword, computed term by term.",
"C18": "Direct product-form inversion by Gaussian elimination of the Cauchy matrix in an independent field; MDS is observed by decoding from every identifier arrangement.",
"C19": "Integer arithmetic modulo P; blocks whose encoding contains the escape value are constructed by solving for the data.",
"C20": "The Kronecker power as explicit XOR sums; message placement re-stated independently. Linear maps are fixed by unit messages (linearity is itself checked on sums).",
"C21": "Plain recursive successive cancellation on integers saturated like the value type, without any subtree shortcut.",
"C22": "A textbook list decoder on scalars holding all surviving paths, and exhaustive maximum likelihood when the list holds all messages. Where the cut falls between equal metrics, sets cannot be compared and only validity, metric order, ranks and distinctness are.",
"C23": "As C22 with the parity rule applied to the survivors; every sixteenth result is re-encoded with the real parity encoder.",
"C24": "The density evolution recursion in 80-bit floating point; sets compared where probabilities are separated by more than rounding.",
"C25": "The parity check equations of the DVB-T2 definition, built from the table; every check of every word.",
"C26": "An exact integer evaluation of all checks on the returned signs decides whether the reported verdict is right; noise-free and correctable words must come back.",
"C27": "All candidates of the given order are built from an independently reduced generator matrix for every reliability order the ties permit.",
"C28": "As C27 with the complete ordered list of candidates.",
"C29": "The object's bytes are the state. Breadth-first search over the states reachable by the calls of an alphabet from objects constructed in memory with four different contents; in every state each call must give the reference outcome. Sequences, a de Bruijn succession and interleaved object pairs also cover state outside the object. Every call is repeated with its buffers at all 64 positions relative to a cache line, and with an object at the least aligned place.",
"C30": "Threads are real code under a controlled scheduler: the thread sanitizer's instrumentation (compiled in, runtime replaced by ours) turns every memory access into a scheduling point. Executions run as coroutines, every preemption point is tried, outcomes are compared with the sequential outcome. The access footprints of the two threads must not conflict, which extends the result to all interleavings. An object is used by one thread only.",
"C31": "Address sanitizer and bounds checks on exactly sized heap blocks, plus comparison of all read-only inputs and of the surroundings.",
"C34": "A scalar model passes explicit integer messages over the parity check equations, check by check; the order in which repeated links take turns is explored exhaustively and one order must explain everything.",
"C33": "Integer arithmetic with explicit clamping; rounding from the definition of ties-to-even.",
"C32": "The three back ends are each other's oracle: the digest of all outputs of a job must be equal.",
}
COST = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
    out = [open(os.path.join(H, "tools", "design_head.md")).read().rstrip(), "", "## Properties, one by one", ""]
    for p in props:
        c = CONFIG.get(p["id"])
        out.append("### %s  %s" % (p["id"], p["title"]))
        if not c:
            out.append("Not claimed: " + NOT_CLAIMED.get(p["id"], "")); continue
        srcs = ", ".join("harness/%s (%d part%s; %s)" % (h["src"], len(h.get("parts", [0])), "s" if len(h.get("parts", [0])) > 1 else "", "/".join(h["backends"])) for h in c["harness"]) if len(c["harness"]) < 4 else "harness/%s (%d builds)" % (c["harness"][0]["src"], len(c["harness"]))
        out += ["", "- *Quantified over*: " + p["quantifier"]["text"] + ".", "- *Oracle and method*: " + ORACLE[p["id"]], "- *Bounds*: " + c["bounds"] + ".",
                "- *Assumptions*: " + "; ".join(c.get("assumptions", []) or ["none"]) + ".", "- *Beyond the tests*: " + p["why_tests_cant"], "- *Where*: " + srcs + ".", ""]
    out += ["## Planted bugs and what catches them", "", open(os.path.join(H, "tools", "seeded_results.md")).read().rstrip(), ""]
    open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out))
main()
