#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
PBT = "property-based testing against an independent reference implementation"
T = {
    "C01": PBT + " (length sweeps, long messages)",
    "C02": "metamorphic property-based testing over splits and stateful histories",
    "C03": PBT,
    "C04": "property-based testing with enumerated near-miss tags",
    "C05": PBT + " (every output length class, prefix relation)",
    "C06": PBT + " and inverse, with enumerated byte positions",
    "C07": PBT + " with steered GHASH states",
    "C08": PBT + " with inputs solved for chosen Poly1305 accumulators",
    "C09": "stateful round-trip property-based testing",
    "C10": "mutation-based property testing: every altered tuple must be rejected",
    "C11": PBT + " at chosen stream positions",
    "C12": "stateful model-based testing against a cursor model",
    "C13": PBT + " with solved and special points",
    "C14": "metamorphic property-based testing (commutation, ignored bits)",
    "C15": PBT,
    "C16": "metamorphic property-based testing (sign, alter, verify)",
    "C17": "adversarially constructed signatures against a strict reference verifier",
    "C18": "property-based testing of panics against a precondition predicate, in two builds",
    "C19": "differential testing of transcripts across build configurations",
    "C20": "generated secret pairs, trace equality under compiler instrumentation",
    "C21": "stateful model-based testing over object populations, buffers and threads",
    "C22": PBT + " over generated hash functions and block ciphers, with chosen hash subkeys",
    "C23": "differential property-based testing across machines: 32-bit WebAssembly and an interpreted big-endian s390x against x86-64",
    "C24": "metamorphic property-based testing and coverage-guided fuzzing of measured calls: lengths, numbers of calls, contents and pasts varied, with stack, allocations and executed edges compared",
    "C25": "property-based testing and coverage-guided fuzzing under AddressSanitizer and MemorySanitizer, and of single operations in the Miri interpreter",
}
FUZZ = " and coverage-guided fuzzing of the same checks"
T = {p: t + (FUZZ if p <= "C18" or p in ("C21", "C22") else "") for p, t in T.items()}
NOTE = {
    "C01": "sampled; every length residue and padding boundary swept; messages past 2^32 bytes (quick) or 2^35 bytes (thorough)",
    "C07": "sampled; associated data past 2^32 bytes; the longest message (2^36 - 33 bytes) only with a toy block cipher in place of AES",
    "C08": "sampled; associated data and ciphertext past 2^32 bytes, not to the documented end",
    "C11": "positions up to block 2^28 (quick) or the documented end at block 2^32 (thorough)",
    "C19": "sampled call sequences; configurations listed in DESIGN.md",
    "C20": "sampled secrets; edges and addresses as the installed nightly compiler emits them, not micro-architectural timing",
    "C22": "sampled; 14 shapes of hash function and four kinds of block cipher stand for all",
    "C23": "sampled calls, few of them on the interpreted machine; two machines stand for all; lengths that do not fit the other machine's words are out of scope",
    "C24": "work is counted as edges of the unoptimised library and bytes moved, so that instructions within an edge are not told apart; a growth of less than 1.3 times the proportion, or of a fixed amount, is not seen; work up to about 2^23, stack and allocations up to about 2^28 bytes in quick runs",
    "C25": "sampled calls; what the sanitizers or Miri do not notice is not seen (within one object, only Miri notices, on a few hundred operations in quick runs)",
    "C21": "sampled histories; thread schedules are whatever the scheduler produces",
}
done = [x for x in sorted(T) if os.path.exists(os.path.join(HERE, "check.py")) and x in open(os.path.join(HERE, "CLAIMED")).read().split()]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"python3 check.py {p}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": T[p],
            "level": "exploration",
            "level_note": "No violation among the generated cases of the stated classes. Trusts: " + ("" if p in ("C24", "C25") else "the reference implementations (validated against OpenSSL), ") + "the toolchain, the harness. Bound: " + NOTE.get(p, "sampled inputs plus the enumerations named in the evidence rule") + ".",
        }
        for p in done
    ],
    "not_applicable": [{"property": p, "reason": "check still being built"} for p in sorted(T) if p not in done],
    "notes": "No hooks: the checks use the public API only. See DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
