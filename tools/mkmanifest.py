"""Writes MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PTR = ("TLA+ (TLC exhaustive for small words, Apalache for all 64-bit words) and TLC trace validation of recorded "
       "executions of the real code")
CLAIMED = {
    "C01": (PTR, "Every call recorded from the real code at all 16 widths, debug and release, is a step of TaggedPointer.tla; "
                 "inputs are the boundary classes WordGen.tla enumerates, so the code is judged on those, the design on all words."),
    "C02": (PTR, "As C01 for refusals, plus generated enums with exactly as many and with more variants than tags (widths 56..63 quick). "
                 "Widths 48..53 cannot have over-wide enums built (thousands of macro-expanded variants)."),
    "C03": ("TLA+ model of build histories (Config.tla) whose walks are replayed with the real build; TLC trace validation of the exported configuration",
            "All 16 settings in both profiles judged; unset and unrecognised settings and changes of setting along generated build histories."),
    "C14": (PTR, "Comparison, ordering and hashing recorded for all pairs of boundary words at all widths; the law itself is proved for all words."),
}
HIST = ("TLA+ model of whole histories (TaggedBox.tla), checked exhaustively with TLC; histories generated from its state graph "
        "(all edges), random walks and sweeps are executed on families of real macro-made enums, and every recorded step is "
        "validated against the specification by TLC (HistTrace.tla)")
BOUND = "Exhaustive for the abstract model within its bounds; the code is judged on the histories executed, which is every operation in every abstract state, several enum families and 7 builds (quick)."
for _p, _n in {
    "C04": "Enum families: all variant kinds, arities 0..32, sizes 0..4 KB, alignments 1..4096, shared payload types, up to 256 variants, random families.",
    "C05": "Tags of all variants up to 256 per enum (1100 thorough); placeholders with every kind of unknown tag under every interpreting operation.",
    "C06": "Raw boxes and single-payload boxes, all accessors, sizes 0..4 KB, alignments 1..4096.",
    "C07": "Recording allocator with red zones and quarantine; payloads that report their drops. Undefined behaviour that leaves no trace in memory or drops is not seen.",
    "C08": "As C07; the leaks in known_findings.txt are listed and nothing else is tolerated.",
    "C09": "All other slots are compared after every operation; Copy families included.",
    "C10": "Results of all eight comparisons are computed by EnumCmp.tla; fields include incomparable values.",
    "C11": "Text must be what the reference formatting of the plain value yields, for a list of format specifications.",
    "C12": "Faults are injected at every position a history offers: panicking clone, compare, format, callback; failing writer; failing allocation. A refused allocation has to be reported by a panic.",
    "C13": "Callbacks count and record what they see; one listed finding.",
}.items():
    CLAIMED[_p] = (HIST, BOUND + " " + _n)
CLAIMED["C15"] = ("TLA+ model of threads taking small steps (Threads.tla), exhaustive with TLC; the schedules TLC finds are replayed with the real "
                  "code, one thread at a time, and free runs on all cores are recorded; every operation of every thread is validated against the "
                  "specification (HistTrace.tla); Send and Sync of macro-made enums, boxes and containers against AutoTrait.tla",
                  "Hand-overs between threads are controlled where user code or the allocator is called (callbacks, payload clones, comparisons, "
                  "formatting); races between two machine instructions elsewhere are only met by the free runs, on the memory model of this machine.")
CLAIMED["C16"] = ("TLA+ model of ownership and borrowing (Borrow.tla), of enums that borrow (Lend.tla) and of traits (Traits.tla), exhaustive with TLC; programs generated from its "
                  "state graph (every edge, and random walks) are given to the compiler together with the real library, and what it accepts and refuses "
                  "is judged by the specification with TLC (BorrowTrace.tla)",
                  "Programs on two handles and three references with a branch or a loop: every statement in every state of the model, in all its "
                  "concrete forms where it is refused. More control flow and more handles are left to the compiler's own generality.")
CLAIMED["C17"] = ("TLA+ model of places, modules and visibility (Scope.tla), exhaustive with TLC; a declaration is written into every nest of places and "
                  "named from every point the model reaches; what the compiler says of these programs together with the real library, and what they give "
                  "back when they run, is judged by the specification with TLC (ScopeTrace.tla)",
                  "Nests of places to depth 3, six kinds of crates, 861 pairs of a declaration and a point; a list of 30 names for other types, 10 modules and 3 macros.")
CLAIMED["C18"] = ("TLA+ model of expressions evaluated by the compiler or at run time (Constants.tla), exhaustive over small words with TLC; every pair of "
                  "context and function the model allows is compiled with boundary words from WordGen.tla together with the real library, and the verdicts, "
                  "the constants and the values at run time are judged at 64 bits by the specification with TLC (ConstTrace.tla)",
                  "Boundary words are sampled per context (quick: 3, thorough: 24 each); quick: 6 widths, thorough: all 16; both profiles.")
NA = {}
ALL = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [
        {"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
         "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n}
        for p, (t, n) in sorted(CLAIMED.items())],
    "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in ALL if p not in CLAIMED],
    "notes": "No hooks in /repo: the harnesses use the public interface, payload types that report what happens to them, and a recording global allocator.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
