"""Writes DESIGN.md: the fixed text below plus, per property, what its check runs (checks.py)."""
import json, os, glob, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
from properties import P
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """# Runtime monitoring of openbfdev/bfdev

Technique family: **runtime monitoring and sanitizers**.  Every property is decided by running the real library code
(built from /repo's working tree by its own CMake files) under generated workloads while an oracle watches the
execution.  Nothing is modelled away: the object under observation is always the compiled library or its headers.
No property is left to another technique and none is under `not_applicable`.

(This file is written by `meta/design.py`; the tables come from the same data the checks run on.)

## Shape of a check

* `bin/check.py <property> [--tier quick|thorough] [--scale X] [--jobs N]` configures and builds a private copy of the
  library from /repo (out of tree, in /verif/build, git-ignored), links it with `harness/<name>.c` and runs a fixed
  number of numbered cases, all derived from `VERIF_SEED`, spread over 8 worker processes.  A case is a pure function
  of (seed, number), so every failure has a one-command replay.
* `harness/vf.h` holds what all harnesses share: the generator, check macros, event counters, an accounting allocator
  (always-moving, exact-size, poisoned on free), a CPU-time watchdog, the shape of the observed trace (a hash of
  everything the case saw, counted as *distinct behaviours*) and the worker protocol.
* Each case drives one component through a random operation history (or input) and compares every observable result
  with an executable reference in the harness (ideal sequence, map, bounded queue, exact integer, published algorithm,
  bit-at-a-time definition).  Buffers handed over are exact heap blocks or end at a guard page, so an access outside
  what was promised faults.
* A mismatch, sanitizer report, library assertion (abort), crash or hang (watchdog; re-run once alone before it counts)
  is an event with a key `<scenario>:<check>`.  Keys are matched with `known_findings.txt`; the rest are VIOLATIONs with
  a replay file under evidence/replay.
* Every check names events it `must_see` (operations, refusals, boundary situations); a run that never observed one of
  them is INCONCLUSIVE (exit 2) rather than silently weak.
* Evidence (`evidence/<id>.json`) is measured on the run: cases, oracle checks, events by name, distinct traces.

Builds: `asan` (gcc ASan+UBSan, diagnostics on), `msan` (clang MSan of library and harness), `tsan` (gcc TSan, shared
image), `plain` (gcc -O2, real speed), `nodebug` (diagnostics and CRC unrolling off), `gcc-o0`, `gcc-o3`
(-funsigned-char, diagnostics and unrolling off) and `clang-o2` for the cross-build comparison.  Header-only code is
compiled into the harness with the same flags.  A harness whose behaviour can legitimately depend on something
(addresses, unspecified bits) leaves that out of what it observes.

There are no hooks in /repo (`hooks` in MANIFEST.json is empty): allocator callbacks, user callbacks, the diagnostics
sink, sanitizer malloc hooks and the structures themselves are enough to observe everything the properties speak of.

## Why this reaches what the tests do not

The 105 stable tests are examples: they call each component a few times with fixed inputs, often without checking the
result.  The properties quantify over all histories, sizes, alignments, schedules and failures.  The checks sample
those with generators biased to where such code breaks: boundaries of words, blocks, nodes and capacities; wrap-around
of counters; aliasing; degenerate callbacks; refused allocations at every point; concurrent schedules with injected
delays.  Mutation testing (below) measured that reach and drove its extension.
"""

LIMITS = {
"C03": "`bfdev_sort` returns -EINVAL for fewer than two elements, as coded.",
"C07": "`heap_find` with index 0 is out of domain.  `heap_insert_node` after a refused link is not claimed (only the link is).",
"C08": "Key compare callbacks are the layout's own; a duplicate insert without a clash hook returns -EALREADY.  A tree must be released even when emptied; a remove hook that vetoes during release leaks and is out of domain.",
"C10": "`hashtbl_del` of an element that is in no table is misuse.",
"C02": "The notifier's compare returns only greater/not greater, so the order among equal priorities is not claimed; `called_num` accumulates over calls.",
"C12": "`len` of a record queue includes the headers.  Freeing a dynamic queue zeroes its element size.",
"C13": "`ringbuf_put` returns 1 when something was overwritten.",
"C17": "The bump pool may round starts up to pointer alignment.",
"C19": "Constant-width shifts by 64 or more are undefined in C and out of domain; the bits beyond the length after a constant-width fill or copy are unspecified.",
"C21": "ctz/clz/ffsuf of zero, pow2_roundup above 2^63 and negative FIELD_FIT values are out of domain.  The missing big-endian `bfdev_cpu_to_be*_array` macros cannot be used on this host.",
"C22": "When quotient and remainder name the same object the quotient wins; division by zero is refused (or BUGs in the machine-word form).",
"C24": "Known finding: ascii85 decoded-length estimate for texts with 'z'.",
"C25": "Updating with a null pointer is out of domain.",
"C26": "The 4-bit CRC takes bits; the bits of a last partial byte are its upper ones, as coded.",
"C28": "bm and sunday see occurrences only within one block, empty patterns are out of domain.",
"C29": "Known finding: for bytes above 127 the character-class macros answer as ASCII when the argument is a compile-time constant and from an ISO 8859-1 table otherwise.",
"C30": "vsnprintf encoding errors and an error code of INT_MIN are out of domain; the colour reset may be cut at the line limit.",
"C31": "The previous state right after a reset is not claimed; a push is skipped on FINISH/SELFLOOP, as coded.",
"C32": "Clock values are non-zero; the window includes its end; begin+interval beyond the clock range is excluded.",
"C33": "Relaxed reads are modelled as atomic loads in the TSan build (tsan_once.h); reference-count misuse is only reported by debug builds.",
"C34": "A pop concurrent with a take-all or another popper is excluded (ABA by design).",
"C35": "Radix charge/alloc may keep partial growth, a big-integer destination may hold another valid number after a failure, `hashmap_del` tolerates a failed shrink.",
"C37": "Zero-dimension matrices and cost sums overflowing unsigned are out of domain; the distance is the restricted (adjacent swap) one.",
"C38": "Index hashes of width 0 are out of domain.",
"C39": "Signed saturation returns (type)~0, as documented; n+d must fit for DIV_ROUND_UP; mixed signedness in DIV_ROUND_CLOSEST is out of domain.",
"C40": "Caller-held bitmaps count as initialised in whole words.",
"C41": "`rb_insert_node` and `heap_insert_node` called although the link was refused are not claimed.  Linking a list member that is moved from another place both reports and inserts; a block named again after other allocations is not claimed.",
"C43": "Level order is claimed on complete trees only.",
"C44": "One writer and one reader; the code had no ordering at all before the fix commit.",
"C45": "Process-wide registries and the default log sink are shared by design; a linear text search writes its context, so concurrent searches on one context are excluded.",
"C46": "A rehash at the minimum bucket count on every delete is tolerated (hovering is judged from 64 members on).  Bounds are the theoretical heights for balanced trees and carry a factor 2-3 elsewhere; the quadratic worst case of bm and sunday is excluded.",
"C47": "Failures that are alike in every build belong to the other properties.  allocpool results depend on addresses and the half-gigabyte digest takes too long at -O0; both are left out.",
"C48": "A case touches at most about 5 GiB (four workers); what is larger is sparse or one block mapped many times.  Bloom capacities within a word of UINT_MAX are refused.",
}

TAIL = open(os.path.join(ROOT, "meta", "design_tail.md")).read()

def main():
    o = [HEAD, "\n## Per property\n"]
    for p in P:
        c = CHECKS[p["id"]]
        o.append("### %s %s\n" % (p["id"], p["title"]))
        o.append("*Observed:* " + c["rule"].strip())
        o.append("*Decided by:* " + c["technique"] + ".")
        runs = {}
        for r in c["runs"]: runs.setdefault(r["variant"], []).append(r)
        o.append("*Cost:* " + "; ".join("%s: %s" % (v, ", ".join("%s %d/%d" % (r["harness"], r["quick"], r["thorough"]) for r in rs) if len(rs) < 4 else "%d harnesses, %d/%d cases" % (len(rs), sum(r["quick"] for r in rs), sum(r["thorough"] for r in rs))) for v, rs in runs.items()) + " (quick/thorough cases).")
        o.append("*What the tests cannot settle:* " + p["why_tests_cant"])
        if p["id"] in LIMITS: o.append("*Domain:* " + LIMITS[p["id"]])
        o.append("")
    o.append(TAIL)
    o.append("\n## Planted bugs and what catches them\n\n| plant | property | needs | caught by |\n|---|---|---|---|")
    extra = json.load(open(os.path.join(ROOT, "meta", "caught.json")))
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
        o.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), ", ".join(extra.get(i, ["not run"]))))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(o) + "\n")
if __name__ == "__main__": main()
