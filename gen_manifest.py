#!/usr/bin/env python3
# Writes MANIFEST.json.
import json, os
T = {
 "C01": ("pointwise law monitor on union results of generated operands", "Runs every pair of the 15 operand types on generated operands in debug and release builds and checks the membership law at every endpoint, its neighbours and the type limits."),
 "C02": ("pointwise law monitor on intersection results of generated operands", "As C01, for intersections."),
 "C03": ("pointwise law monitor on single, double and triple complements", "All 15 types, debug and release builds."),
 "C04": ("reference-model monitor of contains, is_empty, to_inner, to_set", "All constructors and several construction routes; contents compared with the bounds given to the constructor."),
 "C05": ("reference-model monitor of disjoint/intersects plus symmetry and agreement checks", "All pairs of types, close calls at touching bounds generated on purpose."),
 "C06": ("structural invariant monitor on serialised pieces after every step of operation histories", "Observes pieces through serde; if the serialised layout changes, falls back to iteration order only."),
 "C07": ("metamorphic monitor: orders and groupings of unions/intersections, ==, hash", "Permutations and parenthesisations are sampled, near-miss values included."),
 "C08": ("reference-model monitor of full traversals from both ends", "15 element types, most at the limits of the type; long ranges are traversed at both ends only."),
 "C09": ("history monitor: random next/next_back/nth/nth_back histories against a deque model", "Terminal operations and adapters checked on clones at random states of the history."),
 "C10": ("history monitor of size_hint, len and count after every call", "Includes lengths beyond usize::MAX and a 32-bit target."),
 "C11": ("history monitor of next/nth on lower-bounded iterators against a deque model", "Up to and past the greatest value of the type."),
 "C12": ("exhaustive-and-random monitor of Step laws in 128-bit arithmetic, on a 64- and a 32-bit target", "Every value of the 8- and 16-bit types and char as start, boundary counts; wide types random."),
 "C13": ("order-law monitor over all pairs of generated bounds", "Seven element types, two of them only partially ordered."),
 "C14": ("reference-model monitor of conversions at the limits of the type", "A conversion may panic only where no std range has the same contents."),
 "C15": ("differential monitor against std indexing: same address and length, or both panic", "All containers and range types provided, writes compared element by element."),
 "C16": ("round-trip monitor through JSON and bincode, with behaviour compared afterwards", "Three text/value routes and a compact binary one; embedded in larger data as well."),
 "C17": ("panic, crash, stack and runaway-work monitor under degenerate, extreme and very large operands", "Debug, release and unoptimised builds; default-sized thread stacks; per-case CPU limit hundreds of times above the normal cost."),
 "C18": ("reference-model monitor over random expression histories", "Every intermediate value is probed, so a wrong step is caught where it happens."),
 "C19": ("Miri (64- and 32-bit), AddressSanitizer and std's unsafe-precondition checks over whole-interface workloads", "Every char as start of steps natively; sampled workloads under the interpreters; plus monitors of char bits and selection extents."),
 "C21": ("metamorphic monitor: the same operands in every form, all operations and queries compared", "All 225 type pairs; up to six forms per operand; debug and release builds."),
 "C22": ("offline checker over logs of calls by threads sharing values, against the same calls made alone; Miri and ThreadSanitizer race detectors", "Interleavings are those the scheduler, Miri's seeded scheduler and ThreadSanitizer's slower timing produced; the number of distinct completion orders is in the evidence."),
 "C23": ("differential monitor: outcomes of identical call histories recorded in six builds and compared", "Debug without serde, debug and release with it, unoptimised, 32-bit, and Miri, which sees a small prefix of the cases."),
 "C24": ("metamorphic monitor: one script of operations on two element types, every observation compared", "i64 against reversed, string, 48-byte, float, tuple, bool and one-value elements; debug and release builds."),
}
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "checks": [
  {"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
   "evidence_file": f"evidence/{p}.json", "technique": "runtime monitoring: " + t, "level": "exploration",
   "level_note": n + " Holds for the executions observed (counts in the evidence file); trusts the harness's reference model, rustc and the detectors."}
  for p, (t, n) in T.items()],
 "not_applicable": [{"property": "C20", "reason": "A fact about which programs compile: it is decided by the type checker and produces no run-time event to monitor; a program that breaks it never runs."}],
 "notes": "No hooks in /repo: everything is observed through the public interface and the crate's own serde feature. Commits in /repo are repairs only (known_findings.txt).",
}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
