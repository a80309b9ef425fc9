text = r'''# Verification of granne by property-based testing and fuzzing

Deciding technique for every property: search over generated inputs, histories, schedules and faults
against an explicit oracle. Nothing is proved; the level of every check is exploration (P18 enumerates
the fault points of each case it generates). No property had to be given up as out of reach of this
family, so `not_applicable` is empty.

* `harness/` — one Rust binary: generators, oracles, choice-sequence shrinker, supervising parent, evidence writer.
* `pyharness/` — the same for the Python bindings (P20).
* `run.sh <id> quick|thorough` builds from /repo's current tree and runs one property; `build.sh` builds.
* `known_findings.json` — genuine defects: repaired ones (`fixed`), and recorded ones (`findings`, none).
* `tools/` — generators of properties.jsonl and MANIFEST.json, creation and trial of planted changes, random mutation.
* `seeded/` — planted changes. No check reads it.

No hooks in /repo were needed: everything is observable through the public interface, the saved bytes
(decoded by the harness's own decoder), user-defined element containers and faulty destinations.

## Engine (harness/src/engine.rs)

* A case is generated by ordinary Rust functions drawing from a *choice sequence* (as in Hypothesis), either
  random (from VERIF_SEED, property, family, case number) or replayed. Distributions favour small and boundary
  values (0, 1, powers of two, chunk and byte-width limits).
* Shrinking edits the choice sequence (deletes blocks, zeroes, binary search towards 0, lowers pairs) and re-runs
  the case, each attempt in a fresh process. The minimal failing case (decoded, as JSON) is the replay file:
  `harness/target/release/granne-verif replay FILE`.
* Cases run in 8 worker processes. An abort (debug assertion inside a destructor, double panic, stack overflow, signal, sanitizer
  report) is attributed to the case being run, and shrunk like any other failure. Workers use a rayon pool with one
  thread unless the property is about threads.
* Fixed number of cases per tier, not fixed time. A watchdog expiry is an error exit (2), never a violation.
  "Blocks forever" is decided by quiescence (every thread of the worker asleep for 40 s), "does not end" by more than
  120 s of CPU time in one case that normally takes milliseconds. A worker may use 3 GB of memory (size bombs end as a failure).
* P01, P04, P07, P09, P13, P15, P19 run half of their cases in a second build without debug assertions and overflow checks
  (`plain`): what users run, where a failed `debug_assert` or wrapping arithmetic does something else than panicking.
* A failing case is reported once it was reproduced in a fresh process; concurrent cases are retried up to 40 times
  while shrinking.
* Each case reports whether it was non-trivial by the rule of its property (in the evidence, with samples and counts of
  labels such as "several layers", "mapped", "refused").

## Properties, generators, oracles

| id | generated | oracle | why unit tests cannot settle it |
|----|-----------|--------|---------------------------------|
| P01 | indexes (built, partially built, reloaded, mapped, hand-made random layered graphs through the harness's own encoder; f32, i8, sums, user metric), queries, max_search, result counts | predicate over the result: distinct indexed ids, exact distances, order, prefix, closure under the bottom layer, not worse than element 0 | holds for graphs no build of a test produces |
| P02 | random graphs with a hidden Hamiltonian cycle, strongly connected builds, complete small builds, n up to thousands | brute force | the answer must be exact for any connected graph and any budget ≥ n |
| P03 | generic data (uniform, clustered), settings, histories (resumed builds) | recall against brute force with floors calibrated on many seeds, self-findability, number of distance evaluations counted by a container; in the family `way` (1 and 2 dimensions, plain index and concurrent builder) against the length of a descent; the floors also for the concurrent builder (family `concurrent builder`), searched directly and after saving | statistical; needs many configurations |
| P04 | histories of push, build, partial build, reload, reorder, search, with zeros, duplicates, ties | graph invariants after every step, in memory and in the decoded file | histories |
| P05 | sizes, multipliers, expected totals, splits, refused calls | independent formula (either rounding at exact powers), accept/refuse predicate, counts | arithmetic over all n |
| P06 | built and hand-made indexes, also sparse ones over 2^16–2^24 elements; alignment; start position of the writer | independent encoder/decoder, bytes, search equality, fixpoint | byte-width limits, alignments |
| P07 | collections of every type and storage, arbitrary float bit patterns | independent encoding, bit equality, byte counts | same |
| P08 | interrupted histories (saved with/without elements, from bytes/file, smaller limits) | differential: never interrupted | history |
| P09 | indexes × keys (many equal), once or twice | isomorphism with the renamed original, model sort, search equality | every permutation |
| P10 | vector pairs (parallel, opposite, near, orthogonal; dim ≤ 3000; 1e±12; i8 incl. −128), batches, storages | double precision reference, laws, bitwise agreement across access paths | all dims (SIMD tails), magnitudes |
| P11 | raw vectors 1e±30, sparse, few large, integers | double precision reference, truncation rule | numeric corner cases |
| P12 | mixes of zero, duplicate, ordinary elements in any layout | no failure, P04, findability with calibrated bounds | degenerate mixtures |
| P13 | histories over terms and tables | lists over a table | history |
| P14 | word lists, files (plain, gzip, several members, CRLF, escapes, colons), directories, shards | independent parser/encoder | text space |
| P15 | sequential histories of the concurrent builder | list model + P01/P04 predicates + decoded saves | history |
| P16 | 2–24 threads × histories, random delays inside the element container, ordinary threads or rayon workers | linearizability conditions on the log (logical clock), snapshot consistency, quiescence | schedules |
| P17 | builds and reorderings in pools of 2–8 threads with delays | P04, sizes, complete linking, determinism with one thread | schedules |
| P18 | object × every fault at every call of the destination (≤ 60 per case), capacity limits, /dev/full, limited files | success ⇒ destination equals undisturbed bytes; lasting fault ⇒ error | fault points |
| P19 | truncations, edits, arbitrary bytes, edited metadata; memory next to an inaccessible page | outcome of the process; refusal rules for headers; every truncation of an index | all damage |
| P20 | histories of calls of the Python module in a Python process | model of what was appended; the same calls executed by the Rust library (`pyref`), compared call by call; decoded files | glue code has no tests at all |
| P21 | histories over up to three collections, every storage | list model, source bytes and file unchanged | storage × history |
| P22 | reads from 2–8 threads, orders, copies | the same reads sequentially | schedules, caches |
| P23 | structured data in random order, layered indexes; sums of embeddings | grouping by exact closest element of the layer above as reference, random order as lower bound; key laws | a quality that only shows in aggregate |
| P24 | the cases of the other Rust properties (all but P03 and P23) in programs built with sanitizers | report of the address or thread sanitizer, death by signal | undefined behaviour is invisible to ordinary assertions |
| P25 | layered graphs, header variants, element data put into files by an independent encoder (`harness/src/fmt.rs`) | the data itself; independent decoder for what is written | tests only read what the same code wrote |

### Details worth knowing

* **P03 floors, false alarm corrected.** The floors of the family `fixed` came from about 40 data sets per cell; with other seeds than 1, single
  clustered data sets fell below them (0.877 against 0.891 for i8 with 5 neighbors, and a few others). They were measured again on about 240
  data sets per cell and are now the lowest value less half its distance from the mean and a margin, nowhere above the old ones.
* **P03 floors.** Recall floors are functions of (neighbors, max_search, type) set well below the smallest value seen in calibration
  over thousands of data sets, with at least 40 queries on at least 300 elements. Cost bounds are counting arguments, not calibrated:
  a search evaluates each element at most once per layer, and at most the neighbors of the max_search+… expanded elements.
* **P12 and P23** also have calibrated bounds (findability among duplicates, gain of reordering ≥ 0.5 of the exact grouping's gain;
  0.2 for tight clusters, where groups are hard to tell apart). They are set so that thorough runs of several seeds never come near.
* **P16.** The element container sleeps or yields at random inside `get`/`dist` calls, so threads change places inside critical
  sections. Calls are logged with an atomic clock before and after. The order of elements in the final content is the linearization
  of inserts; saves must be prefixes with a length between what was finished before the save began and what was begun before it ended;
  searches must return only elements whose insert began before the search ended.
* **"Beyond 16 bits"** families of P01, P02, P04, P05, P08, P15 (and sizes of P09 "large", P06 "wide") use 65 532 to 131 073 elements with cheap
  settings: ids, marks and counts kept in 16 bits, or blocks of 65 536, show only there. P08 takes distance ties for granted at this size and then
  asks that less than half of the neighbor lists differ (at most 3.4% seen, in over 100 cases).
* **P17 determinism and P08 equality** are asserted for single-threaded builds only; multi-threaded ones are checked by invariants.
* **P18.** The destination is an in-memory Write+Seek that fails, shortens or interrupts at a chosen call; a save to a limited file uses
  RLIMIT_FSIZE in a child; /dev/full is a real device that accepts nothing.
* **P19.** Damaged bytes are placed directly before (or after) an inaccessible page in a child process; SIGSEGV/SIGABRT is a violation,
  panic and error are not. Half of it runs in the plain build, where unchecked arithmetic wraps.
* **P20.** `pyharness` builds the bindings from /repo/py (as a `#[path]` module with its own vendored `python3-sys`, whose released
  version cannot be used with Python 3.12 as it looks for removed symbols; the vendored copy only drops those declarations). The worker process
  executes a history; the parent compares it with a model, and `granne-verif pyref` executes the same history with the library. The histories
  only touch a scratch directory.
* **P22.** Includes views (`borrow`), owned copies, reloads, mapped files, and readers that share one `Granne`.
* **P24.** The harness is built by the nightly compiler with AddressSanitizer and with ThreadSanitizer (standard library rebuilt with
  `-Zbuild-std`, which works offline with the installed rust-src). The families of the other properties are run in it with their ordinary verdicts
  ignored; only the death of the process counts, with the sanitizer's report in the message. A family of its own makes
  calls with arguments that do not fit (other dimensions, ids out of range, fewer elements than the index, cut element bytes): refused or
  not, they must stay inside their memory. A case that does not end there is an error of the check (exit 2), not a violation.
  Two dependencies are patched for all builds of the harness (`harness/vendor`), because they are right on this processor but not by the rules
  the thread sanitizer checks: `parking_lot` 0.10.2 waits for the last reader with relaxed loads (the copy: acquire), and `crossbeam-deque`
  0.8.8 (rayon's queues) copies tasks by volatile accesses and validates afterwards (the copy: relaxed atomic accesses, word by word).
  `--cfg crossbeam_sanitize_thread` is crossbeam's own switch for fences. Every other race would be reported; there are no suppressions.
  A race between a writer of a mapped file and a reader is outside (see limits).

### Limits of the domain (deliberate)

* Build settings: num_neighbors 1..=254 (lists of 255 and more cannot be written: the count is one byte; a debug assertion guards it), multiplier > 1.
  num_neighbors 0, multiplier ≤ 1 and num_shards 0 are configuration errors.
* Elements: finite, |x| between 1e-15 and 1e15 (floats), no NaN or infinity, dimension ≥ 1, i8 dimension ≤ 133 000 (i32 accumulator), ids below 2^24 for terms.
* A metadata header has 1024 bytes; indexes with more than about 70 layers do not fit (and need a multiplier near 1). `write_index` panics there.
* L2-like custom metrics: zero vectors are excluded from findability in P12 (granne defines them as not indexed).
* Loading with a smaller neighbor limit keeps a subset of each list, so findability is not asserted after it (P15).
* Text elements: one JSON string per line, words file without duplicate words.
* P19: `layer_sizes` shorter than `num_layers` in the header is accepted by the code and harmless; not asserted to be refused.
* Files that someone else changes while mapped are out of scope (inherent in mapping); replacing a file that is mapped by saving onto it is in scope (P20).

## Findings (all repaired by `fix:` commits; details in known_findings.json)

Memory: misaligned loads of layers and vectors (F1, F2); two threads initializing one node (F3); damaged offsets wrapping around (F22).
Concurrency: recursive write lock in insert_batch (F4); capacity check outside the lock (F6); inserts from another rayon pool (F21).
Builder/search: RwGranneBuilder with one layer (F5), with layers of another multiplier (F20); max_search 0 or huge (F15); reorder with fewer than
two layers (F8), with partially indexed elements (F9), ignoring which first-layer element is closest (P23).
Storage: swallowed errors of buffered writers (F7); byte count of vectors (F10); empty collections not loadable (F11); extending with an empty one (F12).
Numbers: quantizing zeros (F13); largest component 126 (F19).
Text: trailing empty shards (F14); only first gzip member (F16').
Python: keyword of compute_embeddings_and_save_to_disk (F18), append keeping the word of a refused embedding (F23), saving onto the mapped file (F24),
words made of digits taken for ids (F25).
Observed and left alone (outside the stated domain, see limits): lists ≥ 255 in a file, header overflow with very many layers, the docstring default
of the Python builder (20, actual 30).

## False alarms met and what was done

* P19 once required an id check on an empty collection that the interface does not promise: check removed.
* P15 fetched element 0 of an empty builder: harness error, corrected.
* P23's gain bound was too tight for clusters much tighter than the spacing of layer elements: weaker bound for those, domain stated in the property.
* P09 compared searches when element 0 moved, or between ties: comparison restricted to unmoved entry point and distinct distances.
* P05 at exact powers of the multiplier: float rounding decides the number of layers; either is accepted.
* P16 mistook slow threads for blocked ones when the machine was overloaded: replaced by quiescence of all threads over 40 s.
* P24: races inside two dependencies (parking_lot's relaxed wait for readers, crossbeam-deque's volatile copies), patched in the harness, above.
* P24: cases that do not end (or take long under a sanitizer) were reported as violations; now an error of the check.

## Planted changes and which checks catch them

See the table at the end (written by tools/tryseeds.sh results). Every planted change is caught by the quick check of its own property; some by others too.

@@SEEDS@@

## Random mutation

`tools/mutate.py` (and `tools/mutate_py.py` for py/src and P20) applies random syntactic mutations (operators, constants, removed statements, swapped arguments) to src/ in a scratch copy, discards those
that do not build or that the repository's tests notice, and runs the quick checks on the rest. It is used to find blind spots, which became new families
or properties (P03 resumed builds, P23). @@MUT@@
'''
import json,glob,os
rows=["| change | property | needs |","|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs'].replace('|','/')} |")
mut='''In one run 18 mutants were looked at: the repository's tests notice 12, of the others two are in code for the `blas` feature (which cannot be built here), and the quick checks notice the rest (two of them, in reordering, only since P23). In a second run of 60 (9 of them invalid), the tests notice 30; of the 21 others the checks noticed six, two more with the family `way` of P03 and the header check of P25, which were made for them, and one more is noticed by P18; the twelve left change nothing that can be observed (comments, capacities of buffers, progress output, sizes of chunks of work, initial values that are overwritten).'''
open('/verif/DESIGN.md','w').write(text.replace('@@SEEDS@@','\n'.join(rows)).replace('@@MUT@@',mut))
