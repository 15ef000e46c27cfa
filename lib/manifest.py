"""Regenerates MANIFEST.json from the table below (python3 lib/manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "TLA+ specification checked by TLC; TLC-enumerated inputs executed on the real code; every observation validated by TLC"
HIST = "TLA+ state machine checked by TLC; TLC-generated histories replayed into the real code; every observed step validated by TLC"
CONC = "TLA+ action system checked by TLC (safety, refinement, liveness); controlled-scheduler executions of the real code validated as traces by TLC"
SN = "Exhaustive over the bounded input space stated in the check plus seeded random larger inputs; every observation of the real code is judged by TLC against the specification. Trusts the harness's projection, g++/ASan and TLC. "
CHECKS = {}
def add(pid, tech, note):
    CHECKS[pid] = (tech, note)
add("C11", SEQ, SN + "All overloads, container kinds and orderings used by the harness; inputs are sorted as required.")
CN = "Design model-checked exhaustively for small thread/job counts (with fault-injected variants that must fail); the real code is executed under a controlled scheduler (random, delay-bounded and specification-guided schedules, sequentially consistent interleavings) and every distinct event trace is judged by TLC. Bounded programs; trusts the scheduler's interception of pthread/atomic operations. "
for p, n in (("C01", "1..4 workers, up to ~8 jobs, repeated execute()."), ("C02", "Deadlock freedom, wakeups and termination incl. exceptions in callbacks and shutdown."), ("C03", "Start/end callbacks per worker and per execute() cycle, construction and destruction, nested execute() from a job."), ("C04", "Continue mode: index coverage and reported failures."), ("C05", "Quit mode: rethrow after all workers stopped."), ("C06", "Happens-before specification evaluated by TLC on complete memory traces of the real code.")):
    add(p, CONC, CN + n)
add("C07", CONC, CN + "Sequential histories (enumerated and random) judged step by step; concurrent calls must be linearisable.")
add("C08", CONC, CN + "All setter chains up to length 2 and most of length 3 from several states; concurrent setting changes notify exactly once.")
add("C09", CONC, CN + "Histories judged byte by byte against the specified terminal output; concurrent registry use judged for linearisability and frame structure.")
add("C12", SEQ, SN + "All pairs of short sorted sequences over small keys and contents; random sequences up to 40 elements.")
add("C13", SEQ, SN + "All pairs of sorted sequences up to length 4 (5) over 3 keys; random up to 20 elements.")
add("C14", SEQ, SN + "All sequences up to length 4 (6) over 4 keys; random up to 60 elements; custom orderings and equivalences.")
add("C15", SEQ, SN + "Enumerated and random containers, predicates, sub-ranges, insertion points and map histories over several container kinds.")
add("C16", SEQ, SN + "All sequences up to length 4 (5) over 4 values; random up to 90 elements; several container kinds, value categories and move-sensitive element types.")
add("C10", SEQ, SN + "All operation sequences of length 4 (5) over two objects and random ones over three, for six owner types; resources are observed through allocator hooks, /proc/self/fd, /proc/self/maps and executed actions.")
add("C17", SEQ, SN + "Small-step pull machine model-checked against the eager meaning; 11 (16) source/element/value-category configurations x stage sequences up to length 3 x 15 terminals.")
add("C18", SEQ, SN + "Recorded source accesses and stage calls judged against the demand-driven walk; instrumented iterators, containers, bare containers (copies are events), pointers and infinite generators.")
add("C19", HIST, SN + "Iterator programs up to length 2 (3) exhaustively and random ones up to 15 over 12 zip configurations; all unequal lengths up to 3.")
add("C20", HIST, SN + "Iterator programs as for C19 over 10 enumerate and 41 nwise/pairwise configurations (N = 1..4).")
add("C21", HIST, SN + "Iterator programs as for C19 over 11 sets of primitives.")
add("C22", HIST, SN + "All texts up to length 2 (3) over NUL/LF/CR/space/letter x all operations and boundary arguments, longer ones sampled; random view programs; exact-size buffers.")
add("C23", SEQ, SN + "All texts up to length 6 (8) / 5 (7) over separator or LF/CR and letters; random up to 80 bytes.")
add("C24", HIST, SN + "All texts up to length 4 (6) over LF/CR/letter, page-sized files, random texts; interleaved read/read_line/move programs over buf_reader, mmap_reader, line_range, for_each_line_in_file.")
add("C27", SEQ, SN + "All short texts over sign/digit/neighbouring bytes x 8 integer types x 6 entry points, the whole range's boundary values, all letter cases of the truth values, decimals up to 15 integer digits; errors name the text.")
add("C25", SEQ, SN + "All column orders of up to 4 columns, 4 separators, 5 record types, 4 buffer and 5 streaming entry points, up to 300 columns; TLC re-derives every text from its table.")
add("C26", SEQ, SN + "All cells up to length 3 (4) over quote/separator/letter in every position; all texts up to length 4 (6) over quote/separator/CR/LF/letter plus random bytes in exact-size buffers.")
add("C28", SEQ, SN + "All argument lists up to length 3 (4) over names and values of four option sets; random longer ones.")
add("C29", SEQ, SN + "About 190 (830) generated source/target struct pairs with up to 31 members, every combination of null pointers for up to 4 pointer members.")
add("C30", HIST, SN + "All bodies up to length 3 over yield/effect/throw/nested generator; all valid operation sequences up to length 5 (6) on three bodies; random bodies and programs; int, string and move-only values.")
add("C31", HIST, SN + "Histories of open/write/size/content/content_str/read_file/mapped reading over every size around block and page boundaries and random byte runs, with every single injected seek/tell/read/write/open/fstat/mmap failure and short or interrupted transfers.")
add("C32", SEQ, SN + "Random messages and arguments for all check functions; all handler orders up to length 3 over a class diamond x all dynamic types; all sets of up to 3 handlers over 7 types x value categories; 44 (79) generated enums with all separator styles; all 8 bit and 6000 (all) 16 bit masks, boundary and random 32/64 bit masks.")
add("C33", HIST, SN + "All levels x source positions x piece counts, elapsed times at every decimal boundary, calendar boundaries, random timer histories under a controlled clock.")
add("C34", SEQ, SN + "Literals of every length 0..30 with neighbours, renaming histories over up to 4 threads.")
NA = {}
LEG = {"crowd": (("C01", "C02", "C03", "C04", "C05"), "Crowd leg: up to 70 000 jobs and hundreds of failures on real threads, judged by CrowdOps."),
       "nums": (("C17",), "Nums leg: all arithmetic types, scaled values, more than 65 536 elements (NumOps)."),
       "huge": (("C24", "C31"), "Huge leg: sparse files beyond 2 and 4 GiB (HugeOps)."),
       "big": (("C11", "C12", "C13", "C14", "C15", "C16", "C19", "C20", "C21", "C22", "C23", "C25", "C30"),
               "Big leg: ranges around 2^8, 2^16 and 2^17 elements and positions beyond 2^31/2^32, judged by closed forms (BigOps).")}
for ps, n in LEG.values():
    for p in ps:
        CHECKS[p] = (CHECKS[p][0], CHECKS[p][1].rstrip() + " " + n)
if __name__ == "__main__":
    ps = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
    for p in ps:
        if p in CHECKS:
            t, n = CHECKS[p]
            m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                                "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n})
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "check under construction")})
    m["notes"] = "Every check rebuilds its harness from /repo's working tree; VERIF_TIER selects quick/thorough, VERIF_SEED all random choices."
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
