N["C01"] = """
Why it reaches beyond tests: fields interact through defaults (a value equal to the default of another field hides a swap) and through
what an object held before; both need the product of deviations with load histories, not one sample problem. Equality is bitwise on every
public field, so nothing is lost in a tolerance.
"""
N["C02"] = """
Not judged: strings whose parts exceed 32 bits (the project's own vvcompose_test fixes that "1/4294967297" reads as 1).
"""
N["C03"] = """
Two parts. Sequential: a reference evaluator written in Python-like closed forms runs in lock-step (model traces validated = all).
Concurrent: the real TEval is run under a controlled scheduler (`harness/sched.hpp`; `lua_*` and `GOMP_critical_*` interposed), every schedule
up to the preemption bound; the same thread programs run free under the thread sanitizer to show that nothing is shared between the
scheduling points.
"""
N["C04"] = """
Model: a record is a list of (time, row) plus the set of snapshots; actions are run, run-another-problem-under-the-caption, resume.
The explicit-state search deduplicates on the model's state; each transition is executed by the real program and the resulting files are
compared with the model, so the conformance check is part of every transition. Interruption: `harness/faultio.c` (preloaded) counts the
calls that change files and kills the process before the k-th, for all k.
"""
N["C05"] = """
The definition checked on each tree: every element is in exactly one leaf whose box holds it; aggregates equal sums over the elements;
near and far lists of a leaf partition all leaves, far cells satisfy the far criterion, near ones do not at every ancestor level; a point
look-up finds the leaf that contains the point or, outside of all, the closest.
"""
N["C06"] = """
The oracle is a direct sum over all elements in long double. The only approximation that the method prescribes, replacement of far cells by
two aggregates, is bounded rigorously per cell from the elements themselves (remainder of the Taylor/multipole expansion), so no tuned
tolerance hides an error: near cells are exact to 1e-9.
"""
N["C07"] = """
The order in which pairs are merged is not part of the property: for every arrangement the survivors are decoded into groups (strengths
with unique subset sums) and any order of the rule is accepted. The sampling of neighbours which the program uses to estimate distances in
crowded cells ("speed up") is outside the enumerated range (cells of up to 5 vortices are judged by the rule; more by conservation only).
"""
N["C12"] = "The model is a plain Lua table per list; it is stepped together with the program on every sequence, so all traces are validated."
N["C11"] = """
Values at the limits of doubles are only required to be refused or to give finite bodies; where a piece of the contour is shorter than half of
a segment its corner may be skipped, and both outcomes are accepted.
"""
N["C15"] = """
Which leaf a point belongs to is decided by the nearest leaf; the oracle computes the truncation bound for that choice. Vorticity near
crowded cells uses the near cells of the tree, as documented for core sizes (C07), so neighbours are taken from there.
"""
N["C17"] = """
Two oracles: for numbers, the library called directly by `harness/c17.cpp` on the same region (C14 and C15 decide that those are right); for the
script, a parser of the gnuplot commands and, for executability, the installed gnuplot itself run on every distinct script shape. A stand-in for
gnuplot prints script and data to compare what the executed plot receives with the package.
"""
N["C19"] = """
Transient heat layers are not reachable from scripts and so not resumed. The tolerance is 1e-9 because a resumed run rebuilds the tree
in another order, so sums differ by reassociation.
"""
N["C20"] = """
An exhaustive enumeration of interleavings of memory accesses is out of reach, so two complete explorations are combined. (1) Conflict
analysis: the program is compiled with `-fsanitize=thread` instrumentation against our own runtime (`harness/omprt.cpp`), which records all
accesses; teams have at least as many threads as iterations, each iteration is a thread of its own, so *any* two iterations which could
conflict under *any* schedule are seen to conflict (lockset + barrier epochs). Without a conflict, the outcome depends only on the order of
critical sections. (2) These orders, and the assignment of chunks to threads, are explored by a depth-first search with a preemption bound on
each region; outputs are compared bit for bit.
"""
N["C21"] = """
A failure that the program does not meet (a call number beyond the last) ends the enumeration; hence every call is covered. The kinds of
failure are those a file system produces: ENOSPC, EIO, sticky, short writes (an error after half), partial writes (no error).
"""
N["C23"] = """
The transition relation (time to the next limit, restitution, chains of roots) is restated in `harness/c23.cpp`; every transition of the
real `move_and_clean` from every state of the table is compared, and whole motions from the script with heavy bodies in still fluid.
"""
N["C24"] = "The reference schedule is computed in exact fractions; the program is run for each and its files compared with the schedule."

N["C26"] = "The legacy format has no writer in the repository any more: the check carries one, and a reader of its own, after the format as load_v13 reads it. vvcompose_test loads /dev/null, so an empty file stays acceptable; it must load as nothing."

N["C27"] = "Table and runner in mc/stepruns.py, reference in mc/stepref.py, shared with C28. The record is written before zero_forces and after vortex_shed, so the reference sheds first."
N["C28"] = "mc/stepref.py is a complete second implementation of one step (direct sums over the files a run leaves), written from the description of the method; the conformance of model and code is checked on every transition, so a disagreement of either kind shows. It covers the order of the phases of the main loop, which checks of single library calls (C06-C08, C22, C23, C25) cannot see. Bodies of density 1e6 keep their speed between limits, which makes the restitution observable; a dropped second solution while a collision is pending was missed before these were added."
N["C29"] = "The model of the option language (mc/checks/c29.py parse) is written after getopt_long(3); every command line is parsed by it and by the program. Where -G, -P and -U meet, the last is drawn and keeps the range that was given to it."
N["C01"] += "An empty body and more than a hundred bodies are not in its table; C02/C26 and C27 hold those (names of bodies, legacy bodies without segments).\n"
N["C20"] += "Scratch variables made static that the optimiser keeps in registers are no races in the program that is built; they are not reported.\n"
N["C24"] += " Not judged: the attribute dt_profile, which nothing reads: profiles are there for every step or not at all."
N["C28"] += " Heat is reachable only through legacy files (C26) and is left out, like the Kutta condition, which no script can set. vvflow.1.md mentions gen_roundrect, which is not implemented: calling it is a plain Lua error."
