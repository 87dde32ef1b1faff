#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claims below and properties.jsonl."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOUNDED = ("Complete enumeration of the bounded space named in the evidence, each element executed on the real code and compared "
           "with an independent oracle. Nothing is shown beyond the bounds. ")
# property: (technique, level, note)
CLAIMS = {
    "C01": ("explicit enumeration of problem states and load histories on the real code (asan), compared field by field",
            "exploration", BOUNDED + "Trusts HDF5, the default compiler and the dump of public fields as the notion of equality."),
    "C02": ("exhaustive operand enumeration and addition histories against exact rational arithmetic", "exploration",
            BOUNDED + "Trusts 128-bit integer arithmetic of the compiler."),
    "C03": ("exhaustive operation sequences against a reference evaluator; preemption-bounded exploration of all schedules of the real code at its critical sections",
            "model_checking", BOUNDED + "Schedules are explored at critical sections and Lua calls; unsynchronised accesses between them are looked for by a thread-sanitizer run of the same programs."),
    "C04": ("explicit-state search of run/restart/foreign-run histories against a reference record, replayed on the real program; exhaustive enumeration of kill points of the real program",
            "model_checking", BOUNDED + "A process kill leaves the file-changing calls made so far in effect; loss of power is not modelled. Kills inside HDF5's own write-out are a known finding."),
    "C05": ("exhaustive enumeration of element arrangements; every cell of every tree of the real code checked against the definition", "exploration",
            BOUNDED + "Rounding is allowed for in aggregates and bounds."),
    "C06": ("exhaustive enumeration of flow configurations; velocities of the real code compared with a direct sum by an independent kernel", "exploration",
            BOUNDED + "The far-field truncation error is bounded by the multipole bound of each aggregate."),
    "C07": ("exhaustive enumeration of vortex arrangements and strengths, with and without walls; core sizes and merging of the real code compared with a reference",
            "exploration", BOUNDED + "Neighbours are those of the search tree's near cells, as decided by C05."),
    "C08": ("exhaustive enumeration of surface strengths, element lists and motions over several steps against an independent bookkeeping of every account", "exploration",
            BOUNDED + "Elements on a contour or equally near to two segments are not judged."),
    "C09": ("exhaustive enumeration of lattice contours, points and operation histories against an exact integer oracle", "exploration",
            BOUNDED + "Points on the contour are not judged."),
    "C10": ("exhaustive enumeration of operation histories of bodies (C++ and script) against a reference geometry in long double", "exploration",
            BOUNDED + "Comparison within 1e-9 relative."),
    "C11": ("exhaustive enumeration of generator parameter tables run through the real program; every returned contour compared with the described piecewise figure", "exploration",
            BOUNDED + "Pieces with fewer segments than their bound of the discretization allow are judged by closeness to the figure only."),
    "C12": ("exhaustive enumeration of script operation sequences on lists against a reference model; depth-bounded, under the address sanitizer",
            "exploration", BOUNDED + "Values are compared as the script reads them and as the saved file holds them."),
    "C13": ("exhaustive enumeration of property/value pairs with assignment histories against a reference of what each property accepts", "exploration",
            BOUNDED + "Strings whose fraction overflows its 32-bit parts wrap around, as the project's own test requires; they are not judged."),
    "C14": ("exhaustive enumeration of small fields and level sets; the drawn multigraph compared with the level set computed independently", "exploration",
            BOUNDED + "Field values are dyadic so level crossings are exact up to float rounding."),
    "C15": ("exhaustive enumeration of small flows, grids and sub-rectangles, each cell of the real code compared with a direct sum; of small value arrays for statistics and storage", "exploration",
            BOUNDED + "The far-field truncation error is bounded by the multipole bound of each aggregate; points on contours are not judged. One known finding (gaps are not stored)."),
    "C16": ("exhaustive enumeration of files, selections and wrong names given to the real tool; its output parsed and compared with the file as the HDF5 library reads it", "exploration",
            BOUNDED + "Trusts HDF5 as the notion of what the file holds. Derived quantities in the information are compared to 5 digits."),
    "C17": ("exhaustive enumeration of regions, option combinations, body labels and item sizes given to the real program; script and data compared with the documented rules and the library, and what reaches gnuplot with the package", "exploration",
            BOUNDED + "The values of fields, level lines and tree nodes are taken from the library, which C15, C14 and C05 decide. Trusts gnuplot."),
    "C18": ("exhaustive enumeration of short sample files and options given to the real scripts, compared with the definitions evaluated in exact sums", "exploration",
            BOUNDED + "Samples exactly on an end of the range are not judged."),
    "C19": ("explicit exploration of all resume points of a table of problems: the real program is resumed from every snapshot (new process, used process, saved problem, stopped and continued) and its states compared with the uninterrupted run",
            "exploration", BOUNDED + "Agreement is required within 1e-9 (snapshots) and single precision (step record)."),
    "C20": ("stateless exploration of the schedules of every parallel region of the real programs under a controlled OpenMP runtime (preemption bounded), and a conflict analysis of all memory accesses under which two iterations never share a thread, which covers the interleavings inside of chunks",
            "exploration", BOUNDED + "Trusts that code outside of /repo which parallel regions call (Lua, libc) is safe as called; per region the number of schedules is capped."),
    "C21": ("systematic fault injection: every file-changing call of the real tools' runs is made to fail in turn, by kind of failure, and every limit of output size", "exploration",
            BOUNDED + "Trusts that the interposed calls are all the ways these programs change files (HDF5's default driver, stdio, libarchive)."),
    "C22": ("exhaustive enumeration of bodies, chains, springs, collisions and step sequences; residuals of independently coded equations at the solution of the real code", "exploration",
            BOUNDED + "Residuals are judged within 1e-8 relative; the segment that carries the integral condition is exempt as the method prescribes."),
    "C23": ("explicit exploration of motion steps and whole motions of the real code between collision limits, each transition compared with the laws of motion", "exploration",
            BOUNDED + "In whole motions bodies are much heavier than the fluid so that the expected motion is known; one known finding (body in a corner)."),
    "C24": ("exhaustive enumeration of schedules (start, step, save and streak periods, finish) run by the real program against a reference schedule in exact fractions", "exploration",
            BOUNDED + "A finish half-way between two steps is judged by the documented rule time < finish + dt/2 in doubles only where it is exact."),
    "C25": ("exhaustive enumeration of vortex and wall arrangements; diffusion velocities, friction and forces of the real code compared with a direct sum in long double", "exploration",
            BOUNDED + "Neighbours are those of the search tree's near cells. Distances on the cut-off of the exponent are not judged."),
    "C26": ("exhaustive enumeration of truncations, damages and variations of files; what the real code loads compared with an independent reader of the bytes, sequences of refusals through the real program", "exploration",
            BOUNDED + "HDF5 files are varied through the HDF5 library and by truncation; bytes inside HDF5's own structures are not altered, which would test that library."),
    "C27": ("exhaustive enumeration of simulated problems over tables of flows, contents and bodies through the real program; every row of each record compared with an independent reference over that step's snapshot", "exploration",
            BOUNDED + "Rows are single precision in the file and compared so. Steps without a snapshot are judged for their time and order only."),
    "C29": ("exhaustive enumeration of command lines up to a length over tables of tokens through the real programs, against a reference model of the option language", "exploration",
            BOUNDED + "Of vvxtract and vvplot the output is compared with that of the plainest spelling, whose meaning C16 and C17 judge. An option standing after the input is an option of vvflow, as its parser has it; only what follows -- is always the script's."),
    "C30": ("exhaustive enumeration of command lines up to a length over a table of options in all spellings through the real script with a recording stand-in for gnuplot, against a reference model of the options; the scripts are read as gnuplot commands", "exploration",
            BOUNDED + "gnuplot itself is not run: what its commands draw is taken from its manual. Which lines --grid x means is not judged."),
    "C28": ("exhaustive enumeration of simulated problems over tables of flows, contents and bodies through the real program; every transition from one snapshot to the next compared with an independent reference model of a step, every snapshot with the laws of motion", "exploration",
            BOUNDED + "The reference covers steps whose search tree is one cell; steps in which a decision hangs on rounding are left out and counted."),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "hooks": {"guard": "VVFLOW_VERIF", "enable": "no hooks are needed: the checks use the public interface of libvvhd, the command line and link-time interposition", "source_commits": []},
         "checks": [], "not_applicable": []}
    for p in props:
        i = p["id"]
        if i in CLAIMS:
            t, l, n = CLAIMS[i]
            m["checks"].append({"property": i, "quick_cmd": "./check %s --quick" % i, "thorough_cmd": "./check %s --thorough" % i,
                                "evidence_file": "evidence/%s.json" % i, "technique": t, "level": l, "level_note": n})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check built yet.")})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NA = {}
main()
