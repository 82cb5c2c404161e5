#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
BFS = "explicit-state model checking of the implementation: breadth-first search over operation histories on a model storage, merged by decoded stored state"
GRID = "exhaustive enumeration of node/table geometries encoded directly as pre-states, every operation kind on each"
SCHED = "stateless model checking: exhaustive preemption-bounded schedules at storage calls under a controlled scheduler"
FAULT = "exhaustive fault/environment enumeration"
COMMON = "Decided by exhaustive enumeration within the bounds listed per task in the evidence, on the unmodified code; trusts the reference model, the independent layout codec and the model of fsm in mc/, each compared with the code (and with the real fsm) in every execution."
P = {
 "C01": (BFS + "; " + GRID, "against a byte-string map at every step"),
 "C02": (BFS + "; " + GRID, "every pair of bounds of interest in every final state, both directions"),
 "C03": (BFS + "; " + GRID, "every position, every read function, offsets and lengths around all limits"),
 "C04": (BFS + "; " + GRID, "an independent decoder judges the pages after every step; non-leaf operations up to height 4 from directly encoded extreme trees"),
 "C05": (BFS + "; " + GRID, "reopening at every state, then all continuations of a list compared with a twin that was not reopened"),
 "C06": (BFS + "; " + GRID, "against a byte-string map at every step, with full 64-bit hash collisions and chains in one slot"),
 "C07": (BFS + "; " + GRID, "every interleaving of two cursors over small tables, with lookups in between"),
 "C08": (BFS + "; " + GRID, "tables of every size up to the bound at the limits of growing and shrinking"),
 "C09": (BFS + "; " + GRID, "as C05, for Dict"),
 "C10": ("exhaustive enumeration of key and value lengths, orders and byte patterns, executed on the implementation", "all lengths around every limit of the layout, pairwise"),
 "C11": (BFS + "; " + GRID, "the model storage accounts for every space: leaks are differences to what an independent decoder reaches, double frees and wild accesses are errors"),
 "C12": (BFS + "; " + GRID, "statistics compared with the model and the decoded tree or table after every step"),
 "C13": (BFS + "; " + GRID, "every argument is overwritten after the call, every second result too; the others must never change"),
 "C14": (BFS + "; " + GRID + "; " + SCHED, "contents, addresses and members of the dictionary hashed around every read; concurrent readers in all schedules within the preemption bound, race detector on the real storage"),
 "C15": (FAULT + ": the mapping moves at every single event and pair of events of every seed history; placement, recycling, fill and slack at extremes", "moved mappings poison stale accesses in the model"),
 "C16": ("explicit-state model checking: all short sequences of actions of four members and foreign space in one storage", "against one map per member and the bytes of every foreign space"),
 "C17": (SCHED, "all pairs of jobs over separate dictionaries; race detector on the real storage"),
 "C18": ("exhaustive enumeration of targets, flags, and sequences of open/change/close/copy/remove actions on real files", "directory contents compared before and after every refusal"),
 "C19": (BFS + "; " + GRID, "markers, keys with their bytes, and keys next to those, as point arguments and range bounds"),
 "C20": (BFS + "; " + GRID + "; exhaustive operation lists on files written by the pinned version", "independent encoder and decoder in both directions"),
 "C21": (FAULT + ": a writer failing at every single write of the dump of every explored tree", "text parsed back and compared with the model"),
 "C22": (BFS + "; " + GRID, "the model storage counts the distinct pages and spaces each operation touches, also on trees of up to 66000 records and tables of up to 41000 slots"),
}
checks = [dict(property=k, quick_cmd=f"bin/check {k} quick", thorough_cmd=f"bin/check {k} thorough",
               technique=t, level="model_checking", level_note=n[0].upper() + n[1:] + ". " + COMMON) for k, (t, n) in P.items()]
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the checks substitute package fsm (a dependency) at build time. Each check rebuilds from /repo's working tree.")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
