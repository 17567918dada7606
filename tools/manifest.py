#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of finished checks."""
import json
D={
"C01":("model_checking","stateless model checking of the real binary under a controlled scheduler (preemption-bounded DFS)","all interleavings up to the preemption bound stated in the evidence per harness; sequentially consistent atomics"),
"C02":("model_checking","stateless model checking of the real binary under a controlled scheduler (preemption-bounded DFS)","all interleavings up to the preemption bound stated in the evidence per harness"),
"C03":("model_checking","exhaustive enumeration of listing orders, hash seeds, thread counts, leftovers and schema orders, plus schedule exploration, on the real binary","byte equality of every generated file over the product of environment answers"),
"F01":("fault_enumeration","exhaustive fault enumeration: every file system operation of each run times every error and short transfer, on the real binary","single faults (pairs when thorough) at every operation of the recorded runs"),
"F02":("fault_enumeration","exhaustive crash-point and torn-write enumeration with recovery runs, on the real binary","a kill before, after and inside every file system operation, then a clean run"),
"F03":("model_checking","exhaustive enumeration of configurations, paths and layouts with a monitor on every write of the real binary","every write-like system call of every enumerated run is checked and refused outside the scratch tree"),
"T01":("model_checking","exhaustive enumeration of typed selection sets up to a size, each replayed on the real binary against a reference model","all valid selection sets of up to 5-10 nodes over ten alphabets"),
"T02":("model_checking","exhaustive enumeration of wrapper chains in every position, replayed on the real binary against a reference model","all chains of up to 6 (9) lists"),
"T03":("model_checking","exhaustive enumeration of variable lists, replayed on the real binary against a reference model","up to three (four) variables over 48 types and all orders"),
"T04":("model_checking","exhaustive enumeration of input object graphs and used sets, replayed on the real binary against a reference model","all reference graphs over 2-3 input objects and 2 enums"),
"T05":("model_checking","exhaustive enumeration of documents, scalar configurations and names, replayed on the real binary with a closedness oracle","all documents of the T01 families plus enumerated names"),
"T06":("model_checking","exhaustive enumeration of documents and of meaning-preserving rewritings, replayed on the real binary","every rewriting at every position of every document of eight families"),
"T07":("model_checking","exhaustive enumeration of description strings in every position, replayed on the real binary","all strings up to a length over an alphabet of comment-relevant characters"),
"T08":("model_checking","exhaustive enumeration of scalar configurations times positions, replayed on the real binary against a reference model","all combinations"),
"E01":("model_checking","exhaustive enumeration of single mutations of all small valid documents, replayed on the real binary against a reference validator","every mutation at every position"),
"E02":("model_checking","exhaustive enumeration of import graphs, spread graphs, input cycles, import lines and small texts with deterministic hang detection on the real binary","all graphs over up to 3 files; all strings up to a length"),
"E03":("model_checking","exhaustive enumeration of documents with narrowing and deprecated fields, replayed on the real binary against a reference model","all documents of the enumerated families, with warnings on and off"),
"E04":("model_checking","exhaustive enumeration of error and warning counts times kinds on the real binary","all combinations of counts"),
"E05":("model_checking","exhaustive enumeration of schema JSON mutations and truncations on the real binary against a reference decoder","every mutation at every node of the schema tree, every truncation"),
"G01":("model_checking","exhaustive enumeration of option combinations in both places on the real binary against a resolution model","all pairs (triples) of options with every source"),
"G02":("model_checking","exhaustive enumeration of import paths, layouts, prefixes and line arrangements on the real binary against a resolution model","all combinations"),
"G03":("model_checking","exhaustive enumeration of module names, prefixes and directories on the real binary against a resolution model","all combinations"),
"N01":("fault_enumeration","exhaustive enumeration of server behaviours and local faults against the real installer script","all enumerated server behaviours times local faults"),
"N02":("fault_enumeration","exhaustive enumeration of server behaviours and local faults against the real download script","all enumerated server behaviours times local faults"),
"N03":("model_checking","exhaustive enumeration of data and variables types times node kinds, decided by the TypeScript compiler on the real declarations","all combinations"),
}
import sys,os
done=open(os.path.join(os.path.dirname(__file__),'done.txt')).read().split()
props=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
checks=[dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=D[i][1],level=D[i][0],level_note=D[i][2]) for i in props if i in done]
na=[dict(property=i,reason="the check is not built yet") for i in props if i not in done]
json.dump(dict(version=1,setup_cmd="./check.sh setup",checks=checks,not_applicable=na),open('/verif/MANIFEST.json','w'),indent=1)
