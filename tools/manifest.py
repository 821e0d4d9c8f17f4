"""Writes MANIFEST.json."""
import json
T={
"C01":("runtime monitoring: panic, stack, hang (CPU time) and end-of-run monitors over grammar-generated, mutated, byte-level and deeply nested inputs","Watches every parse, format, position query, walk, visit and JSON dump of several hundred thousand hostile inputs; a fatal crash is seen by a supervising process. Finite workload, so no proof for all inputs."),
"C02":("runtime monitoring: basic-block counters and allocation meters compiled in through an overlay, compared at sizes n, 2n and 4n","Counts executed blocks and allocated bytes, so it does not depend on the machine's speed; covers hand-written and grammar-derived repetitions."),
"C03":("runtime monitoring: online round-trip oracle (parse, format, parse, compare trees by reflection)","Oracle is tree equality apart from positions, over the sample files, generated statements and accepted mutants."),
"C04":("runtime monitoring: differential oracle of beautified against compact output through an independent tokenizer","Compares token sequences, trees and idempotence for several indents per statement."),
"C05":("runtime monitoring: conservation monitor over the tokens of source and output, read by an independent tokenizer","Conservation of names, literals, operators and keywords with explicit lists of the optional and reordered ones."),
"C06":("runtime monitoring: perturbation monitor (drop or replace one token, watch tree or error)","Every token of generated statements is dropped or replaced; tokens the grammar marks as noise are exempt."),
"C07":("runtime monitoring: reference-model monitor (independent precedence parser over random operator sequences)","The reference builds the tree from the documented precedence; expressions are placed at every expression position of the dialect."),
"C08":("runtime monitoring: metamorphic monitor over re-laid-out and re-cased sources","Whitespace, comments and letter case are varied at every token boundary of accepted statements."),
"C09":("runtime monitoring: metamorphic monitor over concatenated scripts","Compares the statements of a script with those parsed alone, positions shifted."),
"C10":("runtime monitoring: position monitor over every node against an independent tokenizer","Invariants on Pos and End of every node, with the exceptions pinned by golden files listed by node type."),
"C11":("runtime monitoring: monitor on every error returned, against an independent line and column count","Checks type, offset, line, column, token, message and determinism of each error."),
"C12":("runtime monitoring: trace monitor of Walk callbacks against reflection over the tree","Compares the recorded callback sequence with all syntax nodes that reflection finds."),
"C13":("runtime monitoring: history monitor of pruned, stopped and rewriting walks","Random decline sets, stop points and renames per tree, against the full walk as the model."),
"C14":("runtime monitoring: trace monitor of visitor events, with injected errors at every visit","Visitor events come from a visitor that covers every method; errors are injected at random and all positions."),
"C15":("runtime monitoring: differential monitor of repeated and interleaved calls, deep snapshots before and after","Snapshots by reflection before and after inspection, and repeated parses in different process histories."),
"C16":("sanitizer: Go race detector over concurrent parsers and readers of shared trees, results compared with a sequential run","Race detector sees the executed accesses; schedules are varied by goroutine counts and yields."),
"C17":("runtime monitoring: process monitor (exit code, stdout, stderr) of the built tool against the library","Runs the tool built from /repo on accepted and rejected inputs in all flag combinations."),
"C18":("runtime monitoring: specification monitor (a hand-written grammar generates statements with the expected printed tokens and the field of each operand)","Acceptance, root type, place of every operand and printed text of generated statements; the grammar is the trusted specification."),
"C19":("runtime monitoring: rejection monitor over faulty edits of generated statements; every accepted text of the workload looked up by a recogniser of the hand-written grammar","A text counts as faulty only when no reading of it is a statement; the recogniser takes lists, operands and names more widely than the dialect."),
"C20":("runtime monitoring: conservation monitor for literals and identifiers of hostile content at every operand place","Each operand must be found byte for byte in the tree field and in the output."),
"C21":("runtime monitoring: metamorphic monitor replacing names by keywords","Compares with the tree of the same statement with ordinary names."),
"C23":("runtime monitoring: metamorphic monitor of formatted nodes (alone and inside, other positions, used formatters, exchanged nodes)","Texts of all nodes of a tree compared with each other; grafts take nodes of the same type seen at the same field in other statements."),
"C24":("runtime monitoring: model-based monitor of formatter histories; foreign nodes grafted into trees and their calls recorded","The model is a list of lines; a foreign node is compared with an identifier of the same text at that place, or with the node that it replaces."),
"C25":("runtime monitoring: memory-overlap monitor over the nodes and lists of live trees, and snapshots of other trees while one is overwritten","Areas of memory by reflection, list capacity included; overwriting covers every exported field."),
"C22":("runtime monitoring: monitor of the JSON dump against reflection over the tree","Every exported field is looked up in the decoded dump."),
}
import os,sys
claimed=[p for p in sorted(T) if os.path.exists('/verif/harness/cmd/vh') and any(f'checks["{p}"]' in open('/verif/harness/cmd/vh/'+f).read() for f in os.listdir('/verif/harness/cmd/vh') if f.endswith('.go'))]
M={"version":1,"setup_cmd":"./setup.sh",
"checks":[{"property":p,"quick_cmd":f"VERIF_TIER=quick ./run.sh {p}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh {p}","evidence_file":f"evidence/{p}.json","technique":T[p][0],"level":"exploration","level_note":T[p][1]} for p in claimed],
"not_applicable":[{"property":p,"reason":"no check yet; runtime monitoring applies"} for p in sorted(T) if p not in claimed],
"notes":"No hooks in /repo: block counters are added to a scratch copy of the sources through go build -overlay."}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1); print(claimed)
