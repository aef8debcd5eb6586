#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: one check per property that has one in harness/props.
import json,re,glob,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
src="".join(open(f).read() for f in glob.glob("harness/props/*.go"))
T={
"C01":("model-based random building programs, save/reopen round trip against a reference model read back by an independent reader","exploration"),
"C02":("grammar-based generation of main documents, parse/save round trip compared as canonical trees by an independent strict reader","exploration"),
"C03":("generated foreign packages and edit sequences, byte comparison of all untouched parts and relationships","exploration"),
"C04":("invariant over packages saved after random histories, checked by an independent strict reader","exploration"),
"C05":("generated strings over all XML characters, compared with an independent reader following the whitespace rules","exploration"),
"C06":("structure-aware mutation fuzzing of packages, main documents and pictures; crash and hang oracle over all operations","exploration"),
"C07":("metamorphic testing: randomly respelled documents must read and save alike","exploration"),
"C08":("enumerated cut positions, altered bytes and read faults against the undamaged outcome","fault_enumeration"),
"C09":("enumerated write and template faults, retry compared with the undisturbed save","fault_enumeration"),
"C10":("stateful random histories over several documents with a model of the pictures' bytes","exploration"),
"C11":("stateful random histories over several documents with a model of the links","exploration"),
"C12":("random documents appended in random orders, saved content compared with the concatenation of the saved inputs","exploration"),
"C13":("random documents and separator rules, saved pieces compared with the partition of the saved original","exploration"),
"C14":("random paragraphs and rules against an independent model of merging","exploration"),
"C15":("random pairs of runs against an independent comparison of the saved run properties","exploration"),
"C16":("random documents and filters against an independent filter of the model","exploration"),
"C17":("random sequences of formatting calls with a model of every property, read back by an independent reader","exploration"),
"C18":("generated table shapes, measures, colours and cell edits against a model, in memory, saved and reopened","exploration"),
"C19":("generated picture dimensions and shape parameters against exact geometry predicates and id models","exploration"),
"C20":("generated templates in a recording file system, repeated saves compared part by part","exploration"),
"C21":("generated concurrent programs under the race detector, results compared with the sequential run","exploration"),
"C22":("generated documents, plain text compared with an independent rendering of the saved file","exploration"),
"C23":("generated item and media lists followed by random edits, compared with a model","exploration"),
"C24":("generated files, folders and flag combinations for the built tool, outputs compared with an independent reader","exploration"),
"C25":("generated numbers and strings against big-number arithmetic and round trips","exploration"),
"C26":("reflection-driven generation of structure trees, save/reopen round trip compared field by field","exploration"),
"C27":("random building programs, documents and histories; the saved markup judged by a table of the format's content models","exploration"),
"C28":("structure-aware mutation of documents, damaged parts; closure under saving and reading, field by field","exploration"),
}
NOTE={
"default":"Random search with a fixed seed: every generated case is judged by an explicit oracle, failures shrink to a replay file; absence of violations is evidence for the generated domain only (bounds in DESIGN.md). Trusts the Go standard library (zip, encoding/xml for writing), the harness's own strict XML reader and models.",
"fault":"Fault positions are enumerated exhaustively per generated document up to a cap and sampled beyond; documents are random. Trusts the Go standard library and the harness's reader.",
}
checks=[]
for i,(tech,lvl) in sorted(T.items()):
    if 'ID:    "%s"'%i not in src: continue
    c=dict(property=i,quick_cmd="./check.sh "+i,thorough_cmd="VERIF_TIER=thorough ./check.sh "+i,evidence_file="evidence/%s.json"%i,
      technique="property-based testing: "+tech,level=lvl,level_note=NOTE["fault" if lvl=="fault_enumeration" else "default"])
    checks.append(c)
have={c["property"] for c in checks}
na=[dict(property=i,reason="its check is not finished yet") for i in sorted(T) if i not in have]
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="No hooks: the checks use the exported API only. VERIF_SEED changes every random choice. ./check.sh ID --replay FILE repeats one failing case.")
json.dump(m,open("MANIFEST.json","w"),indent=1,ensure_ascii=False)
open("MANIFEST.json","a").write("\n")
print(len(checks),"checks",len(na),"not claimed")
