#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T={
"C01":("differential against an interval model","generated operand pairs of all 15x15 types, result probed at every cell of a fine grid, both orders; oracle: membership of the operands"),
"C02":("differential against an interval model","generated operand pairs of all 15x15 types, result probed at every cell of a fine grid, both orders; oracle: membership of the operands"),
"C03":("differential + round-trip","generated operands of all 15 types, complement and double complement probed at every cell of a fine grid"),
"C04":("differential against an interval model","generated operand pairs; is_empty/disjoint/intersects compared with bound arithmetic on the known bounds of both operands"),
"C05":("stateful model-based generation","generated operation histories over a pool of values of all 15 types, model compared after every step"),
"C06":("metamorphic + invariant","the same generated operands combined in different orders, groupings and multiplicities; ==, hash and the serialized pieces inspected"),
"C07":("differential against an interval model","generated bounded ranges and sets over 15 element types biased to the ends of the type; forward and reverse iteration compared with the model's values"),
"C08":("stateful model-based generation","generated call sequences on bounded iterators compared step by step with a model of the remaining sequence"),
"C09":("stateful model-based generation","generated call sequences on lower-bounded iterators compared step by step with a model of the sequence"),
"C10":("differential against offset arithmetic","generated values and counts for 13 built-in and 2 user types, compared with exact arithmetic on offsets; u8/i8 rows exhaustively"),
"C11":("differential + round-trip","generated ranges converted both ways over 15 element types; oracle: exact value sets over offsets, panic expected exactly when unrepresentable"),
"C12":("differential against std indexing","generated containers and ranges; address, length and panic compared with std indexing by std::ops::Bound pairs"),
"C13":("model-based, algebraic laws","generated triples of bounds compared with admitted-value order; totality, transitivity, hash and map/flip laws"),
"C14":("round-trip","generated values through JSON, CBOR and bincode, compared and used further"),
"C15":("differential against bound arithmetic","generated bounds and probe values for all types before and after to_inner/to_set/From"),
"C16":("differential against an interval model","generated sets with up to thousands of pieces on a 192 KiB stack, each case in a supervised process; every value compared"),
}
note="Search, not proof: holds on every generated case of a seeded proptest run in a build with and a build without overflow checks. Trusts the harness's own model of ranges and element types. "
json.dump({"version":1,"setup_cmd":"bash check.sh build","checks":[
 {"property":k,"quick_cmd":f"bash check.sh {k} quick","thorough_cmd":f"bash check.sh {k} thorough","evidence_file":f"evidence/{k}.json",
  "technique":"property-based testing (proptest"+("" if k=="C16" else "; thorough adds coverage-guided libFuzzer on the same cases")+"): "+t,"level":"exploration","level_note":note+n[0].upper()+n[1:]+"."} for k,(t,n) in T.items()],
 "not_applicable":[],
 "notes":"No hooks in /repo: every check uses the public API only (the pieces of a set are observed through its serde form). known_findings.txt lists the defects found and repaired."},
 open("/verif/MANIFEST.json","w"),indent=1)
