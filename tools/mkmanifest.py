import json
mods=json.load(open('/verif/modules.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
na=json.load(open('/verif/tools/na.json'))
tech={"C07":"abstract interpretation of MIR over symbolic token sequences; MIR lint for narrow loop counters","C17":"effect analysis over MIR: classified callees, statics, raw pointers and casts of every function"}
par=" Panics are not alarms here (malformed input is documented to panic). Trusts the models of std, proc_macro2 and quote, and rustc's MIR; an undecided path is counted in the evidence and is not an alarm; there is none on the current tree."
notes={
"C01":"Unbounded: one arbitrary token stream; parsing loops are summarised by inferred invariants (what was read is what the collected elements print), recursion by function summaries, and the printed form of every returned tree is compared with what was read. The same is repeated without summaries for about a hundred templates with two to four arbitrary tokens at every position of every item kind, and for long declarations (10 to 24 parts of each kind, 12 nested modules)."+par,
"C02":"Unbounded for parsing, printing and span accessors: the comparison of C01 also compares the location of every token and rebuilt group."+par,
"C03":"Unbounded input; every token slot of the returned tree is checked from the inferred per-slot value sets (lists by their element sets). Facts that relate two slots are decided on declarations with up to three arbitrary tokens, order and kind of parts also on long declarations (10 to 24 parts)."+par,
"C04":"As C03, for attribute slots and paths."+par,
"C05":"Unbounded, as C01, and the same templates."+par,
"C06":"Unbounded: every back edge of every parsing loop must advance the token cursor or change a flag, and every recursive call must start after its caller's start or inside a group; loops over lists take one element each. The argument does not cover loops the analysis only unrolls (counted; none on the current tree)."+par,
"C07":"Bounded: for each position where a list element or type can stand, three to five arbitrary tokens in every combination between known neighbours, compared with a reference splitter; nesting and arrows within that length; also elements inside 20 (once 40) brackets, of 60 tokens, and lists of 30 elements. Unbounded nesting only through a rule on counter widths (no 8- or 16-bit counter incremented in a loop without a limit; self-tested on examples)."+par,
"C08":"The discriminant is two arbitrary tokens followed by an arbitrary token stream; enum headers and the variants before it are a fixed set of shapes, one of them with 12 variants before it inside five modules."+par,
"C19":"Unbounded for the printed path and its slots (inferred loop invariant with a pending separator); recognition and argument splitting are compared with a reference on up to four arbitrary tokens, names and colons up to seven."+par,
"C20":"Bounded: for each item kind, every combination of the optional parts (each drawn from a fixed set of alternatives, at most two elements per list, unparsed groups with up to two arbitrary tokens), names arbitrary; and one long declaration per kind of list (10 to 24 elements); each path is abstractly interpreted to its end, and no path may panic, return Err or another kind."+par.replace(" Panics are not alarms here (malformed input is documented to panic).",""),
"default":"For every value of the input types (arbitrary lists, options, tokens and spans) each path through the MIR of the functions is abstractly interpreted, loops by maps or invariants, and the stated relation is decided on symbolic token sequences. Trusts the models of std, proc_macro2 and quote, and rustc's MIR. A path that cannot be decided is counted as undecided in the evidence and is not an alarm; there is none on the current tree.",
"C18":"As the other tree properties, plus printing an arbitrary value of each public type with no assumption on it; every path that reaches a panic is reported; debug-printing is covered per type (parts are formatted through dyn Debug and have their own harness; the formatting of a single token is not entered). Trusts the models of std, proc_macro2 and quote, and rustc's MIR. A path that cannot be decided is counted as undecided in the evidence and is not an alarm; there is none on the current tree.",
"C21":"Hand-written copies are abstractly interpreted for an arbitrary value and compared part by part; a derived copy is field-wise by construction (recognised by rustc's derive marker) and each field type has its own harness. Trusts the models of std, proc_macro2 and quote, and rustc's MIR.",
"C17":"Every function and closure of the crate and every callee by resolved name; closed list of effectful std modules; std's own behaviour trusted. A self-test with one example of each effect runs every time.",
}
parse={"C01","C03","C04","C05","C06","C07","C08","C19"}
checks=[]
for p in props:
    i=p["id"]
    if i in mods:
        checks.append({"property":i,"quick_cmd":"python3 check.py %s"%i,"thorough_cmd":"python3 check.py %s --tier thorough"%i,"evidence_file":"evidence/%s.json"%i,
          "technique":tech.get(i,"abstract interpretation of MIR over symbolic token sequences"),"level":"other","level_note":notes.get(i,notes["default"])})
m={"version":1,"setup_cmd":"CARGO_TARGET_DIR=/verif/.work/analyzer cargo +nightly build --offline --locked --manifest-path analyzer/Cargo.toml","checks":checks,
 "not_applicable":[{"property":p["id"],"reason":na[p["id"]]} for p in props if p["id"] not in mods]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
