import json,os,sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed=sys.argv[1:] or ["C%02d"%i for i in range(1,20)]
tech={
"parse":"deterministic simulation: random grammars over simulated sub-parsers with injected faults, against a PEG reference model",
"C08":"deterministic simulation: damaged source text through every entry point of real derived grammars, against a PEG reference model and an independent literal decoder",
"C09":"deterministic simulation: write histories into a faulty simulated sink, recorded and checked",
"C10":"deterministic simulation: write histories into a faulty simulated sink, against a re-lexing and indentation oracle",
"C11":"deterministic simulation: seeded thread scheduler with nested and aborted operations, refinement against fresh-process executions",
"C12":"deterministic simulation: operation histories with aborting user code, against a list model",
"C13":"deterministic simulation: operation histories with aborting user code, against a list model",
"C14":"deterministic simulation: macro expansion in compiler processes with simulated entropy, clock, environment and expansion histories, outputs compared",
"C15":"deterministic simulation: histories of source reading and location resolving, against offsets known from rendering",
"C17":"deterministic simulation: histories of literal conversions with refused, damaged and aborted steps, against a value model and independent literal decoder",
"C18":"deterministic simulation: histories of comparisons and of keyed collections with aborting hashers, against plain-value models",
"C19":"deterministic simulation: histories of accepted and rejected words over several keyword languages, against the language definitions",
}
note={
"parse":"Seeded search, no exhaustiveness: the property held on every simulated execution of this run. Trusts the PEG model in sim/src/model.rs, proc_macro2's lexer and byte ranges, and syn's ParseStream.",
"C08":"Seeded search over damaged texts of a fixed set of derived grammars covering the library's node, literal and identifier types. Trusts proc_macro2's lexer for what the tokens of a text are, and the model and literal decoder in sim/src.",
"C09":"Seeded search over write histories and sink faults. Trusts proc_macro2's token printing.",
"C10":"Seeded search over write histories and sink faults. Trusts proc_macro2's lexer to read the output back.",
"C11":"Seeded search over interleavings at callback granularity (code between two callbacks runs atomically). The oracle is the same operation alone in a fresh process, so a defect that shows there too is not reported here.",
"C12":"Seeded search over operation histories; trusts the list model in sim/src/coll.rs.",
"C13":"Seeded search over operation histories; trusts the list model in sim/src/coll.rs.",
"C14":"Seeded search over items, entropy values and expansion histories; the process environment is replaced at the C library's interface (simshim.c), which is where std gets hasher keys, the clock and variables from.",
"C15":"Seeded search over source histories; the oracle is the renderer's own record of where it put each token.",
"C17":"Seeded search over conversion histories. Trusts the value model and decoder in sim/src (leafsim.rs, model.rs) and syn's own literal types.",
"C18":"Seeded search over pairs of nodes and map histories. Trusts std's maps and the plain Rust values' own equality, order and hash.",
"C19":"Seeded search over words and 14 generated keyword languages (fixed at build time by sim/build.rs). Trusts the language lists and proc_macro2's lexer.",
}
N=json.load(open(here+'/tools/na.json'))
checks=[]
for c in claimed:
    k=c if c in tech else "parse"
    checks.append({"property":c,"quick_cmd":f"./check.sh {c} quick","thorough_cmd":f"./check.sh {c} thorough","technique":tech[k],"level":"exploration","level_note":note[k]})
na=[{"property":k,"reason":v} for k,v in N.items()]
for i in range(1,20):
    c="C%02d"%i
    if c not in claimed: na.append({"property":c,"reason":"check under construction"})
m={"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,
"notes":"No hooks in /repo: every seam the simulator needs is a trait the library already calls. Replay a violation with ./replay.sh FILE."}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
