#!/usr/bin/env python3
"""writes MANIFEST.json: claimed properties = IDS, the others of properties.jsonl under not_applicable"""
import json
TECH={
"C01":"typestate / linear-resource analysis of tokens and nodes: abstract interpretation of rustc MIR over all paths of the parser",
"C02":"abstract interpretation of rustc MIR: comment-list ownership in the parser plus index-interval analysis of the cursor primitives",
"C03":"panic-site enumeration over MIR (asserts, unwraps, indexing, explicit panics), each discharged by token/character facts on every path",
"C04":"progress analysis: cycles of the abstract state graph and of the call graph must consume input or step a finite iterator",
"C05":"abstract interpretation of the tokenizer's MIR with slice bounds and line/column ghost variables",
"C06":"abstract interpretation of the node types and child keys the parser can build, compared with the declarations in types.rs",
"C07":"dataflow rule on MIR: every comparison of token text with letters is made on case-folded text",
"C08":"lockstep abstract evaluation on MIR: every parser function that reads a line or column is followed under families of layouts that agree on which neighbouring tokens touch and must reach the same calls and returns; taint rule on the tokenizer; tokenizer automaton for what counts as white space",
"C09":"taint analysis on MIR: no parser or tokenizer decision uses a token or character fetched without skipping comments",
"C10":"whole-program effect analysis over MIR: statics, interior mutability, external calls, hash-order iteration",
"C11":"provenance analysis on MIR: line and column of every error value come unmodified from one token or the reading position",
"C12":"abstract evaluation of the precedence function per operator and of the precedence passed for each operand, against the GoogleSQL table",
"C13":"automaton extraction from the MIR of the identifier predicate, compared with the reserved-word list and the name grammar",
"C14":"abstract interpretation of rustc MIR: which nodes can carry a semicolon child where they are linked",
"C15":"abstract interpretation of rustc MIR: facts that hold at every success return of the parser and the tokenizer",
"C16":"typestate analysis on MIR: failed attempt, restore, retry",
"C17":"typestate analysis on MIR: a path with a failed call reaches no success return",
"C18":"product of the tokenizer's abstract state graph with a specification automaton of GoogleSQL tokens",
"C22":"path-sensitive provenance analysis of the exported functions on MIR, and inspection of the generated Serialize implementations",
"C19":"automaton extraction from the MIR of the leaf classifier and comparison with the lexical categories",
}
NOTE="decided for all inputs from the compiler's MIR of the working tree; trusts rustc's front end, the models of std in bqsa/src/models.rs and the analyser itself"
NA={
"C20":"acceptance of every valid GoogleSQL program needs the language's full grammar as an oracle, which exists neither in the repository nor offline; no static argument over this source can supply it",
"C21":"running time and stack depth are runtime quantities; recursion depth follows the nesting of the input and no static argument in reach bounds it (termination itself is C04)",
}
IDS=open('claimed.txt').read().split()
props=[json.loads(l)['id'] for l in open('properties.jsonl')]
m={"version":1,"setup_cmd":"./run.sh setup","checks":[],"not_applicable":[]}
for p in props:
    if p in IDS:
        m["checks"].append({"property":p,"quick_cmd":f"./run.sh {p} quick","thorough_cmd":f"./run.sh {p} thorough","technique":TECH[p],"level":"other","level_note":NOTE})
    else:
        m["not_applicable"].append({"property":p,"reason":NA.get(p,"no check is built for it yet")})
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
