#!/usr/bin/env python3
# writes MANIFEST.json
import json,os
T="contract-based deductive verification: contracts in /verif/contracts on the functions of /repo, obligations generated from the SSA form of the current source by gvc and discharged by z3/cvc5 for all inputs and iterations; "
H="a bounded replay harness on the real code looks for the concrete failing input of a failed obligation"
claimed={
 "C13":"every method of Bits",
 "C14":"every Add and Index of relapse/sets",
 "C07":"And, Or, Not, IsTrue, IsFalse and the evaluation of the logic functions",
 "C08":"Compare, Hash, HasVariable, Trim and constructors of every function type",
 "C09":"every elem, range and length function",
 "C10":"every comparison, type, set, string and regex function",
 "C15":"every function of parser/json: slice bounds, offsets, navigation",
 "C16":"every function of parser/json: extents of tokens, order of fields, labels, navigation",
 "C17":"every function of parser/proto except the construction of the descriptor map: slice bounds, offsets, lengths, navigation",
 "C18":"every function of parser/proto except the construction of the descriptor map: decoded values, positions of fields and elements, labels",
 "C01":"Interpret, deriv, derivCalls, derivReturns, derivCall, derivReturn, Nullable, escapable, simps and the AST constructors, against the language of a grammar (laws proved in Lean)",
 "C02":"every function of the simplifier (records excluded) and Nullable, against the language of the patterns (laws proved in Lean)",
 "C12":"Zip, Unzip, the sortable and the antisymmetry of Compare: same language per position, no trivial and no duplicate patterns",
 "C19":"the buffer functions (growth, varint, fixed, copy) and the encode method of every field type, repeated field, message and encoder: writes in bounds, what was written is kept, key and value decode to the value of the parser; sizes of nested messages and the construction of the field encoders by the harness (bounded)",
 "C20":"NoLatentAppendingOrMerging against the parser contracts that C18 verifies",
 "C21":"equality of AST patterns, names and expressions (all generated Equal functions): equal exactly when structurally the same, and then of the same meaning; interned equality and hashes bounded by the harness",
 "C22":"HasRecursion and its helpers: true exactly when a definition can reach a cycle of unguarded references (laws proved in Lean)",
 "C11":"NameToFunc and the functions it builds",
}
claimed.update({
 "C03":"nullables, anyNullable and allNullable against the recorded nullability, which the contract of Construct ties to the language; the constructors themselves (simplification, hash-consing, nullability) by the harness (bounded)",
 "C04":"derivCall, derivCallAll, DeriveCalls, DeriveReturns, nullables, escapable and the evaluation of if expressions on interned patterns: the questions asked and the positions of their answers, against the language of the patterns; derivReturn's contract, the constructors and the agreement of whole verdicts by the harness (bounded)",
})
pending={p:"no check yet" for p in ["C%02d"%i for i in range(1,26)] if p not in claimed}
reasons={
 "C05":"the cached derivative tables of relapse/mem: a contract over the tables would have to relate each cached state to the pattern list it stands for, through maps keyed by contents of slices and through relapse/intern's constructors, whose contracts are only assumed (C03, C04); no obligation on the code of relapse/mem was completed. A bounded harness exists (harness/C05) and passes, but a property that no contract decides is not claimed",
 "C06":"the compiled automaton of relapse/auto: it is built by exhausting relapse/mem (C05), so its contract rests on that of C05, which is not under contract; a bounded harness exists (harness/C06) and passes, but a property that no contract decides is not claimed",
 "C23":"parsing and printing of the Relapse syntax: the parser is a generated table-driven LR machine (tables of gocc) and the statement relates texts to trees through those tables; a contract per function cannot express the language of the tables within reach of the verifier",
 "C24":"the XML, YAML and reflect adapters are thin wrappers: what they guarantee is decided in encoding/xml, yaml and package reflect, for which only assumed contracts would be available",
 "C25":"errors of functions are propagated through relapse/compose, which builds and calls functions with package reflect (MethodByName, Call): the calls have no static callee to put under contract",
}
checks=[]
for p,note in sorted(claimed.items()):
    lf="/verif/harness/"+p+"/level"; level=open(lf).read().strip() if os.path.exists(lf) else "proof"; tech=T+H
    checks.append({"property":p,"quick_cmd":f"bash /verif/check.sh {p} quick","thorough_cmd":f"bash /verif/check.sh {p} thorough","technique":tech,"level":level,"level_note":note})
na=[{"property":p,"reason":reasons.get(p,r)} for p,r in sorted(pending.items())]
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":checks,"not_applicable":na}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
