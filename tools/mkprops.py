#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so that the statements are easy to edit).
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=[],observe=[],hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
R="relapse/"
p("C01","Direct interpreter accepts exactly the trees the grammar describes",
 "For every well-formed, non-immediately-recursive grammar and every input tree, when the direct AST interpreter returns without an error its verdict is true exactly when the tree is a member of the language that the grammar denotes (concat, or, and, not, interleave, zero-or-more, optional, contains, references, tree and leaf nodes). A leaf or name predicate that fails to evaluate counts as not matching, and no well-formed grammar makes the interpreter panic.",
 ["inputs","programs"],"all grammars x all trees (any depth, any branching)",
 "The engine tests are driven by an external test suite that is absent; the remaining tests sample a handful of grammars, whereas the verdict depends on every combination of operators and nesting depth.",
 [R+"interp/deriv.go",R+"interp/nullable.go",R+"sets/zip.go",R+"ast/new.go"],
 [("derivative of a pattern by a node: call and return halves","interp.derivCall, interp.derivReturn"),("nullability","interp.Nullable"),("early exit on non-escapable patterns","interp.escapable"),("child zipping","sets.Zip/Unzip")],
 observe=["interp.Interpret"])
p("C02","Grammar simplification never changes what a grammar accepts",
 "Simplifying a pattern or a grammar (without the record option) yields a pattern or grammar that accepts exactly the same trees as the original. In particular no branch, repetition, interleaving operand or constant is lost or altered.",
 ["inputs","programs"],"all patterns and grammars, all trees",
 "The simplifier tests compare the printed form of about twenty chosen patterns; meaning preservation quantifies over all patterns and all trees.",
 [R+"interp/simplify.go",R+"interp/order.go",R+"ast/new.go"],
 [("algebraic rewriting per operator","interp.simplify*"),("merging of adjacent equal-named nodes","interp.simplifyChildren"),("sorting and de-duplication","interp.orderedSet"),("folding a sub pattern into a reference","interp.checkRef")],
 observe=["interp.NewSimplifier(g).Simplify","interp.NewSimplifier(g).Grammar"])
p("C03","Interned pattern constructors preserve meaning, nullability and old patterns",
 "Every interned pattern constructor (or, and, concat, interleave, not, zero-or-more, optional, contains, node, reference) returns a pattern that accepts exactly the trees of the operator applied to its operands, and whose recorded nullability says whether it accepts the empty forest. Constructing a pattern never changes any pattern that was built before.",
 ["inputs","histories"],"all operand lists, all constructor call histories",
 "Constructor tests look at a few small patterns; the constructors sort, filter and merge operand slices in place, so a mistake depends on slice capacity and on the order of earlier calls.",
 [R+"intern/construct.go",R+"intern/order.go",R+"intern/nullable.go",R+"intern/derived.gen.go",R+"intern/pattern.go"],
 [("normalising constructors","intern.(*construct).New*"),("merging of leaves and equal-named nodes","intern.merge"),("in-place filters and ordered set","intern.deriveFilter, intern.orderedSet")],
 state=[("Pattern.Patterns","operands of an already built pattern, must stay immutable","intern.Pattern"),("Pattern.nullable","whether the pattern accepts the empty forest","intern.Pattern")],
 observe=["intern.Construct methods"])
p("C04","Interned derivative engine accepts exactly the trees the grammar describes",
 "For every well-formed, non-immediately-recursive grammar and every tree, when the interned (n-ary) derivative interpreter returns without error its verdict equals membership of the tree in the language of the grammar. Each derivative step consumes exactly the evaluated child results that belong to it.",
 ["inputs","programs"],"all grammars x all trees",
 "Same as C01: sampled grammars cannot cover operator combinations; the n-ary step threads a shared slice of child results whose alignment depends on every sibling's shape.",
 [R+"intern/deriv.go",R+"intern/zip.go",R+"intern/ifs.go"],
 [("call half","intern.derivCall"),("return half","intern.derivReturn"),("child zipping","intern.Zip/Unzip")],
 observe=["intern.Interpret"])
p("C05","Memoized validation is independent of history and equals direct derivation",
 "A memoizing validator returns, for every tree that it judges without error, the verdict that the grammar's meaning prescribes, whatever trees were validated with it before. Its cached call trees, return tables and state attributes (nullable, accept, escapable, zip indexes) always agree with recomputing them from the patterns of the state.",
 ["inputs","histories"],"all grammars, all sequences of validated trees",
 "The tests validate a fresh validator once per tree; cache coherence quantifies over all earlier histories.",
 [R+"mem/mem.go",R+"mem/ifs.go",R+"mem/deriv.go",R+"intern/sets.go"],
 [("call cache with pruned condition tree","mem.(*ifNode).eval"),("return table","mem.(*Mem).getReturn"),("state table","intern.(*SetOfPatterns).Add")],
 state=[("Mem.calls","state -> condition tree","mem.Mem"),("Mem.returns","state,zip,nullable -> state","mem.Mem"),("SetOfPatterns","interned state table","intern.SetOfPatterns")],
 observe=["mem.(*Mem).Validate"])
p("C06","The compiled automaton gives the same verdicts as the grammar it was compiled from",
 "When compilation of a grammar succeeds, validating any tree with the automaton gives the verdict prescribed by the grammar's meaning, and never reaches a state or table entry that compilation did not fill.",
 ["inputs","programs"],"all compilable grammars x all trees",
 "Tests compile a few grammars and only benchmark them; table completeness quantifies over all reachable combinations of child results.",
 [R+"auto/auto.go",R+"auto/call.go",R+"auto/compile.go",R+"auto/compiler.go",R+"auto/deriv.go",R+"auto/ifs.go"],
 [("condition tree with pruning","auto.compileIfExprs"),("enumeration of nullable combinations","auto.compile"),("derivative","auto.derivReturn")],
 observe=["auto.Compile","auto.(*Auto).Validate"])
p("C07","Boolean combinators and their simplifications preserve truth for every value",
 "For every value and all predicates f and g (an evaluation error counting as false), the functions built by And, Or and Not evaluate to the conjunction, disjunction and negation of f and g, whatever simplification or constant folding they apply. A combination reported as constantly false or constantly true is so for every value.",
 ["inputs","programs"],"all pairs of predicates, all values of every type",
 "Tests check the printed form of a few simplifications; truth preservation quantifies over all values including those of another type than the predicate expects.",
 [R+"funcs/logic.go",R+"funcs/const.gen.go",R+"funcs/register.go",R+"funcs/compare.gen.go"],
 [("algebraic simplification","funcs.And, funcs.Or, funcs.Not"),("constant folding","funcs.TrimBool")],
 observe=["funcs.And","funcs.Or","funcs.Not","funcs.IsFalse","funcs.IsTrue"])
p("C08","Function equality, hashes and constant folding agree with evaluation",
 "Two functions that compare as equal evaluate to the same result for every value (floating point results up to the sign of zero and the payload of not-a-number), equal functions have equal hashes, and comparison is antisymmetric. A function reported as having no variable evaluates to the same result for every value, so folding it into a constant never changes a verdict.",
 ["inputs","programs"],"all pairs of functions, all values",
 "Tests compare a few functions; equality drives de-duplication and pruning for every pair of predicates in a grammar.",
 [R+"funcs/compare.gen.go",R+"funcs/const.go",R+"funcs/const.gen.go",R+"funcs/string.go",R+"funcs/inset.gen.go",R+"funcs/regex.go",R+"funcs/list.gen.go"],
 [("structural Compare and Hash","funcs.*.Compare"),("HasVariable bookkeeping","funcs constructors"),("Trim","funcs.Trim*")],
 observe=["funcs.Equal","HasVariable","Trim*"])
p("C09","List element, range and length functions are total and in bounds",
 "Evaluating an element, range or length function on any list with any (positive, zero or negative) index never panics: it returns an error, the element at that index, or the sub list between the two indexes. Negative indexes never read outside the list.",
 ["inputs"],"all lists and all 64-bit indexes",
 "Tests use a few in-range positive indexes.",
 [R+"funcs/elem.gen.go",R+"funcs/range.gen.go",R+"funcs/length.gen.go",R+"funcs/list.gen.go",R+"funcs/funcs-gen/main.go"],
 [("index normalisation and range checks","funcs.elem*.Eval, funcs.range*.Eval")],
 observe=["Eval of elem, range, length"])
p("C10","Built-in comparison predicates decide exactly the typed comparison",
 "Each comparison predicate (==, !=, <, <=, >, >=), set-membership, string and type predicate holds exactly when both arguments evaluate without error and the named relation holds between their values. A value of another type makes a comparison false rather than an error.",
 ["inputs"],"all predicates, all argument values and errors",
 "Generated comparison code has 30 variants of which tests touch few.",
 [R+"funcs/compare.gen.go",R+"funcs/inset.gen.go",R+"funcs/type.gen.go",R+"funcs/string.go",R+"funcs/variable.gen.go"],
 [("generated Eval methods","funcs.*.Eval")],
 observe=["Eval"])
p("C11","Name expressions match exactly the labels they describe",
 "A name expression compiled to a predicate holds for a label exactly when the label is described by it: a literal name matches equal values of its type, any-name matches everything, a choice matches when either side does, and an exclusion matches every label its operand does not, of whatever type.",
 ["inputs","programs"],"all name expressions, all labels of every type",
 "Tests cover a few string names; exclusion quantifies over labels of all types.",
 [R+"name/name.go",R+"funcs/logic.go"],
 [("compilation to predicates","name.NameToFunc")],
 observe=["name.NameToFunc","name.EvalName"])
p("C12","Zipping a list of patterns and unzipping it is lossless",
 "Zip removes duplicates and trivial patterns from a list and returns an index list such that unzipping restores, position by position, a pattern with the same meaning; the zipped list holds no pattern twice and no accept-all or reject-all pattern. Unzipping a list of booleans gives each position the boolean of the pattern it stands for.",
 ["inputs"],"all pattern lists, including hash collisions and duplicates",
 "The random tests sample lists of small patterns and never meet a hash collision.",
 [R+"sets/zip.go",R+"sets/sort.go",R+"intern/zip.go",R+"intern/order.go"],
 [("sort, de-duplicate, reverse lookup","sets.Zip, intern.Zip"),("restore","sets.Unzip, sets.UnzipBits, (*ZippedPatterns).Unzip")],
 observe=["sets.Zip","sets.Unzip","sets.UnzipBits","intern.Zip"])
p("C13","The compact bit set behaves as a fixed-length array of booleans",
 "A bit set of any size starts all false; setting one position changes that position only; reading gives the last value set; two bit sets compare equal exactly when they have the same size and the same value at every position. Incrementing a bit set that is not all true gives the bit set of the next little-endian number and leaves the original as it was.",
 ["inputs","histories"],"all sizes, positions and operation sequences",
 "Tests use a few sizes; word-boundary behaviour depends on size and position.",
 [R+"sets/bits.go"],
 [("word and bit addressing","sets.Bits")],
 state=[("Bits","val0 holds positions 0..63, vals the rest","sets.Bits")],
 observe=["sets.Bits methods"])
p("C14","Interning tables assign one stable index per distinct value",
 "Adding a value to an index table returns an index at which that value (or an equal one) is stored; an equal value added before gets the same index, a new value gets a fresh index, and indexes given out earlier keep denoting the same values.",
 ["inputs","histories"],"all sequences of additions and lookups",
 "Tests add few values; stability quantifies over histories.",
 [R+"sets/indexset.go",R+"intern/sets.go"],
 [("linear or hashed lookup before append","sets.*.Add/Index, intern.(*SetOfPatterns).Add")],
 observe=["sets.Ints","sets.Pairs","sets.BitsSet","sets.Patterns"])
p("C15","The JSON parser never panics, whatever bytes it is given",
 "Initialising the JSON parser with any byte string and then navigating it in any order that the interface allows (down only after a next that succeeded, up only after down; reading values, reset) ends every call with a value or an error, and never panics or reads outside the buffer. Parts of the input that are skipped need not be validated.",
 ["inputs","histories"],"all byte strings, all navigation sequences",
 "Tests feed valid documents and a few broken ones.",
 ["parser/json/json.go","parser/json/unquote.go"],
 [("offset bookkeeping","(*jsonParser).scan*, skipSpace"),("string unquoting","unquoteBytes")],
 state=[("state.offset","0 <= offset <= len(buf)","json.state"),("start/endValueOffset","a valid slice of buf","json.state")],
 observe=["json.NewJsonParser"])
p("C16","The JSON parser presents the tree the document denotes",
 "Walking a valid JSON document yields exactly its fields and array elements in order, with unescaped names, array positions as labels, and scalar values as leaves; brackets or braces inside strings never affect structure. Going down into a value and up again leaves the position in the parent unchanged, and reset starts over.",
 ["inputs","histories"],"all valid documents, all partial walks",
 "Tests compare a few fixed documents.",
 ["parser/json/json.go","parser/json/unquote.go"],
 [("navigation stack","(*jsonParser).Down/Up/Next"),("scanning","scanString, scanArray, scanObject")],
 observe=["json.NewJsonParser"])
p("C17","The protobuf parser never panics on malformed messages",
 "For every well-formed message descriptor, initialising the protobuf parser with any byte string and navigating it in any allowed order (down only after a next that succeeded, up only after down) ends every call with a value or an error, and never panics or reads outside the buffer or its packed or embedded part; a truncated or overlong field is an error when it is reached.",
 ["inputs","histories"],"all byte strings, all navigation sequences",
 "Tests parse messages produced by a correct encoder.",
 ["parser/proto/proto.go"],
 [("varint and length checks","(*protoParser).Next and helpers")],
 observe=["proto.NewProtoParser"])
p("C18","The protobuf parser presents every field and decodes every scalar to the value that was encoded",
 "For every scalar field type the value reported for a field is the value that the wire bytes encode: signed, zigzag, fixed, boolean, enum, float, string and bytes alike, over their full ranges. Fields are presented in the order of the wire under their names, unknown fields are skipped, elements of repeated and packed fields are labelled with their positions from zero, and going down into a field and up again leaves the position in the message unchanged.",
 ["inputs"],"all 64-bit and 32-bit values of every scalar type",
 "Tests use positive small values; sign extension and zigzag depend on the top bits.",
 ["parser/proto/proto.go","encode/proto/proto.go"],
 [("decoders","proto.decode*")],
 observe=["Value, Int, Uint, Double, Bool of a protobuf leaf"])
p("C19","The protobuf encoder writes inside its buffer and round-trips",
 "Encoding any walkable message whose fields are declared in the message descriptor (not extensions) into any initial buffer, including nil or one that is too small, never panics and produces a message that decodes to the same fields and values.",
 ["inputs"],"all messages, all initial buffer sizes",
 "Tests encode a few messages with one buffer size.",
 ["encode/proto/proto.go"],
 [("buffer growth","checkSize"),("varint and fixed encoders","encode*")],
 observe=["encode/proto encoder"])
p("C20","Latent appending or merging in a protobuf message is detected exactly",
 "The check for latent appending or merging accepts a parsed message if and only if in no message, at any depth, a field is presented again after it was presented before: no embedded message or scalar field is split and no repeated field's elements are interrupted by other fields.",
 ["inputs"],"all walkable messages",
 "Tests use two messages.",
 ["parser/proto/nomerge.go"],
 [("last-seen bookkeeping","NoLatentAppendingOrMerging")],
 observe=["proto.NoLatentAppendingOrMerging"])
p("C21","Pattern equality never identifies patterns of different meaning",
 "Structural equality of grammar patterns and of interned patterns is reflexive and holds only between patterns that denote the same trees, and equal patterns have equal hashes, so de-duplicating by hash and equality never drops a distinct alternative.",
 ["inputs","programs"],"all pairs of patterns",
 "Tests compare a few patterns.",
 [R+"ast/derived.gen.go",R+"ast/compare.go",R+"intern/pattern.go"],
 [("Equal / Hash / Compare","ast.(*Pattern).Equal, intern.(*Pattern).Equal, SetHash")],
 observe=["ast.(*Pattern).Equal","intern.(*Pattern).Equal"])
p("C22","Immediate recursion is reported exactly when a definition can reach itself unguarded",
 "The recursion check reports true exactly when some pattern definition can reach itself through references without crossing a tree node; every grammar it passes can be evaluated for nullability without unbounded recursion.",
 ["inputs","programs"],"all grammars",
 "Tests use three grammars.",
 [R+"interp/recursion.go",R+"ast/walk.go"],
 [("reference graph walk","interp.HasRecursion")],
 observe=["interp.HasRecursion"])
p("C23","Printing a grammar and parsing it back gives an equal grammar",
 "For every grammar, expression or pattern, parsing its printed form succeeds and yields a grammar of the same meaning.",
 ["inputs","programs"],"all grammars and expressions",
 "Tests round-trip a fixed list.",
 [R+"ast/string.go",R+"parser/parser.go",R+"lexer/lexer.go"],
 [("LR tables","relapse/parser"),("printers","relapse/ast/string.go")],
 observe=["parser.ParseGrammar","String"])
p("C24","XML, YAML and reflection adapters present the tree of the underlying document",
 "Walking an XML document, a YAML document or a Go value through its adapter yields the nodes, labels and typed scalar values of the underlying data, in order.",
 ["inputs","histories"],"all documents and values",
 "Tests compare fixed documents.",
 ["parser/xml/parser.go","parser/yaml/yaml.go","parser/reflect/reflect.go"],
 [("adapters","parser/xml, parser/yaml, parser/reflect")],
 observe=["parser.Interface"])
p("C25","The evaluation context reaches every user-defined predicate",
 "After a context has been set on a validator, every user-defined predicate of the grammar that asks for a context sees it, wherever in the grammar the predicate occurs.",
 ["inputs","programs"],"all grammars, all positions of a predicate",
 "The test sets a context for one predicate at the top of a grammar.",
 [R+"intern/context.go",R+"compose/bool.go",R+"intern/construct.go"],
 [("recursive propagation","intern.(*construct).setContext")],
 observe=["mem.(*Mem).SetContext"])
import sys
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
