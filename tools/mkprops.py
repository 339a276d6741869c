import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[obs]}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
C="atelier-core/src/"
p("C01","Identifier equality, hashing and ordering agree",
 "For any two identifiers, namespaces or shape IDs a and b: a == b exactly when their texts are equal ignoring case, a == b implies both feed identical data to any Hasher, and a.cmp(&b) is Equal exactly when a == b. Ordering is antisymmetric and transitive, so the types are usable as keys of hash and ordered collections.",
 ["inputs"],"all pairs (triples for transitivity) of texts","A table of examples cannot show that no pair of differently-cased texts exists for which ==, Hash and Ord disagree; the disagreement only shows as a missed map lookup.",
 [C+"model/identity.rs"],[("PartialEq for Identifier/NamespaceID","model/identity.rs"),("Hash and Ord of Identifier/NamespaceID/ShapeID","model/identity.rs")],"==, Hash::hash into a recording Hasher, Ord::cmp, HashMap lookup")
p("C02","Shape-ID text is accepted exactly by grammar and round-trips",
 "Identifier, NamespaceID and ShapeID parse exactly the strings of the Smithy ABNF (identifier = _* ALPHA (_|ALPHA|DIGIT)*, namespace = identifiers joined by '.', absolute ID = namespace '#' identifier ['$' identifier]); everything else is an error and never a panic. is_valid agrees with from_str, and to_string of a parsed value is the parsed text with its components reported unchanged.",
 ["inputs"],"every byte string up to the bound","The accepted language is infinite and the rejections matter most at unusual characters and separator positions that no list of samples enumerates.",
 [C+"model/identity.rs",C+"syntax.rs"],[("RE_IDENTIFIER, RE_NAMESPACE, RE_SHAPE_ID","model/identity.rs"),("FromStr/Display/is_valid","model/identity.rs")],"from_str, is_valid, to_string, namespace()/shape_name()/member_name()")
p("C03","Derived shape IDs change exactly the named component",
 "shape_only, make_shape, make_member, NamespaceID::make_shape/make_member and namespace().split() preserve every component they do not name; is_member is true exactly when a member name is present, and is_valid_member/is_in_same_namespace are true exactly under their documented component conditions.",
 ["inputs"],"all shape IDs with or without member and all replacement identifiers","Component mix-ups only show for IDs whose parts differ in particular ways.",
 [C+"model/identity.rs"],[("ShapeID::shape_only/make_member/make_shape/is_valid_member","model/identity.rs")],"accessors and to_string of the derived ID")
p("C04","Metadata merging follows the Smithy conflict rules",
 "add_metadata and merge leave a key present in one side untouched, concatenate arrays left-then-right, ignore an exactly equal value, and otherwise return MergeMetadataConflict leaving the receiver's value for that key as it was. No entry of either model is lost or invented by a successful merge.",
 ["inputs","histories"],"all pairs of metadata maps over the bounded value domain","The outcome depends on the pairing of two value kinds and their contents; each test pins one pairing.",
 [C+"model/mod.rs"],[("Model::add_metadata","model/mod.rs"),("Model::merge","model/mod.rs")],"add_metadata/merge result and metadata_value afterwards")
p("C05","Applying a trait twice follows trait conflict resolution",
 "apply, apply_with_value and append_traits on a shape or member store the first value, concatenate arrays in application order, accept an equal value unchanged, and otherwise return MergeTraitConflict leaving the stored value unchanged. A trait ID naming a member is always refused, and other traits on the element are never altered.",
 ["inputs","histories"],"all pairs of optional trait values over the bounded value domain","Conflict behaviour is a function of two arbitrary values, including empty arrays and absent values.",
 [C+"model/shapes/mod.rs"],[("has_traits_impl! apply_with_value","model/shapes/mod.rs"),("merge_traits","model/shapes/mod.rs")],"apply_with_value result, trait_named and traits() afterwards")
p("C06","Adding or merging shapes reconciles definitions without loss",
 "Model::add_shape/merge never panic: a new ID is added as-is, an unresolved reference takes the other side's definition, two equal definitions keep one with their traits merged, and two definitions that differ in kind, member names or targets give MergeShapeConflict with the existing definition kept. Member IDs are refused unless unresolved, and a successful merge contains exactly the union of shape IDs.",
 ["inputs","histories"],"all pairs of shapes over the bounded shape domain, either order","Equality of two aggregate bodies depends on every member name and target combination, including differing names with equal counts.",
 [C+"model/mod.rs",C+"model/shapes/mod.rs"],[("Model::add_shape","model/mod.rs"),("TopLevelShape::equal_without_traits","model/shapes/mod.rs"),("copy_traits","model/mod.rs")],"add_shape/merge result, shape(), shapes() afterwards")
p("C07","Membership queries agree with stored content",
 "After any sequence of additions and removals, every has_x query (has_shape, has_metadata_value, has_metadata, has_shapes, has_member(s), has_trait, has_traits, has_identifier, has_operations, has_errors, ...) is true exactly when the corresponding accessor finds an entry. Removal returns what was stored and makes the query false, without touching other entries.",
 ["histories","inputs"],"all short operation sequences over symbolic keys","A query can be right for the keys a test uses and wrong for absent ones; only all keys and histories settle it.",
 [C+"model/mod.rs",C+"model/shapes/aggregate.rs",C+"model/shapes/service.rs",C+"model/shapes/mod.rs"],[("has_* methods","model/mod.rs, model/shapes/*.rs"),("collection macros","macros.rs")],"has_x versus accessor")
p("C08","Completeness and the name partition are exact",
 "is_complete is true exactly when no shape is Unresolved; shape_names and unresolved_shape_names partition the IDs of shapes(); namespaces() is exactly the set of namespaces of the defined shapes.",
 ["inputs","histories"],"all models over the bounded shape domain","The guarantee quantifies over which subset of shapes is unresolved and how their namespaces overlap.",
 [C+"model/mod.rs"],[("is_complete, shape_names, unresolved_shape_names, namespaces","model/mod.rs")],"the four queries against shapes()")
p("C09","Builder resolves relative names by the Smithy precedence",
 "For every relative target or trait name the model builder chooses, in order: the single imported shape of that name, the shape defined in the current namespace, the prelude shape (or prelude trait, for traits), else the current namespace plus an Unresolved entry. Two imports of one name are an AmbiguousShape error, and absolute names are used unchanged.",
 ["inputs","programs"],"all relative names and all combinations of use/define/prelude","Precedence only shows when several scopes define the same name; the name is symbolic.",
 [C+"builder/mod.rs",C+"builder/id.rs",C+"prelude.rs"],[("ModelBuilder::resolve_shape_name","builder/mod.rs"),("defined_prelude_shapes/traits","prelude.rs")],"member targets and trait IDs of the built model")
p("C10","Built models contain exactly the shapes the builder was given",
 "Converting a ModelBuilder to a Model yields, for each builder call, one shape with that ID, that exact kind, and exactly the given members, targets, properties and traits; metadata is copied and the Smithy version kept. apply on a shape or member adds the trait to exactly that element.",
 ["programs","inputs"],"all builder programs over the bounded domain","Any one of ~40 builder methods can write the wrong field or kind; programs combine them freely.",
 [C+"builder/mod.rs",C+"builder/shapes.rs"],[("TryFrom<ModelBuilder> for Model","builder/mod.rs"),("make_* functions","builder/mod.rs"),("*Builder methods","builder/shapes.rs")],"the resulting Model")
p("C11","Prelude trait constructors carry the right ID and value",
 "Every function of builder::traits yields a trait in smithy.api with the name of the Smithy trait it documents, whose value holds exactly the arguments given (absent optional arguments are absent, integers keep their mathematical value).",
 ["inputs"],"all argument values","Integer and optional-argument handling depends on unusual values such as very large lengths.",
 [C+"builder/traits.rs",C+"builder/values.rs"],[("traits::* constructors","builder/traits.rs")],"trait ID and Value of the built TraitBuilder")
p("C12","Type-reference validation reports exactly the wrong references",
 "CorrectTypeReferences reports an error for every member, identifier, input, output or error target that is a service, operation or resource, for every operation slot whose target is not an operation and every resource slot whose target is not a resource; a warning exactly for non-prelude targets absent from the model; and no error or warning otherwise.",
 ["inputs"],"all pairings of slot and target kind, and all target presence combinations","There are 20 slots times 14 target kinds times presence; a validator that misses one pairing passes all usual models.",
 [C+"action/validate/mod.rs"],[("CorrectTypeReferences::validate","action/validate/mod.rs")],"issues returned by run_validation_actions")
p("C13","Action runners collate everything and fail fast only on errors",
 "run_validation_actions and run_linter_actions return the issues of the actions in order with nothing lost or repeated; with fail_fast they stop after the first action that reported an Error-level issue and not otherwise, and without it they run every action. An action's own failure is propagated.",
 ["inputs","histories"],"all sequences of action outcomes and both flag values","Needs every combination of issue levels across several actions.",
 [C+"action/validate/mod.rs",C+"action/lint/mod.rs",C+"action/mod.rs"],[("run_validation_actions","action/validate/mod.rs"),("run_linter_actions","action/lint/mod.rs")],"returned issue list and which actions ran")
p("C14","Unresolved-reference validation is exact",
 "NoUnresolvedReferences reports exactly one Error issue per Unresolved shape, naming it, and none for a complete model; hence it reports nothing exactly when Model::is_complete.",
 ["inputs"],"all models over the bounded domain","Quantifies over which shapes are unresolved.",
 [C+"action/validate/mod.rs"],[("NoUnresolvedReferences::validate","action/validate/mod.rs")],"issues returned")
p("C15","Naming-convention lint flags exactly the misnamed elements",
 "NamingConventions reports an Info issue for exactly those shape names, names and targets of structure and union members, and names of trait definitions and of traits applied to shapes or those members, that differ from their documented UpperCamelCase (traits and members: lowerCamelCase) form, at the offending locus, and never alters the model.",
 ["inputs"],"all identifiers up to the bound in each naming position","The case conversion behaves differently on underscores, digits and case boundaries.",
 [C+"action/lint/mod.rs"],[("NamingConventions::check","action/lint/mod.rs")],"issues returned")
p("C16","Unwelcome-terms lint finds each listed term in any name",
 "UnwelcomeTerms reports a Warning for each distinct name in the model (namespace segment or shape name of a shape, of a trait applied to it, of a structure or union member's target or trait, or such a member's own name) containing one of the listed terms as a whole word in any casing, and reports nothing for names that contain none.",
 ["inputs"],"all identifiers up to the bound in each naming position","Word splitting depends on casing and separators of an arbitrary identifier.",
 [C+"action/lint/mod.rs",C+"action/lint/terms.rs"],[("UnwelcomeTerms::check","action/lint/mod.rs"),("terms::split_words","action/lint/terms.rs")],"issues returned")
p("C17","walk_model visits every element exactly once",
 "walk_model calls exactly one kind-appropriate method per shape with that shape's own ID, traits and body, then, if a member visitor is supplied, one member call per member, slot or reference with its role name and target; an error from any callback stops the walk and is returned.",
 ["inputs","histories"],"all shape kinds and slot populations, and the position of a failing callback","A visitor that skips a slot or swaps two passes for models that do not use them.",
 [C+"model/visitor.rs"],[("walk_model","model/visitor.rs")],"recorded callback sequence")
p("C18","Keyword enumerations print and parse as inverses",
 "For every Simple kind, Version, error source, model-builder shape name, and every selector ShapeType and Comparator, parsing the displayed text returns the same value, distinct values display distinctly, and any text that is not the display (or documented alias) of a value is an error, never a panic. Issue levels display as info, warning and error; neighbor selectors, which have no parser, display distinctly.",
 ["inputs"],"every byte string up to the bound and every variant","Acceptance of near-miss text is a property of all strings.",
 [C+"model/shapes/simple.rs",C+"lib.rs",C+"model/selector/mod.rs"],[("Display/FromStr impls","model/shapes/simple.rs, lib.rs, model/selector/mod.rs")],"from_str and to_string")
p("C19","Value conversions and accessors are faithful",
 "Every From conversion into Value/Number produces the variant of its source type holding the same value; is_x is true for exactly that variant and as_x returns exactly the stored content, None otherwise. Equality of values is structural.",
 ["inputs"],"all scalar values at full width","Integer conversions must hold for every 64-bit value, not samples.",
 [C+"model/values.rs",C+"macros.rs"],[("From impls and is_as! accessors","model/values.rs")],"is_x/as_x, ==")
p("C20","The line-oriented form is sorted, deterministic and complete",
 "make_line_oriented_form of a model yields the same sorted list of lines regardless of insertion or hash order, and contains one line for each shape, member, slot target, trait and metadata value, so models that differ in one of these give different line sets.",
 ["inputs","schedules"],"all models over the bounded domain and all hash seeds explored","Independence from hash order cannot be observed by any finite number of ordinary runs.",
 [C+"io/lines.rs"],[("make_line_oriented_form","io/lines.rs")],"returned lines")
p("C21","File helpers write what they are given and read it back",
 "write_model_to_file creates (or replaces) the named file with exactly the text write_model_to_string returns, read_model_from_file returns what read_model_from_string gives for the same bytes, and I/O failures come back as errors.",
 ["inputs","fault_sequences"],"any model over the bounded domain; file absent, present or unreadable","Depends on the state of the file system, including absent files.",
 [C+"io/mod.rs"],[("write_model_to_file/read_model_from_file","io/mod.rs")],"file contents and returned Result")
J="atelier-json/src/"
p("J01","JSON reader never panics",
 "JsonReader::read returns Ok or Err for every byte sequence, including syntactically valid JSON whose members have unexpected types, names, nesting or values; it never panics or loops.",
 ["inputs"],"every byte string up to the bound inside a set of document templates","Untrusted input: the failing documents are precisely the ones nobody thought to write a test for.",
 [J+"reader.rs"],[("parse_model and helpers","reader.rs")],"JsonReader::read outcome")
p("J02","JSON AST write then read returns the same model",
 "For every model without lossy numbers, JsonReader::read of JsonWriter's output succeeds and yields an equal model: same IDs, kinds, members with their names, targets and traits, service, operation and resource slots, metadata and version.",
 ["inputs","programs"],"all models over the bounded domain","Equality must survive every combination of kind, slot and trait value.",
 [J+"writer.rs",J+"reader.rs"],[("JsonWriter::write","writer.rs"),("JsonReader::read","reader.rs")],"model equality after the round trip")
p("J03","JSON values keep their meaning when read and written",
 "Every JSON value used as metadata or a trait value is read as the Value of the same kind and content: integers in the signed 64-bit range keep their value, integers between that and the unsigned 64-bit range are rejected, strings keep every character, arrays their order and objects their keys; writing such a value gives JSON equal to what was read.",
 ["inputs"],"all JSON scalars up to the bound and nestings of them","Numbers outside the signed 64-bit range and escaped strings are rare inputs with silent wrong results.",
 [J+"reader.rs",J+"writer.rs"],[("from_json_value / value writer","reader.rs, writer.rs")],"metadata_value of the parsed model; re-emitted JSON")
p("J04","JSON AST text is determined by the model",
 "JsonWriter output is the same text for equal models whatever the insertion or hash order, is valid JSON, and contains every shape of the model exactly once under its absolute ID.",
 ["inputs","schedules"],"all models over the bounded domain and all hash seeds explored","Hash-order effects are invisible to a fixed set of runs.",
 [J+"writer.rs"],[("JsonWriter::write","writer.rs")],"output bytes")
S="atelier-smithy/src/"
p("S01","Smithy IDL reader never panics",
 "SmithyReader::read returns Ok or Err for every byte sequence; documents that the grammar accepts never cause a panic in the model construction.",
 ["inputs"],"every byte string up to the bound inside a set of IDL templates","Untrusted text: the panicking documents are those not in the test corpus.",
 [S+"parser/smithy.rs",S+"parser/smithy.pest"],[("parse_model and parse_* functions","parser/smithy.rs")],"SmithyReader::read outcome")
p("S02","Smithy IDL declarations become the shapes they denote",
 "Each IDL statement (simple shape, list, set, map, structure, union, service, operation, resource, use, apply, metadata) yields the shape kind, name, member names, targets, trait applications and values it spells, with any identifier, and independent of whitespace, commas and comments. A relative name denotes the imported shape of that name, else the one defined in the namespace, else that of the prelude, else an undefined shape of the namespace; documentation comments become the documentation trait.",
 ["inputs","programs"],"all identifiers and literals up to the bound in each position","A grammar that mistakes one identifier for a keyword, or one literal for another, parses all the usual samples.",
 [S+"parser/smithy.rs",S+"parser/smithy.pest"],[("parse_* functions","parser/smithy.rs"),("grammar","parser/smithy.pest")],"model returned by SmithyReader")
p("S03","Smithy IDL write then read returns the same model",
 "For every model whose text needs no escapes, SmithyReader::read of SmithyWriter's output for one namespace succeeds and yields the shapes of that namespace and the undefined shapes, equal to those of the model: kinds, members, targets, traits of shapes and of structure and union members with their values, service, operation and resource slots and renames, and all metadata. The traits of the members of lists, sets and maps are in the text.",
 ["inputs","programs"],"all models over the bounded domain","Equality must survive every kind, slot and value combination.",
 [S+"writer.rs",S+"parser/smithy.rs"],[("SmithyWriter::write","writer.rs"),("SmithyReader::read","parser/smithy.rs")],"model equality after the round trip")
p("S04","Selector text parses to the expression it denotes",
 "parse_selector of a text of the Smithy 1.0 selector grammar returns the expressions that the text denotes, in order: every shape type, comparator, neighbor, function, variable and value form parses to its own variant with the names, values, paths and case flag written, whatever white space is between the tokens, and a name that is no shape type is an error. Displaying the Selector that was parsed gives a text that parses to an equal Selector.",
 ["inputs","programs"],"all selector ASTs and identifiers over the bounded domain","Ordered-choice grammars hide unreachable alternatives that depend on longer tokens.",
 [S+"parser/selector.rs",S+"selector.pest",C+"model/selector/mod.rs"],[("parse_selector","parser/selector.rs"),("Display impls","model/selector/mod.rs")],"parse_selector(selector.to_string())")
p("S05","Selector parser never panics",
 "parse_selector returns Ok or Err for every string; no accepted text (for example an out-of-range number) makes it panic.",
 ["inputs"],"every byte string up to the bound inside a set of selector templates","Untrusted text.",
 [S+"parser/selector.rs",S+"selector.pest"],[("parse_selector","parser/selector.rs")],"parse_selector outcome")
p("S06","Selector builders build the selector they name",
 "Every constructor, method and conversion of the selector builders adds exactly the expression, comparison, assertion, path segment or value that its name and arguments denote, after those added before; finished selectors hold all of them in order, with the case flag and the values given, and their text parses to an equal selector.",
 ["inputs","programs"],"all builder calls over the bounded domain","One of about a hundred constructors that builds its neighbour's variant, or a conversion that drops what was added, passes every test that does not call it.",
 [C+"builder/selector.rs",C+"model/selector/mod.rs"],[("SelectorBuilder, AttributeBuilder and friends","builder/selector.rs"),("constructors of expressions and comparisons","model/selector/mod.rs")],"Selector built")
R="atelier-rdf/src/"
p("R01","Smithy URNs and shape IDs are inverse",
 "For every shape ID, parsing the URN built for it returns that ID, distinct IDs have distinct URNs, and any text that is not the URN of an ID (the scheme compared ignoring case, the rest exactly; an authority, query or fragment is refused) is an error, never a panic or a different ID.",
 ["inputs"],"all shape IDs and all byte strings up to the bound","Separator handling shows only for particular component shapes.",
 [R+"urn.rs"],[("SmithyUrn Display/FromStr/TryFrom","urn.rs")],"to_string/from_str")
p("R02","The RDF graph of a model holds exactly its statements",
 "model_to_rdf of a model yields a graph with one node for the model, a node under its URN for every defined shape with its type, and for every member, target, trait application, trait value, rename, identifier and metadata value the statements of the documented RDF mapping (arrays as numbered rdf:Seq, objects as numbered rdf:Bag of key and value, null as smithy:null, literals with the datatype of the value), and no other statement.",
 ["inputs","programs"],"all models over the bounded domain","Each kind, slot and value form has statements of its own; a lost or shared node only shows in a graph compared whole.",
 [R+"writer.rs",R+"vocabulary.rs",R+"urn.rs"],[("model_to_rdf","writer.rs"),("vocabulary terms","vocabulary.rs")],"statements of the returned graph")
D="atelier-describe/src/"
p("D01","A PlantUML diagram shows every aggregate shape in its package",
 "PlantUmlWriter writes, for every model, one closed package per namespace with one class for each simple, service, resource, structure and union shape of that namespace, with its stereotype, a line for each trait, each field, version and operation (with input and output types) in the form of its kind, and after it a note for its documentation, an aggregation for each resource and, if asked, its primitive base type; it has no other classes or packages.",
 ["inputs","programs"],"all models over the bounded domain","Diagrams of the test models show few kinds, traits and namespaces.",
 [D+"plant_uml/writer.rs"],[("PlantUmlWriter::write","plant_uml/writer.rs")],"lines of the diagram")
p("D02","A GraphML document is well formed and is the graph of the model",
 "GraphMLWriter writes well formed, well nested XML with escaped text in which every data element has a key declared for its element, every shape is one node with its ID and type (and version), every trait application and every target is one edge from the shape to it with the name of its role, edge IDs are different, and there is nothing else.",
 ["inputs","programs"],"all models over the bounded domain","Escapes, IDs and keys depend on names and versions no test uses.",
 [D+"graphml/writer.rs"],[("GraphMLWriter::write","graphml/writer.rs")],"nodes and edges of the XML")
p("D03","The documentation of a model says what the model holds",
 "DocumentationWriter writes, for every model without panic, a document with the metadata, a section per namespace and in it one per defined shape, each with its documentation and links, a table with every leaf of every other trait value under its path, and its members, targets, version, renames, errors and operations in the form of its kind, with targets of the same namespace linked; its order does not depend on hash order.",
 ["inputs","programs"],"all models over the bounded domain","Panics and losses depend on the kind, the form of trait values and names.",
 [D+"document/writer.rs",D+"document/mod.rs"],[("DocumentationWriter::write","document/writer.rs")],"lines of the document")
A="atelier-assembler/src/"
p("A01","File-type registry maps extensions case-insensitively",
 "After any sequence of register, register_all and remove, get(ext) and contains(ext) reflect the latest registration of that extension ignoring case, unrelated extensions are unaffected, and get_by_mime_type finds every registered type that has a MIME type.",
 ["histories","inputs"],"all operation sequences and extension texts up to the bound","Needs all casings and operation orders.",
 [A+"lib.rs"],[("FileTypeRegistry","lib.rs")],"get/contains/get_by_mime_type/extensions")
p("A02","Assembling files equals merging their models",
 "Converting a ModelAssembler over a set of files gives the merge of the models read from each supported file exactly once, independent of the order in which paths were added; files with other extensions and paths that do not exist are ignored, and unreadable files or directories are errors, not panics.",
 ["inputs","fault_sequences"],"all file sets over the bounded domain with symbolic contents","Order, extension and failure combinations.",
 [A+"lib.rs"],[("TryFrom<&mut ModelAssembler> for Model","lib.rs"),("expand_file_paths/read_model","lib.rs")],"resulting Model or error")
p("Q01","Shape-type queries select exactly the shapes of that type",
 "query with a shape-type selector returns exactly the IDs of the model's defined shapes whose kind matches the Smithy selector definition ('*' all, number all numeric simple types, simpleType all simple types, collection lists and sets, otherwise the named kind).",
 ["inputs","programs"],"all shape-type keywords against all shape kinds","The matrix of keywords and kinds is larger than any test samples.",
 ["atelier-query/src/evaluate.rs"],[("query / match_by_shape_type","evaluate.rs")],"returned Projection")
p("X01","The command-line actions do to files what the libraries do to models",
 "convert_file_format and document_file read the input files into one model and leave in the output file, whatever it held before, or on standard output when no file is named, exactly the text that the writer of the chosen format (and namespace) gives for that model; lint_file and validate_file return exactly the issues that the standard linters and validators find in it; input that cannot be read, a namespace that is invalid or missing where one is needed, and an output that cannot be made are errors, never panics; format names parse exactly and print as they are read.",
 ["inputs","fault_sequences"],"all file contents, formats and namespaces over the bounded domain","Errors of the command line and combinations of format, namespace and input are not run by any test.",
 ["cargo-atelier/src/actions.rs","cargo-atelier/src/lib.rs","atelier-lib/src/actions.rs"],[("convert_file_format, document_file, lint_file, validate_file","cargo-atelier/src/actions.rs"),("FileFormat","cargo-atelier/src/lib.rs"),("standard_model_lint/validation","atelier-lib/src/actions.rs")],"output file, returned issues or error")
p("X03","The report of a command shows every issue",
 "report_action_issues prints, in the order given, one entry for each issue with its level (as `[info]`, `[warning]` or `[error]`), its message, the name of its reporter and the shape or member it is located at, if any; it says that there are no issues exactly when there are none; without color the output has no terminal escapes; it never fails or panics.",
 ["inputs"],"all lists of issues over the bounded domain, with and without color","What is printed is not run by any test; it is all that a user of the tool sees of a validation.",
 ["cargo-atelier/src/report.rs",C+"action/mod.rs"],[("report_action_issues","cargo-atelier/src/report.rs"),("Display for IssueLevel","atelier-core/src/action/mod.rs")],"standard output")
import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
