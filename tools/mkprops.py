#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   observe_at=list(observe),hook_needed=None))
    assert len(title)<=80,(id,title)
    P.append(d)

p("R01","Generated RBAC grants exactly the permissions the markers state",
 "For every set of RBAC markers, the generated ClusterRole (markers without a namespace) and the generated Role of each namespace grant exactly the union of what that namespace's markers state: every stated (API group, resource, resource name, verb) and (URL, verb) combination, and not one combination more. The group name \"core\" means the empty group, and a verb list containing \"*\" stands for every verb. A namespace without markers gets no Role, and no markers at all gives no role file. (RBAC markers are package markers: they count wherever a comment block stands on its own, not inside the documentation of a declaration or in a function body.)",
 ["inputs"],"every multiset of rbac markers over groups, resources, resource names, verbs, URLs and namespaces, in every order and file placement",
 "the tests compare one golden role.yaml; rule merging folds rules over several keys in Go map order, so a lost or widened permission shows only for particular overlaps of rules",
 ["pkg/rbac/parser.go"],[("rule normalisation by composite keys","pkg/rbac/parser.go NormalizeRules / Rule.key / keyWithGroup.."),("per-namespace split","pkg/rbac/parser.go GenerateRoles")],
 [("rules by namespace","rules gathered per target namespace before merging","pkg/rbac/parser.go GenerateRoles")],["role.yaml documents"])
p("R02","RBAC output is canonical: independent of marker order, combined, sorted",
 "The generated RBAC rules depend only on the set of markers: repeating a run, permuting or duplicating markers, or spreading them over other files gives the same roles. In every rule the lists are sorted and free of duplicates and a wildcard verb stands alone; no two rules of one role differ in nothing but their verbs; markers that agree in everything but their resources (or, after that, groups; or, after that, URLs) are combined into one rule; rules are sorted, and roles are ordered by namespace with the ClusterRole first.",
 ["inputs","schedules"],"every multiset of rbac markers, every permutation of it, and every iteration order of the maps the merge goes through",
 "a test sees one marker order and one map order per run; nondeterminism needs overlapping rules and many runs",
 ["pkg/rbac/parser.go"],[("merge passes and final sort","pkg/rbac/parser.go NormalizeRules")],observe=["role.yaml documents"])
p("W01","Webhook manifests state exactly what each webhook marker says",
 "Every valid webhook marker becomes exactly one entry of the mutating or validating webhook configuration, as it says, with its name, rules (groups with \"core\" as the empty group, resources, versions, operations in canonical capitalisation), failure policy, match policy, side effects, timeout, admission review versions, reinvocation policy and client config exactly as the marker states them (values of free text, such as verbs and policies, are passed on as written). The client config is the marker's URL, or else the marker's path together with the service name, namespace and port the marker gives (defaults: webhook-service in namespace system, no port). The object is named as the configuration marker says (the last package with one decides), or by the default name mutating-webhook-configuration / validating-webhook-configuration, and a kind of webhook no marker asks for produces no object.",
 ["inputs"],"every combination of webhook marker fields and webhook configuration markers, and every number of markers in every order",
 "golden files cover a handful of field combinations; optional fields interact (url/path/service, case-insensitive enums, defaults)",
 ["pkg/webhook/parser.go"],[("field conversion","pkg/webhook/parser.go Config.ToMutatingWebhook/ToValidatingWebhook and helpers"),("object assembly","pkg/webhook/parser.go Generate")],observe=["manifests.yaml documents"])
p("W02","Invalid webhook markers are errors; entries are sorted by name, stably",
 "Generation fails with an error, and no manifest is written, when any webhook marker lacks a usable client config (both url and path, or neither), has an empty admission review version list, a timeout outside 1..30, missing or unsupported side effects, an unknown match policy, or asks for an unsupported configuration version, and when a package names the same kind of webhook configuration twice. Otherwise the entries a package contributes to a configuration are ordered by name, those with equal names stay in source order, packages follow each other in load order, and the result does not change from run to run.",
 ["inputs","schedules"],"every combination of invalid fields, every marker order, every source position of markers, and every iteration order of internal maps",
 "tests try a few invalid values one by one and one order of markers",
 ["pkg/webhook/parser.go","pkg/markers/collect.go"],[("validation","pkg/webhook/parser.go"),("sorting","pkg/webhook/parser.go Generate")],observe=["error result","manifests.yaml documents"])
p("C09","What a Go type is encoded as, its CRD accepts and keeps",
 "Every value of a root type, encoded by encoding/json with the marshallers its types have, is valid against the schema generated for that type, and pruning by that schema removes nothing from it: an API server storing the object gives back what was sent. Conversely what the schema accepts and keeps decodes into the type without error and without unknown field. This holds for fields of every kind of Go type (own types and those of other packages, aliases, embedded structs, well-known Kubernetes types) with every JSON tag option, for types whose schema no marker changes beyond what their own encoding does; nulls only where marked nullable.",
 ["programs","inputs"],"every Go type and every value of it, against the API server's own validation and pruning",
 "the tests compare schemas with golden files and never encode a value",
 ["pkg/crd/schema.go","pkg/crd/known_types.go","pkg/crd/flatten.go","pkg/crd/gen.go","pkg/crd/parser.go"],[("schema of a type","pkg/crd/schema.go typeToSchema / structToSchema"),("schemas of known types","pkg/crd/known_types.go KnownPackages")],observe=["encoded values accepted, pruned and decoded"])
p("M01","A marker's arguments parse to exactly the values written",
 "For every registered marker and every comment that is well formed for it, the value produced carries for each field exactly the value written (integers, numbers, booleans, quoted and bare strings, slices in both the brace and the semicolon form, maps, raw text and guessed values, nested in any way), independent of insignificant spaces, and leaves every optional field that is not mentioned unset. A raw argument is the exact remaining text of the comment.",
 ["inputs"],"every marker definition over the supported argument types and every well-formed marker text",
 "the tests parse a few dozen fixed strings; the grammar is context dependent (guessing, bare strings ended by terminators, nesting)",
 ["pkg/markers/parse.go"],[("argument parser","pkg/markers/parse.go Argument.parse and guessType"),("field assembly","pkg/markers/parse.go Definition.Parse")],observe=["parsed marker value"])
p("M02","A malformed marker is always reported and never yields a value silently",
 "A marker text that does not fit its definition (missing required argument, unknown argument, argument given to a marker that takes none, ill-typed or trailing text after a value, unterminated string, slice or map) always gives an error, which carries the position of the marker comment when it was found in source. One bad marker never hides the errors of other markers of its package or of other packages, and the markers of packages without bad markers keep their values. Text that looks like a marker but whose name is not registered is ignored.",
 ["inputs"],"every marker definition and every marker text that is not well formed for it, at any place of a package with other markers",
 "tests have one example per error kind; dropping an error needs particular combinations of arguments or several bad markers",
 ["pkg/markers/parse.go","pkg/markers/collect.go","pkg/markers/reg.go"],[("error accumulation","pkg/markers/parse.go Definition.Parse"),("collection","pkg/markers/collect.go parseMarkersInPackage"),("lookup","pkg/markers/reg.go Lookup / splitMarker")],observe=["errors","marker values"])
p("M03","Each marker comment attaches to exactly one right declaration",
 "Every marker comment of a package that stands on lines of its own contributes its value exactly once: to the type or field whose documentation it is in, or, when it stands in the closest separate comment block directly before a type or field, to that type or field, and otherwise, outside of all declarations, to the package; a marker in such a block before a type that only exists as a package marker counts for the package. Markers in the documentation of other declarations, in function bodies, at line ends, or in a struct or type group but not closest to anything, contribute nothing. Within each target and marker name values keep source order, and package values keep file and source order, in every run.",
 ["inputs","schedules"],"every layout of comment blocks, types, grouped declarations, struct fields and files, with markers registered for any subset of the three targets, and every map iteration order",
 "tests have one hand-written file; the association depends on distances between blocks, grouping, and on iteration over maps of AST nodes",
 ["pkg/markers/collect.go","pkg/markers/zip.go","pkg/markers/reg.go"],[("comment association","pkg/markers/collect.go markerVisitor / associateFileMarkers"),("package marker gathering","pkg/markers/zip.go PackageMarkers / EachType")],
 [("node markers","raw markers per AST node","pkg/markers/collect.go")],["package, type and field marker values"])
p("M04","Descriptions are the documentation text without markers and private notes",
 "The documentation text reported for a type or field is its doc comment without comment syntax, with marker lines, directives, lines starting with TODO, and everything from a line starting with '---' on removed (the latter two not inside fenced code blocks), blank lines squeezed to one, trailing spaces removed, and indentation kept in line comments. No other documentation line is lost, duplicated or reordered.",
 ["inputs"],"every sequence of documentation lines in line and block comment style",
 "the tests contain a few doc comments; the line filter is stateful",
 ["pkg/markers/zip.go"],[("doc extraction","pkg/markers/zip.go extractDoc")],observe=["type and field documentation"])
p("C01","Flattened schemas accept exactly what the unflattened schemas accept",
 "Flattening a schema (resolving references to other types and merging embedded and referencing schemas) gives a schema that states every constraint of the conjunction of its parts and none besides: numeric bounds, lengths, counts, patterns, enums, formats, required fields, properties, additional properties, items, nullability, validation rules and extension fields of each part remain in force, where two parts state the same constraint differently the stricter, or both as a conjunction, stay in force (of two map or list kinds the later part's wins, and items given by both parts in different ways are reported), and irreconcilable parts are reported as an error. A description or other outer documentation given on the referencing place wins over the referenced type's.",
 ["inputs"],"every pair and nesting of schema fragments connected by references and conjunctions",
 "tests merge a few pairs by hand; each constraint kind has its own merge rule and position (inner, outer, nested)",
 ["pkg/crd/flatten.go"],[("conjunction merge","pkg/crd/flatten.go flattenAllOfInto"),("reference resolution","pkg/crd/flatten.go Flattener")],observe=["flattened schema"])
p("C02","Flattening terminates, leaves no reference, and never alters its inputs",
 "For every set of types, including mutually recursive ones and types of other packages, producing a flattened schema terminates, and the flattened schema has no reference and no leftover conjunction that could have been merged. The result for a type does not depend on which types were asked for before, on how often it is asked for, or on any internal iteration order, and asking never alters schemas handed out or stored before.",
 ["inputs","schedules","histories"],"every reference graph over types and packages, and every sequence of requests on one parser",
 "tests flatten acyclic examples once; aliasing and caching errors need several requests that share types",
 ["pkg/crd/flatten.go","pkg/crd/parser.go","pkg/crd/schema_visitor.go"],[("cache and cycle stub","pkg/crd/flatten.go FlattenType"),("schema cache","pkg/crd/parser.go NeedSchemaFor / NeedFlattenedSchemaFor")],
 [("flattened types","memo of flattened schemas","pkg/crd/flatten.go Flattener")],["flattened schemas"])
p("C03","A field is required, optional or absent exactly as tags and markers say",
 "A struct field appears under its JSON name (a tag without a name leaves the Go name, as in encoding/json) unless its tag hides it, described by its own documentation, embedded inline structs contribute their fields at the same level, and a field is required exactly when an explicit required or optional marker on it says so or, without one, when the package's default and the presence of omitempty, omitzero or inline make it so. Fields with neither an explicit JSON tag nor an inline meaning are reported as errors, and no field is ever required without being declared.",
 ["inputs"],"every combination of JSON tag, embedding, required/optional marker spelling and package default, on any number of fields",
 "the tests exercise some combinations in one large fixture; the decision table is a product of independent switches",
 ["pkg/crd/schema.go"],[("struct conversion","pkg/crd/schema.go structToSchema")],observe=["properties and required of the schema"])
p("C04","Go types map to the JSON schema of their serialised form",
 "Every supported Go type maps to the schema type and format its JSON encoding has: strings, booleans, integers with their width format, byte slices as base64 strings, slices and arrays as arrays, string-keyed maps as objects with additional properties, named types as references, pointers like their element, types with text marshalling as strings, types with JSON marshalling as their Type marker says or else like their Go type, slices of bytes (named ones too) as base64 strings, and strings, booleans and numbers with the tag's string option as strings. Unsupported types (maps with non-string keys, interfaces, channels, functions, complex numbers, and floats unless dangerous types are allowed) are reported as errors, never silently accepted.",
 ["programs","inputs"],"every composition of Go type constructors up to the explored depth, across packages and aliases",
 "fixtures contain a sample of type shapes; the mapping is recursive",
 ["pkg/crd/schema.go","pkg/crd/known_types.go"],[("type conversion","pkg/crd/schema.go typeToSchema / builtinToType / mapToSchema / arrayToSchema")],observe=["schema","errors"])
p("C05","Each validation marker sets exactly its constraint, or is an error",
 "Each schema marker on a type or field sets exactly the schema attribute it names, on exactly that type or field (or on its elements when written for items), to exactly its value, and touches nothing else; markers compose independently of the order in which they are written, except that repeated additive markers keep their source order. A marker that does not apply to the schema's type (for instance a string length on an integer) is reported as an error and not applied.",
 ["inputs","schedules"],"every set of schema markers on every type shape, in every source order and every internal iteration order",
 "tests have single examples of markers; conflicts and order effects need several markers and several runs",
 ["pkg/crd/schema.go","pkg/crd/markers/validation.go","pkg/crd/markers/topology.go","pkg/crd/markers/priority.go"],[("marker application","pkg/crd/schema.go applyMarkers"),("individual markers","pkg/crd/markers/validation.go")],observe=["schema","errors"])
p("C06","CRD versions: one entry per Go version, each with its own settings",
 "A CRD holds exactly one version entry for every package that has the kind in its group and does not skip it, named as the version of the package and sorted by version name; each entry's schema, printer columns (in the order of their markers), selectable fields, status and scale subresources, served and deprecation settings come from that version's type alone, whatever other versions or skipped versions say, and storage is the version marked so, or the only version left. A CRD without a storage version or without a served one is an error, a kind all of whose versions are skipped gives no file and no error, and the result does not change from run to run or with the order of packages. (Packages of one group have different versions and are all given as roots; several storage versions at once are not considered.)",
 ["inputs","schedules"],"every combination of packages, versions, per-version markers and internal iteration orders",
 "golden files show a few version sets; leakage between versions and order dependence need differing settings and many runs",
 ["pkg/crd/spec.go","pkg/crd/markers/crd.go"],[("version assembly","pkg/crd/spec.go NeedCRDFor"),("version markers","pkg/crd/markers/crd.go")],observe=["CRD object","errors"])
p("C07","Exactly the API kinds become CRD files, with right names and clean metadata",
 "CRD generation writes exactly one file for every group and kind that has an unskipped version, a kind being a type that itself embeds both metav1.TypeMeta and metav1.ObjectMeta in a package that declares a group and is not skipped; the file is named GROUP_PLURAL.yaml, and nothing is written for other types. Each CRD is named PLURAL.GROUP and has plural (lower-case English plural of the kind), singular (lower-case kind), list kind, short names, categories and scope (Namespaced) by these default rules or as its resource marker says; it carries the generator's version annotation (the version the command prints, whatever the markers say) together with exactly the annotations and labels of the metadata markers (a marker entry without \"=\" is an error), has no status and no creation timestamp, starts with the configured header (its YEAR replaced), and describes the metadata of the kind only as an object without description; object metadata embedded deeper is described with its five fields when that is asked for and else as an object. Asking for a CRD API version other than v1 is an error.",
 ["inputs"],"every package set with kinds and non-kinds, every combination of resource, metadata and group markers and generator options",
 "golden files fix a few kinds",
 ["pkg/crd/gen.go","pkg/crd/spec.go","pkg/crd/markers/crd.go"],[("discovery","pkg/crd/gen.go FindKubeKinds"),("names","pkg/crd/spec.go NeedCRDFor, pkg/crd/markers/crd.go Resource"),("cleanup","pkg/crd/gen.go Generate")],observe=["CRD files"])
p("C08","Limiting description length only shortens descriptions",
 "With a maximum description length (in bytes), every description in a generated schema no longer than the limit is kept as it is; a longer one is replaced by a beginning of itself that fits the limit and holds whole characters: up to and including the last sentence end in it, else up to the last white space in it with dots appended, else all of it with dots appended (an end or white space as the very first character does not count); limit zero removes descriptions, a negative limit changes nothing; nothing but descriptions of schemas, anywhere in the tree, ever changes. Without a limit descriptions are untouched.",
 ["inputs"],"every description text, every limit, and every place in the schema tree",
 "tests truncate a few strings",
 ["pkg/crd/desc_visitor.go","pkg/crd/schema_visitor.go"],[("truncation","pkg/crd/desc_visitor.go truncateString"),("tree walk","pkg/crd/schema_visitor.go EditSchema")],observe=["schema descriptions"])
p("P01","The schema parser answers the same whatever was asked before",
 "A program may ask the parser of API packages for packages, schemas, flattened schemas and CRDs in any order and any number of times: everything it was given stays as it was, and a schema or flattened schema is the one it would have been given had it asked for nothing else. Asking reads what the answer needs and no more: the package, the types referred to directly or through others, and their packages. A CRD is made once, from the versions of its group and kind in the packages read by then, in order of their versions, stored in the marked version or the only one (otherwise an error is reported, once); a limit on descriptions given for a CRD changes that CRD only.",
 ["histories","programs"],"every sequence of requests over every set of packages that refer to each other",
 "tests ask for one thing, once, in one order",
 ["pkg/crd/parser.go","pkg/crd/spec.go","pkg/crd/flatten.go"],[("requests","pkg/crd/parser.go NeedPackage / NeedSchemaFor / NeedFlattenedSchemaFor"),("CRDs","pkg/crd/spec.go NeedCRDFor")],observe=["what the parser holds after each request"])
p("G01","Any error ends in a failing exit; other generators still run",
 "When loading, marker parsing or any generator reports an error about any package, the run ends with a failing result and non-zero exit, and when nothing is wrong it ends successfully. An error of one generator does not stop the other generators from running on all packages, and their output is complete.",
 ["fault_sequences","inputs"],"every subset of failing generators and packages, and every kind of failure they report",
 "tests run succeeding generators; few have failing ones, none several",
 ["pkg/genall/genall.go","cmd/controller-gen/main.go","pkg/loader/loader.go"],[("run loop","pkg/genall/genall.go Runtime.Run"),("error gathering","pkg/loader/loader.go PrintErrors"),("exit status","cmd/controller-gen/main.go")],observe=["exit status","written files"])
p("G02","Each generator's files go where its output rule says, and nowhere else",
 "Every file a generator produces is written to the place its own output rule, else the default output rule, else the built-in default directory for its name determines, with the content it produced, and to no other place; rules of one generator never affect another. Package-bound files go into the package's own directory where the rule says so, others into the configured directory; the none rule writes nothing and the stdout rule writes to standard output only. (Apply configurations, which are Go packages of their own, are placed by their own marker instead: see A01.)",
 ["configurations","inputs"],"every combination of generators, output rules (directory, artifacts with and without code directory, stdout, none, absent) and rule targets (default, per generator)",
 "tests use one or two output rules",
 ["pkg/genall/output.go","pkg/genall/options.go","pkg/genall/genall.go"],[("rule selection","pkg/genall/output.go OutputRules.ForGenerator"),("rule parsing","pkg/genall/options.go protoFromOptions"),("rules","pkg/genall/output.go OutputToDirectory / OutputArtifacts")],observe=["files written","standard output"])
p("G03","Command line options mean exactly one thing or are rejected",
 "Every option string is either understood as exactly one of generator with settings, output rule (default or for a named generator) or input paths, giving precisely the stated settings whatever the order of options, or is rejected with an error: unknown names, malformed arguments, an empty option, a generator given twice, and output rules for generators that do not run. Of several output rules for the same target the last one given counts, repeated paths options accumulate in order, without any the working directory is the input, and no option string makes the program crash.",
 ["inputs","configurations"],"every sequence of option strings over known and unknown names with valid and invalid arguments",
 "tests parse a few option lists",
 ["pkg/genall/options.go","pkg/genall/input.go","cmd/controller-gen/main.go"],[("option parsing","pkg/genall/options.go FromOptions / protoFromOptions")],observe=["resulting runtime","errors"])
p("G04","Generation is reproducible: same input, same bytes",
 "Every file a run writes is determined by the current sources and the packages of that file's own scope among the packages given (its package for deep copies, the packages of its API group for CRDs, all those with such markers for roles and webhooks): running any combination of generators again, on the command line or in one process, with packages given in another order or form or together with others, from another directory, with what was generated before in place or not, and under every goroutine schedule and iteration order, writes the same files with the same bytes and ends with the same status, without unsynchronised accesses. Only the order of webhooks follows the order of the packages given.",
 ["schedules","inputs","histories"],"every package set, every map iteration order and schedule, every history of earlier runs",
 "a golden test compares one run at a time and mostly with inputs for which the order does not matter",
 ["pkg/crd/spec.go","pkg/crd/gen.go","pkg/crd/schema.go","pkg/crd/flatten.go","pkg/markers/collect.go","pkg/rbac/parser.go","pkg/webhook/parser.go","pkg/deepcopy/gen.go","pkg/loader/loader.go","pkg/genall/genall.go"],[("sorting of results","all generators"),("packages of a run","pkg/loader/loader.go LoadRootsWithConfig"),("running generators","pkg/genall/genall.go Runtime.Run")],observe=["all files written","exit status","race reports"])
p("S01","Schema patching changes only the schemas of matching CRD versions",
 "Patching existing CRD manifests replaces the schema of exactly the versions for which Go types of the same group and kind exist, by the schema full generation gives; it leaves every other field, version, comment and document as it was, writes every file with a CRD and no other file, and running it again changes nothing. A manifest with an unsupported CRD API version, or a version without name that would have to be patched, is an error; CRDs without a matching Go type are written unchanged, and a version without Go type loses its schema only when another version of that CRD has one.",
 ["inputs","histories"],"every set of existing manifests (any versions, extra fields, comments) against every set of Go kinds and versions",
 "tests have a golden directory with one of each",
 ["pkg/schemapatcher/gen.go","pkg/schemapatcher/internal/yaml"],[("patching","pkg/schemapatcher/gen.go partialCRDSet.setVersionedSchemata"),("manifest discovery","pkg/schemapatcher/gen.go crdsFromDirectory")],observe=["patched manifests"])
p("Y01","Editing one place of a YAML tree leaves the rest of the tree unchanged",
 "Setting a value at a path of a YAML document makes exactly that value readable there and keeps every other key, their order and the comments of everything else; deleting a path removes exactly that entry, and deleting a missing path changes nothing; reading a path finds it exactly when it exists. Editing through a path that meets a value that is not a mapping is an error and loses nothing outside that path.",
 ["inputs","histories"],"every YAML mapping tree and every sequence of set, get and delete operations on paths",
 "tests have about ten fixed edits",
 ["pkg/schemapatcher/internal/yaml/set.go","pkg/schemapatcher/internal/yaml/nested.go"],[("edits","pkg/schemapatcher/internal/yaml SetNode / DeleteNode / GetNode")],observe=["serialised tree"])
p("D01","Generated deep copies are equal to and share nothing with the original",
 "For every supported type, the generated copy functions return a value equal to the original (nil pointers, slices and maps stay nil, empty ones stay empty; DeepCopyInto needs a receiver that is not nil) that shares no memory with it: no later change of one, through any pointer, slice, map or nested value, is visible in the other. A nil receiver of DeepCopy copies to nil, and types that define their own copying methods are copied through them (except as parts of structs without any reference, which may be assigned).",
 ["programs","inputs"],"every composition of Go type constructors up to the explored depth and every value, with nil and empty parts",
 "one golden file of generated code; sharing shows only by mutating copies of particular shapes",
 ["pkg/deepcopy/traverse.go"],[("copy code generation","pkg/deepcopy/traverse.go copyMethodMaker")],observe=["behaviour of generated code"])
p("D02","Deep copy code is generated exactly for the types asked for, and compiles",
 "Copy methods are generated exactly for the exported types that the package and type enabling markers select (a type marker overrides the package's, legacy spellings count alike, and naming a type a root object enables it), not counting aliases, named pointers and predeclared-typed names without copying methods of their own; the object method exactly for those marked as root objects or naming its interface. Hand-written methods are never duplicated, types that cannot be copied (holding functions, channels, interfaces, arrays, or literals of structs that would need methods) are reported as errors. The generated file compiles with the package whatever import names it needs (if every package type it copies is selected too or has methods of its own), and a package with nothing to generate gets no file.",
 ["programs","configurations"],"every combination of package and type markers, hand-written methods, and imports with clashing names",
 "one golden fixture",
 ["pkg/deepcopy/gen.go","pkg/deepcopy/traverse.go"],[("selection","pkg/deepcopy/gen.go enabledOnType / shouldBeCopied"),("imports","pkg/deepcopy/traverse.go importsList")],observe=["generated files","go build"])
p("L01","Root paths resolve to exactly the packages they name, each once",
 "Loading root paths yields exactly the packages the paths name: a directory or import path its package, a path ending in ... every package below it, including those of nested modules, and each package exactly once however many paths name it. Relative paths are taken from the working directory, and packages reached through imports are the same objects as roots of the same path.",
 ["inputs","configurations"],"every directory tree with nested modules and every list of relative, absolute, recursive and import paths",
 "tests use one fixed module tree",
 ["pkg/loader/loader.go"],[("root resolution","pkg/loader/loader.go LoadRootsWithConfig")],observe=["packages loaded"])
p("L02","Type checking visits each needed package once, whatever the schedule",
 "Type checking a package completes with all packages it refers to and that are needed type-checked before it, each exactly once and with complete information, for every import graph and every interleaving of the concurrent checks, without deadlock or data race. Requests repeated or made at the same time from several goroutines give the same result, and unneeded packages are not checked.",
 ["schedules","inputs"],"every import DAG with filters and every interleaving of concurrent checks",
 "the tests check one package graph on one schedule",
 ["pkg/loader/refs.go","pkg/loader/loader.go"],[("concurrent recursion with per-package locks","pkg/loader/refs.go TypeChecker.Check / check, pkg/loader/loader.go NeedTypesInfo")],
 [("checked set","packages already checked","pkg/loader/refs.go TypeChecker")],["type information of packages"])
p("A01","Apply configurations are generated exactly for the types asked for",
 "For each given package, apply configurations are generated for exactly the objects (types embedding object metadata) asked for and the types with JSON fields they use from that package, in the output directory the package's marker names (applyconfiguration without one), and nowhere else. An object is asked for when its own marker says so and not when it denies that; without one, when its package is enabled and it is marked as a resource or for client generation. Packages neither enabled nor with an enabled type get nothing. What is generated compiles, can be looked up by kind, has the header asked for and constructors for exactly the objects (with a namespace unless marked otherwise), and running again writes the same. Malformed markers and unreadable headers are reported with a non-zero exit; other packages are not affected by a package's malformed markers.",
 ["programs","configurations"],"every combination of package and type markers over objects and plain types referring to each other in any way",
 "one golden fixture with an enabled package",
 ["pkg/applyconfiguration/gen.go"],[("selection","pkg/applyconfiguration/gen.go enabledOnPackage / enabledOnType / ObjectGenCtx.generateForPackage"),("output","pkg/applyconfiguration/gen.go outputPkg")],observe=["generated files","whether they compile","exit status"])
p("O01","Generated files are the header asked for and what is generated",
 "Every file the CRD, RBAC, webhook and deep copy generators write is the text of the header file given, with every \" YEAR\" in it replaced by a space and the year given (manifests: then the documents, each introduced by a line ---; code: between the build constraint and the rest), followed by exactly what is written without a header; the name is the one asked for. Documents have only the fields of their kind, without status or creation timestamp. A header that cannot be read is an error, and then nothing is written.",
 ["inputs","configurations"],"every header text, year, and set of generated objects",
 "golden tests have at most one header",
 ["pkg/genall/genall.go","pkg/rbac/parser.go","pkg/webhook/parser.go","pkg/crd/gen.go","pkg/deepcopy/gen.go"],[("writing manifests","pkg/genall/genall.go WriteYAML"),("header of code","pkg/deepcopy/gen.go writeHeader")],observe=["generated files"])
p("L03","Exactly the files Go would build with the tags given are read",
 "Markers and types are taken from exactly the files of each package that go build would use on this platform with the build tags given to the command (ignore_autogenerated if none are given), in every module below the given paths: files whose build constraint or file name excludes them, and test files, have no influence, all others count.",
 ["inputs","configurations"],"every set of constraint expressions and file names against every set of tags, in nested modules too",
 "no test passes build tags",
 ["cmd/controller-gen/main.go","pkg/loader/loader.go"],[("tags","cmd/controller-gen/main.go load-build-tags"),("loading","pkg/loader/loader.go LoadRootsWithConfig")],observe=["markers and types used"])
p("H02","Generated marker help says what the Go documentation says",
 "For every type marked for it and no other, helpgen generates a help method that compiles and gives the category asked for; as summary the first line of the type's documentation without the type's name if it starts with that word, as details the remaining lines; and the same for each field under its Go name. The header, if one is given, comes first with \" YEAR\" replaced by the year; packages without marked types get no file; malformed markers are reported at their position, unreadable headers by name, with a non-zero exit and no file.",
 ["programs","inputs"],"every documentation text in every comment form on every kind of type and field",
 "there is no test of helpgen",
 ["cmd/helpgen/main.go","pkg/markers/zip.go"],[("help from documentation","cmd/helpgen/main.go godocToDetails / Generator.Generate")],observe=["what Help() returns in compiled packages"])
p("T01","Scaffolded types are valid Go and generate the API they describe",
 "For every kind that is a CamelCase exported Go name, every resource name, scope, additional help and request for clients, the type scaffold (library and command) emits Go that, in a package importing metav1, compiles and (without additional help) is formatted: exactly the kind, its list, spec and status with the metadata and JSON names Kubernetes expects, from which deep copy generation makes objects of the kind and its list and CRD generation one CRD of that kind. Additional help is comment text in full and nothing else, the resource is named, and client markers appear exactly when asked for and say non-namespaced exactly when it is. Missing kinds and kinds that are not such names are refused with an error, and nothing is scaffolded.",
 ["inputs"],"every combination of kind, resource name, scope and extra options",
 "the tests look at three scaffolds only for errors",
 ["pkg/typescaffold/scaffold.go","pkg/typescaffold/resource.go","cmd/type-scaffold/main.go"],[("template","pkg/typescaffold/scaffold.go Scaffold")],observe=["scaffold text","what generators make of it"])
p("H01","Every marker understood is documented, and help is well defined",
 "The help listing documents every registered marker exactly once with its target and every argument it accepts with the right type and optionality, with the help registered for it, grouped by category, sorted by name and in the same order in every run. The arguments shown are exactly those the marker's parser accepts, and those shown as optional exactly those it does without. The same holds for the options in the command's own help. What is printed, short or in detail, is the text of that listing and nothing else: every marker with its target, arguments with types and optionality, replacement if deprecated, and help.",
 ["inputs","schedules"],"every set of registered markers and every map iteration order",
 "tests do not look at help output",
 ["pkg/markers/help.go","pkg/genall/help/types.go","pkg/genall/help/sort.go","cmd/controller-gen/main.go"],[("help assembly","pkg/genall/help/types.go ForDefinition / ByCategory")],observe=["help output"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
