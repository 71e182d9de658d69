# The properties, and what the manifest says about each; gen/gen.py writes
# properties.jsonl and MANIFEST.json from this table.
P = []
MISSED = set()  # planted bugs no check catches

def prop(id, title, statement, over, text, why, files, mech, technique="", note="", na=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, na=na))

TEST = "The existing tests run a handful of fixed inputs through one function each; "

prop("R01", "External references are replaced by what they resolve to, at any depth",
  "In the document a scan produces, every reference which is not local to the document has been replaced: by the value it resolves to, whose own references were resolved the same way first, or, when it refers to something which is already being resolved (a recursive type), by an empty object or the local reference to an exported schema. References which are already local stay as they are, nothing else of the document is changed, and the document handed to resolution is not modified. Resolution fails only if a reference cannot be read or answered, or a container refuses a change.",
  ["inputs"], "for every document, every set of overrides and types, and every nesting or cycle of references",
  TEST + "resolution of nested, recursive and whole-value references in combination is not exercised at all.",
  ["internal/oapi/resolver/resolver.go", "internal/oapi/resolver/utils.go", "internal/container/utils.go"],
  [("recursive resolution step with the chain of references being resolved", "internal/oapi/resolver/resolver.go iterator, path.has"),
   ("replacement of the object holding a reference", "internal/oapi/resolver/utils.go ReplacePtr"),
   ("copy of the document", "internal/oapi/resolver/resolver.go Resolve")],
  "path-sensitive abstract interpretation of the resolution step over SSA, for an arbitrary container, reference and chain",
  "Decides the effects of the resolution step on every path, for arbitrary references; assumes the container primitives (SetP, ExtractKey, Replace) do what A01, P02 and D01 check of them.")

prop("R02", "Overrides win over types, and unknown schemes are refused",
  "A reference whose text is listed in the overrides is answered by exactly that override, whatever its scheme. Any other reference is answered by the Go type it names if its scheme is go, using the types collected for this very scan, and by an error if the scheme is another one.",
  ["inputs", "configurations"], "for every reference and every set of overrides",
  TEST + "no test scans with overrides or foreign schemes.",
  ["oapi.go"], [("function answering references", "oapi.go Scan")],
  "abstract interpretation of the scan entry point and of the closure it hands to the resolver",
  "Decides the answer of the function for an arbitrary reference on every path of the scan; the type scanner itself is the subject of G01-G04.")

prop("R03", "Exported components are stored exactly where their references point",
  "When a reference names an exported component, the resolved component is stored once in the document under its section and name, and the reference becomes a local reference which, read as a JSON pointer, leads to that very place. This holds for every kind of component, for nested references, for recursive references to exported schemas, and for names with dots, slashes, tildes or percent signs.",
  ["inputs"], "for every exported component kind and name and every reference to it",
  TEST + "exports inside nested or recursive references and names with special characters are not sampled.",
  ["internal/oapi/resolver/resolver.go", "internal/oapi/resolver/utils.go", "internal/oapi/spec/entity.go"],
  [("storing", "internal/oapi/resolver/utils.go SetEntity, UpdatePtrToLocal"), ("place of a component", "internal/oapi/resolver/utils.go Entity.Path, Entity.Fragment"), ("lookup", "internal/oapi/resolver/resolver.go Exports.Get")],
  "path-sensitive abstract interpretation; the stored path and the fragment are compared as terms",
  "Decides that both are built from the same kind and name; that the per-kind tables agree is S03, that the two escapings are inverse to their readers is P01 and P02.")

prop("R04", "A scan goes through every stage, in the order the stages depend on",
  "A scan fails only if one of its stages does. A scan which succeeds has loaded the packages, scanned all of them for commands, specification files and types, merged the specifications, added the root document, then the default operations, and then resolved the references, and it returns that resolved document and the model decoded from it. The types which are collected include those referenced from commands, from the merged document with root and defaults applied, and from the overrides.",
  ["inputs", "configurations"], "for every combination of options and every scanned project",
  TEST + "the whole pipeline runs in one example whose output is compared without options.",
  ["oapi.go"], [("pipeline", "oapi.go Scan"), ("collecting references", "oapi.go collectPointers")],
  "abstract interpretation of the scan entry point with uninterpreted stages; dataflow and order of the stage calls on every successful path",
  "Decides presence, order and dataflow between the stages; the stages are judged by the other properties. The references of overrides are decided on two overrides with three each, one of them no text.")

prop("K01", "Configuration sources have a fixed precedence and paths a fixed base",
  "The directory, format and output of a run are those of the command line flag if it is given, else those of the configuration file, else the defaults: the working directory, json:pretty and standard output. Relative paths given by flags are relative to the working directory; a relative directory of the configuration file is relative to that file, a relative output of it to the effective directory; stdout and stderr name the streams. The configuration file which the flag names is read, and none without the flag. A file it extends is found relative to it and fills only what it does not say itself. Every other configured value is that of the file. A configuration is refused only if reading it or a base of it, or finding a directory, fails.",
  ["configurations", "inputs"], "for every combination of flags, configuration file contents and working directory",
  TEST + "the command line tool has no tests.",
  ["cmd/oapi/config.go", "internal/oapi/config/config.go"],
  [("merging of flags, file and defaults", "cmd/oapi/config.go"), ("reading and defaults", "internal/oapi/config/config.go")],
  "path-sensitive abstract interpretation of the configuration builder, case distinction over every combination of set and unset values",
  "Decides the value of each field of the effective configuration symbolically for every combination; trusts the flag library to deliver the flag values and the decoders to fill the file values.")

prop("K02", "Every configured value reaches the stage it configures",
  "The context, directory, overrides, default operations and every root section which are given - as options of the library or in the configuration of the command line tool - reach loading, reference resolution, defaults and the root merge unchanged, and none of them is invented when it is not given. Packages are loaded with syntax, types, imports and dependencies, and without a directory the working directory is scanned. Of an option which is given several times the last one counts. The scan of the tool fails only if a stage does.",
  ["configurations"], "for every combination of options and configuration fields",
  TEST + "only scans without options are sampled.",
  ["oapi.go", "cmd/oapi/scan.go", "internal/oapi/oapi.go"],
  [("options", "oapi.go With*"), ("wiring of the tool", "cmd/oapi/scan.go"), ("load mode", "oapi.go Scan")],
  "abstract interpretation of tool and library together, down to uninterpreted stages; comparison of the arguments of the stages with the configuration fields",
  "Decides the dataflow for every combination of given and absent values.")

prop("M01", "Merging documents keeps everything and lets only the policy decide",
  "Merging one document into another leaves every entry of the destination which the source does not have, adds every entry the source has and the destination lacks, merges objects which both have level by level, and lets the policy alone decide any other entry both have: the strict one reports an error, the default one keeps the existing value, the overriding one takes the new value. What is merged is a copy of the source. Merging a list of documents starts from an empty document and merges each of them, in order, with the given policy; only values which are the same in both are no collision. Every failure is reported, and nothing else makes a merge fail.",
  ["inputs"], "for every pair and every list of documents",
  TEST + "merging is sampled with flat documents.",
  ["internal/container/merge.go"], [("merge", "internal/container/merge.go Container.Merge"), ("policies", "internal/container/merge.go MergeStrict, MergeDefault, MergeOverride"), ("lists", "internal/container/merge.go Containers.Merge")],
  "path-sensitive abstract interpretation of one step of the recursive merge, for an arbitrary entry of the source and an arbitrary destination",
  "Decides the effect of the step on an arbitrary entry; the recursion applies the same step one level down. Trusts gabs for Exists, Search and Set on a path.")

prop("M02", "Each root section is merged with its own policy and nothing else is",
  "The root document's info overrides what the specifications say, its components may not collide with theirs, and its paths, externalDocs, security, servers and tags only fill what they do not say. A section which the root document does not have leaves the document as it is, sections other than these seven are not touched, and every failure to merge is reported, and nothing else makes it fail.",
  ["inputs", "configurations"], "for every root document and every merged specification",
  TEST + "merging with a root document is not tested.",
  ["internal/oapi/oapi.go"], [("policies of the sections", "internal/oapi/oapi.go MergeWithRoot")],
  "abstract interpretation of the root merge, section by section, for every combination of present and absent sections",
  "Decides which value each section ends up with in terms of the merge that M01 decides.")

prop("O01", "Default operations reach every operation their pattern selects",
  "The operations of a document are those under the eight HTTP methods of each of its path items, and each is known with its method, route, place and content; other keys of a path item are no operations. A pattern selects exactly those operations whose method and route it matches. Every default operation is merged into every operation its pattern selects, filling only what the operation lacks, and the result is put back in its place. Failures are reported, and nothing else is.",
  ["inputs", "configurations"], "for every document and every set of default operations",
  TEST + "applying defaults is sampled with one document.",
  ["internal/oapi/oapi.go"], [("operations", "internal/oapi/oapi.go Paths"), ("selection", "internal/oapi/oapi.go FlattenPaths.Match"), ("defaults", "internal/oapi/oapi.go SetPathsDefaults")],
  "abstract interpretation of the three functions for arbitrary paths, methods, patterns and operations",
  "Decides what is listed, selected, merged and stored for an arbitrary element; matching itself is Q01, merging M01.")

prop("Q01", "Route patterns select exactly the routes they describe",
  "A pattern is an optional HTTP method followed by a colon, and a path: its text stands for itself, a {variable} (a small letter followed by letters or digits) for exactly one segment and * for anything, and it has to match the whole route. A pattern with a method selects only routes of that method. What one pattern selects does not depend on patterns used before. A pattern which cannot be compiled is reported.",
  ["inputs", "histories"], "for every pattern, every route and every sequence of patterns",
  TEST + "patterns are sampled with a handful of plain routes; regular expression characters in the text and reuse of compiled patterns are not.",
  ["internal/route/route.go", "internal/oapi/oapi.go"], [("translation of patterns", "internal/route/route.go"), ("use", "internal/oapi/oapi.go FlattenPaths.Match")],
  "abstract interpretation of the matcher over patterns with unknown literal parts; the regular expression which is compiled is compared, as a term, with the one the pattern stands for",
  "Decides the compiled expression for patterns of every combination of parts; trusts Go's regexp.")

prop("P01", "Pointers survive writing and reading",
  "The fragment of a reference is written as a JSON pointer: each token with ~ as ~0 and / as ~1, preceded by a slash, and the percent signs of the whole escaped once because it stands behind the # of a URL. It is read by undoing exactly that in the inverse order, so that reading what was written gives the same tokens, whatever characters they have; text which is not the empty fragment and does not start with a slash is refused. A reference to a Go type is go://package#/Name, and only references with a scheme are external. In JSON a reference is a string holding its text. Sets of references are keyed by their text and merging two of them loses none. A fragment answers how many tokens it has and which is its first and last, copies of it have the same tokens, replacing a token changes exactly that one and is refused outside of the fragment, and a descendant has all tokens of the fragment followed by the new ones.",
  ["inputs"], "for every list of tokens and every text",
  TEST + "round trips are sampled with a few tokens.",
  ["internal/pointer/fragment.go", "internal/pointer/pointer.go"], [("fragments", "internal/pointer/fragment.go NewFragment, Fragment.String"), ("references", "internal/pointer/pointer.go Parse, Pointer.String, NewGoPointer, PkgPath, IsExternal, MarshalJSON, UnmarshalJSON"), ("sets", "internal/pointer/pointer.go NewPointers, Pointers.Merge"), ("tokens", "internal/pointer/fragment.go IsEmpty, Len, Head, Tail, Last, Clone, Replace, Descendant, RawDescendant; internal/pointer/pointer.go Pointer.Clone")],
  "abstract interpretation over terms of text: writing is compared with the rewriting rules of RFC 6901, reading with their inverses in the inverse order",
  "Decides the rewriting rules, their order and the boundaries for tokens of unknown text (lists of up to two tokens, three when one is empty); trusts strings.Replace, strings.Split and net/url.")

prop("P02", "Every occurrence of a key is found, under the path which leads to it",
  "Looking for a key in a document - this is how references are found - yields every scalar which stands under that key, at any depth of objects and lists, once, with its value and with the dot path which leads to it, and yields nothing else. In a dot path each segment has ~ written ~0 and then . written ~1, so that keys with dots and tildes are addressed, not misread. A document which is neither object nor list is refused.",
  ["inputs"], "for every document and key",
  TEST + "the samples are flat and their keys have no special characters.",
  ["internal/container/utils.go"], [("search", "internal/container/utils.go ExtractKey"), ("dot paths", "internal/container/utils.go SliceToDotPath")],
  "abstract interpretation over documents of known shape with arbitrary keys and scalars, and over terms of text",
  "Decides documents of eight shapes (objects and lists nested up to five levels) for arbitrary keys and scalars; the walk treats every level alike, which the recursion is interpreted through.")

prop("G01", "Struct tags say what their options say",
  "Each option of the oapi struct tag - inline, omitempty, nullable, readonly, writeonly, deprecated, required, unique, pattern, format, type, min, max, emin, emax, mulof, minlen, maxlen, minitems, maxitems, minprops and maxprops - sets the attribute it names to the value its text denotes, a truth value without text being true; options which are absent set nothing and options do not disturb each other. The json tag contributes the name, inline and omitempty only. The oapi name wins over the json name, a name - of either ignores the field, and a tag, number or truth value which cannot be parsed is reported.",
  ["inputs"], "for every struct tag",
  TEST + "three options are sampled.",
  ["tag/tag.go"], [("parsing", "tag/tag.go Parse, parseOAPITag, parseJSONTag")],
  "abstract interpretation of the tag parser for every option and every pair of options with arbitrary texts",
  "Decides which attribute each option sets and how its text is read; trusts structtag, tagparser and strconv. Interaction is decided for pairs of options.")

prop("G02", "Basic Go kinds become the schema types, formats and limits they stand for",
  "A Go boolean, string, integer or float of any size becomes the schema type boolean, string, integer or number with the format of its size (int32, int64, float, double); unsigned integers have the minimum 0 unless the tag sets another one. The tag limits min, max, emin, emax and mulof apply to numbers, minlen, maxlen and pattern to strings, exclusive limits taking precedence and being marked as such, and nothing else is set. Complex numbers, uintptr, unsafe pointers, channels, functions and interfaces are refused. The type option of a field replaces its Go type by the one it names (with the format binary, uuid or password for base64, uuid and password), and an unknown name is refused.",
  ["inputs"], "for every basic kind, every type option and every combination of tag attributes",
  TEST + "a few kinds with at most one attribute are sampled.",
  ["internal/oapi/scan/types/types.go"], [("kinds", "internal/oapi/scan/types/types.go basic2schema"), ("type option", "internal/oapi/scan/types/types.go basicString2schema")],
  "abstract interpretation of the conversion for each kind and type option with an arbitrary tag, compared attribute by attribute",
  "The set of kinds and names is enumerated; tags are arbitrary. Trusts go/types.")

prop("G03", "Maps, slices, arrays, pointers and references become schemas of their kind",
  "A Go map becomes an object whose additional properties are the schema of its elements, a slice or array an array of the schema of its elements, an array of known length with that length as the greatest number of items; a pointer becomes the schema of what it points to. Maps, slices and pointers are nullable unless the tag says otherwise, arrays only if the tag says so; a nullable reference becomes a choice between the reference and null. The limits of the tag apply at each level to which they belong. A struct inside another type, and any type met again inside itself, becomes a reference to a known place of that very type, or the override of that place; if nothing is known of the type, the conversion fails.",
  ["inputs"], "for every nesting of these types and every combination of tag attributes",
  TEST + "nestings, nullable references and recursive types with tags are not sampled.",
  ["internal/oapi/scan/types/types.go"], [("composites", "internal/oapi/scan/types/types.go map2schema, slice2schema, array2schema, pointer2schema"), ("references", "internal/oapi/scan/types/types.go reference2schema")],
  "abstract interpretation of the conversion over model types with arbitrary tags, compared level by level with the expected schema",
  "Nesting is decided for representative shapes of up to four levels; tags and lengths are arbitrary. Types of identical structure are one type: they share their places, and an override of one is that of the other. Trusts go/types, modelled by its documented answers.")

prop("G04", "Struct fields become properties under their names, with their attributes",
  "The schema of a Go struct is an object with one property for every exported field which is not ignored, under its tag name or else its field name, and none other; the names of required fields, and only those, are listed as required. Fields of embedded structs (or pointers to structs), unless the tag forbids it, and of structs the tag inlines, are properties of the struct itself, to any depth, and structs embedding themselves are no exception. Deprecated, readonly, writeonly, format and nullable of the tag are those of the property, except for references, which have no other attributes. A field which cannot be converted and a tag which cannot be parsed make the conversion fail.",
  ["inputs"], "for every struct and every combination of tag attributes",
  TEST + "embedding, inlining, recursion and combinations of attributes are sampled at one level.",
  ["internal/oapi/scan/types/types.go"], [("fields", "internal/oapi/scan/types/types.go struct2schema, collectStructFields, castInlineStruct")],
  "abstract interpretation of the conversion over model structs with arbitrary tags, compared property by property with the expected schema",
  "Structs are decided for representative shapes of up to three fields and six levels; tags are arbitrary. Which of several fields of one name prevails is left open.")

prop("G05", "Every place inside a referenced Go type is known and leads to the right type",
  "For every Go type which a reference of scheme go into a scanned package names, and every type reached from it through exported fields, pointers and elements of slices, arrays and maps until a type repeats, the place - the named type followed by field names, * and [] - is resolved to the type which is found there, and places which lead nowhere are refused. Types of other packages, schemes or names are not collected for such a reference. A type with several places is referred to by the one of fewest steps, the first by text among these.",
  ["inputs", "configurations"], "for every Go type and every set of references",
  TEST + "single types without nesting across packages, cycles or shared structures are sampled.",
  ["internal/oapi/scan/types/types.go", "internal/oapi/scan/types/point.go", "internal/oapi/scan/types/scan.go"],
  [("collection", "internal/oapi/scan/types/types.go collectTypes, walk"), ("places", "internal/oapi/scan/types/point.go pointmap"), ("scan", "internal/oapi/scan/types/scan.go Scanner.Scan")],
  "abstract interpretation of the collection over model types; the places known afterwards are compared with those of the type, the search for an arbitrary place is decided on every path",
  "Decided for representative type graphs, among them cycles, shared and anonymous structures and several packages. Trusts go/types and typeutil.Map, modelled by their documented answers, and the pointer operations (P01).")

prop("F01", "Output formats carry the whole document, in a fixed order",
  "The formats json, json:pretty (indented by two blanks), yaml, yml and go stand for their encodings and every other format name is refused; the command line offers no format that does not exist. What is written is an object of exactly the entries of the document with their values. The sections openapi, info, components and paths come in this order, and the order of all entries is the same on every run. The Go file is a well-formed file of package main whose constant OpenAPIJsonSpec holds the JSON document, whatever characters it contains. If a value cannot be encoded, formatting fails instead of leaving it out.",
  ["inputs"], "for every document and format name",
  TEST + "one small document is written as JSON and YAML; the Go format, backquotes in the document, failing encoders and the independence of the order from that of maps are not tested.",
  ["oapi.go", "temp.go", "internal/container/sort.go", "cmd/oapi/config.go"],
  [("formats", "oapi.go Format"), ("order", "internal/container/sort.go SortMapMarhsaler, MapSlice"), ("go file", "temp.go produceGoFile, literal"), ("offered", "cmd/oapi/config.go getConfig")],
  "abstract interpretation of the formatting, template and hand-written encoders included, on documents of arbitrary values in several map orders; the resulting text is parsed and compared with the document",
  "Documents of up to seven named sections with arbitrary values. Trusts encoding/json, yaml.v2, text/template and strconv.")

prop("E01", "No failed step is taken for a success",
  "When a step of any function fails - reading, decoding, encoding, merging, resolving, scanning, setting a value, or any other call of the repository or of a library which returns an error - the function does not go on as if it had succeeded: the error is returned (possibly wrapped), kept for the caller, or ends the program, also when it happens inside a loop.",
  ["inputs", "faults"], "for every function of the repository, every call in it and every path",
  TEST + "tests hardly ever make a step fail, and no test makes each of them fail.",
  ["oapi.go", "internal", "cmd/oapi", "tag/tag.go"],
  [("scan", "oapi.go Scan"), ("containers", "internal/container/*.go"), ("walks", "internal/oapi/resolver/resolver.go, internal/oapi/oapi.go"), ("types", "internal/oapi/scan/types/types.go")],
  "interprocedural-per-function error-flow analysis: abstract interpretation of every function on its own with its callees uninterpreted; every error result must be known to be nil, returned or kept at the end of every path and of every loop iteration",
  "Errors which only say that something is absent (struct tags, os.Stat) or which cannot occur (pointers made of well-formed parts, decoding what has just been encoded, writing to memory) are listed in checker/e01.go with the reason. Number parsing is decided by G01. An error which is stored or handed to another function of the repository counts as kept.")

prop("E02", "The tool writes a complete document or fails and writes nothing",
  "A run of the command line tool in which configuration, scan, formatting, opening or writing fails ends with a non-zero status, and until the document is complete the output is neither opened nor written nor removed. A run which ends well has written the formatted document - the one scanned with the configuration, in the configured format - once and completely to its destination: stdout and stderr stand for the streams, every other destination for the file of this name, which is created or emptied first. The interrupt and termination signals cancel the scan.",
  ["inputs", "faults"], "for every configuration and every failing stage",
  TEST + "the main function is not tested at all.",
  ["cmd/oapi/main.go"],
  [("stages, output and signals", "cmd/oapi/main.go main")],
  "abstract interpretation of the main function with its stages uninterpreted; on every path the events (opening, writing, ending) are compared with the failures known on it",
  "Writing to a temporary file which is renamed afterwards would not be recognised. Whether a failure is shown to the user depends on the log level and is not claimed.")

prop("X01", "Export comments export exactly what they name",
  "A comment //openapi:schema NAME REF of a scanned package exports the schema REF refers to under NAME; with one argument that is the reference, and its name the last part of its fragment or else the argument itself. A reference with a scheme or fragment is read as it stands, another one names a type of the package. Commands are read from every comment of every file, in order of packages and places, other comments are ignored, blanks behind a command do not matter. A command of another kind, one without or with more arguments, a malformed reference, and two exports of one name or one reference are errors. Each exported reference is among those the types are scanned for.",
  ["inputs"], "for every package and every comment in it",
  "Comment scanning has no test at all; the cases differ in unbounded texts and in combinations of files and packages.",
  ["internal/oapi/scan/cmds/scan.go", "internal/oapi/scan/cmds/cmds.go", "internal/oapi/scan/cmds/schema.go", "internal/oapi/scan/cmds/args.go"],
  [("reading comments", "internal/oapi/scan/cmds/cmds.go ParseCommentGroup, Parse"), ("schema command", "internal/oapi/scan/cmds/schema.go NewCmdSchema"), ("exports", "internal/oapi/scan/cmds/scan.go ExportedComponents"), ("references", "internal/oapi/scan/cmds/cmds.go Map.Pointers")],
  "abstract interpretation of the command scanner on packages of comments made of known keywords and arbitrary words; exports and references are compared with the commands",
  "Decided for arbitrary names and references (blank-free texts) in comments of every form and in representative arrangements of comments, groups, files and packages; separators other than single blanks are not covered.")

prop("X02", "Every package of the program is scanned, once, where its files are",
  "Scanning packages scans each of them, and each package reachable from them through imports without passing one of the standard library, exactly once, in an order which does not depend on that of a map. It fails exactly if one of these packages has errors or cannot be scanned. The standard library is what the go tool lists as std. The files of a package are looked for in the directory of its module and its path in there or, outside of modules, in the GOPATH if it exists there; otherwise the package is refused.",
  ["inputs", "configurations"], "for every import graph, every failing package and every arrangement of modules",
  "Nothing of the package has a test; import graphs with shared, failing or standard packages are not exercised.",
  ["internal/pkgutil/util.go", "internal/pkgutil/info.go"],
  [("walk", "internal/pkgutil/util.go Scan"), ("standard library", "internal/pkgutil/util.go init, IsStdLibPkg"), ("directory", "internal/pkgutil/info.go GetPkgPath")],
  "abstract interpretation of the walk over representative import graphs, for every choice of standard and failing packages; the scans are compared with the graph",
  "Decided for representative graphs (shared imports, chains, several roots, packages listed twice), each package being of the standard library or not and failing or not. Nothing is claimed about which packages were scanned when the walk fails.")

prop("L01", "Specification files of a package are collected with their references",
  "The files oapi.yaml, oapi.yml and oapi.json in the directory of a scanned package which have an openapi key are collected, in addition to those of packages scanned before, other files are not. Each $ref in them is listed under its text; one to a local Go type, go://#/Name, becomes one to that type of this very package, in the document as in the list, and all others stay as they are. The scan fails exactly if the directory cannot be found or read, or a reference cannot be read or written. The specification of the program is the merge of all collected documents, and two which contradict each other are refused.",
  ["inputs", "configurations"], "for every package directory and every document in it",
  "Nothing of the package has a test; local and foreign references, several documents and failures in the middle are not exercised.",
  ["internal/oapi/scan/specs/scan.go"],
  [("collection", "internal/oapi/scan/specs/scan.go Scanner.Scan"), ("merge", "internal/oapi/scan/specs/scan.go Scanner.Merge")],
  "abstract interpretation of the scanner on directories of arbitrary documents with references of every kind; stored documents, rewritten references and reported failures are compared with them",
  "Decided for representative arrangements of up to three documents with up to four references, every operation failing or not. Trusts ReadDir (I01), ExtractKey (P02), merging (M01) and pointers (P01).")

prop("I01", "Documents are read as what their names say and looked at as they are",
  "A file named .yaml or .yml is read as YAML and one named .json as JSON, and remembers its path; files of other names, unreadable files, malformed text and text which is no object are refused. What is read is the document in the file, all objects in it, at any depth, having their keys as text. Reading a directory reads the files in it which match the patterns (by default all YAML and JSON files), whatever characters the name of the directory has, in their order, and fails if one of them cannot be read. The children of an object are its entries; nothing has none, and anything else is refused. A value counts as nothing if it is nil or a nil map, list or pointer in an interface. Sorting documents orders them by path and leaves the given list alone. Looking at, searching and encoding a document works on its own content. Making and copying a document, setting an entry and replacing the content work on a copy by JSON of what is given, be it a plain value or a document, put it exactly where it belongs, and fail if it cannot be copied or put there.",
  ["inputs"], "for every file, directory and document",
  TEST + "two small files are read; number keys in nested lists, failing files and unusual directory names are not.",
  ["internal/container/container.go", "internal/container/utils.go"],
  [("files", "internal/container/container.go ReadFile, ReadYAML, ReadJSON, ReadDir"), ("keys", "internal/container/utils.go mmap"), ("children and accessors", "internal/container/container.go ChildrenMap, ExistsP, Path, Data, Marshal*"), ("changes", "internal/container/container.go Make, Clone, SetP, Replace"), ("order", "internal/container/container.go Containers.Sort")],
  "abstract interpretation of the readers on decoded documents of known shape with arbitrary scalars and keys, with every operation failing or not; accessors are compared with the library calls they stand for",
  "Shapes are representative (objects and lists nested up to five levels, text and number keys). Trusts the decoders, filepath.Glob and gabs.")

prop("C01", "Scans and matches may run at the same time",
  "Whatever is kept in package-level variables - compiled patterns, tables, templates - is either the same from initialisation on or only ever read and written with one common lock held, exclusively while it is written, on every path of every function a user can make run. What a function locks it unlocks on every way out, once, and it does not lock what it already holds. A goroutine does not write, without a lock, what it shares with the function which started it, and what it uses is not assigned after its start. So scans, formattings and matches in several goroutines of one program do not race and do not block each other for ever.",
  ["schedules", "histories"], "for every number of concurrent calls and every interleaving of them",
  "No test runs two calls at once, and a race shows in few of the schedules, only under a race detector.",
  ["internal/route/route.go", "internal/pkgutil/util.go", "internal/oapi/scan/types/types.go", "oapi.go", "cmd/oapi/main.go"],
  [("cache of compiled patterns and its lock", "internal/route/route.go compileCached"), ("tables", "internal/pkgutil/util.go stdpkgs, internal/oapi/scan/types/types.go refStdMapping, oapi.go order"), ("goroutine", "cmd/oapi/main.go main")],
  "alias analysis following package-level variables to the instructions which read or write what they lead to, and lockset analysis of these accesses by abstract interpretation, callers included where a function relies on the locks of its callers",
  "Every reachable function is covered, reachability being over-approximated (values put into interfaces, function values). Data which the caller itself shares between concurrent calls is not judged. Library types made for concurrent use (sync, regexp, template, logrus) are trusted, library functions listed as reading are trusted not to write.")

# what static analysis cannot decide here
def na(id, title, statement, over, text, files, mech, reason):
    prop(id, title, statement, over, text, "The tests sample single values.", files, mech, na=reason)

na("V01", "Numbers of limits survive to the document exactly",
  "A limit given in a tag or constant (min, max, mulof, lengths) is written to the document as the very number the user wrote, for every magnitude and fraction.",
  ["inputs"], "for every number",
  ["tag/tag.go", "internal/oapi/spec/schema.go", "internal/container/container.go"], [("number fields", "internal/oapi/spec/schema.go Schema"), ("copies of documents through YAML and JSON", "internal/container/container.go Clone, Make")],
  "Limits are float64 or int values which pass through yaml.v2 and encoding/json several times; which numbers keep their value depends on the arithmetic and the printing of these libraries, a property of runtime quantities which no dataflow or type argument bounds. The dataflow itself - which field receives which parsed number - is decided by G01 and G02.")

na("V02", "Values survive the change between YAML and JSON",
  "Every value of a specification file - dates, large integers, special floats, strings which look like numbers - appears in each output format as the same value.",
  ["inputs"], "for every YAML or JSON value",
  ["internal/container/container.go", "oapi.go"], [("decoding and encoding", "internal/container/container.go ReadYAML, ReadJSON, Make"), ("formats", "oapi.go Format")],
  "The scalars are converted by yaml.v2, gabs and encoding/json according to their texts at run time (resolving of tags, float formatting). The source of the repository hands them through unchanged, which F01 and I01 decide; the rest is behaviour of the libraries on runtime values.")

na("V03", "A scan needs time and memory in proportion to its input",
  "The time and memory of a scan grow at most polynomially, with a small degree, in the size of the scanned packages and documents.",
  ["inputs"], "for every project",
  ["oapi.go", "internal/oapi/resolver/resolver.go", "internal/oapi/scan/types/types.go"], [("resolution, which copies what it resolves", "internal/oapi/resolver/resolver.go iterator"), ("walk over types", "internal/oapi/scan/types/types.go walk")],
  "Resource bounds depend on the sharing within runtime type graphs and documents and on the cost of library calls (go/packages, gabs, yaml); no sound static cost argument within reach bounds them.")

prop("D01", "A scan gives the same document each time",
  "The document which scanning yields, and the text which formatting it yields, are functions of the scanned sources, the options and the format: nothing in them depends on the order in which Go happens to walk a map - which entry comes first or last, how many came before, in which order lists are filled or documents merged - on the time, on random numbers, on addresses or on the schedule of goroutines. Where an error is reported, only which of several errors is reported may depend on them.",
  ["inputs", "schedules", "histories"], "for every input and every order in which its maps may be walked",
  "Maps of few entries are walked in the same order often enough for tests to pass, and no test compares two runs.",
  ["oapi.go", "internal/container/utils.go", "internal/container/container.go", "internal/oapi/oapi.go", "internal/oapi/scan/cmds/scan.go", "internal/pointer/pointer.go"],
  [("keys and references in order", "internal/container/utils.go ExtractKey, mmap"), ("defaults in order", "internal/oapi/oapi.go SetPathsDefaults"), ("exports in order", "internal/oapi/scan/cmds/scan.go ExportedComponents"), ("operations", "internal/oapi/oapi.go Paths"), ("sets of pointers", "internal/pointer/pointer.go Pointers")],
  "dataflow analysis of every loop over a map and of every list such a loop fills, across calls, with effect summaries of the functions called in it; interpretation of the remaining functions on maps in all orders of three entries",
  "Loops in functions whose result other properties fix whatever the order (merging: M01, the walk over packages: X02, exports: X01, formatting: F01, the types found: G05) are left to these. That a comparison used for sorting tells all elements apart is not decided, only that it compares texts. Library functions are assumed to be deterministic but for a list of those which are not.")

prop("N01", "No scan runs out of range, into a missing value or a failed conversion",
  "Whatever packages, comments, struct tags, YAML documents, configuration files and arguments are given, nothing a scan runs stops with a Go panic because a position or a part is outside of its list or text, because an entry is put into a map that was never made, because a list is made shorter than nothing or longer than its room, because an interface value is converted without asking whether it holds the type, because a value is used that need not be there (what a call which may have failed gave, what a map may not hold, what the scope of a package may not declare, the package of a predeclared type, the module of a package outside of modules, optional tag values), or because it panics on purpose.",
  ["inputs"], "for every input and every path of every function a scan can run",
  "The inputs which make a position run out of its list are those nobody thought of when writing the tests.",
  ["internal/route/route.go", "internal/pointer/fragment.go", "internal/container/utils.go", "internal/oapi/scan/cmds/cmds.go", "internal/oapi/scan/types/types.go", "internal/oapi/resolver/utils.go", "internal/pkgutil/info.go"],
  [("positions of matches", "internal/route/route.go Match"), ("paths of keys", "internal/container/utils.go ExtractKey"), ("commands", "internal/oapi/scan/cmds/cmds.go Parse"), ("optional tags", "internal/oapi/scan/types/types.go castInlineStruct"), ("packages of types", "internal/oapi/scan/types/types.go walk"), ("modules", "internal/pkgutil/info.go getPkgPath")],
  "path-sensitive interpretation of every function alone, and where that does not suffice within each of its callers; linear inequalities over lengths and positions from branch conditions, from how loops change their variables and from what library functions promise",
  "Every such construct reachable from a scan is enumerated and must be discharged. Pointers the caller hands in (a nil package, a nil option) and panics inside of libraries are not covered, nor is running out of memory or stack.")

prop("T01", "Every scan ends",
  "Whatever types, packages, references and documents are scanned - types which contain themselves through pointers, slices, maps or inlined structs, packages which import each other, references which lead back to where they came from, documents of any depth - the functions of the scanner which call themselves, directly or through each other, get closer to an end with each such call, and every loop ends: no cycle in the input is followed for ever.",
  ["inputs"], "for every input and every function which can call itself, and every loop",
  "Tests know some cycles; a longer one, or one through another kind of type, which is not noticed overflows the stack.",
  ["internal/oapi/scan/types/types.go", "internal/oapi/resolver/resolver.go", "internal/pkgutil/util.go", "internal/container/utils.go", "internal/container/merge.go"],
  [("types", "internal/oapi/scan/types/types.go walk, type2schema, collectStructFields"), ("references", "internal/oapi/resolver/resolver.go iterator"), ("packages", "internal/pkgutil/util.go Scan"), ("documents", "internal/container/utils.go mmap, ExtractKey"), ("merging", "internal/container/merge.go Merge")],
  "call graph analysis finds the functions which can call themselves; interpretation of each up to the next call of itself shows a well-founded measure (part of a tree, shorter list, distance from a bound, what was visited grows by something compared with all of it); ranking functions for loops from linear inequalities",
  "A list of what was visited is judged for 40 arbitrary entries. That documents are trees, that there are finitely many types, packages and references, and that library functions end is assumed; how long it takes is not claimed (V03).")

prop("A01", "What is given stays as it is, and copies share nothing",
  "A function leaves what it is given - documents, lists, maps, options, packages - as it is, also behind references and also in the unused capacity of lists. Exempt are those which exist to change it: setting, replacing and merging change the document they are called on (in package resolver and in the root and default stages: the document being assembled), Swap the list, methods with pointer receivers that receiver, options the options, scanning packages the scanner. Copies - Make and Clone of documents, merged documents, the document a resolution returns, fragments cloned, replaced in or extended - share no memory with what they were made from, and what is set or merged into a document is a copy of what was given, so that a later change of one is never seen in another. Appending to the first part of a list which is kept somewhere never overwrites the rest of it there. Packages, types and syntax which were loaded are never written to.",
  ["inputs", "histories"], "for every input and every later change of what was given or returned",
  "A write to a shared list or map shows only when somebody looks at the other owner afterwards, which tests of one call do not.",
  ["internal/container/container.go", "internal/container/utils.go", "internal/container/merge.go", "internal/container/sort.go", "internal/pointer/fragment.go", "internal/oapi/oapi.go", "internal/oapi/resolver/resolver.go", "oapi.go"],
  [("copies of documents", "internal/container/container.go Make, Clone, SetP, Replace, internal/container/utils.go clone, mmap"), ("merging", "internal/container/merge.go Merge"), ("sorted copies", "internal/container/sort.go Sort"), ("fragments", "internal/pointer/fragment.go Descendant, RawDescendant, Replace"), ("resolution of a copy", "internal/oapi/resolver/resolver.go Resolve")],
  "interprocedural points-to and effect analysis: what each function writes, returns and stores of what it was given, summaries joined over the call graph to a fixpoint",
  "Flow-insensitive, parts of fields told apart, elements of lists not. Library functions are taken from tables of those which read and those which copy; all others count as writing. Documents returned by accessors (Data, Path, children) are views by design.")

prop("W01", "No names and no sizes are special beyond the documented ones",
  "What the tool does with packages, files, types, fields, tags, paths, keys and documents does not depend on what they happen to be called nor on how many or how deep they are. Texts are told apart only by the words the tool is documented to know - the methods of operations and routes, the keys of documents it reads or merges, the commands and their prefix, the names of specification files, formats, flags and levels, the go scheme, the standard library and the GOPATH, the options and types of tags, the types of schemas - and by punctuation; nothing else is skipped, kept, renamed or treated otherwise because of its name. Names which differ only in case are different, but for the methods of route patterns. There is no limit to the number, the length or the depth of anything: no list is cut short, no nesting is refused and no name is too long.",
  ["inputs", "configurations"], "for every name and every size",
  "Tests use a few short names and small documents; what happens to a name or a size which they do not use is not seen.",
  ["internal/container/utils.go", "internal/container/container.go", "internal/oapi/scan/types/types.go", "internal/oapi/scan/cmds/cmds.go", "internal/oapi/oapi.go", "internal/oapi/resolver/resolver.go", "internal/pkgutil/util.go", "tag/tag.go", "internal/route/route.go"],
  [("documents of any depth", "internal/container/utils.go ExtractKey, mmap, internal/container/merge.go Merge"), ("types of any name and number of fields", "internal/oapi/scan/types/types.go"), ("words", "internal/oapi/scan/cmds/cmds.go, internal/oapi/oapi.go isMethod, tag/tag.go, internal/oapi/scan/types/types.go basicString2schema")],
  "query over the reachable functions and initialisers: every constant which a text, a character or a number is compared with, looked up by, searched for, cut at or handed on for that, including those of tables and package variables, is compared with the documented vocabulary; numbers must be within the sizes the other checks explore",
  "Constants built at run time from other constants (by formatting or decoding) and words of the vocabulary used in another place than documented are not seen; the other properties decide most of those. Comparisons which decide only how much room is made for something are recognised and left alone. Lengths of texts may be compared with numbers up to 16, other sizes with numbers up to 4.")

prop("S01", "What is sorted is sorted completely and loses nothing",
  "Every order things are sorted by is strict (nothing is before itself or before what is before it, and what is before something is before all which that is before), and every list type which sorts itself counts all of its elements, exchanges exactly the two it is asked to, and leaves no two elements of different text without an order, so that the same elements are always sorted the same way, wherever they come from. Sorting the entries of a document and listing their values gives all entries, in the order of their places and of their keys where those are the same. Of several references to a type the one of the fewest tokens is picked, and of those the first by its text, whatever order they were found in.",
  ["inputs", "schedules"], "for every list of elements, in every order they were found in",
  TEST + "two or three elements which are nearly in order are sorted.",
  ["internal/container/sort.go", "internal/container/container.go", "internal/oapi/scan/types/point.go", "internal/container/utils.go"],
  [("documents", "internal/container/container.go Containers.Len, Less, Swap"), ("entries", "internal/container/sort.go MapSlice.Less, Swap, Sort, Values"), ("references", "internal/oapi/scan/types/point.go points.Less, Swap, pointmap.pick"), ("keys", "internal/container/utils.go mmap")],
  "abstract interpretation of every comparison both ways round and on three elements; the comparisons it makes on arbitrary elements are closed under the laws of a total order of texts and numbers to see which outcomes contradict each other; sorting operations are interpreted over a model of insertion sort which calls them",
  "All implementations of sort.Interface by lists and all functions handed to sort.Slice are found by the type checker and enumerated. Sorting operations are decided for up to three elements (two references). Trusts package sort.")

prop("H01", "The command line is understood, and what goes wrong is told where asked for",
  "What follows the name of the program is its command line, and one which cannot be parsed ends the run. Every format --format takes is one documents can be written in, and every such format can be asked for. Every value --loglevel takes is a level of the logger, which is set to exactly that, or stands for no messages at all. With a level, the reason of a failing run is handed to the logger as a fatal message before the program ends. Messages are handed on unchanged, at the severity the logging function is named after, which means the same to the logger, and never go to the standard output, which is for the document; nothing outside of the main package writes there.",
  ["configurations", "faults"], "for every command line, level, failing stage and message",
  TEST + "neither the main function nor the logging package has tests.",
  ["cmd/oapi/config.go", "cmd/oapi/main.go", "internal/logging/logging.go"],
  [("flags", "cmd/oapi/config.go getConfig, logrus"), ("messages", "cmd/oapi/main.go main, fatal"), ("severities", "internal/logging/logging.go Debug, Info, Warn, Fatal, Log, ParseLevel, NewLogger, Void")],
  "abstract interpretation of the main function for every value of the enumerated flags with every stage failing or not, of Format for every value of --format and for an arbitrary one, and of the logging functions for arbitrary messages; a query over the reachable functions for uses of the standard output",
  "That kingpin binds flags as told and that logrus writes to the standard error stream by itself and filters by its level is trusted. Without --loglevel nothing is told (the tool is silent by default), and what log levels let through is the logger's affair.")
