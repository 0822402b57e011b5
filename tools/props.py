PROPS = [
 dict(id="C01", title="No metadata makes the library index or slice out of range",
  statement="Whatever the content of an XMP packet, JSON document, native tag value or property path, and whatever state a model was left in, the library never reads or writes a slice, array or string outside its bounds: short, empty, malformed or truncated values are refused or tolerated but never crash the program.",
  over=["inputs","histories"], quant="every index and slice expression in the library, for every input and every model state that can reach it",
  why="An off-by-one or a missing length check crashes only for one particular short or malformed value out of all possible ones; the suite feeds well-formed samples.",
  files=["xmp/reader.go","xmp/path.go","xmp/array.go","xmp/xmp_types.go","xmp/semver.go","models/exif/types.go","models/id3/types.go","models/xmp_dm/types.go","models/xmp_mm/model.go","xmp/typeinfo.go"],
  mech=[("packet scanner","xmp/reader.go"),("value parsers splitting text and indexing the parts","models/*/types.go, xmp/*_types.go"),("array editing operations","xmp/array.go, models/xmp_mm/model.go")],
  technique="bounds proving on SSA: difference/linear facts from dominating conditions, memory value numbering, interprocedural length summaries",
  note="Every index and slice expression in library code is one obligation, discharged by a linear-fact prover over dominating branch conditions, loop bounds, lengths returned by callees and validating regular expressions. Indexing done inside package reflect is outside the analysis."),
 dict(id="C02", title="No document or model state makes the library use a missing value",
  statement="Whatever a document contains or lacks, and whatever types a user's own models use, the library never dereferences a nil result of a lookup that may come back empty, never uses an optional property before testing that it is set, and never asserts a value to a type or interface it has not checked for.",
  over=["inputs","histories","programs"], quant="every use of a pointer or interface that may be nil, and every unchecked type assertion, in the library",
  why="A missing check crashes only on documents that lack one particular node, model or property, or on models using a particular Go type; the sample files have them all.",
  files=["xmp/document.go","xmp/path.go","xmp/marshal.go","xmp/unmarshal.go","xmp/native.go","xmp/json.go","models/xmp_mm/model.go","models/xmp_mm/types.go"],
  mech=[("lookups returning nil when absent","xmp/document.go, xmp/node.go, models/*/model.go"),("reflection-driven interface selection","xmp/marshal.go, xmp/unmarshal.go, xmp/path.go, xmp/native.go"),("optional pointer properties","models/*/types.go")],
  technique="nilness dataflow on SSA with may-return-nil summaries; dominance matching of assertions with type tests",
  note="Nil sources: functions of this program whose result may be nil, zero map/lookups, phi nil, optional pointer fields. Assertions on reflect values must be dominated by a matching test of the same value. Pointers handed in by the caller of the public API are assumed non-nil."),
 dict(id="C03", title="No metadata value makes the library divide by zero or break a call's terms",
  statement="No property value, tag or model state makes the library divide by zero, allocate a negative or unboundedly large amount because a number in the metadata says so, call a standard library function with arguments it refuses by panicking, or panic deliberately on bad input.",
  over=["inputs"], quant="every division, allocation sized by a computed number, panicking library call and explicit panic",
  why="Rates, counts and denominators are non-zero and small in every sample; only a hostile or damaged value reaches the failing case.",
  files=["xmp/xmp_types.go","models/exif/types.go","models/xmp_dm/types.go","models/ixml/types.go","models/id3/model.go"],
  mech=[("rational, timecode and rate arithmetic","xmp/xmp_types.go, models/xmp_dm/types.go, models/ixml/types.go"),("tables sized by counts found in text","models/exif/types.go")],
  technique="guard proving on SSA (nonzero divisors, size taint from parsed numbers, panicking-API preconditions)",
  note="Divisors must be proven non-zero by dominating conditions; allocation sizes derived from parsed numbers must be compared with the amount of data present; listed panicking standard library calls must have their precondition established. Division by zero in floating point does not panic and is not covered."),
 dict(id="C04", title="Process-wide state is race-free: separate documents can be used concurrently",
  statement="Different goroutines may decode, build, encode, query and close separate documents at the same time without a data race: everything they share behind the scenes (namespace registry, type information cache, node pool counters and any other package-level state) is accessed only under its lock, or atomically, is never handed out uncopied, and is complete before it becomes visible. Locks are released on every way out and never taken twice by the same operation, so no operation can deadlock.",
  over=["schedules","histories"], quant="all interleavings of library calls on separate documents from any number of goroutines",
  why="The suite is single-threaded and never runs under contention; a missed lock or an early unlock shows only under a particular interleaving.",
  files=["xmp/registry.go","xmp/typeinfo.go","xmp/node.go"],
  mech=[("Registry guarded by an RWMutex","xmp/registry.go"),("type information cache guarded by tinfoLock","xmp/typeinfo.go"),("node pool channel and counters","xmp/node.go")],
  technique="lockset must-analysis on SSA with call-graph entry locksets, atomic-mixing, escape and publication checks",
  note="Decides the locking discipline for every package variable and every field of a struct with its own mutex that code running after program start modifies. Start-up configuration setters (SetLogger and the like) are outside the property; sharing ONE document between goroutines is not promised by the library and not claimed."),
 dict(id="C07", title="Reading operations never modify what they read",
  statement="Asking a question does not change the answer: operations that only read (String, IsZero, the Marshal methods, Get, Find, List, Is, Has, Can, Contains, Diff, Index, Unique, Namespaces, ... and encoding a document) leave the value, node tree, list or document they are called on unchanged, apart from the documented synchronisation of models into a dirty document.",
  over=["inputs","histories"], quant="every exported reading operation on every value, list, node tree or document",
  why="A test calls a reader once and looks at its result; nobody compares the value before and after, and in-place sorting or filtering damages only some inputs.",
  files=["xmp/array.go","xmp/xmp_types.go","xmp/node.go","xmp/document.go","xmp/marshal.go","xmp/namespace.go"],
  mech=[("readers sharing memory with the value they read","xmp/*.go, models/*/types.go"),("Encode merging nodes into a working tree","xmp/marshal.go")],
  technique="interprocedural mutation (effect) summaries on SSA with dereference-depth tracking",
  note="Decides that no store, map update, in-place append, sort or reflective set, direct or through any callee, reaches memory of the receiver or an argument other than the designated output."),
 dict(id="C10", title="A value counts as empty only when every stored part of it is empty",
  statement="A value whose type decides for itself whether it is empty reports empty only if each property it would write is empty. A value that holds data in any of its properties is therefore never silently dropped when a document is written as XMP or JSON.",
  over=["inputs"], quant="every value of every structured type in the library, with any combination of set and unset parts",
  why="The suite encodes a few fully populated structures; the omission shows only for values in which just one particular part is set, and there are hundreds of parts.",
  files=["xmp/marshal.go","xmp/json.go","xmp/xmp_types.go","models/exif/types.go","models/xmp_mm/types.go","models/xmp_dm/types.go","models/id3/types.go"],
  mech=[("IsZero predicates consulted by the encoders","models/*/types.go, xmp/types*.go"),("isEmptyValue","xmp/marshal.go")],
  technique="must-fact dataflow on SSA of every IsZero predicate, compared with the type's serialised fields",
  note="Decides for every emptiness predicate whether a true result implies emptiness of each field with an xmp tag. Trusted: Go type checker and SSA builder. Predicates over values computed by code outside the rule's vocabulary are listed as undecided in the evidence, not passed silently as decided."),
 dict(id="C11", title="Every form a value type is written in has a reader for that same form",
  statement="Every value type that can appear in a metadata model is readable in the form in which it is written: if it is written as plain text, as an attribute, as a structure, as an array of some kind or as custom JSON, there is a reader for that same form. A property declared as an XML attribute has a value with a text form.",
  over=["inputs","programs"], quant="all value types reachable from a registered model and all forms (XML element, XML attribute, JSON) in which the library can write them",
  why="The tests round-trip a handful of sample files; most of the several hundred value types never appear in them, and a reader for the wrong form fails silently by leaving the value empty.",
  files=["xmp/marshal.go","xmp/unmarshal.go","xmp/array.go","models/exif/types.go","models/id3/types.go","models/xmp_dm/types.go"],
  mech=[("reflection-driven encoder choosing a form by method set","xmp/marshal.go"),("reflection-driven decoder choosing a form by method set","xmp/unmarshal.go")],
  technique="type-level codec pairing: written form vs readable form computed from method sets and SSA call graph",
  note="Decides that the writer's and the reader's chosen form agree for each value type, not that values are equal after a round trip."),
 dict(id="C12", title="Every declared property maps to one storage location with valid options",
  statement="In every model each struct field's serialised name is well formed, uses the prefix of a known namespace, and is not shared with another field valid for the same version, in XMP as well as in JSON and in the native (EXIF, ID3, RIFF, ...) tag tables. Width/height-like pairs are stored under their own names.",
  over=["programs","inputs"], quant="all struct fields with xmp, json or native tags in all models, for all versions",
  why="A duplicate or malformed tag makes the mapping tables unusable or lets one property overwrite another; the tests touch only a few of more than a thousand fields.",
  files=["xmp/typeinfo.go","xmp/native.go","models/riff/model.go","models/xmp_base/types.go","models/id3/model.go"],
  mech=[("tag table construction","xmp/typeinfo.go"),("native tag lookup","xmp/native.go")],
  technique="whole-program struct tag table analysis with the library's own tag grammar and version ranges",
  note="Decides syntax, options, prefix registration, version-aware uniqueness and name agreement of every tag."),
 dict(id="C13", title="Every metadata model is registered, findable and loadable",
  statement="Every metadata model in the library is registered with its namespace when its package or the collection of all models is imported; namespace prefixes and URIs are unique; the factory registered for a namespace creates that namespace's model; and each model reports exactly the namespaces it is registered for. Looking up a model through its package's Find function never fails because another model type is stored there.",
  over=["programs","histories"], quant="all model packages, all namespaces and all import combinations",
  why="Registration happens at program start and depends on which packages are linked; tests import a fixed set.",
  files=["xmp/registry.go","models/import.go","models/xmp_dm/model.go","models/id3/model.go","models/qt/model.go"],
  mech=[("init-time registration","models/*/model.go"),("namespace registry","xmp/registry.go")],
  technique="constant propagation over init-reachable SSA, import graph and type assertions",
  note="Decides registration, uniqueness and agreement for every model type found in the type-checked program."),
 dict(id="C08", title="An operation in which a step failed reports the failure",
  statement="When any step of a decode, encode, sync, path, merge or query operation fails, the operation returns an error: an error is never ignored and never replaced by success. Exceptions are the documented NOFAIL flag, lookups with a fallback, and the documented lenient legacy conversions.",
  over=["inputs","histories"], quant="every call in the library that can fail, on every input that makes it fail",
  why="Tests exercise successful runs; a dropped error needs an input that fails at one particular step, and there are about six hundred such steps.",
  files=["xmp/marshal.go","xmp/unmarshal.go","xmp/sync.go","xmp/path.go","xmp/document.go","models/qt/model.go"],
  mech=[("recursive encoder and decoder returning errors","xmp/marshal.go, xmp/unmarshal.go"),("path and sync operations with NOFAIL","xmp/path.go, xmp/sync.go")],
  technique="error-flow analysis on SSA: unused error results and path walk from failing calls to success returns",
  note="Decides for each fallible call site whether its error result is used and whether any path on which it is known non-nil returns nil. Error values are tracked within one function; callees are summarised as fallible or infallible."),
 dict(id="C09", title="A value that fails to parse leaves the destination unchanged",
  statement="When a text, attribute or JSON value cannot be parsed, the parser returns an error and the value it was asked to fill keeps exactly what it held before. A failed assignment never leaves a half-updated value behind; setting a single property by its native name or through a reflected value leaves the property as it was (a nil pointer stays nil) when the value is refused.",
  over=["inputs","histories"], quant="every UnmarshalText, UnmarshalXMPAttr and UnmarshalJSON method and every setter of a single value on every malformed input",
  why="Tests feed well-formed values, and nobody looks at the destination after an error.",
  files=["xmp/units.go","xmp/xmp_types.go","xmp/xmp_types.go","models/exif/types.go","models/xmp_dm/types.go","models/id3/types.go"],
  mech=[("value parsers","xmp/units.go, xmp/date.go, models/*/types.go")],
  technique="path analysis on SSA from writes through the receiver to possibly failing returns, with effect summaries",
  note="Decides that no path leads from a write to memory reachable through the receiver to a return that may carry an error, including writes made by callees that fail. Walks over several values (path updates, array decoding) are not atomic and not claimed."),
 dict(id="C17", title="Results never depend on the random iteration order of a map",
  statement="The same input gives the same result: encoding, decoding, listing, resolving prefixes and filtering never produce output whose content or order depends on the random order in which Go visits a map.",
  over=["inputs","schedules"], quant="every loop over a map in the library, for every content of the map and every visiting order",
  why="The visiting order is random per run; with one or two entries, as in tests, a dependence usually goes unnoticed.",
  files=["xmp/json.go","xmp/marshal.go","xmp/namespace.go","xmp/registry.go","xmp/path.go"],
  mech=[("maps of namespaces, models and properties","xmp/document.go, xmp/registry.go"),("sorted listings","xmp/path.go, xmp/marshal.go")],
  technique="order-independence analysis of every map loop on SSA",
  note="Accepts filling a map under the loop key, collecting into a slice sorted before use, selection under a strict order, commutative accumulation and stopping at the unique key; everything else in a map loop is reported."),
]
PROPS += [
 dict(id="C23", title="List operations find, add and remove exactly the item asked for",
  statement="Removing an item from a list removes that one item and keeps every other item in its place; adding a value only if it is missing never adds one that is present; and searching a list examines every item and reports the position, or item, that matched - including the one at the first position. This holds for string lists, alternative text, identifier, reference, flag and node lists alike.",
  over=["inputs","histories"], quant="every removal, add-unique and search operation of every list type, for all list contents and positions",
  why="Whether an edit damages the neighbours depends on the position and the length of the list; tests remove nothing or look at one position.",
  files=["xmp/array.go","xmp/node.go","xmp/document.go","models/xmp_base/types.go","models/xmp_mm/types.go","models/ixml/enum.go"],
  mech=[("in-place removal by re-slicing","xmp/array.go, xmp/node.go, xmp/document.go"),("Index, Contains and AddUnique methods","xmp/array.go, models/*/types.go, models/ixml/enum.go")],
  technique="splice and search-loop obligations proven with difference constraints over SSA with memory value numbering",
  note="Covers every append(x[:i], x[j:]...) in the library, every comparison of a -1-for-absent position, every Index/Contains/Find method of a list type and every AddUnique. Search loops written in a shape other than a counted or range loop are listed as undecided."),
 dict(id="C26", title="A packet is found however the reader delivers the data around it",
  statement="Scanning a stream finds every complete packet in it, whether the reader delivers the data byte by byte, in blocks that cut a packet or its markers in two, or all at once; whatever precedes the packet, follows it or how large it is; and packets written by this library are always recognised. Each packet is returned complete from header to trailer and remains unchanged when scanning goes on.",
  over=["inputs","schedules"], quant="every byte stream and every way a reader can split it into reads",
  why="The suite scans in-memory data in one piece; a lost marker needs a read boundary at one particular byte.",
  files=["xmp/reader.go","xmp/sdk.go","xmp/marshal.go"],
  mech=[("split function and packet test","xmp/reader.go"),("packet header and trailer constants","xmp/sdk.go")],
  technique="protocol check of the bufio split function: proven advance bounds, token exactness, constant agreement, buffer aliasing",
  note="Decides the split function's contract: it never skips bytes that may begin a marker, returns exactly the marked packet, agrees with the encoder's constants, and its buffers are copied. Packets larger than the scanner's configured limit are reported as errors."),
]
PROPS += [
 dict(id="C05", title="A node is recycled only when nothing can reach it any more",
  statement="Nodes are recycled through a shared pool. A node that is handed back to the pool is no longer part of any document, node tree or list, is handed back once, and is not used afterwards; every node has one owner, so that closing one document, removing a namespace or an extension, or finishing an encode never damages a tree that is still in use. Taking and returning nodes never blocks.",
  over=["histories","schedules"], quant="every sequence of building, merging, removing, encoding and closing nodes and documents, on any number of goroutines",
  why="A node recycled too early turns up later as part of another document, in another operation or on another goroutine; no test closes a document and inspects the trees that survive it.",
  files=["xmp/node.go","xmp/document.go","xmp/marshal.go","xmp/unmarshal.go","xmp/json.go","xmp/xmp_ext.go"],
  mech=[("pool handout, release and node list editing","xmp/node.go (NewNode, Node.Close, Clear, RemoveNode)"),("owners of node trees","xmp/document.go (Close, RemoveNamespace), xmp/marshal.go (Encode), xmp/json.go, xmp/unmarshal.go, xmp/xmp_ext.go")],
  technique="ownership analysis on SSA: region inference for nodes, ownership transfer and release summaries, use-after-close dataflow",
  note="Decides for each insertion, hand-over and release of a node in the program whether a second owner or a later use can exist. Callers outside this module who keep a node after handing it over are outside the analysis."),
 dict(id="C06", title="Recycled nodes start blank; copied nodes are complete and independent",
  statement="A node taken from the pool carries nothing of its previous life: no name, text, attribute, child or model. Copying a node, or moving its content into another one, transfers every part of it - name, text, model, attributes and children - and leaves the copy and the original sharing no attribute list and no child.",
  over=["histories","inputs"], quant="every reuse of a node after any history, and every copy or transfer of any node",
  why="A field that is not cleared or not copied shows only when a node with that field set is reused or copied; tests rarely set more than a name and a value.",
  files=["xmp/node.go","xmp/xmp_ext.go","xmp/marshal.go"],
  mech=[("reset on release and on handout","xmp/node.go (Close, Clear, NewNode)"),("copying and transfer of nodes","xmp/node.go (CopyNode, copyNode), xmp/xmp_ext.go")],
  technique="field-completeness and aliasing analysis of node constructors, resets and copies on SSA",
  note="Decides per field of the node type; a field added to the type without a reset or a copy is reported."),
]
PROPS += [
 dict(id="C14", title="Models are synchronised before a document is written and after it is read",
  statement="Whenever a document is written (as XMP, as JSON) or its paths are listed, every model in it that may have changed has first been synchronised into the document; whenever a document is read, every model in it has been synchronised from it before success is reported. The document is considered clean only after all models were synchronised successfully, every change made through the document marks it dirty, and a model made of sub-models passes each synchronisation on to all of them.",
  over=["histories","inputs"], quant="every sequence of building, changing, writing and reading documents with any set of models, including failing synchronisations",
  why="A skipped model or a mark cleared too early shows only for a document with a particular set of models, or after a failure followed by another write.",
  files=["xmp/document.go","xmp/marshal.go","xmp/json.go","xmp/unmarshal.go","xmp/path.go","xmp/sync.go","models/qt/model.go"],
  mech=[("dirty mark and synchronisation walks","xmp/document.go (syncToXMP, syncFromXMP, SyncModels)"),("writers and readers","xmp/marshal.go, xmp/json.go, xmp/unmarshal.go, xmp/path.go"),("composite model","models/qt/model.go")],
  technique="protocol (typestate) checking: path queries on SSA with nil, error and dirty facts",
  note="Decides the protocol between document, models and dirty mark for every path of the operations involved. Changes made to a model directly by its owner are outside (the owner calls SetDirty)."),
 dict(id="C15", title="Output is complete, in order and never exceeds the size limit",
  statement="What the encoder writes is a complete packet in the right order: header before content, content before padding and trailer, header and trailer both or neither, nothing held back when success is reported. With a maximum size set, no more than that many bytes ever reach the caller's writer, output that does not fit is reported as an error, and a padded packet ends exactly at the limit.",
  over=["inputs","histories"], quant="all documents, flags, limits, writers (including ones that fail or write short) and any number of encodings",
  why="Overflow, short writes and interleaving of buffered and direct output show only for particular sizes and failing writers; tests write small documents to a memory buffer.",
  files=["xmp/marshal.go","xmp/sdk.go"],
  mech=[("counting, limiting writer","xmp/marshal.go (countWriter)"),("packet header, padding and trailer","xmp/marshal.go (Encode), xmp/sdk.go")],
  technique="typestate and bounds checking of the output path on SSA (path queries, difference constraints, constant lengths)",
  note="Decides single writer, bounded, counted and complete writes, flush order, header/trailer pairing and padding arithmetic. The content of the XML is not part of this property."),
]
PROPS += [
 dict(id="C18", title="Reading a document captures all of it, and only it",
  statement="When reading an XMP document from XML or JSON reports success, every property, nested structure, array element, attribute, name space and header field of the input is part of the resulting document: typed where a model declares it, as a generic node otherwise (a property given twice counts as its last value). Nothing of an earlier read by the same decoder is part of it, and a failed read leaves the document's content as it was.",
  over=["inputs","histories"], quant="all well-formed inputs, registered models and sequences of reads",
  why="A dropped item shows only for the particular shape of input that takes the path dropping it; tests compare a handful of samples, often only a few of their fields.",
  files=["xmp/unmarshal.go","xmp/node.go","xmp/array.go","xmp/json.go","xmp/xmp_ext.go","xmp/xmp_types.go"],
  mech=[("node and attribute dispatch","xmp/unmarshal.go (Decode, unmarshal, decodeNode, decodeAttribute, setValue)"),("array elements","xmp/array.go (UnmarshalArray)"),("JSON documents","xmp/json.go (UnmarshalJSON)"),("token reader","xmp/node.go (UnmarshalXML)")],
  technique="item-flow analysis on SSA: path queries that every decoded node, attribute and name is handed on on each path to success",
  note="Decides that no decoded item is dropped, that header fields are filled, that decoder state is fresh, and that failures come before the document is changed. The values parsed from text are not compared. Items with rdf qualifier names and fields tagged as omitted are excused, as documented."),
]
PROPS += [
 dict(id="C19", title="Writing a document writes all of it",
  statement="When writing a document as XML or JSON, or encoding a model or value, reports success, every property that is not empty, every structure field, array element, language alternative, attribute, child node, text and used name space is part of the output, and so are about and toolkit of the document. Only fields that are excluded by their tag, by the requested XMP version or by being empty are left out, and content never replaces content written before.",
  over=["inputs","histories"], quant="all documents, models and field values, including user-defined types and nested extensions",
  why="Lost content shows only for documents of the shape whose path drops it (an empty namesake, an attribute on a structured node, the second of two extensions); tests compare a few samples.",
  files=["xmp/marshal.go","xmp/json.go","xmp/array.go","xmp/node.go","xmp/xmp_ext.go","xmp/native.go","models/xmp_base/types.go","models/exif/types.go"],
  mech=[("document writer","xmp/marshal.go (Encode)"),("values and fields","xmp/marshal.go (marshalValue, marshalAttr)"),("arrays and language alternatives","xmp/array.go (MarshalArray)"),("JSON documents","xmp/json.go (MarshalJSON, nodeToJson)"),("extensions","xmp/xmp_ext.go"),("name space declarations","xmp/node.go (Namespaces)")],
  technique="item-flow analysis on SSA: path queries that each value, field, element and part of a node reaches the output on each path to success",
  note="Decides per function, per field and per loop iteration that nothing is dropped on a successful path; excused are empty and nil values, fields excluded by tag or version, and by design in JSON: qualifiers of text-valued nodes. The text a value is printed as is not compared."),
]
PROPS += [ dict(id="C22",
 title="A write that reports success has stored the value",
 statement="When a setter (the Set, Add and Append operations of documents, nodes, containers, models and native tags) or a write to a path returns without an error, the value it was given has been stored where later reads and Marshal find it, never only in a copy; excused are empty values, values that are present already and writes with the NOFAIL flag. A write to a path removes or clears content only when its flags and value ask for that (DELETE with an empty value, or REPLACE or CREATE with a value and neither APPEND nor UNIQUE), and overwrites an existing simple value only with REPLACE. Asked to delete (DELETE with an empty value), it either clears what is there or reports that it did not.",
 over=["inputs","histories"], quant="every setter and path writer, every combination of flags, every kind of target (simple, text, array, alternative text, map, extension, raw node), every prior content of the document",
 why="there are 63 flag combinations times a dozen kinds of targets times prior contents; the tests use one or two flag combinations per kind. A silently ignored write surfaces only when the document is read back.",
 files=["xmp/path.go","xmp/node.go","xmp/native.go","xmp/array.go","models/xmp_mm/model.go"],
 mech=[("SetModelPath","xmp/path.go"),("Document.SetPath","xmp/path.go"),("Node.SetPath","xmp/node.go"),("SetNativeField, SetLocaleField","xmp/native.go"),("AltString.Set, Add, AddDefault","xmp/array.go")],
 technique="Path-sensitive item-flow analysis on Go SSA: in every setter, no feasible path to success leaves the value unstored; for path writers decided for each of the flag combinations by exhaustive enumeration of the flags over the control flow graph; plus a dead-copy rule (changes to local copies nothing reads)",
 note="Excused: a field that does not exist, a path that names no value (it only creates the model). Known findings: QtInfo.SetTag with unknown tags, XmpMM.AddPantry with an unreadable document, XmpMM.SetPreviousVersionId without versions.") ]
PROPS += [ dict(id="C20",
 title="Names of values and parts of composite texts are read as they are written",
 statement="Each enumerated value has a code or name of its own: different constants of an enumeration differ, a name written for a value is read back as that value and stands for no other, and every named value has a name. The parts of composite text values (points, ratios, track numbers, content ratings, timecodes) are read from the positions and separated by the characters they are written with.",
 over=["inputs"], quant="all values of every enumerated type and of every text type with several parts, in the core and the models",
 why="There are 88 enumerations with several hundred values and 13 name tables; the tests touch a handful. A swapped or doubled entry corrupts exactly one value and everything else keeps working.",
 files=["models/ixml/enum.go","models/id3/enum.go","models/xmp_dm/enum.go","models/xmp_dm/types.go","models/exif/enum.go","models/qt/types.go","models/itunes/types.go","models/crs/types.go","xmp/sync.go","xmp/namespace.go","xmp/xmp_types.go"],
 mech=[("enumerations","models/*/enum.go"),("name tables","ParseTakeType, ParseLocationTime, ParseSyncFlag, GenreMap and the like"),("composite texts","UnmarshalText and MarshalText of Point, ContentRating, TrackNum, Rational, Timecode")],
 technique="table extraction from SSA and typed syntax: the comparisons and map literals that pair names and values form finite relations that are checked for injectivity, completeness and mutual agreement; positions of parsed and printed parts by dataflow",
 note="Numbers and dates inside a part are not compared. Synonyms (several names read as one value) are allowed.") ]
PROPS += [ dict(id="C24",
 title="Reflected values are used only as their kind allows",
 statement="Reading and writing models by name, path or tag, and converting values of any type to and from text, never panics because of the shape of a field: whatever type a model's field has (pointer, nil pointer, pointer to a nil pointer, interface, slice, array, map, structure, simple value), a reflected value is only used in ways its kind allows (Elem, Len, Index, IsNil, Int, Bytes, MapIndex, Field, ... and the corresponding questions to types), never when it holds nothing at all, and what is stored into a list, map or field through reflection has the type of the place. Types that count as arrays are slices or arrays.",
 over=["inputs","programs"], quant="all field types and values of models, all paths and tag names, all values given to the conversion functions",
 why="Models are an open interface: applications add their own structures with fields of any type. The tests use the field types of the bundled models, filled with ordinary values; the panics are in the types nobody has used yet and in properties asked for in the wrong way (a language alternative read from a plain string).",
 files=["xmp/native.go","xmp/path.go","xmp/marshal.go","xmp/unmarshal.go","xmp/typeinfo.go","xmp/array.go","xmp/sync.go"],
 mech=[("kind dispatch","marshalSimple, setValue, ToRawString, ToString"),("walks over fields","GetModelPath, SetModelPath, listPaths, GetNativeField, SetNativeField, ListNativeFields, GetLocaleField, SetLocaleField"),("dereferencing","derefValue, derefIndirect, fieldInfo.value"),("arrays and maps","MarshalArray, UnmarshalArray, growSlice, marshalMap, unmarshalMap")],
 technique="interprocedural forward dataflow over SSA on sets of reflect kinds and validity, with terms for element, key and pointed-to types, refined by tests of kinds, types, validity and interface implementation, parameters joined over callers and results evaluated per call",
 note="Whether a value can be set or addressed is not decided, nor are index bounds (C01). Assumes that models are non-nil pointers, tagged fields are exported, and recorded field positions belong to the type they were recorded for.") ]
PROPS += [ dict(id="C21",
 title="The tag accessors of a model agree",
 statement="For every model and every native tag, CanTag, GetTag, SetTag, GetLocaleTag and SetLocaleTag mean the same property: they lead to the same part of the model under the same key (the same lower-casing or mapping of old tag names), CanTag says yes exactly for the tags that GetTag reads and SetTag sets, a tag or tag prefix for which an accessor has a case of its own reaches that case, what is set is the value given (for the language given), what is returned is what was read, and the generic field accessors behind them look fields up in the same way.",
 over=["inputs","programs"], quant="all models; all tags (finitely many classes by the tests made on them)",
 why="There are 88 accessors in 28 models, most of which no test calls; with composite models a tag is dispatched by prefixes and lengths to one of several parts, and a swapped argument or a case shadowed by another loses exactly some tags.",
 files=["models/qt/model.go","models/id3/model.go","models/exif/model.go","models/itunes/model.go","models/dc/model.go","models/ixml/model.go","xmp/native.go"],
 mech=[("accessors","CanTag, GetTag, SetTag, GetLocaleTag, SetLocaleTag of all models"),("composite dispatch","QtInfo"),("key mapping","mapTagToV24, ToLower"),("generic accessors","GetNativeField, SetNativeField, GetLocaleField, SetLocaleField, findField")],
 technique="partition of the tags by the tests in the accessors, constant folding of the tests over SSA for one tag of each class, and comparison of the remaining paths of all accessors (part, key, value, result)",
 note="Does not decide whether a field with the tag exists (C12) nor how its value is converted (C18, C19, C20).") ]
PROPS += [ dict(id="C27",
 title="Numbers cross between text and values unchanged or not at all",
 statement="A number read from text - in XMP packets, JSON, native tags, paths or any of the library's text forms - is either refused with an error or kept as it was read, up to the rounding of the floating-point type it is stored in: it never wraps around, is cut, changes sign or becomes an arbitrary number because the place that holds it is narrower or of another kind, because arithmetic on it overflows, or because a float is turned into an integer that cannot hold it. What is stored in a field is the number that was read, parsed in the size of that field. A number written as text is written whole: no narrowing before it is formatted, and with all digits of its type; the digits of a fraction of a second keep their leading zeros.",
 over=["inputs"], quant="all numbers in all texts the library reads, all values of numeric fields it writes",
 why="The tests read small numbers. Wrapping, cut digits and undefined conversions show only for values near the limits of a type, and there are dozens of places that parse or format numbers, each with its own limits.",
 files=["xmp/unmarshal.go","xmp/marshal.go","xmp/json.go","xmp/units.go","xmp/xmp_types.go","xmp/path.go","models/exif/types.go","models/id3/types.go","models/itunes/types.go","models/pm/model.go","models/xmp_dm/types.go","models/qt/types.go"],
 mech=[("simple values","setValue, marshalSimple"),("JSON numbers","jsonToNode"),("text forms of types","UnmarshalText, Parse* and MarshalText methods of types and models"),("array indexes in paths","parsePathSegment, growSlice")],
 technique="forward taint from number parses with interval analysis (bit sizes, dominating comparisons, arithmetic, calls) on SSA; reflective stores matched with the bit size of their place; backward conversion chains of formatted numbers",
 note="Numbers that pass through structure fields between functions are followed only within the function that reads them; sums accumulated over a loop are not bounded. Assumes 64 bit int.") ]
PROPS += [ dict(id="C16",
 title="Synchronisation carries values over and never trades one for an empty one",
 statement="When models are synchronised with each other - after a document is read and before it is written - a property that has a value is replaced only by a value: a model never overwrites a property of its own or of another model that is written to the document with an empty one, and never sets part of a value while dropping the rest of it. A value is carried over when there is one, not when there is none. Where a model both takes a property over from another model and hands it back, it is the same property of its own in both directions, so that reading and writing a document does not turn one property into another.",
 over=["inputs","histories"], quant="all synchronisation methods of all models, all combinations of empty and non-empty properties of the models in a document",
 why="Synchronisation runs on every read and every write, over more than a hundred hand-written assignments between some twenty models. A test has to combine a particular property with a particular second model and an empty counterpart to see a single wrong or missing guard, and the loss is silent.",
 files=["models/exif/model.go","models/id3/model.go","models/ixml/model.go","models/riff/model.go","models/tiff/model.go","models/pdf/model.go","models/qt/qt_metadata.go","models/qt/model.go"],
 mech=[("synchronisation into models","SyncFromXMP methods"),("synchronisation out of models","SyncToXMP methods"),("documents","xmp.Document.syncFromXMP, syncToXMP")],
 technique="emptiness facts of dominating branches matched with source and destination of every store to a model property in the synchronisation methods (SSA, access paths); pairing of both directions per property",
 note="Values carried over through paths (Document.Sync and the tables of SyncDesc) are subject to C22. Whether the value is converted correctly is not decided.") ]
PROPS += [ dict(id="C25",
 title="A parsed value replaces what the destination held",
 statement="When a text, attribute or JSON value is parsed successfully, the value holds exactly what was parsed: each of its parts is set from the input or reset, and nothing it held before - another part, a flag, a total, a language, a scheme - shows through. What is stored depends on the input alone. (List types collect: they may keep the items they have. Empty input may leave the value as it is.)",
 over=["inputs","histories"], quant="all text, attribute and JSON parsers of value types, all previous contents of the destination",
 why="Tests parse into fresh values. Whether something of the previous value shows through is seen only when the same value is parsed into twice - as happens when a property or tag is set again, or a model is reused - with inputs that differ in just the optional part.",
 files=["xmp/xmp_types.go","xmp/array.go","xmp/units.go","models/exif/types.go","models/id3/types.go","models/itunes/types.go","models/xmp_dm/types.go","models/xmp_base/types.go","models/qt/types.go","models/pm/model.go","models/crs/types.go"],
 mech=[("parsers of value types","UnmarshalText, UnmarshalXMPAttr and UnmarshalJSON methods"),("structures","UnmarshalXMP methods of value types")],
 technique="path queries per pair of fields over the stores of each parser (field-sensitive must-store analysis), and backward dependence of the stored values on the receiver's old content, on SSA",
 note="Parsers that store nothing (formats the library does not implement) and list types are not decided; models that copy their previous content field by field in UnmarshalXMP are accepted.") ]
PROPS += [ dict(id="C28",
 title="Listing the paths of a document lists every value it holds",
 statement="The list of paths and values of a document, a model or a node that is returned with success has an entry for every value that is neither empty nor tagged as omitted: every field, every item of an array (simple, structured, language alternative), every entry of a map, every extension, and every attribute, child and text of properties no model knows - whatever stands beside it. No value without a text form, no empty item and no model hides the values around it. Adding to a list keeps every non-empty value, removing duplicates drops only entries whose path is there already, and the difference of two lists leaves out only entries that are in both with the same value.",
 over=["inputs"], quant="all documents, all models and node trees; every loop iteration and every path to success in the listing functions",
 why="Tests list a few models with most fields empty. A value that has no entry is not seen by any comparison of documents based on paths, and whether one exists depends on the shape of the metadata: unknown name spaces, simple arrays of them, structured alternatives, properties beside a model.",
 files=["xmp/path.go","xmp/node.go"],
 mech=[("documents and models","Document.ListPaths, ListModelPaths and listPaths in xmp/path.go"),("unknown properties","Node.ListPaths in xmp/node.go"),("lists","PathValueList.Add, AddFlags, Unique, Diff")],
 technique="item-flow analysis with path queries on SSA: every iteration over fields, items, nodes and attributes and every successful path must put the item into the list that is returned, except on branches that establish that it is empty, omitted or RDF syntax",
 note="The spelling of the paths, values whose text form is empty, and whether a listed path can be read back are not decided.") ]

NA = []
NA += [
 dict(id="N01", title="Values survive a round trip through XMP and JSON unchanged",
  statement="Writing a document and reading the result gives a document with equal property values, for every value of every property type.",
  over=["inputs"], quant="all values of all property types",
  why="The value space is unbounded; tests compare a few samples.",
  files=["xmp/marshal.go","xmp/unmarshal.go","xmp/json.go","xmp/units.go","xmp/xmp_types.go"],
  mech=[("text codecs","xmp/units.go, xmp/xmp_types.go"),("document codecs","xmp/marshal.go, xmp/unmarshal.go")],
  reason="Equality of values needs the input-output relation of formatting and parsing code (strconv, time, reflect), which no dataflow or type argument in reach bounds. The structural part is decided: forms agree (C11), nothing is dropped (C18, C19, C10), names and parts agree (C20)."),
 dict(id="N02", title="Dates, durations, ratios and coordinates are read with their meaning",
  statement="Every date, time, duration, ratio, coordinate and frame rate text in a supported notation is read as the instant, length or number it denotes.",
  over=["inputs"], quant="all texts in the supported notations",
  why="Notations and time zones combine to more cases than tests list.",
  files=["xmp/xmp_types.go","xmp/units.go","models/exif/types.go","models/xmp_dm/types.go"],
  mech=[("date layouts","xmp/xmp_types.go (ParseDate)"),("durations","xmp/units.go (ParseDuration)")],
  reason="The meaning of a text is arithmetic on run-time values; a static rule would have to restate the parser. Crash freedom, atomicity and error reporting of the same parsers are decided by C01, C03, C08, C09."),
 dict(id="N03", title="Merging and filtering documents keep and drop the right values",
  statement="Merge combines two documents property by property as its flags say, and a filter keeps exactly the namespaces it names, for all documents and filters.",
  over=["inputs"], quant="all pairs of documents, flags and filters",
  why="The result depends on both documents' content.",
  files=["xmp/document.go","xmp/filter.go","xmp/path.go"],
  mech=[("merge","xmp/document.go (Merge)"),("filter","xmp/filter.go (Apply)")],
  reason="The outcome depends on values present in two documents at run time. What the paths do with each combination of flags is decided by C22 (nothing dropped, nothing removed unasked); which value wins is not statically decidable here."),
 dict(id="N04", title="The JSON and the XML form of a document say the same",
  statement="A document written as JSON and read back equals the same document written as XML and read back.",
  over=["inputs"], quant="all documents",
  why="Tests compare samples only.",
  files=["xmp/json.go","xmp/marshal.go","xmp/unmarshal.go"],
  mech=[("JSON writer and reader","xmp/json.go")],
  reason="A relation between the outputs of two encoders over all values; static analysis sees each encoder's obligations (C11, C12, C18, C19) but cannot equate their results."),
 dict(id="N05", title="Every operation terminates, with bounded depth, on every input",
  statement="No packet, however nested or cyclic its embedded documents, makes the library loop forever or exhaust the stack.",
  over=["inputs"], quant="all inputs, nesting depths included",
  why="Depth and length of inputs are unbounded.",
  files=["xmp/node.go","xmp/unmarshal.go","xmp/marshal.go"],
  mech=[("recursive descent over nodes","xmp/node.go (UnmarshalXML)")],
  reason="Recursion depth is the nesting depth of the input, a run-time quantity the code does not limit by design (as encoding/xml itself up to its own limit); there is no static bound to check against."),
 dict(id="N06", title="The XML written is well formed for every text",
  statement="Whatever characters names and values contain, the packet written is well-formed XML with correctly escaped content.",
  over=["inputs"], quant="all names and texts",
  why="All strings cannot be sampled.",
  files=["xmp/marshal.go"],
  mech=[("token encoder","xmp/marshal.go")],
  reason="Escaping and token validity are decided inside encoding/xml for run-time strings. That all content goes through that encoder and in pairs is decided by C15; names taken from the input are run-time values."),
]
