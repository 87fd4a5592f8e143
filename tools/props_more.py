prop("T05", "Tag-value reader rejects malformed documents instead of misreading them",
 "Reading a valid tag-value document into which a single fault of a listed kind has been put (unknown or misplaced tag for its section, malformed identifier, checksum, relationship, external reference, byte or line range, boolean, creator, annotator, reviewer, supplier or originator, missing identifier, element that has no owner, missing or unsupported version, unterminated text) returns an error, and never a document in which the fault is silently dropped; the caller's target is left as it was.",
 ["inputs", "fault_sequences"], "all valid documents times all single faults of the listed kinds",
 "Unit tests check each error on one short input; position in a larger document and state left by earlier sections decide whether the error is noticed.",
 ["tagvalue"] + TV, [("error paths of the parser state machine", "spdx/v2/v2_*/tagvalue/reader/parse_*.go")])
prop("R01", "RDF reader returns what an RDF/XML document says",
 "For every valid SPDX 2.2 or 2.3 document written as RDF/XML in the SPDX vocabulary (typed node elements, nested or referred to, labelled or not, with entities, CDATA, comments and any namespace prefixes), rdf.ReadInto (same version) and rdf.Read return a document with exactly the header, packages, files, snippets, extracted licences, relationships, annotations and reviews described, each field holding the described value and each file contained in the packages that claim it. Known findings (the or-later operator, white space at the start of a literal) are listed in known_findings.txt.",
 ["inputs"], "all valid RDF/XML documents describing an SPDX document",
 "Unit tests parse small fragments of one element; whole documents, shared nodes and combinations of optional properties are unsampled.",
 ["rdf"] + RDF, [("LoadFromGoRDFParser and the per-element parsers", "spdx/v2/v2_*/rdf/reader/*.go")])
prop("R02", "RDF reading does not depend on statement order, nesting or the run",
 "Two RDF/XML serialisations of one graph (properties of a node in any order, top-level nodes in any order, a node nested where used or described at top level and referred to) read as the same document up to the order of lists (RDF statements have none), and so does every repeated reading of the same bytes, also while other readings run at the same time.",
 ["inputs", "schedules"], "all serialisations of a graph; repeated runs (Go map iteration orders)",
 "A test reads one serialisation once; map iteration makes order faults appear only in some runs.",
 ["rdf"] + RDF, [("node cache, file assembly", "spdx/v2/v2_*/rdf/reader/{parser,parse_spdx_document,parse_file,parse_package}.go")])
prop("X01", "A document survives any chain of formats that can carry it",
 "A document limited to what JSON, YAML and tag-value can all carry is unchanged (lists in identifier order) after any sequence of writes and reads through those formats, whichever order they come in.",
 ["inputs", "histories"], "all common documents times all format sequences up to length 6",
 "Tests convert one example once; drift that builds up over formats is not observed.",
 ["json", "yaml", "tagvalue"] + MODEL, [("Write/Read of each format", "json, yaml, tagvalue")])
prop("X02", "Changing the format of a document loses nothing both formats can state",
 "A document read from RDF, tag-value, JSON or YAML and written in JSON, YAML or tag-value states the same when that is read again: every field, relationship, licence, snippet, review and annotation with its subject that both formats have a place for, wherever the model keeps it, nothing changed and nothing added.",
 ["inputs", "configurations"], "all documents times all (source format, target format, version, reading into own or latest version) combinations",
 "Tests read and write one format each on examples; what one reader puts where another writer does not look is never compared.",
 ["json", "yaml", "tagvalue", "rdf"] + MODEL, [("Read and Write of each format", "json, yaml, tagvalue, rdf"), ("places of snippets, annotations and reviews", "spdx/v2/v2_*/document.go, file.go, package.go")])
prop("V01", "Readers honour the declared SPDX version and refuse all others",
 "JSON, YAML, tag-value and RDF readers decode a document by its declared version: every supported version is read, Read returns it as a 2.3 document saying SPDX-2.3, ReadInto returns it in the caller's version with that version's string, and an absent, misspelled, unsupported or ill-typed version, a non-pointer target or a target that is not an SPDX document is an error (nil targets are outside this property).",
 ["inputs", "configurations"], "all (format, declared version, target type) combinations and hostile version values",
 "Tests cover a few of the combinations.",
 ["json/reader.go", "yaml/reader.go", "tagvalue/reader.go", "rdf/reader.go", "convert"], [("version switch", "*/reader.go"), ("convert.Document", "convert/chain.go")])
prop("C01", "Version conversion keeps everything both versions can express",
 "Converting a document between any two of SPDX 2.1, 2.2 and 2.3, by convert.Document, gives a document stating the target version in which every field that all models on the way share has the source's value, and fields the target lacks are the only loss; converting to a newer version and back is the identity on the older document, and a non-pointer target or an unknown type is an error.",
 ["inputs", "configurations"], "all documents of three versions times all nine version pairs, pointer and value sources",
 "Tests convert a handful of documents for selected pairs.",
 ["convert"] + MODEL, [("convert.Document", "convert/chain.go"), ("ConvertFrom methods and conversion chain", "spdx/v2/v2_*/document.go, spdx/v2/v2_*/*.go")])
prop("C02", "Converting and reading leave the source alone and replace the target wholly",
 "Converting a document leaves the source deeply unchanged, and when the two versions differ a later change to the result cannot be seen through the source; converting or reading into a target that already holds a document leaves nothing of the earlier content behind.",
 ["inputs", "histories"], "all documents, version pairs, and prior target contents; all four readers",
 "Aliasing and stale-content faults need a second operation on the same objects; tests use fresh targets and look only at the result.",
 ["convert", "json/reader.go", "yaml/reader.go", "tagvalue/reader.go", "rdf/reader.go"] + MODEL, [("convert.Document", "convert/chain.go"), ("UnmarshalJSON of documents", "spdx/v2/v2_*/document.go")])
prop("I01", "Identifiers, agents and checksum-like values have one exact text form",
 "Element identifiers, document identifiers, combined references, creators, suppliers, originators and annotators: writing then reading any valid value gives the value back, also into a variable that held another one, the text form carries each prefix exactly once, the special values NONE and NOASSERTION stay distinct from element names, String/Render/Parse agree with the JSON form, and malformed text (missing prefix or separator, wrong JSON type) is an error. The exported constants for relationship types, external reference categories and types, checksum algorithms, versions and data licence have the spelling the specification gives them. A bare DocumentRef without element and blanks around originator names are not judged.",
 ["inputs"], "all values of the identifier and agent types, all JSON strings offered to their decoders",
 "Tests sample a few values; escaped quotes, prefixes inside names, empty parts are unsampled.",
 ["spdx/v2/common/identifier.go", "spdx/v2/common/creation_info.go", "spdx/v2/common/package.go", "spdx/v2/common/annotation.go", "spdx/v2/common/external.go", "spdx/model.go"], [("MarshalJSON/UnmarshalJSON, Render*, Make*", "spdx/v2/common")])
prop("W01", "Writing does not change the document, and equal documents give equal bytes",
 "json.Write and yaml.Write leave every part of the document they are given deeply unchanged; tagvalue.Write changes nothing but the order of its external document references, packages and files, which it may put in identifier order. Writing equal documents always produces the same bytes, whatever was written before.",
 ["inputs", "histories"], "all documents, all writers, repeated and interleaved writes",
 "Tests write once and compare text; they never look at the argument afterwards, and map-order faults appear only in some runs.",
 ["json/writer.go", "yaml/writer.go", "tagvalue/writer.go", "spdx/v2/v2_1/tagvalue/writer", "spdx/v2/v2_2/tagvalue/writer", "spdx/v2/v2_3/tagvalue/writer"], [("RenderDocument", "spdx/v2/v2_*/tagvalue/writer/save_document.go"), ("json.Write, yaml.Write", "json/writer.go, yaml/writer.go")])
prop("F01", "I/O failures are reported, and chunking is invisible",
 "If the writer given to json.Write, yaml.Write, tagvalue.Write or reporter.Generate fails at any point, the call returns an error; if the reader given to any Read or ReadInto fails at any point, the call returns an error; and how a reader splits the bytes into chunks does not change the result.",
 ["fault_sequences", "inputs"], "all failure offsets of readers and writers over generated documents, all chunkings",
 "No existing test injects an I/O fault; all use in-memory buffers.",
 ["json", "yaml", "tagvalue", "rdf", "reporter"], [("Write functions", "json/writer.go, yaml/writer.go, tagvalue/writer.go, reporter/reporter.go"), ("Read functions", "*/reader.go")])
prop("H01", "Hostile input gives an error or a document, never a crash or hang",
 "For every byte string, the JSON, YAML and tag-value readers return (a document or an error) in time that does not explode with the input's size, and never panic, overflow the stack or run out of memory; the same holds of the RDF reader on every well-formed RDF/XML text; and whatever document they return can be handed to every writer and to version conversion without a panic.",
 ["inputs"], "all byte strings, reached by mutating generated documents structurally and bytewise",
 "Unit tests feed well-formed or near-well-formed inputs; panics hide behind unusual combinations.",
 ["json", "yaml", "tagvalue", "rdf", "spdx/v2"], [("decoders", "json/reader.go, yaml/reader.go, tagvalue/reader, spdx/v2/v2_*/rdf/reader"), ("writers on decoded documents", "json/writer.go, tagvalue/writer.go")])
prop("K01", "Concurrent use on separate or shared read-only documents is safe",
 "Any mix of reads, writes, conversions, validations, reports, licence comparisons, builds and searches running concurrently, each mutating operation on its own documents and the non-mutating ones sharing documents, has no data race and gives every call the result it gives when run alone. Races entirely inside gordf, the third-party RDF parser, which counts its blank nodes without synchronisation, are not counted; what RDF reads return is.",
 ["schedules", "histories"], "interleavings of concurrent operations of all packages",
 "The existing tests are sequential and run without the race detector.",
 ["json", "yaml", "tagvalue", "rdf", "convert", "builder", "idsearcher", "licensediff", "reporter", "spdxlib", "utils"], [("all exported operations", "the whole module")],
 technique="runtime monitoring: Go race detector plus comparison of every concurrent result with the sequential one",
 note="No race report and no differing result on the interleavings run. The race detector sees only accesses that execute.")
prop("B01", "A built document describes the directory exactly",
 "builder.Build over any directory tree returns a document whose single package lists exactly the regular files that are not ignored, once each and in path order, with names relative to the root behind a leading dot and slash, identifiers File0, File1, ... in that order, true SHA1, SHA256 and MD5 checksums, licence fields NOASSERTION and the verification code of those files; the document carries the configured namespace prefix followed by package name and code, the configured creator (Person when the configured type is unknown) behind the builder's own Tool creator, the configured creation time, and one DESCRIBES relationship to the package; the tree is not changed, and a root, directory or file to be listed that cannot be read is an error.",
 ["inputs", "configurations"], "all directory trees, contents and ignore lists",
 "Tests build one fixture directory.",
 ["builder", "utils"], [("Build and section builders", "builder/*.go"), ("path walk and hashing", "utils/*.go")])
prop("B02", "Directory enumeration and ignore rules select exactly the documented paths",
 "utils.GetAllFilePaths returns every regular file below the root (which may be given by a symbolic link) once, in order, as a slash-separated path relative to it, except those an ignore pattern matches; symbolic links, pipes and other special files are not listed and never opened; an unreadable root or directory is an error. utils.ShouldIgnore matches patterns that start with a slash or with **/ exactly as documented: /file that file, /dir/ everything below that directory, **/name or **/dir/ that name at any depth.",
 ["inputs", "configurations"], "all directory trees and pattern lists",
 "Tests use one fixture tree and a few patterns.",
 ["utils/filesystem.go"], [("GetAllFilePaths, ShouldIgnore", "utils/filesystem.go")])
prop("B03", "Hashes and verification codes are the standard's",
 "utils.GetHashesForFilePath returns the file's SHA-1, SHA-256 and MD5 digests for any content and size, an error for a path that is missing or unreadable, and utils.GetVerificationCode returns the SHA-1 over the concatenated sorted SHA-1 values of exactly the given files whose name is not the excluded one, whatever order the files come in, naming the excluded file in its result and leaving the files unchanged; a nil file is an error.",
 ["inputs"], "all file contents and sizes, all file lists and orders, all exclusions",
 "Tests cover one file and one list.",
 ["utils/filesystem.go", "utils/verification.go"], [("GetHashesForFilePath", "utils/filesystem.go"), ("GetVerificationCode", "utils/verification.go")])
prop("S01", "Licence-identifier search finds exactly the tags in the files",
 "idsearcher.BuildIDsDocument over any directory gives each file as licences in the file exactly the individual licences its SPDX-License-Identifier lines name (text behind the tag up to a comment end, cut to licence-expression characters; lines with more than five other characters before the tag are not tags; operators, case-insensitively, are not licences; sorted, without repeats, NOASSERTION if none), as concluded licence the one expression or all of them, sorted and joined by AND with compound ones parenthesised, gives the package the sorted union over its files, and leaves every other field as the builder set it; files on the search-ignore list are not searched.",
 ["inputs", "configurations"], "all directory trees with arbitrary file contents and configurations",
 "Tests use one fixture tree and a few identifier lines.",
 ["idsearcher"], [("BuildIDsDocument, searchFileIDs", "idsearcher/idsearcher.go")])
prop("L01", "Licence comparison accounts for every file exactly once",
 "licensediff.MakePairs over any two packages yields one entry for every file name in either package, with each side's concluded licence (empty when absent; of several files of one name the last counts), and MakeResults places every pair in exactly one of changed, same, in-first-only and in-second-only according to presence and equality, keeping the licences.",
 ["inputs"], "all pairs of packages",
 "Tests use one pair of packages.",
 ["licensediff"], [("MakePairs, MakeResults", "licensediff/licensediff.go")])
prop("G01", "Licence report counts every file exactly once",
 "reporter.Generate over any package prints, for each concluded licence, its number of files, in descending order of count, licences of equal count by name, with totals for files with and without a licence (NOASSERTION or empty) that add up to the number of files; a package whose files were not analysed is an error.",
 ["inputs"], "all packages",
 "Tests use one package.",
 ["reporter"], [("Generate", "reporter/reporter.go")])
prop("D01", "Described packages and relationship filters return exactly what is stated",
 "spdxlib.GetDescribedPackageIDs returns exactly the sorted identifiers, each once, of the packages of this document that some DESCRIBES or DESCRIBED_BY relationship names as described by the document (the only package's when there is one), an error when nothing is described; FilterRelationships calls the function once for every relationship, in order, and returns exactly the identifiers it yields, in order, without an error.",
 ["inputs"], "all documents and relationship lists",
 "Tests use a few relationship lists.",
 ["spdxlib"], [("GetDescribedPackageIDs", "spdxlib/described_elements.go"), ("FilterRelationships", "spdxlib/relationships.go")])
prop("D02", "Document validation accepts exactly documents without dangling references",
 "spdxlib.ValidateDocument returns an error exactly when some relationship names, as an element of this document, an identifier that is neither the document's, nor a package's, nor a file's, nor a snippet's of the document; references into other documents never make it fail.",
 ["inputs"], "all documents",
 "Tests use a few documents.",
 ["spdxlib"], [("ValidateDocument", "spdxlib/documents.go"), ("element id collection", "spdxlib/element_ids.go")])
prop("R03", "RDF reader rejects malformed documents instead of misreading them",
 "Reading a valid SPDX 2.2 or 2.3 RDF/XML document into which a single fault of a listed kind has been put (a statement unknown to its element's class or foreign to it, an unknown relationship type, checksum algorithm, annotation type, reference category or file type, an agent without a known type, a malformed boolean, URI, number or element identifier, an undefined, cyclic or wrongly typed licence, a snippet range with missing, extra or mixed ends, a relationship to something that is no element, no document or more than one, text that is not well-formed) returns an error, and never a document in which the fault is silently dropped; the caller's target is left as it was. Members of disjunctive licence sets and of nested sets are held to being defined licences; unknown statements of disjunctive sets, which the reader skips, are not judged.",
 ["inputs", "fault_sequences"], "all valid RDF documents times all single faults of the listed kinds",
 "Unit tests check each error on a graph of one or two nodes; where the faulty node hangs in a document decides whether anybody looks at it.",
 ["rdf"] + RDF, [("error paths of the per-element parsers", "spdx/v2/v2_*/rdf/reader/*.go"), ("rdf.Read/ReadInto", "rdf/reader.go")])
prop("J05", "JSON and YAML readers reject malformed documents instead of misreading them",
 "Reading a valid SPDX 2.1, 2.2 or 2.3 JSON or YAML document into which a single fault of a listed kind has been put (a member or list element of another JSON type, an element identifier, document reference, relationship end or shorthand entry without its prefix or with nothing behind it, a creator, annotator, supplier or originator without a type, a missing, misspelled or unsupported version, a top level that is no object, text that is empty, truncated, followed by more or not well-formed) returns an error from Read and ReadInto, and never a document in which the fault is silently dropped; the caller's target is left as it was. YAML numbers and booleans where SPDX 2.1 expects text are taken as text and not judged, nor is null.",
 ["inputs", "fault_sequences"], "all valid JSON and YAML documents times all single faults of the listed kinds at all places",
 "Unit tests feed a few malformed identifiers to single unmarshal functions; they neither visit every member of a document nor look at the target afterwards.",
 ["json", "yaml"] + MODEL, [("json.Read/ReadInto", "json/reader.go"), ("yaml.Read/ReadInto", "yaml/reader.go"), ("UnmarshalJSON methods", "spdx/v2/common, spdx/v2/v2_*/{document,package}.go")])
prop("W02", "Writers refuse what they cannot express, and write nothing then",
 "json.Write and yaml.Write of a document holding a value its format cannot express (a supplier or originator without type or name that is not NOASSERTION, a creator or annotator without a name, a relationship end that names no element) and tagvalue.Write of a document without creation information, or of any value that is no SPDX document however long its text and whatever its characters, return an error, write nothing and change nothing; convert.Document refuses such values too. Of any other document, whatever bytes its texts hold, JSON and YAML writers write one well-formed text that reads back as the document (bytes that are no UTF-8 as replacement characters), and tagvalue.Write through any number of pointers writes the same.",
 ["inputs"], "all documents with one inexpressible value, all foreign values, all byte strings as texts",
 "Tests check the marshal functions on single values; whether a writer then really fails, and writes nothing, is not looked at.",
 ["json", "yaml", "tagvalue", "convert"] + MODEL, [("json.Write", "json/writer.go"), ("yaml.Write", "yaml/writer.go"), ("tagvalue.Write", "tagvalue/writer.go"), ("Describe, FromPtr", "convert/struct.go"), ("MarshalJSON methods", "spdx/v2/common")])
prop("M01", "Calls answer from their arguments alone; results stay the caller's own",
 "Whatever was read, written, converted, computed, built, searched or refused before in the process, a call of the library with the same arguments gives the same result; arguments that differ in one character, one list element or one byte of a file, or a document or file edited in place since the last call, give the result due to them as they are now; and a result handed to the caller neither changes through later calls nor, when the caller changes it, shows in later results.",
 ["histories", "inputs"], "all sequences of calls in one process over all documents, packages and directories",
 "Unit tests call each function with unrelated arguments, mostly once; what a call leaves behind for the next one with almost the same arguments is not looked at.",
 ["json", "yaml", "tagvalue", "rdf", "convert", "builder", "idsearcher", "utils", "reporter", "licensediff", "spdxlib"], [("package-level and pooled state, caches, shared memory of results", "all packages"), ("Read/ReadInto", "json/reader.go, yaml/reader.go, tagvalue/reader.go, rdf/reader.go"), ("Write", "json/writer.go, yaml/writer.go, tagvalue/writer.go"), ("GetHashesForFilePath", "utils/filesystem.go")])
prop("Q01", "Calls leave nothing behind in the process, open, running or growing",
 "Every read, write, conversion, computation, build, search, walk and hash, whether it succeeds or fails (broken texts, failing sources and sinks, files that cannot be read), has closed every file it opened, ended every goroutine it started and removed every file it made by the time it returns; it prints nothing to standard output or error, leaves working directory, environment, standard logger and runtime settings alone, does not close the caller's source or sink and does not use them after it returned; and memory in use does not grow with the number of calls made.",
 ["histories", "inputs"], "all sequences of calls, failing ones included",
 "Unit tests look at results; a file left open on an error path, a goroutine blocked for ever, a print statement or a table that grows with every call passes all of them and ends a long-running service.",
 ["json", "yaml", "tagvalue", "rdf", "convert", "builder", "idsearcher", "utils", "reporter", "licensediff", "spdxlib"], [("file handles", "utils/filesystem.go, idsearcher/idsearcher.go"), ("Read/ReadInto", "json/reader.go, yaml/reader.go, tagvalue/reader.go, rdf/reader.go"), ("Write", "json/writer.go, yaml/writer.go, tagvalue/writer.go"), ("package-level state", "all packages")],
 technique="process-state monitor (open files, goroutines, output, environment, heap after collection) around every call")
