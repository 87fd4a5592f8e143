#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run it after editing, then commit all three."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level="exploration", technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, level=level, technique=technique, note=note))

TV = ["spdx/v2/v2_1/tagvalue", "spdx/v2/v2_2/tagvalue", "spdx/v2/v2_3/tagvalue"]
RDF = ["spdx/v2/v2_2/rdf/reader", "spdx/v2/v2_3/rdf/reader"]
MODEL = ["spdx/v2/common", "spdx/v2/v2_1", "spdx/v2/v2_2", "spdx/v2/v2_3"]

prop("J01", "JSON write then read returns the same document",
 "For every SPDX 2.1, 2.2 or 2.3 document whose values JSON can carry, json.Write succeeds and json.ReadInto of its output at the same version returns a document with the same value in every field (up to: nil versus empty lists, fields JSON does not carry such as reviews and per-file snippets). This holds whatever write options are used, for documents passed by pointer or by value, and writing the re-read document gives a document that reads back equal again.",
 ["inputs"], "all representable documents of three versions times write options",
 "Existing tests round-trip one or two hand-written documents per version with tame ASCII values; escapes, unusual identifiers, empty and absent fields, list lengths and value interactions are unsampled.",
 ["json"] + MODEL, [("json.Write", "json/writer.go"), ("json.ReadInto", "json/reader.go"), ("custom MarshalJSON/UnmarshalJSON", "spdx/v2/common, spdx/v2/v2_*/{document,package,file}.go")])
prop("J02", "JSON writer emits exactly the document, under the SPDX member names",
 "The JSON text json.Write produces, decoded by a generic JSON parser, has exactly the members the SPDX JSON schema gives for each populated field of the document, with exactly its values: nothing missing, nothing invented (a field that is not populated has a member only where the schema requires one), list orders kept. Write options change only white space and the spelling of <, > and &.",
 ["inputs", "configurations"], "all representable documents of three versions times write options",
 "Round-trip tests cannot see a member that is misnamed or lost on both sides; golden files pin one document per version.",
 ["json"] + MODEL, [("json.Write and its options", "json/writer.go"), ("struct tags and MarshalJSON methods", "spdx/v2/v2_*/*.go, spdx/v2/common")])
prop("J03", "JSON reader returns what the text says, however it is spelled",
 "For every valid SPDX 2.1/2.2/2.3 JSON text, json.ReadInto (same version) and json.Read (current version) return the document the text describes: member order, white space, \\u escapes, unknown members and omitted optional members with defaults do not change the result.",
 ["inputs"], "all valid SPDX JSON texts describing a document, in every spelling JSON allows",
 "Existing tests read a few golden files in one spelling; escaped characters inside identifiers, creators and the like were in fact misread until the fix recorded in known_findings.txt.",
 ["json"] + MODEL, [("json.Read/ReadInto", "json/reader.go"), ("UnmarshalJSON methods", "spdx/v2/common, spdx/v2/v2_*/{document,package,file}.go")])
prop("J04", "documentDescribes and hasFiles become relationships, without duplicates",
 "Reading an SPDX 2.2 or 2.3 JSON document whose documentDescribes and hasFiles shorthand lists name elements adds exactly one DESCRIBES or CONTAINS relationship for each named element not already stated by a relationship in either direction (directly or by its inverse type), after the relationships stated explicitly, and changes no other relationship.",
 ["inputs"], "all combinations of explicit relationships and shorthand lists over identifiers",
 "Tests use one document with each shorthand; combinations with explicit, inverse, repeated, external and special references are unsampled.",
 ["spdx/v2/v2_2/document.go", "spdx/v2/v2_3/document.go"], [("shorthand expansion in UnmarshalJSON", "spdx/v2/v2_2/document.go, spdx/v2/v2_3/document.go")])
prop("Y01", "YAML carries the same documents as JSON",
 "For every document whose values YAML can carry, yaml.Write produces YAML that a generic YAML parser reads as the same member tree as the JSON form, yaml.ReadInto of it returns the same document, and equivalent YAML and JSON texts read as equal documents.",
 ["inputs"], "all representable documents of three versions, values with YAML-significant characters included",
 "Tests use one golden YAML file per version; strings that look like YAML syntax, numbers, booleans or nulls are unsampled.",
 ["yaml"] + MODEL, [("yaml.Write", "yaml/writer.go"), ("yaml.Read/ReadInto", "yaml/reader.go")])
prop("T01", "Tag-value write then read returns the same document",
 "For every SPDX 2.1, 2.2 or 2.3 document whose values tag-value can carry (free-text fields may hold any text without a closing text tag, including leading/trailing blanks, newlines and long lines), tagvalue.Write succeeds and tagvalue.ReadInto of its output returns a document with the same value in every field, lists being in identifier order where the writer sorts them.",
 ["inputs"], "all representable documents of three versions",
 "No existing test round-trips generated documents; loss of excluded files, of edge blanks and of lines over 64 KiB went unnoticed until the fixes recorded in known_findings.txt.",
 ["tagvalue"] + TV, [("tagvalue.Write / RenderDocument", "tagvalue/writer.go, spdx/v2/v2_*/tagvalue/writer"), ("tagvalue.ReadInto / ParseTagValues", "tagvalue/reader.go, spdx/v2/v2_*/tagvalue/reader")])
prop("T02", "Tag-value writer emits exactly the document's tags, section by section",
 "Split into sections by an independent reader, the text tagvalue.Write produces contains for each header, unpackaged file, package, packaged file, snippet, other licence, relationship, annotation and review exactly the tags and values the SPDX tag-value format gives for that element's populated fields, each element in its proper place (a package's files behind that package, a file's snippets behind that file), elements in identifier order.",
 ["inputs"], "all representable documents of three versions",
 "Unit tests pin the rendering of single hand-written elements; combinations and ordering across elements, and optional fields in unusual combinations, are not reached.",
 TV, [("render functions", "spdx/v2/v2_*/tagvalue/writer/save_*.go")])
prop("T03", "Tag-value reader returns what the text says, however it is laid out",
 "For every valid SPDX 2.1/2.2/2.3 tag-value text, tagvalue.ReadInto returns the document the text describes, and every tag is attributed to the element whose section it is in: tag order within a section, relationships and annotations placed in any section, text-tag wrapping, comments, blank lines, indentation, CRLF line ends and optional spaces inside composite values do not change the result.",
 ["inputs"], "all valid tag-value texts describing a document, in every permitted layout",
 "Unit tests feed the state machine short tag sequences in one order; sequences across sections and layouts are a huge space.",
 ["tagvalue"] + TV, [("parser state machine", "spdx/v2/v2_*/tagvalue/reader/parse_*.go"), ("ReadTagValues", "tagvalue/reader/reader.go")])
prop("T04", "Tag-value tokenizer splits every text into exactly its tag/value pairs",
 "For every byte text, reading tag/value pairs either returns exactly the pairs of the text in order (first colon ends the tag, values trimmed, a text-tag value verbatim across lines of any length until its closing tag, comments and blank lines skipped) or an error, and it returns an error exactly when a line outside a text value has no colon or a text value is never closed.",
 ["inputs"], "all texts",
 "Unit tests cover a dozen short inputs; interplay of text tags, colons, comments, CR and long lines is unsampled.",
 ["tagvalue/reader/reader.go"], [("ReadTagValues", "tagvalue/reader/reader.go")])
IMPLEMENTED = open(os.path.join(HERE, "tools", "implemented.txt")).read().split()
exec(open(os.path.join(HERE, "tools", "props_more.py")).read())

NA = {}
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": ["return values and written bytes of the exported functions"], "hook_needed": None}}) + "\n")
    checks = []
    for p in P:
        if p["id"] not in IMPLEMENTED: continue
        checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"] or "runtime monitoring: generated executions of the real code judged by an independent reference oracle",
            "level": p["level"],
            "level_note": p["note"] or "No violation on any monitored execution (counts and distinct states in the evidence). Assumes the harness' reference model and generator describe SPDX correctly; inputs outside the generator's space are not judged."})
    na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in P if p["id"] not in IMPLEMENTED]
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
        "notes": "No hooks were needed: every property is observed at the exported API. check.sh rebuilds the harness against /repo's working tree on every run."},
        open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()
