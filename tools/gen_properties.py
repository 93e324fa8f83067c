#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only because JSON lines are hard to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

p("C01", "A finished file's cross-reference table and trailer locate every object",
  "For any sequence of indirect objects written (directly or by merging chunks, with sparse, unordered or huge ids), the finished file starts with the header carrying the chosen version and binary marker, and startxref points at a cross-reference table with one well-formed 20-byte entry per id from 0 to the largest id used. Each used id's entry holds the byte offset of exactly that object with its id and generation 0, every unused id is on the free list that starts and ends at entry 0 (generation 65535, all other entries 0), and nothing lies between objects that no entry accounts for. The trailer gives the right Size, the Root and Info of the most recent catalog and document-info requests, and the file id pair if one was set.",
  ["inputs", "histories"],
  "all histories of writing objects of any kind in any id order, merging chunks, setting version, marker, file id, catalog and info (repeatedly), in both layouts; ids up to 10^5..10^6, files up to several MB",
  "The unit tests compare three or four fixed files; offsets, gaps, sparse ids, reordering, merges and repeated catalog calls depend on the whole history.",
  ["src/lib.rs", "src/chunk.rs", "src/macros.rs"],
  [("Pdf::finish", "src/lib.rs"), ("xref table/offset bookkeeping", "src/lib.rs"), ("Chunk::indirect records (id, offset)", "src/chunk.rs"), ("Chunk::extend shifts offsets", "src/chunk.rs")],
  ["bytes returned by Pdf::finish"],
  [{"name": "chunk offsets", "meaning": "id and byte offset of every object written", "where": "src/chunk.rs"}])
p("C02", "Finishing with a cross-reference stream describes the same file",
  "For any document, finishing with a cross-reference stream yields a file whose startxref points at that stream object, whose decoded rows (with the declared field widths, Size, and the filter names in the order given) map every id to the same objects and the same free list that the classic table would give, plus the stream object itself. No offset or free-list link is ever truncated, whatever the file size, the id of the stream object and the sparsity of the ids. The stream dictionary carries the same Root, Info and ID as the classic trailer, and whatever filter function is supplied is applied exactly once to the raw rows and its output stored verbatim.",
  ["inputs", "histories", "configurations"],
  "as C01, for every choice of stream id (low, in a gap, above all others), every filter function and list of filter names, and file sizes around every width boundary (2^8, 2^16, 2^24)",
  "One fixed tiny document is covered; field widths, free lists and stream-id position vary with the history.",
  ["src/lib.rs"],
  [("Pdf::finish_with_xref_stream", "src/lib.rs"), ("XRefFilter", "src/lib.rs")],
  ["bytes returned by the finish call, and the bytes handed to the filter function"])
p("C03", "Finishing panics exactly when an object id was written twice",
  "Finishing a document (with either kind of cross-reference) panics if and only if some object id was used for more than one object, naming one such id, no matter how the two objects got into the document: written directly, merged from a chunk, as catalog or document info, or as the cross-reference stream object itself.",
  ["histories"],
  "all histories of writing and merging objects with and without id collisions, adjacent or far apart in id and in writing order",
  "Tests cover two adjacent writes of the same id.",
  ["src/lib.rs"], [("duplicate check while finishing", "src/lib.rs")], ["panic or normal return of the finish calls"])
p("C04", "Every number is written so that it reads back exactly",
  "Every 32-bit integer and every finite 32-bit float, wherever it is written (objects, arrays, rectangles, operands, typed setters), appears as one number token of the PDF grammar, with no exponent, that reads back (as an integer, or rounded to a 32-bit float) as exactly that value; integral floats in the 32-bit integer range are written as integers. Neighbouring tokens never merge with it.",
  ["inputs"], "all 2^32 i32 and all finite f32 bit patterns (enumerated completely in the thorough tier, densely sampled in the quick tier)",
  "A handful of numbers are tested; formatting switches algorithm across magnitudes.",
  ["src/buf.rs", "src/object.rs"], [("Buf::push_int/push_float/push_decimal", "src/buf.rs")], ["bytes written for a number"])
p("C05", "Every byte string reads back exactly",
  "Any byte string written as a string object reads back, under the PDF string rules (literal with escapes and balanced parentheses, end-of-line normalisation, octal escapes, or hexadecimal), as exactly the same bytes. It is one self-delimiting token, so nothing in its content can end it early or leak into what follows.",
  ["inputs"], "all byte strings; all strings of length 0..2 enumerated, longer ones generated (balanced and unbalanced parentheses, backslashes, CR/LF, octal look-alikes, file-structure keywords)",
  "A few literal samples are tested.", ["src/object.rs", "src/buf.rs"], [("Primitive for Str", "src/object.rs")], ["bytes written for a string"])
p("C06", "Every name reads back exactly and never swallows its neighbours",
  "Any byte string written as a name (as value, dictionary key, operand or resource name) uses only printable regular characters and #xx escapes, and reads back as exactly the same bytes, including empty names, '#', delimiters, white space and non-ASCII bytes; in every layout the token that follows it stays separate.",
  ["inputs", "configurations"], "all byte strings as names, in every position, followed by every kind of token, in both layouts; all names of length 0..2 enumerated",
  "Only a few names are tested, and none in front of every other token kind.", ["src/object.rs", "src/buf.rs"], [("Primitive for Name", "src/object.rs"), ("Obj spacing rules", "src/object.rs")], ["bytes written for a name and its neighbours"])
p("C07", "Text strings decode to the same Unicode text and languages",
  "Any Unicode text written as a text string decodes, by the PDF rules for text strings (PDFDocEncoding or UTF-16BE with byte order mark), to exactly that text, and text with language tags decodes to the same segments, each preceded by an escape carrying its language and optional region code.",
  ["inputs"], "all Unicode strings (every scalar value enumerated in blocks), all lists of tagged segments",
  "Two or three samples; non-BMP, PDFDocEncoding gaps, control characters and the ASCII/UTF-16 boundary are not sampled.", ["src/object.rs"], [("Primitive for TextStr, TextStrWithLang", "src/object.rs"), ("LanguageIdentifier", "src/object.rs")], ["bytes written for a text string"])
p("C08", "Dates are written as well-formed PDF date strings of the clamped fields",
  "Any date, built by calling its setters in any order with any values, is written as a PDF date string D:YYYYMMDDHHmmSS with zero-padded fields clamped to their ranges, truncated at the first field that was never set. The UTC offset appears only on a complete date, as Z when it is zero, else as sign, two-digit hours, apostrophe, two-digit minutes, with the sign of the hour offset.",
  ["inputs"], "all setter sequences and all values of every field", "Two dates are tested.", ["src/object.rs"], [("Date setters and Primitive for Date", "src/object.rs")], ["bytes written for a date"])
p("C09", "Object trees read back as written, in every layout and by every builder path",
  "Any tree of null, booleans, numbers, strings, names, references, rectangles, dates, arrays and dictionaries written through the builders parses back, with a strict PDF parser, to the same tree with all entries in order and nothing extra; this holds for pretty and compact layout, for any nesting depth, at any position (indirect object, array item, dictionary value, operand), and whether containers are finished explicitly or dropped. The different ways to build the same thing (item/items/push/pairs/typed arrays and dictionaries) write equivalent objects, and the reported container lengths equal the number of entries written.",
  ["inputs", "programs", "configurations"], "all object trees and all ways of building them", "Tests check a few small trees by exact bytes in one layout.",
  ["src/object.rs", "src/buf.rs", "src/chunk.rs"], [("Obj, Array, Dict, TypedArray, TypedDict", "src/object.rs"), ("Drop-based closing", "src/object.rs")], ["written bytes parsed by an independent parser"])
p("C10", "Stream data is stored verbatim with its exact length",
  "For any stream data and any extra dictionary entries, the written object is a dictionary with exactly one correct Length and the entries given, followed by the data byte for byte (delimited by line ends and endstream), whatever keywords or line ends the data contains. Everything written before and after the stream stays intact and is found where the file says it is.",
  ["inputs"], "all byte sequences as stream data (empty, keyword-bearing, CR/LF-terminated, up to MBs), every stream-based writer",
  "Tests use short printable streams.", ["src/object.rs", "src/chunk.rs"], [("Stream start/drop", "src/object.rs")], ["written bytes parsed by an independent parser"])
p("C11", "Merging chunks preserves every object and its place",
  "Merging any chunks into a chunk or document, in any nesting and order and with any layouts, gives exactly the concatenation of their objects: each object's bytes are unchanged, the list of ids reported is that of the sources in order of writing, and in the finished file every merged object is located correctly. The sources stay unchanged.",
  ["histories"], "all trees of chunk merges over generated objects", "One merge of two chunks is tested.",
  ["src/chunk.rs", "src/lib.rs"], [("Chunk::extend", "src/chunk.rs"), ("Chunk::refs", "src/chunk.rs")], ["Chunk::as_bytes, refs, len; finished file"])
p("C12", "Renumbering maps every definition and reference and nothing else",
  "Renumbering a chunk with any mapping gives a chunk with the same objects in the same order in which each object id and each indirect reference (anywhere in the object's nested values or stream dictionary, including references to ids not in the chunk) is replaced by its image, all other values are unchanged, and stream data is byte-identical. Text inside strings, names and stream data that merely looks like a reference or keyword is never touched. Renumbering into a non-empty chunk only appends, and the result merges, renumbers again and finishes like any directly written chunk.",
  ["inputs", "histories", "configurations"], "all chunks (any object tree, layouts, adversarial string/name/stream contents) and all mappings, including non-injective-on-unused, huge and permuting ones, and compositions of renumberings",
  "One fixed chunk and mapping is tested.", ["src/renumber.rs", "src/chunk.rs"], [("Chunk::renumber / renumber_into", "src/chunk.rs"), ("renumber scanner", "src/renumber.rs")], ["renumbered chunk parsed by an independent parser; calls made to the mapping"])
p("C13", "Content streams contain exactly the operations issued, in order",
  "For any sequence of content operations, the finished content stream parses to exactly that sequence of PDF operators, each with its operands in the documented order and encoding (numbers, names, strings, arrays, property lists), in both layouts. No operation is lost, merged or reordered, and the graphics-state nesting depth reported always equals saves minus restores, never below zero.",
  ["programs", "inputs", "configurations"], "all sequences of content operations with all argument values", "Tests check three short sequences.",
  ["src/content.rs"], [("Content operators", "src/content.rs"), ("Operation", "src/content.rs")], ["bytes of Content::finish, state_nesting_depth"])
p("C14", "Reported implementation limits equal the maxima actually written",
  "For any chunk, document, content stream or encoded calculator function, the reported limits (largest integer magnitude, saturating at the 32-bit maximum; largest magnitude of a real that is not written as a 32-bit integer; longest name and string in decoded bytes; longest array; largest dictionary) equal the maxima over everything actually written into it. Merging and renumbering combine limits by taking the larger, so a limit is never under-reported or invented.",
  ["inputs", "histories"], "all written objects, content operations, merges and renumberings", "Tests check a few single writes.",
  ["src/buf.rs", "src/object.rs", "src/chunk.rs", "src/content.rs"], [("Limits registration", "src/buf.rs"), ("Limits::merge", "src/buf.rs")], ["limits() of chunks, buffers and documents"])
p("C15", "Character maps give every glyph exactly its text",
  "For any sequence of glyph-to-text pairs, a generated character map (1-byte or 2-byte codes) parses to exactly those mappings in order, with each destination the UTF-16BE form of all its code points, in blocks of at most 100 whose announced counts are right, within a code space range covering all codes. Name, character collection info and writing mode appear as given.",
  ["inputs"], "all pair sequences, block-boundary lengths (0, 1, 99..101, 199..201, ...), all code points, any names", "One fixed map with four pairs is tested.",
  ["src/font.rs"], [("UnicodeCmap", "src/font.rs")], ["bytes of UnicodeCmap::finish"])
p("C16", "PostScript calculator functions encode exactly the operators given",
  "Any sequence of calculator operators, with conditionals nested to any depth, encodes to PostScript text in braces whose tokens are exactly those operators and operands in order, with true and false branches as brace blocks before if/ifelse, integers as integers and reals as numbers equal to them that never read as a 32-bit integer.",
  ["programs", "inputs"], "all operator trees", "One short program is tested.",
  ["src/functions.rs"], [("PostScriptOp::encode", "src/functions.rs")], ["bytes of PostScriptOp::encode"])
typed = "Each setter adds exactly one entry with the documented key and a value encoding exactly the argument (every enumeration value and flag bit included); entries not asked for, except the documented fixed ones such as Type and Subtype, never appear."
tw = "Only a handful of writers have any test; keys, enum spellings, flag bits, argument order and nesting are unverified for the rest, and value-dependent and sequence-dependent behaviour cannot be sampled by hand."
tq = "all sequences of setter calls with all argument values and enum variants, nested sub-writers at any depth, at any position (indirect object, array item, dictionary value), in both layouts"
p("C17", "Document structure writers produce the documented dictionaries",
  "Catalog, pages, page tree, outlines, destinations, name and number trees, page labels, viewer preferences, metadata, optional document info, mark info, developer extensions and output intents parse back to the entries of ISO 32000 that the calls ask for. " + typed,
  ["programs", "inputs", "configurations"], tq, tw, ["src/structure.rs", "src/object.rs"], [("Catalog, Page, Pages, Outline, ...", "src/structure.rs")], ["written objects parsed by an independent parser"])
p("C18", "Structure tree and attribute writers produce the documented entries",
  "Structure tree roots, elements, role maps, class maps, namespaces, marked and object references, parent trees, id trees and all attribute owners (layout, list, print field, table, artifact and user properties) parse back to the entries of ISO 32000 that the calls ask for. " + typed,
  ["programs", "inputs", "configurations"], tq, tw, ["src/structure.rs", "src/attributes.rs"], [("StructElement, Attributes, LayoutAttributes, ...", "src/attributes.rs")], ["written objects parsed by an independent parser"])
p("C19", "Font writers produce the documented dictionaries",
  "Type 1, Type 3, Type 0 and CID fonts, descriptors, encodings with differences, width arrays, character-map stream dictionaries and font-embedding entries parse back to the entries of ISO 32000 that the calls ask for. Glyph differences and width runs decode to exactly the codes, names and widths given. " + typed,
  ["programs", "inputs", "configurations"], tq, tw, ["src/font.rs"], [("Type0Font, CidFont, FontDescriptor, Widths, Differences, ...", "src/font.rs")], ["written objects parsed by an independent parser"])
p("C20", "Color, pattern, shading and function writers produce the documented objects",
  "All color space forms (CIE-based, ICC, indexed, pattern, Separation, DeviceN with its attributes), tiling and shading patterns, all shading kinds, all function kinds and output-intent related color objects parse back to the arrays and dictionaries of ISO 32000 that the calls ask for, with elements in the documented order. " + typed,
  ["programs", "inputs", "configurations"], tq, tw, ["src/color.rs", "src/functions.rs"], [("ColorSpace, TilingPattern, FunctionShading, StreamShading, ...", "src/color.rs"), ("function writers", "src/functions.rs")], ["written objects parsed by an independent parser"])
p("C21", "Annotation, action and multimedia writers produce the documented dictionaries",
  "Annotations of all kinds with borders, appearances and appearance characteristics, actions with their triggers, fields and targets, renditions, media clips, media players and page transitions parse back to the entries of ISO 32000 that the calls ask for. " + typed,
  ["programs", "inputs", "configurations"], tq, tw, ["src/annotations.rs", "src/actions.rs", "src/renditions.rs", "src/transitions.rs"], [("Annotation, Action, AdditionalActions, Rendition, Transition, ...", "src/annotations.rs")], ["written objects parsed by an independent parser"])
p("C22", "Form field and signature writers produce the documented dictionaries",
  "Interactive forms, fields of all kinds, choice options, signature fields, signature values, signature references, seed values and certificate seed values parse back to the entries of ISO 32000 that the calls ask for. " + typed,
  ["programs", "inputs", "configurations"], tq, tw, ["src/forms.rs"], [("Form, Field, SignatureSeedValue, CertificateSeedValue, ...", "src/forms.rs")], ["written objects parsed by an independent parser"])
p("C23", "XObject, resource, file and filter writers produce the documented objects",
  "Image and form XObjects with groups, soft masks and references, graphics state parameter dictionaries, resource dictionaries, file specifications, embedded files with parameters and filter and decode-parameter entries of streams parse back to the entries of ISO 32000 that the calls ask for. " + typed,
  ["programs", "inputs", "configurations"], tq, tw, ["src/xobject.rs", "src/content.rs", "src/files.rs", "src/object.rs"], [("ImageXObject, FormXObject, ExtGraphicsState, Resources, FileSpec, EmbeddedFile, DecodeParms, Filter", "src/xobject.rs")], ["written objects parsed by an independent parser"])
p("C24", "Structure role mapping between PDF 1.7 and 2.0 is consistent",
  "Every typed structure role (PDF 1.7 and 2.0, headings of every level) is written under its standard name and classified under its standard type. A 1.7 role whose name also exists in 2.0 converts to exactly that 2.0 role and back; a 2.0 role is reported as directly compatible with 1.7 if and only if a 1.7 role of the same name exists (and then with that role), and otherwise falls back to the documented 1.7 role selected by the options. The fallible conversions between the two versions succeed exactly in the compatible cases and agree with these mappings",
  ["inputs"], "all roles of both versions (complete enumeration), heading levels over all values", "Nothing tests the mapping tables.",
  ["src/structure.rs"], [("StructRole, StructRole2, compatibility mapping", "src/structure.rs")], ["return values of the mapping functions, written names"])
p("C25", "Documented panics fire exactly on the documented invalid arguments",
  "Every argument check that the documentation announces (object ids must be positive, line widths non-negative, flatness within 0..=100, bit depths, component and color counts, non-zero pattern steps, outline counts, call-order requirements) panics for exactly the invalid arguments and never for a valid one. Language identifiers accept exactly two ASCII alphanumeric characters per part. All other calls with finite numbers never panic, and in particular no arithmetic overflow occurs anywhere for any input.",
  ["inputs"], "all argument values of the checked calls, valid and invalid", "No test exercises the checks at their boundaries.",
  ["src/object.rs", "src/content.rs", "src/color.rs", "src/structure.rs"], [("assertions in setters", "src/content.rs")], ["panic or normal return"])
p("C26", "Output depends only on the calls made",
  "What a program of builder calls writes is a function of the calls and the chosen layout only: repeating it gives identical bytes, initial capacities and how buffers grew make no difference, writing into a clone never affects the original and vice versa, and the compact layout parses to the same objects or operations as the pretty one, with chunks never longer.",
  ["programs", "configurations"], "all generated programs of builder calls replayed under different capacities, layouts, clones and prior buffer contents", "Tests use one configuration and one run.",
  ["src/chunk.rs", "src/lib.rs", "src/content.rs", "src/buf.rs"], [("Settings, with_capacity, Clone", "src/chunk.rs")], ["output bytes under different configurations"])
p("C27", "Value helpers obey their algebra",
  "An object reference keeps the id it was made from, orders, compares and hashes like it, and hands out successive distinct ids (bump returns the old id and advances by one; next is one more). A rectangle keeps its four coordinates and its corner points come out counterclockwise from the first corner. Every accessor of a chunk or buffer (slice, owned bytes, length, ids) shows the same bytes and ids that were written",
  ["inputs"], "all ids and rectangles", "Only trivial uses occur in tests.", ["src/object.rs", "src/buf.rs"], [("Ref, Rect, Buf accessors", "src/object.rs")], ["return values"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
