#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
I="include/fast_ber/"; U=I+"util/"; T=I+"ber_types/"; C="src/compiler/"

prop("B01","Parsing one BER element is exact, confined to the buffer, and rejects malformed",
 "For every byte buffer, parsing the element at its front reports exactly the class, construction, tag number, header length and content that X.690 assigns to those bytes (low and high tag-number form, short and long definite length), independently of whatever bytes follow the element. A buffer whose identifier or length octets are truncated, that uses the indefinite form or more than eight length octets, whose tag number exceeds 63 bits, or whose declared content does not fit in the buffer (including lengths that overflow machine arithmetic) is reported invalid. A valid element never refers to a byte outside the buffer.",
 ["inputs"],"every byte buffer of any length",
 "Tests parse a few dozen hand-written packets; the claim is over all buffers, including boundary lengths near 2^64 and tag numbers near 2^63 that no test contains.",
 [U+"Extract.hpp",U+"BerView.hpp"],
 [("identifier and length extraction",U+"Extract.hpp extract_tag, extract_length"),("view assignment bounds check",U+"BerView.hpp BerView::assign")],
 ["BerView(buffer): is_valid, class_, construction, tag, header_length, content, ber","extract_tag/extract_length/extract_class/extract_construction results"])

prop("B02","Writing a header is minimal, exactly predicted, inverse to parsing, and bounded",
 "For every class, construction, non-negative tag number and content length, the header written is the shortest X.690 definite-form header, its length equals the predicted length, and parsing it gives back the same four values; with two nested identifiers the inner element is wrapped in a constructed outer element. Adding a header around content already in the buffer preserves that content byte for byte. When the output buffer is too small the operation reports failure and no byte outside the buffer is ever written.",
 ["inputs"],"every class, construction, tag in [0, 2^63), content length, one or two nested identifiers, content offset and output buffer size",
 "Tests encode a handful of tags and lengths into generously sized buffers; thresholds (30/31, 127/128, 2^7k, 2^8k) and every short buffer size are not enumerated.",
 [U+"EncodeIdentifiers.hpp",U+"EncodeHelpers.hpp",T+"Identifier.hpp"],
 [("identifier and length encoders",U+"EncodeIdentifiers.hpp"),("in place wrapping",U+"EncodeHelpers.hpp wrap_with_ber_header")],
 ["encode_identifier/encode_length/encode_header return value and buffer","encoded_*_length","wrap_with_ber_header"])

prop("B03","Iteration visits exactly the well-formed prefix of sibling elements, in order",
 "Iterating over a buffer or over the children of an element visits, in order and exactly once each, the elements obtained by repeatedly parsing at the end of the previous one, and stops at the end of the data or at the first element that does not parse, for both read-only and mutable iteration. Every visited element lies inside the iterated range, and elements visited are identical however the traversal is expressed (range loop, decode-and-advance, nested iteration). Re-encoding a visited element reproduces its bytes exactly, or reports failure when the output buffer is too small.",
 ["inputs","histories"],"every byte buffer and every traversal depth",
 "Tests iterate over two or three well-formed packets; truncated or corrupt siblings at every position and nested depths are not covered.",
 [U+"BerView.hpp",U+"DecodeHelpers.hpp"],
 [("iterator advance and end detection",U+"BerView.hpp BerViewIterator, MutableBerViewIterator"),("decode and advance",U+"DecodeHelpers.hpp decode(BerViewIterator&)")],
 ["sequence of (offset, header length, content length) produced by iteration","BerView::encode"])

prop("B04","BOOLEAN, INTEGER, ENUMERATED and NULL values map to and from BER exactly",
 "Every boolean, 64-bit integer, enumerated and null value encodes, under any single or two-level identifier, to the X.690 contents with the minimal integer length, and decoding those bytes gives back the value. Decoding succeeds only for elements with the expected identifier(s), primitive construction and an admissible content length (one octet for booleans, none for nulls, one to eight for readable integers), and a value read after a successful decode is the two's-complement reading of the contents. A failed decode or a short output buffer is reported and corrupts nothing.",
 ["inputs","histories"],"every value, every element offered for decoding, and every sequence of assignments, copies and decodes",
 "Tests use around ten integers and two booleans; sign/length boundaries at every byte width, tagged variants and sequences of re-assignment are not enumerated.",
 [T+"Boolean.hpp",T+"Integer.hpp",T+"Enumerated.hpp",T+"Null.hpp",U+"SmallFixedIdBerContainer.hpp"],
 [("integer codec",T+"Integer.hpp encode_integer, decode_integer"),("fixed storage",U+"SmallFixedIdBerContainer.hpp")],
 ["encode output, encoded_length, decode result, value()"])

prop("B05","OBJECT IDENTIFIER arcs map to and from BER exactly",
 "Every object identifier value (at least two arcs, first arc 0 to 2, second arc below 40 unless the first is 2, arcs up to 63 bits) encodes to the X.690 subidentifier contents and decodes back to the same arcs; the component count and each individual component read from the object agree with the full value. Values that are not object identifiers are refused and leave no misleading value behind. Contents that are truncated inside a subidentifier or exceed 63 bits are never reported as some other object identifier.",
 ["inputs"],"every arc list and every content octet string",
 "Tests encode a couple of short identifiers; arc boundaries at 2^7k, first arc 2 with a large second arc, and malformed contents are unreachable by those samples.",
 [T+"ObjectIdentifier.hpp"],
 [("subidentifier codec",T+"ObjectIdentifier.hpp encode_object_id, decode_object_id, get_component_number")],
 ["assign result, encode output, value(), number_of_components(), component_number(n)"])

prop("B06","REAL values round-trip exactly and foreign encodings decode to their value",
 "Every double (normal, subnormal, both zeros, infinities, NaN) encodes to X.690 REAL contents denoting exactly that number and decodes back to it. Any valid X.690 base 2, 8 or 16 binary, decimal or special contents decode to the denoted value: exactly when a double can represent it, otherwise to one of the two doubles around it. Contents that are not a valid REAL are refused.",
 ["inputs"],"every double and every REAL content octet string up to the supported length",
 "Tests list a few dozen doubles and encodings; exponent widths, scale factors, bases, subnormals and mantissa alignments form a space no list covers.",
 [T+"Real.hpp","src/ber_types/Real.cpp"],
 [("binary codec",T+"Real.hpp encode_real, decode_real_binary, check_real_binary"),("decimal codec","src/ber_types/Real.cpp")],
 ["encode_real output, decode_real result and output, Real::value()"])

prop("B07","Time values round-trip through their textual BER form",
 "Every instant with a four digit year and whole seconds, set as universal, local, or with an offset in minutes, encodes to the corresponding YYYYMMDDHHMMSS text with the right suffix, reports that format, and reading the time back gives the instant that was set. Decoding accepts only elements with the right identifier, primitive form and a plausible length, and a refused decode is reported and leaves the previous value unchanged. Unparseable text is reported as an error when the time is read and never yields a wrong instant or an out-of-bounds access.",
 ["inputs","histories"],"every second from year 0 to 9999, every offset, every content octet string, and every sequence of sets and decodes",
 "Tests set two or three instants; leap years, month ends, offsets, short or suffix-only texts and failed re-decodes are not sampled.",
 [T+"GeneralizedTime.hpp",T+"UTCTime.hpp"],
 [("format and parse",T+"GeneralizedTime.hpp set_time, time, format"),("decode length gate",T+"GeneralizedTime.hpp decode")],
 ["string(), format(), time() or its exception, encode output, decode result"])

prop("B08","Owning strings and containers behave as plain byte strings over any history",
 "After any sequence of constructions, content assignments, resizes, copies, moves, decodes and element writes, an owning string or element container holds exactly the identifier and content bytes the sequence implies, its stored encoding is the well-formed encoding of that content, and encoding or reading it yields those bytes. Copies are independent of their source, resizing preserves the common prefix and zero-fills growth (fixed-capacity containers leave the uncovered octets unspecified), and a failed decode leaves a fixed-identifier object unchanged. Objects that were moved from or whose decode failed can be reassigned and reused safely.",
 ["histories","inputs"],"every finite sequence of operations on a pool of objects, with content lengths on both sides of every header and inline-storage boundary",
 "Tests perform one or two operations per object; interactions between storage mode (inline or heap), header growth and move, copy or failed decode need multi-step histories.",
 [U+"BerContainer.hpp",U+"FixedIdBerContainer.hpp",U+"SmallFixedIdBerContainer.hpp",T+"StringImpl.hpp"],
 [("content storage with header in front",U+"FixedIdBerContainer.hpp assign_content, resize_content, decode_impl"),("runtime identifier container",U+"BerContainer.hpp")],
 ["content(), ber(), encode(), view(), comparison, is_valid"],
 [("m_data, m_content_length","encoded element and the length of its content",U+"FixedIdBerContainer.hpp"),("m_data, m_view","encoded element and view into it",U+"BerContainer.hpp")])

prop("B09","Heap-stored variants hold exactly one live alternative over any history",
 "After any sequence of constructions, emplaces, assignments, copies, moves, swaps and visits, a choice stored out of line holds exactly the alternative and value the sequence implies, with every alternative object constructed once and destroyed once, and lookups by type or index succeed exactly for the held alternative. Copies are deep and leave the source unchanged, assignment from itself is harmless, and moved-from variants can be assigned and destroyed. Comparison follows the held alternative and then the value, as for a standard variant.",
 ["histories"],"every finite sequence of operations on a pool of variants",
 "Tests exercise single operations; lifetime errors such as double destruction, leaks and use after free appear only in particular sequences such as self-assignment or assign after move.",
 [U+"DynamicVariant.hpp",U+"DynamicVariantHelpers.hpp",T+"Choice.hpp"],
 [("owning pointer and index",U+"DynamicVariant.hpp"),("choice wrapper",T+"Choice.hpp")],
 ["index(), holds_alternative, get, get_if, visit, comparison results, construction and destruction counts"],
 [("m_data, m_index","owned alternative and which it is",U+"DynamicVariant.hpp")])

prop("B10","OPTIONAL and DEFAULT members hold exactly what was last assigned or decoded",
 "After any sequence of assignments, emplaces, resets, copies, moves and decodes, an optional member is absent or holds exactly the implied value, and a defaulted member reads as its default or as the implied value, in both in-place and heap storage. Absent optionals and members equal to their default because of assignment encode to nothing with predicted length zero, and otherwise to the encoding of the value. Decoding an absent element clears or resets the member, decoding an element with the right identifier replaces it, and any other element is refused.",
 ["histories","inputs"],"every finite sequence of operations on a pool of optional and default members, both storage modes",
 "Tests check single assignments and decodes; stale values after failed or absent decodes and heap copy semantics need operation sequences.",
 [T+"Optional.hpp",U+"DynamicOptional.hpp",T+"Default.hpp"],
 [("optional storage",U+"DynamicOptional.hpp"),("default elision",T+"Default.hpp")],
 ["has_value, value, is_default, get, encode, encoded_length, decode"],
 [("m_val","heap optional value",U+"DynamicOptional.hpp"),("m_item","explicit value, or empty for the default",T+"Default.hpp")])

prop("G01","Generated SEQUENCE decoding accepts exactly the order the schema allows",
 "For every schema and input, a generated SEQUENCE decodes successfully exactly when the element has its identifier and constructed form and its children match the components in order, with optional and defaulted components skipped only when the next child does not carry their identifier, and every present component decoding successfully. On success each component holds the value of its own child, absent optionals are empty and absent defaulted components read as their default. Additional trailing children are ignored.",
 ["inputs","programs"],"every schema within the supported language and every input element",
 "The tests decode a few packets for a few schemas; the claim quantifies over schemas (any mix of optional, default, choice and nested components) and over missing, reordered, repeated or foreign children.",
 [C+"EncodeDecode.cpp",T+"Optional.hpp",T+"Default.hpp"],
 [("generated collection decoder",C+"EncodeDecode.cpp create_collection_decode_functions")],
 ["decode result and component values of generated types"])

prop("G02","Generated SET decoding is order-independent, complete and duplicate-free",
 "For every schema and input, a generated SET decodes successfully exactly when the element has its identifier and constructed form, each child carries the identifier of some component and decodes as it, no component occurs twice and every mandatory component occurs, whatever the order of the children. Children with unknown identifiers are refused unless the set is extensible, in which case they are skipped. The decoded value does not depend on the order of the children, and absent optional or defaulted components are empty or default.",
 ["inputs","programs"],"every SET schema, every permutation, omission, duplication and insertion of children",
 "The tests use one or two sets and a few permutations; permutations crossed with omissions, duplicates and unknown identifiers over arbitrary schemas are out of reach.",
 [C+"EncodeDecode.cpp"],
 [("generated set decoder with per-component counts",C+"EncodeDecode.cpp create_collection_decode_functions")],
 ["decode result and component values of generated types"])

prop("G03","Generated CHOICE selects the alternative whose class and tag match, or refuses",
 "For every schema and input, decoding a generated CHOICE selects exactly the alternative whose identifier (class and tag number, through nested untagged choices) is carried by the element and succeeds exactly when that alternative decodes; elements matching no alternative are refused. A choice with its own tag requires and unwraps that tag. Encoding a choice emits exactly the held alternative under its identifier.",
 ["inputs","programs"],"every CHOICE schema, alternative, and input element of any class and tag",
 "The tests decode the alternatives they encode; identifiers sharing a tag number across classes, unknown identifiers and nested choices are not crossed.",
 [C+"EncodeDecode.cpp",C+"GenerateChoice.cpp",C+"Identifier.cpp",T+"Choice.hpp"],
 [("generated choice decoder",C+"EncodeDecode.cpp create_choice_decode_functions"),("identifier computation",C+"Identifier.cpp outer_identifiers")],
 ["decode result, index and value of generated choices"])

prop("G04","SEQUENCE OF and SET OF preserve every element in order at any count",
 "For every element type and every number of elements, including none and counts beyond any inline storage, encoding a SEQUENCE OF or SET OF emits all elements in order and decoding gives back the same elements in the same order. Decoding replaces the previous elements, fails if any element fails to decode, and the predicted length equals the encoded length. Growing, copying and moving the collection keeps the elements intact.",
 ["inputs","histories","programs"],"every element type, element count, and sequence of collection operations",
 "The tests use collections of one to three elements; inline-to-heap transitions, nested collections and re-decoding into a populated target are not enumerated.",
 [T+"SequenceOf.hpp",T+"SetOf.hpp"],
 [("collection codec",T+"SequenceOf.hpp")],
 ["size and elements after decode, encode output, encoded_length"])

prop("G05","Generated code encodes every value to the exact BER of its schema, reversibly",
 "For every schema the compiler accepts and every value of its types, the generated encoder emits exactly the bytes X.690 prescribes for that value under the schema (definite lengths, components in schema order, absent optionals and defaults omitted). Decoding those bytes succeeds and yields an equal value whose re-encoding is identical. This holds through any nesting of the supported types.",
 ["inputs","programs"],"every accepted schema and every value of every type it defines",
 "The tests check some values of a dozen fixed schemas, mostly by comparing the library with itself; no test quantifies over schemas.",
 [C+"EncodeDecode.cpp",C+"TypeAsString.cpp",C+"Identifier.cpp","src/compiler_main/CompilerMain.cpp"],
 [("code generation",C),("runtime codecs",T)],
 ["bytes written by generated encoders, values read by generated decoders"])

prop("G06","Encoding predicts its length exactly and never writes past the output buffer",
 "For every value of every generated type, the predicted encoded length equals the number of bytes a successful encode produces, and encoding into a buffer of at least that size succeeds with the same bytes. Encoding into any smaller buffer reports failure. No byte outside the given buffer is ever written, whatever the buffer size.",
 ["inputs","programs"],"every type, value and output buffer size from zero upwards",
 "Tests encode into large fixed buffers; failure at each individual byte boundary of nested, wrapped and in-place shifted encodings is not explored.",
 [C+"EncodeDecode.cpp",U+"EncodeHelpers.hpp",T+"SequenceOf.hpp"],
 [("length prediction and in place header insertion",U+"EncodeHelpers.hpp wrap_with_ber_header")],
 ["encode result and buffer contents for every buffer size","encoded_length()"])

prop("G07","Decoding untrusted bytes is total, confined, and independent of prior state",
 "For every generated type and every byte string, decoding terminates with success or failure without reading outside the input, undefined behaviour or an abort. The result and, on success, the decoded value depend only on the bytes of the first element: not on bytes after it and not on what the target object held before. A decoded value can be encoded, compared and copied safely.",
 ["inputs","programs","histories"],"every type, byte string, and previous content of the target",
 "Tests decode well-formed packets into fresh objects; hostile lengths, truncations at every byte, corruptions and re-use of a populated target are not enumerated.",
 [C+"EncodeDecode.cpp",U+"BerView.hpp",U+"DecodeHelpers.hpp",T+"Optional.hpp",T+"Choice.hpp"],
 [("bounded views",U+"BerView.hpp"),("generated decoders",C+"EncodeDecode.cpp")],
 ["decode results under memory and undefined-behaviour instrumentation, for fresh and populated targets"])

prop("G08","Declared tags govern the wire: class, number, explicit, implicit and automatic",
 "For every type and component with a declared tag, the encoding carries exactly the class and number the declaration, the module's tagging default and the rule that choices are always tagged explicitly prescribe, replacing the original identifier when implicit and wrapping it in a constructed element when explicit; automatic tagging numbers components consecutively from zero in the context class. Decoding accepts exactly those identifiers and refuses elements differing in class, number, or, for constructed types and explicit wrappers, in construction.",
 ["programs","inputs"],"every combination of tagging default, declared class, number and mode over every supported type and reference depth",
 "The tests check a handful of tagged types; class, number width, mode, default and reference form a product that samples leave mostly untouched.",
 [C+"Identifier.cpp",C+"TypeAsString.cpp",T+"Identifier.hpp",U+"DecodeHelpers.hpp"],
 [("identifier resolution",C+"Identifier.cpp identifier, outer_identifiers"),("header matching",U+"DecodeHelpers.hpp has_correct_header")],
 ["identifier octets written and accepted by generated types"])

prop("E01","Equality of generated values is exactly equality of their abstract values",
 "For any two values of a generated type without real-number parts, comparison for equality holds exactly when the alternatives, presence of optionals, effective defaulted values and all component values agree, regardless of whether each value was built, copied, moved or decoded. Inequality is always its negation, and a value equals its copy and its decoded encoding.",
 ["inputs","programs","histories"],"every generated type without REAL and every pair of values, however obtained",
 "Tests compare values built by the same code path; differing in exactly one deep component, or decoded from non-canonical lengths, is not explored.",
 [C+"GenerateHelpers.cpp",C+"GenerateChoice.cpp",T+"Optional.hpp",T+"Default.hpp",T+"StringImpl.hpp"],
 [("generated equality operators",C+"GenerateHelpers.cpp"),("member equality",T)],
 ["operator== and operator!= of generated types"])

prop("C01","Accepted schemas generate compilable code whatever the definition order",
 "For every valid schema in the supported language, the compiler succeeds and the generated headers compile, and the generated encodings do not depend on the order in which assignments or modules are written. Definitions may refer to later ones, across modules, and recursively through optional, choice or collection members. Every type of the schema is available under its name.",
 ["programs","configurations"],"every valid schema and every permutation of its assignments and of the modules given to the compiler",
 "Tests compile a fixed set of schema files in one order each; permutations and recursion patterns are not explored.",
 [C+"ReorderAssignments.cpp",C+"Dependencies.cpp",C+"TypeAsString.cpp","src/compiler_main/CompilerMain.cpp"],
 [("dependency ordering and cycle breaking",C+"ReorderAssignments.cpp"),("storage selection for recursive types",C+"TypeAsString.cpp")],
 ["compiler exit status, C++ compilation of the output, behaviour of the generated types"])

prop("C02","References resolve to the right definition across modules and imports",
 "For every set of modules, a reference denotes the definition of that name in its own module if there is one and otherwise the one imported from the named module, and the generated type behaves exactly as that definition even when other modules define different types of the same name. Tags and defaults follow the module in which a definition is written. Imports of names or modules that do not exist are refused with a diagnostic.",
 ["programs"],"every set of modules with imports and clashing names",
 "Tests use one import example; same-named definitions with different meanings and per-module tagging defaults are not crossed.",
 [C+"ResolveType.cpp",C+"ReorderAssignments.cpp",C+"Dependencies.cpp",C+"Identifier.cpp"],
 [("name resolution",C+"ResolveType.cpp"),("import splitting",C+"ReorderAssignments.cpp split_imports")],
 ["behaviour of generated types, compiler exit status"])

prop("C03","Parameterized types and COMPONENTS OF mean their textual expansion",
 "For every parameterized type used with actual type parameters, and every collection using COMPONENTS OF another, the generated type behaves exactly as the schema in which the parameters are substituted and the referenced components are written out in place. Distinct instantiations are independent of each other. This includes nested instantiation and references to definitions that appear later.",
 ["programs"],"every parameterized definition, actual parameter list, and COMPONENTS OF chain",
 "Tests contain one or two parameterized definitions; nested and multiple instantiations with different parameters are not explored.",
 [C+"Parameters.cpp",C+"ObjectClass.cpp",C+"ReorderAssignments.cpp"],
 [("parameter substitution",C+"Parameters.cpp"),("components-of expansion",C+"ReorderAssignments.cpp")],
 ["behaviour of generated types compared with the expanded schema"])

prop("C04","Invalid schemas are refused with a diagnostic, never mistranslated or crashed on",
 "Whenever a schema reuses a definition name in a module, refers to an undefined type, lists an undefined import, or is syntactically malformed, the compiler exits with a failure status and a diagnostic. The compiler never crashes, hangs or reads out of bounds, whatever text it is given. Valid schemas are never refused for these reasons.",
 ["programs","inputs"],"every schema text",
 "Tests feed two or three invalid schemas; truncations and single faults injected at every place of a schema are not enumerated.",
 [C+"asn_compiler.yacc",C+"ReorderAssignments.cpp",C+"ResolveType.cpp","src/compiler_main/CompilerMain.cpp"],
 [("duplicate and undefined name checks",C+"ReorderAssignments.cpp check_duplicated_names"),("parser error handling",C+"asn_compiler.yacc")],
 ["compiler exit status, diagnostics, signals"])

prop("C05","Named values and DEFAULTs carry the schema's constants into generated code",
 "For every schema, enumerators receive the numbers X.680 assigns (explicit numbers kept, the others filled from zero upwards avoiding them), named numbers and value assignments equal the literal they denote, and a component's DEFAULT reads as the denoted value of its type whether written as a literal or as a reference. A component whose default was not overridden is omitted from the encoding, and one set to any other value is present.",
 ["programs","inputs"],"every enumeration, value assignment and DEFAULT over the supported value notations",
 "Tests cover a few defaults and one enumeration; mixed explicit and implicit numbering, references and notations are not crossed.",
 [C+"ValueAsString.cpp",C+"ValueType.cpp",C+"TypeAsString.cpp",T+"Default.hpp"],
 [("value translation",C+"ValueAsString.cpp"),("enumeration numbering",C+"TypeAsString.cpp")],
 ["enumerator numbers on the wire, default values read from generated types, presence in encodings"])

prop("C06","Compilation is deterministic",
 "Compiling the same schema files in the same order always produces byte-identical headers, whatever the environment, working directory, process address layout or compilations run before or at the same time. The content depends only on the schema texts, the order they are given and the output name. A failed compilation of another schema has no effect on it.",
 ["configurations","histories","schedules"],"every schema and every run environment",
 "Tests compile each schema once and never compare two outputs.",
 ["src/compiler_main/CompilerMain.cpp",C+"CppGeneration.cpp",C+"Dependencies.cpp"],
 [("output assembly","src/compiler_main/CompilerMain.cpp")],
 ["bytes of the three generated headers"])

prop("V01","The viewer prints the exact structure and values of any well-formed input",
 "For every input made of BER elements, the viewer prints for each one, in order and recursively, its true length and identifier, and for universal primitive types its decoded value, without crashing on any bytes. Constructed elements list exactly their well-formed children. Content that does not decode as its type is shown as opaque data or an error-free fallback rather than as a wrong value.",
 ["inputs"],"every byte file",
 "No test runs the viewer on more than a sample file or inspects its structure.",
 ["src/view/view.cpp","src/util/BerView.cpp"],
 [("recursive printer","src/util/BerView.cpp operator<<")],
 ["standard output and exit status of the viewer program"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
