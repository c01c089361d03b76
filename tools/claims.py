TV = "TLA+ specification (TLC): "
ASSUME = " Trusted: TLC, the TLA+ reading of X.690, the recording harness; the code is observed under ASan/UBSan, outside TLC's inputs only by sampling."
CLAIMS = {
"B01": (TV + "exhaustive model of short buffers replayed into the parser, plus recorded parses judged by the specification",
        "All octet strings up to 4 (thorough 5) octets over an 11 symbol alphabet of header octets are enumerated by TLC, parsed by the code, and every result judged; plus seeded boundary, hostile and random buffers." + ASSUME),
"B02": (TV + "recorded header encodings and in-place wrappings judged by the specification",
        "Every tag and length threshold with every class, and exact, short and empty output buffers; one and two level static identifiers." + ASSUME),
"B03": (TV + "exhaustive model of sibling sequences replayed into the iterators, plus recorded traversals judged by the specification",
        "All octet strings up to 6 (thorough 7) octets over a small alphabet, every truncation of nested structures, random and corrupted trees." + ASSUME),
"B04": (TV + "every history of two operations on small pools and every short contents string replayed into the code; recorded sessions judged by the state machine of the specification",
        "BOOLEAN, INTEGER, ENUMERATED (8, 32, 64 bit) and NULL under six identifiers: TLC enumerates all two-operation histories and all contents up to 4 octets over boundary octets; every power of two and its neighbours, long histories sampled." + ASSUME),
"B05": (TV + "every history of two operations and every short contents string replayed into the code; recorded sessions judged by the state machine of the specification",
        "Object identifiers: all two-operation histories, all contents up to 4 (5) octets over boundary octets, arcs around every power of 128 up to 2^63-1, corrupted and overlong contents." + ASSUME),
"B06": (TV + "every history of two operations and short contents replayed into the code; recorded values compared with exact arithmetic in the specification",
        "REAL: doubles at every 7th (thorough: every) binary exponent, subnormals, specials, random bits; binary contents of every base, scale and exponent form, decimal contents, judged by exact big number arithmetic (the bracketing doubles)." + ASSUME),
"B07": (TV + "civil calendar model checked over the years; recorded sessions judged by the state machine of the specification",
        "GeneralizedTime/UTCTime: model of the calendar checked over all days of boundary years; set, read, decode under several time zones, all formats, damaged texts." + ASSUME),
"B08": (TV + "every history of two (thorough three) operations on three containers replayed into the code; recorded sessions judged by the state machine of the specification",
        "BerContainer, FixedIdBerContainer, SmallFixedIdBerContainer and six string types: all two-operation histories over lengths around the header and inline storage boundaries, long random histories incl. self overlap, moves, failed decodes." + ASSUME),
"B09": (TV + "every history of two (thorough three) operations on two variants replayed into the code; recorded sessions judged by the state machine of the specification",
        "DynamicVariant, Choice in dynamic and static storage over alternatives that count their lifetimes: all construction, assignment, emplace, access, move and comparison forms, throwing constructors, aliases." + ASSUME),
"B10": (TV + "every history of two (thorough three) operations on two members replayed into the code; recorded sessions judged by the state machine of the specification",
        "Optional (static and dynamic) and Default of integers, reals, strings and booleans under single and double identifiers: sets, clears, copies, moves, decodes of own, foreign, truncated and malformed elements." + ASSUME),
"G01": (TV + "every short SEQUENCE type with every row of elements, enumerated by TLC, replayed into generated code; recorded decodings of random schemas judged by the specification of ASN.1 schemas",
        "All SEQUENCEs of up to 2 (thorough 3) components over a pool of five component types x mandatory/optional/default, with all rows of up to 2 elements over nine elements; random schemas with right, damaged and random elements." + ASSUME),
"G02": (TV + "every short SET type with every row of elements, enumerated by TLC, replayed into generated code; recorded decodings of random schemas judged by the specification",
        "As G01 for SETs, extensible and not; unknown, duplicate, missing and permuted elements." + ASSUME),
"G03": (TV + "every short CHOICE type with every element, enumerated by TLC, replayed into generated code; recorded decodings of random schemas judged by the specification",
        "As G01 for CHOICEs, incl. untagged choices within choices, tagged choices, elements of other classes and forms." + ASSUME),
"G04": (TV + "every history of two (thorough three) operations on two collections and long random histories judged by the state machine of the specification; recorded encodings, decodings, copies, moves and comparisons of generated lists judged by the specification of ASN.1 schemas",
        "SEQUENCE OF and SET OF over 19 kinds of elements in every position, recursive lists, 0 to 40 (thorough 300) elements, built by push back, copied, moved, decoded over previous values." + ASSUME),
"G05": (TV + "the octets generated code emits for random values of random schemas compared with the specification's encoder",
        "24 (thorough 160) random modules of nested tagged types under the three tagging environments, values at the boundaries of every type." + ASSUME),
"G06": (TV + "recorded predictions and bounded encodings of generated types judged by the specification",
        "Each value is encoded into buffers of exactly the predicted length, larger, and every (for long encodings: sampled) smaller size between guard octets; values sized so that each level's length octets change size." + ASSUME),
"G07": (TV + "recorded decodings of damaged and random octets judged by the specification",
        "Right, damaged, truncated and random octets decoded into fresh and used objects, with and without octets after, under ASan/UBSan; decoded values are encoded, copied and compared." + ASSUME),
"G08": (TV + "every tag chain over every base type in every position, enumerated by TLC and replayed into generated code; recorded encodings judged by the specification",
        "Model of X.680 tagging checked against the identifiers the rules prescribe; a sample of it (thorough: more) as generated code, plus random schemas rich in tags, plus class, number and form changes of every identifier octet." + ASSUME),
"C01": (TV + "every graph of references between three definitions, enumerated by TLC, compiled and replayed into generated code; recorded encodings and decodings of random schemas in several orders judged by the specification of ASN.1 schemas",
        "A sample (thorough: 1500) of the model's 36k schemas - aliases, lists, mandatory and optional members and alternatives, in one or two modules - those with finite values checked there to round-trip; random modules each also in other orders of definitions, modules and files and with names that are words of C++, judged by the same specification, which knows no order. Cyclic imports are outside the supported language." + ASSUME),
"C02": (TV + "every way in which three modules may define and import two names, enumerated by TLC, compiled and replayed into generated code; recorded encodings and decodings of random modules judged by the specification of ASN.1 schemas",
        "A sample (thorough: 600) of the model's 11k modules - own, imported and re-imported names, external references, tagging defaults per module - plus random sets of two to four modules with clashing names." + ASSUME),
"C03": (TV + "every instantiation and COMPONENTS OF over a small set of templates, enumerated by TLC, compiled and replayed into generated code; recorded encodings and decodings of random modules judged by the specification",
        "A sample (thorough: 500) of the model's schemas, checked there against their textual expansion, plus random modules with nested and imported parameterized types and COMPONENTS OF." + ASSUME),
"C05": (TV + "every short ENUMERATED type with DEFAULTs by literal, value and chain of values, enumerated by TLC, compiled and replayed into generated code; recorded values of enumerators, value assignments and defaults judged by the specification",
        "The numbering rule checked over all enumerations of up to 4 (thorough 5) items, a sample of these as generated code, plus random modules of value assignments over every supported kind of value, own and imported." + ASSUME),
"C04": (TV + "every way in which up to two modules may define, import and refer to two names, enumerated by TLC, compiled; recorded compilations of faulty modules and damaged texts judged by the specification of names and of the notation",
        "The model's 6k sets of modules (a sample; thorough: all), random modules with one to three injected faults, texts truncated at every item and damaged at random (judged by a generous grammar of the notation in the specification: malformed texts must be refused with a diagnostic), other layouts of the same lexical items, large texts; the compiler runs under ASan/UBSan and a time limit. Sound modules must be accepted." + ASSUME),
"C06": (TV + "every history of two steps of one or two runs at once over five inputs and three outputs, enumerated by TLC, replayed into the compiler; recorded runs judged by the state machine of directories and of what each compilation has ever given",
        "260 (thorough all) of the model's 8190 histories with random schemas, each unit of random modules and each schema of the repository compiled again and again over older outputs, after refused runs and beside others, with other paths, environments, clocks, heap and address layouts, and three builds that fill what is not initialized differently. Only what the recorded runs visit is compared." + ASSUME),
"V01": (TV + "every file built in up to three (thorough four) steps from elements before and around one another, enumerated by TLC, replayed into the viewer; recorded prints judged by the specification of what is printed",
        "Laws of the prints (every element once, nothing after it, unambiguous) checked on the model; prints of every universal type with right, wrong and boundary contents, nested, damaged and random elements, headers at the machine limits, under five time zones; nests up to 3000 (20000) deep; the viewer program itself on a sample of files." + ASSUME),
"E01": (TV + "recorded comparisons of pairs of values judged by the equality of the specification's abstract values",
        "Pairs equal, different in one place, and unrelated, each side built, copied, moved, decoded or assigned over another value." + ASSUME),
}
REASONS = {}
