"""What each check runs. cases: (harness, [case numbers]); see harness/src/c_*.rs for what a case is."""
COMMON = [
    "rustc's LLVM IR and the executor's model of LLVM (validated on every run by replaying sampled paths natively) are trusted",
    "allocation never fails; std's hash function is replaced by a fixed injective-enough model (iteration order of std maps is not explored)",
]
BIG = list(range(100, 108))
BIG2 = list(range(200, 208))
PROPS = {
 "C02": dict(
    quick=dict(cases=[("h_json_raw", [1, 2, 3, 4]), ("h_json_tpl", list(range(31))), ("h_json_opts", [0, 1, 2, 3])], time=200),
    thorough=dict(cases=[("h_json_raw", [1, 2, 3, 4, 5]), ("h_json_tpl", list(range(31))), ("h_json_opts", [0, 1, 2, 3])], time=700),
    reach={"h_json_raw": ["accepted", "rejected"], "h_json_tpl": ["accepted", "rejected"], "h_json_opts": ["accepted", "rejected"]},
    bounds="all byte strings up to 4 bytes (thorough: 5); 31 templates with 2-9 symbolic bytes in numbers, strings, escapes, literals, structure, and before and after the document; 15 further templates with up to 3 free bytes in parts that a type or map hint, map inference or an unwrap pointer replaces or leaves out",
    outside="longer symbolic regions; nesting deeper than the templates",
    assumptions=["unpaired surrogate escapes count as not JSON"]),
 "C04": dict(
    quick=dict(cases=[("h_infer", list(range(20)) + BIG), ("h_merge", [0, 1, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19] + BIG), ("h_num", list(range(7)))], time=200),
    reach={"h_infer": ["inferred"], "h_merge": ["merged"], "h_num": ["number"]},
    bounds="15 template families with up to 4 values of 6-22 kinds at one position, arrays of 1-15 elements, objects with present/missing/null/repeated members; number texts with 2-5 free characters",
    outside="more than 4 merged values; deeper nesting; hints, unwrap and map inference (C14, C15, C19)",
    assumptions=["a property whose values have no common type is not marked optional (known finding any-missing)"]),
}
GEN_BOUNDS = "40 template families of documents (up to 3 alternatives out of 8-22 at each free position, symbolic digits and string bytes): objects in lists with present, missing and null members, nested lists, tuples of 2-4, repeated, self-repeating and nearly equal object types of up to 6 properties, 20 awkward property names alone and in pairs; 5 further families with a type or map hint on such properties; 6 families of maps (by their number of properties) in lists, beside null and within one another; documents large in one respect (lists, objects, depth, texts, tuples, equal names: up to 33, thorough up to 300)"
GEN_OUT = "deeper nesting, more than 3 merged values, other property names (C03, C12), non-default options (C13-C19)"
for pid, hs in [("C06", ["h_rust"]), ("C07", ["h_ts", "h_alias"]), ("C08", ["h_schema"]), ("C09", ["h_zod"]), ("C10", ["h_python"]), ("C11", ["h_kotlin"])]:
    PROPS[pid] = dict(quick=dict(cases=[(h, list(range(45)) + list(range(50, 56)) + BIG) for h in hs], time=300), thorough=dict(cases=[(h, list(range(45)) + list(range(50, 56)) + BIG2) for h in hs], time=700), reach={h: ["generated"] for h in hs},
                      bounds=GEN_BOUNDS, outside=GEN_OUT,
                      assumptions=["the readers in harness/src/langs.rs accept the subset of each language that is generated, with the meaning the language (or library) gives it"])
PROPS["C03"] = dict(quick=dict(cases=[("h_key", list(range(70)))], time=300), reach={"h_key": ["generated"]}, bounds='10 templates of property names in each of 7 outputs: one or two free bytes or characters, every \\u00xx escape, every short escape, 58 special names (controls, combining and format characters, quotes, comment and template markers, non-BMP characters)',
    outside='more than three free bytes in a name; names ending in ? in the shape output',
    assumptions=['the readers in harness/src/langs.rs resolve escapes as the language does'])
PROPS["C12"] = dict(quick=dict(cases=[("h_names", [l * 20 + i for l in range(7) for i in list(range(13)) + [19]]), ("h_root", list(range(28)))], time=300), reach={"h_names": ["generated"], "h_root": ["generated"]}, bounds='13 templates of property names per output with up to 5 name characters out of 7 kinds, about 150 reserved words and library names as property, type and element names, 17 names that singularize or clash, 8 requested names, up to 13 types or properties of the same name',
    outside='longer names; more than four properties; names clashing with one another only after transliteration outside the templates',
    assumptions=['the reserved word lists of the languages as given in harness/src/langs.rs'])
PROPS["C13"] = dict(quick=dict(cases=[("h_format", list(range(56)))], time=300), reach={"h_format": ["generated"]}, bounds='8 naming rules, 7 templates with up to 5 free characters out of 14 kinds, pairs of 20 names, 31 names of many words, in each of 7 outputs',
    outside='longer names; the exact spelling of the transformed identifier beyond being one that the annotation or alias maps back to the JSON name',
    assumptions=[])
PROPS["C15"] = dict(quick=dict(cases=[("h_unwrap", list(range(20))), ("h_mix", list(range(15))), ("h_json_opts", [0, 1, 2, 3])], time=300), reach={"h_unwrap": ["selected", "no match"]}, bounds='32 pointers for 6 document templates with 9 kinds of value, and every pointer of 2-4 characters out of /ab01-~; arrays and objects of up to 513 members, pointers and documents up to 13 levels deep; malformed text in parts that are not selected; 5 pointers together with a hint and any map threshold, 3 templates',
    outside='longer free pointers; documents nested deeper than 4 levels',
    assumptions=['/ alone is the whole document, as in the documentation of the unwrap option'])
PROPS["C14"] = dict(quick=dict(cases=[("h_hint", list(range(12)) + [20, 21]), ("h_hint_sym", list(range(6))), ("h_mix", list(range(15, 30)))], time=300), thorough=dict(cases=[("h_hint", list(range(6)) + list(range(12, 18)) + [20, 21]), ("h_hint_sym", list(range(6))), ("h_mix", list(range(30)))], time=700), reach={"h_hint": ["hinted", "hint not applicable"], "h_hint_sym": ["hinted", "hint not applicable"]}, bounds='one hint at 8-11 pointers (map or opaque type) for 6 document templates with 9 kinds of value at one or two positions, in 8 outputs; two hints in combination; pointers and names with up to 3 free characters, arrays and objects of up to 130 members, pointers up to 13 levels deep; one or two hints together with 5 unwrap pointers and any map threshold, 3 templates',
    outside='three and more hints; nullability of opaque types where it depends on what the value would have been',
    assumptions=['type hints name types the user provides'])
PROPS["C19"] = dict(quick=dict(cases=[("h_map", [c for c in range(40) if c not in (14, 24, 34, 39)] + [40, 41, 42]), ("h_mix", [0, 2, 7, 11])], time=300), thorough=dict(cases=[("h_map", list(range(43))), ("h_mix", list(range(30)))], time=700), reach={"h_map": ["generated"]}, bounds='every threshold from 0 to 255 (symbolic) for 5 templates with up to 4 properties of 5-7 kinds in two or three objects, in 8 outputs; objects of up to 100 properties, thresholds of 256, 1000 and the largest number; any threshold together with a hint and an unwrap pointer',
    outside='three and more hints at once',
    assumptions=['objects that would be merged with a map of another value type become lists of what they have in common, as in shape.rs'])
PROPS["C05"] = dict(quick=dict(cases=[("h_order", [0, 1, 2, 3, 4, 5]), ("h_order_keys", [0, 1]), ("h_order_long", [0, 1, 2, 3])], time=300), reach={"h_order_long": ["merged"], "h_order": ["merged"], "h_order_keys": ["merged"]}, bounds='three array elements out of 12-22 kinds each, or with free bytes; five permutations and repetitions of each, with and without map inference and a type hint; two properties out of 16-22 kinds in both orders; arrays of up to 101 elements and objects of up to 101 properties with one or two odd values anywhere',
    outside='more than three merged values; the names and order of generated declarations, which follow the sample',
    assumptions=['types are compared in the shape output'])
PROPS["C17"] = dict(quick=dict(cases=[("h_vis", list(range(16)))], time=300), reach={"h_vis": ["generated"]}, bounds='6 type visibilities, 4 field visibilities, visibilities in the requested name with up to 2 free bytes, 6 texts after it that hold parentheses or `pub` again, 4 document templates',
    outside='other outputs than Rust have no visibilities',
    assumptions=[])
PROPS["C18"] = dict(quick=dict(cases=[("h_style", list(range(18))), ("h_derive", [0, 1])], time=300), reach={"h_style": ["generated"], "h_derive": ["generated"]}, bounds='3 import styles, 18 templates over Rust, Kotlin (Jackson, kotlinx.serialization) and Python with 8 kinds of value, derives of 1-2 paths with free bytes and spacing',
    outside='aliased or glob imports (none are generated)',
    assumptions=['the list of library names in harness/src/c_out.rs'])
PROPS["C24"] = dict(quick=dict(cases=[("h_det", list(range(40)))], time=300), reach={"h_det": ["generated"]}, bounds='5 document templates for 8 outputs, 3 import styles, with and without map inference and collect_additional; a run in a process of its own and 2 runs on each path with different hash seeds (natively: 60), between them other documents, names, outputs and a malformed sample',
    outside='hash seeds beyond those',
    assumptions=['the hash function model gives every map its own iteration order'])
PROPS["C25"] = dict(quick=dict(cases=[("h_rust_flags", list(range(5)))], time=300), reach={"h_rust_flags": ["generated"]}, bounds='16 combinations of the serde options for 5 templates with 9 kinds of value',
    outside='deeper nesting',
    assumptions=[])
PROPS["C28"] = dict(quick=dict(cases=[("h_other", list(range(24)))], time=300), reach={"h_other": ["generated"]}, bounds='10 combinations of the options for Rust (serde attributes, derives, visibilities in options and name, collect_additional), with and without a map threshold, for 3 templates with 8 kinds of value in 8 other outputs',
    outside='import styles (C18) and property_name_format (C13), which concern several outputs',
    assumptions=['collect_additional concerns Rust and Kotlin with Jackson, as the web page offers it'])
PROPS["C23"] = dict(quick=dict(cases=[("h_file", list(range(11))), ("h_file_progress", list(range(10)) + [20, 21, 22, 25])], time=300), reach={h: ["read", "error"] for h in ["h_file", "h_file_progress"]}, bounds='9 documents with up to 2 free bytes and texts of up to 140000 bytes, read in every pattern of short reads, interruptions and at most three failing or partial reads, with and without a progress bar; files that are not of the size the system gives (empty, less, more); 3 outputs',
    outside='remote URLs; more faults; files that change while they are read',
    assumptions=['the file model: open, read, fstat, close as POSIX describes them'])
PROPS["C16"] = dict(quick=dict(cases=[("h_opt", list(range(37))), ("h_opt_hint", [0, 1, 2, 3]), ("h_macro", list(range(26))), ("h_macro_full", [0, 1])], time=300), reach={"h_opt": ["accepted", "rejected"], "h_macro": ["accepted", "rejected"], "h_macro_full": ["accepted", "rejected"]}, bounds='every option and 47 values, 8 blocks with one byte replaced, added or left out, 25 templates with up to 5 free bytes; type hints of 10 words or with a free byte and what they do; 26 templates of macro invocations',
    outside="comments and raw string keys in option blocks; option values that are not documented; the compile-time macro's expansion itself",
    assumptions=['the reader of the documented syntax in harness/src/c_parse.rs'])
PROPS["C20"] = dict(quick=dict(cases=[("h_sql", list(range(10)) + [20, 21])], time=300), thorough=dict(cases=[("h_sql", list(range(13)) + [20, 21])], time=700), reach={"h_sql": ["generated", "error"]}, bounds='48 column types, 15 column constraints alone and in pairs, 10 table constraints, 6 table headers, 7 statements before and 6 after, every letter case of the first four letters of a type, free column names of 3 characters or 2 quoted bytes, 14 texts without a table, up to 65 columns and 40 statements around; shape and TypeScript output',
    outside="other dialects than sqlparser's generic one (backtick-quoted names); column types outside the list",
    assumptions=["sqlparser's grammar is taken as given for which statements are valid"])
def c01(names, text, shapes):
    return [("h_total_shapes", shapes), ("h_total_names", names), ("h_total_root", list(range(54))), ("h_total_docs", list(range(63))), ("h_total_opts", list(range(54))), ("h_total_text", text)]
PROPS["C01"] = dict(quick=dict(cases=c01([x for x in range(54) if x not in (1, 4, 31, 37, 43)], [x for x in range(24) if x not in (11, 12, 17)], list(range(27))), time=300),
                    thorough=dict(cases=c01(list(range(54)), list(range(24)), list(range(9)) + list(range(36, 54))), time=700),
                    reach={**{h: ["generated", "error"] for h in ["h_total_docs", "h_total_opts", "h_total_text"]}, "h_total_shapes": ["generated"]}, bounds='property names with up to 2 free ASCII bytes or one free 2-, 3- or 4-byte character in 9 outputs, requested names, documents with up to 4 free bytes, arrays of 0 to 13 elements of 12 kinds in several places, pairs of such arrays, objects of such members under option combinations, option texts (derives, visibilities, unwrap, hints, thresholds) with up to 3 free bytes, option blocks, macro invocations, SQL and file names with up to 5 free bytes; at most 40 million IR instructions, a call depth of 2000 and 1 GiB per allocation on each path',
    outside='longer free regions; deep nesting (the parser is recursive: a stack overflow needs many thousand levels); allocation failure; 3- and 4-byte characters only from a few blocks',
    assumptions=['the file system holds none of the named files'])
PROPS["C26"] = dict(quick=dict(cases=[("h_cli", list(range(8))), ("h_cli_macro", [0, 1, 2, 3, 7])], time=300), thorough=dict(cases=[("h_cli", list(range(8))), ("h_cli_macro", list(range(8)))], time=700), reach={"h_cli": ["written", "error", "fault"], "h_cli_macro": ["written", "error", "fault"]}, bounds='every combination of argument spellings for 10 output modes, 2-3 names, option blocks, input as text, standard input or file, output to standard output or a file, 10 documents with free bytes, texts and generated code of up to 20000 bytes; failing, short and interrupted reads (at most three) and writes (at most two), a failing open; macros with one free byte',
    outside="clap's own argument syntax (a stand-in gives the arguments by the same names); remote URLs; more faults",
    assumptions=['the stand-in for clap in harness/stubs', 'the file model: open, read, write, close as POSIX describes them'])
PROPS["C21"] = dict(quick=dict(cases=[("h_wasm", list(range(6)))], time=300), reach={"h_wasm": ["code", "error"]},
    bounds='every combination of 8 output modes, 5 naming rules, 3 import styles, 3 pointers, collect_additional and 2 thresholds as the web page writes them; every input of 3 ASCII bytes; option texts with up to 2 free bytes',
    outside='the JavaScript around the entry point; wasm as a target (the code is checked as compiled for x86-64)',
    assumptions=['stand-ins for wasm_bindgen and cfg_if in harness/stubs'])
PROPS["C27"] = dict(quick=dict(cases=[("h_proc", list(range(8))), ("h_proc_word", list(range(8)))], time=300), thorough=dict(cases=[("h_proc", list(range(12))), ("h_proc_word", list(range(8)))], time=700),
    reach={"h_proc": ["code", "error"], "h_proc_word": ["code", "error"]},
    bounds='8 templates of macro arguments with up to 3 free bytes, 14 awkward words in 8 places',
    outside="the compiler's own tokenizing and printing of the macro's arguments",
    assumptions=['a token stream is its text (stand-in for proc_macro in harness/stubs)'])
PROPS["C22"] = dict(quick=dict(cases=[("h_remote", list(range(10)))], time=300), reach={"h_remote": ["fetched", "error", "no url"]},
    bounds='8 documents with up to 2 free bytes, texts of up to 20000 bytes, no answer or 4 status codes, every pattern of short, interrupted and broken reads of the body (at most three deviations), 18 URL templates with up to 2 free bytes, 3 outputs',
    outside='the HTTP client itself (redirects, TLS, content encodings); more than three deviations',
    assumptions=['stand-in for ureq in harness/stubs: statuses of 400 and above are errors, a connection broken before the end of the body is a read error'])
# engine against native build, on std itself; no property and not in the manifest
SELF = dict(quick=dict(cases=[("h_self", list(range(20)))], time=300), reach={"h_self": ["run"]}, bounds="", outside="", assumptions=[])
