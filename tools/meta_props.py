LIST = [
prop("C01", "Every input gets an answer: code or an error message",
  "For every requested name, sample, option text, option block, macro invocation and SQL text, code generation ends with either generated code or an error that can be displayed. It never panics, never loops and never exhausts memory on a small input.",
  "every text with up to 5 free bytes in 250 places: property names, requested names, documents, option texts, blocks, macros, SQL, for all outputs",
  "A panic hides in the combination of an odd byte with one output, identifier rule or option; tests contain none of these bytes.",
  ["lib.rs", "parse.rs", "sql.rs", "util.rs", "to_singular.rs", "generation/rust.rs", "generation/typescript.rs", "generation/kotlin.rs", "generation/python.rs"],
  [("entry points", "lib.rs"), ("identifier construction", "util.rs"), ("option and macro parsing", "parse.rs")]),
prop("C02", "A sample is accepted exactly when it is a JSON text",
  "For every input text, type generation succeeds if and only if the text is one well-formed JSON document (RFC 8259) with nothing but white space around it. Anything else, including malformed numbers, escapes, literals, unbalanced brackets and trailing content, is reported as an error and produces no code.",
  "every byte string up to 5 bytes inside an array, plus templates with up to 9 free bytes in numbers, escapes, strings, literals and structure",
  "The unit tests lex a dozen hand-written samples; acceptance is a statement about every byte string.",
  ["inference/jsonlex.rs", "inference/jsoninfer.rs", "lib.rs"],
  [("lexer", "inference/jsonlex.rs"), ("recursive descent over tokens", "inference/jsoninfer.rs")]),
prop("C03", "Property names reach the generated code exactly",
  "Whatever characters a property name consists of, the generated code names exactly that JSON property: string literals, rename attributes, aliases and annotations in it read back as the original name under the target language's own rules. No property name can end a literal early or otherwise become code.",
  "property names with up to two free bytes or characters, all short and \\u00xx escapes and 58 special names, in 7 outputs",
  "Tests use plain ASCII names; quoting is about every character in every output's literal syntax.",
  ["util.rs", "generation/rust.rs", "generation/typescript.rs", "generation/typescript_type_alias.rs", "generation/kotlin.rs", "generation/python.rs", "generation/zod_schema.rs", "generation/value.rs", "inference/jsonlex.rs"],
  [("JSON string decoding", "inference/jsonlex.rs"), ("attribute and literal emission", "generation/rust.rs"), ("string escaping", "util.rs")]),
prop("C04", "The inferred type is the least type of all sample values",
  "The type inferred for a position in the sample is determined by all values seen there together: one scalar type if all agree (floating point if integers and fractions mix, or an integer does not fit 64 bits), a nullable type if null also occurs, an object type whose properties are optional exactly if some object lacks them, a list or tuple of what the elements call for, and no constraint where nothing fits. The last of several members with the same name counts.",
  "every document of 15 template families (up to 4 values of 22 kinds at the same position, nested objects, arrays, tuples of 1..15 elements) and every number text with up to 5 free characters",
  "Inference folds values pairwise; tests check a few pairs, while correctness is about every combination and order.",
  ["shape.rs", "inference/jsoninfer.rs"],
  [("pairwise unification", "shape.rs"), ("object and array inference", "inference/jsoninfer.rs")]),
prop("C05", "The inferred type depends neither on order nor on repetition",
  "Reordering the elements of an array, repeating an element, or reordering the properties of an object never changes the inferred type. This holds also when type hints or map inference are in use.",
  "every choice of three elements out of 16-22 kinds (or with free bytes) under five permutations and repetitions; every choice of two properties",
  "Pairwise folding is order independent only if unification is associative, commutative and idempotent, which samples do not show.",
  ["shape.rs", "inference/jsoninfer.rs"],
  [("unification", "shape.rs"), ("folding of array elements", "inference/jsoninfer.rs")]),
prop("C06", "Generated Rust is well formed and admits the sample",
  "For every sample the generated Rust is well formed, defines every type it uses exactly once, and its serde types say exactly what was inferred for the sample: same properties by JSON name, same optionality and nullability, same element types. The sample itself deserializes into the generated type.",
  "every document of 36 template families: nesting, lists, tuples, nulls, missing properties, shared and self-repeating object types, awkward property names",
  "Tests compare a few complete outputs; whether a struct may be shared, a field may be missing or a name collides depends on combinations they do not contain.",
  ["generation/rust.rs", "shape.rs", "to_singular.rs", "util.rs"],
  [("type emission", "generation/rust.rs"), ("type reuse", "shape.rs")]),
prop("C07", "Generated TypeScript is well formed and admits the sample",
  "For every sample the generated TypeScript (interfaces, or a single type alias) is well formed, defines every type it uses exactly once, and says exactly what was inferred for the sample: same property names, optional properties marked as such, nullable values as unions with null, and array and tuple types with the right element types. The sample is an instance of the type.",
  "every document of 36 template families, for both TypeScript outputs",
  "There are no tests of TypeScript output beyond one identifier predicate.",
  ["generation/typescript.rs", "generation/typescript_type_alias.rs", "shape.rs"],
  [("interfaces", "generation/typescript.rs"), ("type alias", "generation/typescript_type_alias.rs")]),
prop("C08", "Generated JSON Schema is valid and admits the sample",
  "For every sample the generated JSON Schema is valid JSON, is a draft-07 schema, and says exactly what was inferred for the sample: properties, required properties, nullable values, item types and tuple items. The sample validates against it.",
  "every document of 36 template families",
  "There are no tests of JSON Schema output.",
  ["generation/json_schema.rs", "generation/value.rs"],
  [("schema construction", "generation/json_schema.rs"), ("JSON printing", "generation/value.rs")]),
prop("C09", "Generated zod schemas are well formed and admit the sample",
  "For every sample the generated zod schema is a well-formed expression and says exactly what was inferred for the sample: properties, optional and nullable ones, arrays, tuples and records. The sample parses with it.",
  "every document of 36 template families",
  "There are no tests of zod output.",
  ["generation/zod_schema.rs"],
  [("schema expression", "generation/zod_schema.rs")]),
prop("C10", "Generated pydantic classes are well formed and admit the sample",
  "For every sample the generated Python is well formed, defines every class exactly once and before its use, and its pydantic fields say exactly what was inferred for the sample, with an alias wherever the field name is not the JSON name. The sample validates against the requested type.",
  "every document of 36 template families",
  "Tests compare three complete outputs; definition order and reuse depend on how objects nest and repeat.",
  ["generation/python.rs"],
  [("class emission, definitions before uses", "generation/python.rs")]),
prop("C11", "Generated Kotlin classes are well formed and admit the sample",
  "For every sample the generated Kotlin (Jackson or kotlinx.serialization) is well formed, defines every class exactly once, and its properties say exactly what was inferred for the sample, with an annotation giving the JSON name wherever the property name differs. The sample is an instance of the requested type.",
  "every document of 36 template families, for both Kotlin outputs",
  "Tests cover five field names and no generated code.",
  ["generation/kotlin.rs"],
  [("data class emission", "generation/kotlin.rs")]),
prop("C12", "Names in generated code are valid, distinct and never reserved",
  "Every type and field name in generated code is an identifier of the target language that is no reserved word. No two types, and no two fields of a type, share a name, no type takes the name of something the code uses, and the root type has the requested name if that is an identifier itself, whatever the sample's property names are.",
  "13 templates of property names with free characters, 150 words reserved or used in some language, clashing singular forms, 8 requested names, in 7 outputs",
  "Collisions arise between two or three names that normalize alike; tests contain a few single names.",
  ["util.rs", "to_singular.rs", "generation/rust.rs", "generation/typescript.rs", "generation/kotlin.rs", "generation/python.rs"],
  [("name allocation", "util.rs"), ("reserved words", "generation/rust.rs"), ("singular forms", "to_singular.rs")]),
prop("C13", "Naming rules never lose the JSON property name",
  "Under every property_name_format, each generated field still maps to its JSON property: a struct level renaming rule is used only where the target library's own rule gives back the JSON name, and every other field carries its own rename. Two properties never end up with the same field.",
  "8 naming rules and names with up to 4 free characters or pairs of 20 names in all conventions, in 7 outputs",
  "serde's, Jackson's and the generator's case rules differ on digits, acronyms and underscores; tests cover a handful of names.",
  ["generation/serde_case.rs", "generation/rust.rs", "generation/kotlin.rs", "generation/python.rs"],
  [("serde case rules", "generation/serde_case.rs"), ("rename_all decision", "generation/rust.rs"), ("JsonNaming decision", "generation/kotlin.rs")]),
prop("C14", "Hints apply exactly where their JSON pointer points",
  "A hint in the options changes the type at exactly the positions its JSON pointer (with - for every member or element) selects, and nowhere else. An opaque type takes the place of what was inferred there, a map hint turns the object there into a map, and a map hint on something else is an error.",
  "one or two hints out of 8-11 pointers or with free characters, for 12 document templates with 9 kinds of value, in 8 outputs",
  "Tests apply two hints to one document each; the set of positions a pointer with wildcards and escapes selects is a relation over documents.",
  ["hints.rs", "inference/jsoninfer.rs", "parse.rs"],
  [("pointer steps", "hints.rs"), ("application during inference", "inference/jsoninfer.rs")]),
prop("C15", "Unwrap infers from exactly the values its pointer selects",
  "With an unwrap pointer, the type is the one inferred from exactly the values which the pointer (with - for every member or element, ~0 and ~1 escapes) selects, wherever they are. If nothing is selected, an error is reported.",
  "32 pointers and every pointer of up to 4 characters out of seven, for 6 document templates with 9 kinds of value",
  "Tests unwrap three documents; selection is a relation between all pointers and documents.",
  ["inference/jsoninfer.rs", "hints.rs"],
  [("unwrapping", "inference/jsoninfer.rs"), ("pointer steps", "hints.rs")]),
prop("C16", "Option blocks and macros set exactly what they say",
  "A well-formed option block sets exactly the options it names to exactly the values it gives (string escapes included) and leaves the others at their defaults; a macro invocation means its name, sample and options. Anything malformed is rejected as a whole rather than half applied.",
  "every option with 47 values, blocks and invocations with one byte replaced, added or left out, and templates with up to 5 free bytes",
  "Tests parse four blocks; acceptance and meaning are statements about every text.",
  ["parse.rs", "options.rs", "lib.rs"],
  [("option parser", "parse.rs"), ("macro parser", "parse.rs")]),
prop("C17", "Rust visibilities are those asked for",
  "Every type in Rust output has the requested type visibility, given as an option or in front of the name (which wins), and every field the requested field visibility, or else that of the type. The name without its visibility is the root type's name.",
  "6 type and 4 field visibilities, visibilities in the name with free bytes, 3 document templates",
  "Tests check one combination.",
  ["lib.rs", "generation/rust.rs", "options.rs"],
  [("visibility in names", "lib.rs"), ("emission", "generation/rust.rs")]),
prop("C18", "Imports are complete and contain nothing unused",
  "Depending on the import style, library names in the output are written in short form with exactly the imports they need, in short form without imports, or as qualified paths. Every derive asked for is on every struct, and there is no other.",
  "3 import styles for 18 templates over Rust, Kotlin and Python, and derive lists with free names and spacing",
  "Which imports are needed depends on which types occur anywhere in the output; tests check a few outputs.",
  ["generation/rust.rs", "generation/kotlin.rs", "generation/python.rs", "options.rs"],
  [("import collection", "generation/rust.rs"), ("import collection", "generation/python.rs"), ("import collection", "generation/kotlin.rs")]),
prop("C19", "Map inference turns exactly the objects above the threshold into maps",
  "With a map threshold, an object becomes a map exactly if it has more properties than the threshold, counting properties of the same name once; outputs that decide after merging apply the threshold to the merged object. The map's value type is the least type of all its values, unconstrained if none fits. Everything else has the type inferred without the option.",
  "every threshold up to 255 (symbolic) for 5 templates of objects with up to 4 properties of 5-7 kinds, in 8 outputs; together with hints and unwrap pointers",
  "Whether a merged object is a map depends on the threshold, on all objects merged and on their value types together.",
  ["shape.rs", "inference/jsoninfer.rs"],
  [("map inference", "inference/jsoninfer.rs"), ("unification of maps", "shape.rs")]),
prop("C20", "CREATE TABLE statements give one property per column",
  "For SQL input, the type has exactly one property per column of the first table, in order, with the column's name and the type documented for its SQL type. A column is nullable unless a column or table constraint rules null out, and input without any table is an error.",
  "48 column types, 15 column and 10 table constraints, surrounding statements, free letter case and names",
  "Tests contain two statements.",
  ["sql.rs", "lib.rs"],
  [("columns to shapes", "sql.rs"), ("input modes", "lib.rs")]),
prop("C23", "Sample files are read to their end or reported",
  "A sample read from a file gives exactly the code its text gives, however the reads are split or interrupted. A file that cannot be opened or read to its end is an error and never yields code for a part of it.",
  "every pattern of short and interrupted reads and up to two read errors for 9 documents with free bytes",
  "Tests never make a read fail or return early; the schedule of reads is outside the program's control.",
  ["lib.rs", "inference/jsonlex.rs", "inference/jsoninputerr.rs", "inference/jsoninfer.rs"],
  [("lexer over a reader", "inference/jsonlex.rs"), ("error conversion", "inference/jsoninputerr.rs")], over=("inputs", "fault_sequences", "schedules")),
prop("C24", "The same input always gives the same text",
  "Generating code twice from the same name, sample and options gives byte for byte the same text, in the same process or another. The text ends with exactly one newline.",
  "5 document templates with free bytes for 8 outputs, import styles, map inference and collect_additional, with several hash seeds on each path",
  "A dependence on hash order or state shows up only for some seeds and some sets of names.",
  ["lib.rs", "generation/rust.rs", "generation/python.rs", "generation/kotlin.rs", "generation/json_schema.rs"],
  [("ordered sets of imports and names", "generation/rust.rs"), ("final newline", "lib.rs")], over=("inputs", "histories")),
prop("C25", "serde options have exactly the effect they document",
  "deny_unknown_fields, use_default_for_missing_fields, collect_additional and allow_option_vec appear in the generated Rust exactly where asked for, for every combination of them. The types still admit the sample: a value that is null or missing somewhere in the sample is accepted by the generated type.",
  "16 combinations of options for 5 templates with 9 kinds of value",
  "Options interact (defaults, Option, empty vectors); tests check single ones on one sample.",
  ["generation/rust.rs", "options.rs"],
  [("field attributes", "generation/rust.rs")]),
prop("C26", "The CLI writes the generated code completely, or says it failed",
  "The command line program writes exactly the code the library generates for its arguments to standard output or to the output file. Otherwise it exits with an error status, and an existing output file is touched only if there is code to write to it.",
  "every combination of arguments for 10 output modes, text, standard input and file input, failing, partial and interrupted reads and writes",
  "There are no tests of the program; its faults depend on what the system calls return.",
  ["json_typegen_cli/src/main.rs", "lib.rs"],
  [("argument handling and output", "json_typegen_cli/src/main.rs")], over=("inputs", "fault_sequences", "schedules")),
prop("C21", "The web entry point gives the library's answer for every input",
  "The entry point for the web returns exactly the code generated for its name, sample and options, in the form the web page gives them, or the error marked as such. Every input is a sample there: nothing is taken for a file name or URL.",
  "1440 option combinations as the web page writes them, every sample of 3 ASCII bytes, option texts with free bytes",
  "There are no tests of the entry point or of a build without files and network.",
  ["json_typegen_wasm/src/lib.rs", "lib.rs", "parse.rs"],
  [("entry point", "json_typegen_wasm/src/lib.rs"), ("sample sources", "lib.rs")], over=("inputs", "configurations")),
prop("C22", "Samples from URLs are fetched once and completely, or reported",
  "A sample that is an http or https URL is fetched from exactly that URL and gives exactly the code its text gives, however it arrives. A failing request, an error status or a connection broken on the way is an error, and nothing else is ever fetched.",
  "every pattern of short, interrupted and broken reads for 8 documents with free bytes, all kinds of answers, 11 URL templates with free bytes",
  "Tests have no network; what arrives when is outside the program's control.",
  ["lib.rs", "inference/jsonlex.rs", "inference/jsoninputerr.rs"],
  [("sample sources", "lib.rs"), ("lexer over a reader", "inference/jsonlex.rs")], over=("inputs", "fault_sequences", "schedules")),
prop("C27", "The procedural macro expands to the code or to its error",
  "For all arguments, the procedural macro expands to exactly the code generated for them, or to a single compile_error whose text is the complete error. No error text can end that literal early or make the macro panic.",
  "8 templates of macro arguments with free bytes and 14 awkward words in 8 places",
  "Tests expand valid macros only.",
  ["json_typegen/src/lib.rs", "parse.rs", "lib.rs"],
  [("expansion", "json_typegen/src/lib.rs")]),
prop("C28", "Options for one language leave the other outputs alone",
  "Options documented as specific to Rust (derives, visibilities, deny_unknown_fields, use_default_for_missing_fields, allow_option_vec) do not change any other output in any combination. Collecting additional properties concerns Rust and Kotlin with Jackson only, where every class gets one more member and otherwise still describes the sample.",
  "10 combinations of options for 3 templates with 8 kinds of value in 8 other outputs",
  "Tests set these options for Rust only; an effect elsewhere depends on nulls and missing values in the sample.",
  ["generation/typescript.rs", "generation/typescript_type_alias.rs", "generation/zod_schema.rs", "generation/json_schema.rs", "generation/kotlin.rs", "generation/python.rs", "generation/shape.rs", "lib.rs"],
  [("types from shapes", "generation/kotlin.rs"), ("types from shapes", "generation/python.rs"), ("dispatch to the outputs", "lib.rs")], over=("inputs", "configurations")),
]
