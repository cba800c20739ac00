#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles and statements)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["public API results"],hook_needed=None)))
TF=["transform/transformer.go","transform/instance.go","transform/transform.go","transform/utils.go"]

p("T01","A transformer keeps no memory of the documents it has processed",
 "The result of transforming a document (output bytes, or that it fails) depends only on the schema, the transform identifier and that document, never on which documents, in which order or how often, the same transformer handled before, including failed ones. The caller's input bytes are left untouched and output already handed out never changes afterwards.",
 ["inputs","histories"],"for every schema, JSON or XML transformer and sequence of documents",
 "Tests build a fresh transformer per case and call it once or twice; state carried from call to call (defaults, instruction lists) only shows on particular sequences.",
 TF,[("per-call evaluation over a freshly parsed input","transform/transformer.go baseJSONTransform/baseXMLTransform"),("defaults and instruction lists held by the transformer","transform/instance.go, transform/transform.go")])
p("T02","One transformer can be used by many goroutines at once",
 "Concurrent calls on the same transformer, and on different transformers built from the same loaded schema, each return exactly what the call would return on its own. They never crash and never access shared memory without synchronisation.",
 ["schedules","inputs"],"for every interleaving of transform calls over every schema and document mix",
 "No test calls a transformer from more than one goroutine; a race needs particular features (defaults, methods, operations) met by two calls at once.",
 TF+["transform/operations.go","jsonschema/validator.go"],[("transformer tree treated as read only after construction","transform/transformer.go newTransformer"),("shared validator","jsonschema/validator.go")])
p("T03","Transform output is a pure function of schema meaning and input value",
 "Transforming the same input value with the same schema yields the same bytes every time, for any number of repetitions and for separately built transformers. Re-ordering object members or changing insignificant whitespace, in the schema file or in the input document, does not change the output.",
 ["inputs","configurations"],"for every schema, document, member order and whitespace layout, over repeated runs with randomised map iteration",
 "Tests use one fixed layout per schema and compare one run; dependence on map iteration order or on formatting shows up only for particular schemas and runs.",
 TF,[("children processed by map iteration","transform/instance.go objectTransformer"),("raw schema inspection","transform/transformer.go walker")])
p("T04","A validated transform yields exactly the schema-conforming results",
 "The validating transform succeeds precisely when the non-validating transform succeeds and its output conforms to the schema, and then both give identical bytes. When the output does not conform the caller gets an error and no output; the non-validating transform never rejects output for not conforming.",
 ["inputs"],"for every schema with constraints (required, enum, pattern, bounds, additionalProperties) and every JSON or XML document",
 "Tests check a few fixed failing documents, one constraint each.",
 ["transform/transformer.go","jsonschema/validator.go"],[("final validation step","transform/transformer.go jsonTransform/xmlTransform")])
p("T05","Fields without a matching transform: same place, then default, else omitted",
 "For JSON input a schema field that has no transform instructions for the chosen identifier, or whose instructions find nothing, takes the input value at the same location, converted to the schema type; if there is none (absent, null or not convertible) it takes the schema default, and otherwise it is left out. Objects and arrays left with no content are left out, an object without declared properties is copied whole, values not described by the schema never appear (except inside copied or defaulted free-form content), and any property name that needs no path escaping (including names with dashes or leading digits) behaves alike.",
 ["inputs","programs"],"for every schema shape, nesting depth, property name and input document, including wrongly typed and partial documents",
 "Tests cover a handful of hand-written schemas and documents; the rule ranges over all shapes, types and mismatches.",
 TF,[("scalar, object and array fallbacks","transform/instance.go transformScalarJSON/baseValueJSON/objectTransformJSON"),("tree assembly","transform/transformer.go saveInTree")])
p("T06","Multiple sources combine by first, last or concatenate as documented",
 "With several source instructions, `first` (also the default) yields the first one that produces a value, `last` yields the last one that does, and `concatenate` joins all produced string values in listed order, with the delimiter only between two non-empty parts. Sources that find nothing are skipped, concatenating values of non-string or different types fails the transform, and only the instructions of the selected transform identifier apply.",
 ["inputs","programs"],"for every list of instructions, method, delimiter and presence/absence combination in the document",
 "Tests exercise each method on one or two fixed inputs.",
 ["transform/transform.go","transform/utils.go"],[("method evaluation","transform/transform.go transformInstructions.transform"),("concat","transform/utils.go")])
p("T07","Array transforms map each source item, in order, with relative paths",
 "An array field's items come one for one and in order from the source its transform selects (a single non-array value counts as one item), or else from the input at the same place, or else its default; each item field with an `@` path reads from its own source item, at any nesting depth, and absolute paths read the document. Items that produce nothing are dropped, and the presence or evaluation of an array transform never changes what any other field of the document reads.",
 ["inputs","programs"],"for every nesting of arrays and objects, lengths, item shapes (including missing, null and wrongly typed items) and sibling fields reading the same input locations",
 "Tests use two or three fixed documents with one level of nesting and never combine array transforms with siblings reading the same places.",
 ["transform/instance.go","transform/transformer.go","transform/utils.go"],[("path modifiers and base placement","transform/instance.go arrayTransformJSON/pathReplace"),("prefix replacement","transform/transform.go replaceJSONPathPrefix")])
p("T08","Transform operations compute their documented functions and chain in order",
 "Every operation (duration, changeCase, inverse, max, replace, split, timeParse, currentTime, toCamelCase, removeHTML, valueExists and the conversions to float, int and bool) returns the documented result for every acceptable value, is applied in listed order to the result of the previous one, and behaves alike for JSON and XML sources. A value an operation cannot process fails the whole transform with an error, and unknown operations, unknown methods and missing, extra or invalid arguments are rejected when the transformer is built.",
 ["inputs","programs"],"for every operation chain, argument set and value of every JSON type, including empty, negative, non-ASCII and boundary values",
 "Tests list a few values per operation in isolation; chains, boundary values and the interplay with type conversion are not covered.",
 ["transform/operations.go","transform/transform.go"],[("operations","transform/operations.go"),("chaining","transform/transform.go jsonTransform/xmlTransform")])
p("T09","Values are converted to the schema type by fixed rules",
 "A value placed in a scalar field is converted to the declared type by fixed rules: booleans, numbers and strings interconvert as documented (empty string is false and no number, positive numbers are true, numeric text becomes the number, numbers become their plain decimal text), date-times are accepted as RFC 3339 text or unix seconds and written as RFC 3339, and the first element of a non-empty array stands for it. The conversion preserves the value: no number, instant or text is altered beyond that change of representation.",
 ["inputs"],"for every JSON value against every scalar schema type, with and without a transform",
 "Tests enumerate a few values per type pair.",
 ["transform/utils.go"],[("convert*","transform/utils.go")])
p("T10","XML selections map to schema fields as documented",
 "For XML input a field receives the text of the node its XPath selects, converted to the schema type; several matches give space-joined text for strings, the first match for other scalars, and one item per node in document order for arrays. Fields of an array item or of an object with its own XPath are evaluated relative to that node, a field whose selection is empty takes its default or is omitted, and an object whose own selection is empty yields its default or is skipped with all its fields.",
 ["inputs","programs"],"for every XML document shape and every schema with XPath transforms, including nested arrays, repeated, empty and missing elements and attributes",
 "Tests use a few fixed XML documents.",
 ["transform/transform.go","transform/instance.go"],[("xmlTransform","transform/transform.go"),("node-relative children","transform/instance.go arrayTransformXML/objectTransformXML")])
p("T11","Arbitrary input documents give a result or an error, never a crash",
 "For every byte string given as a document, and for every schema that a transformer can be built from, a transform call returns in bounded time with either output that is well-formed JSON or an error; malformed documents always give an error. Building a transformer from any loaded schema likewise returns a transformer or an error and never crashes.",
 ["inputs"],"for every byte string (truncated, mutated, wrongly typed, deeply nested, huge numbers, invalid UTF-8) and every loadable schema",
 "Tests feed well-shaped documents; crashes need shapes that contradict the schema.",
 TF+["transform/operations.go"],[("type checks while reading and saving values","transform/transformer.go saveInTree, transform/instance.go")])

JS=["jsonschema/schema.go","jsonschema/reference.go"]
p("J01","References mean the same as writing the referenced schema in place",
 "A schema using `$ref` (to its own definitions, to another file, to a definition inside another file or over HTTP, with relative paths resolved against the referring file, nested and repeated at any depth) loads to the same fields, types, constraints, descriptions, defaults and transform sections as the schema with the referenced content written in place. Keys written next to a `$ref` override those of the referenced content, with their values preserved exactly.",
 ["inputs","programs"],"for every non-circular reference graph over definitions, files, directories and URLs",
 "Tests cover a few fixed reference layouts; nesting, repetition and sibling keys multiply.",
 JS,[("dereference/resolveRef","jsonschema/reference.go")])
p("J02","allOf and oneOf compose into exactly the documented set of fields",
 "Loading with flattening yields the schema's own fields plus those of every allOf part plus those of the one oneOf alternative whose file name matches the requested type, recursively, where on a name clash the schema's own field wins and then the earliest part; the required lists are united. Loading without flattening leaves allOf parts unmerged when the schema has fields of its own and merges all of them when it has none; other oneOf alternatives never contribute.",
 ["inputs","configurations"],"for every composition of allOf/oneOf files, name clashes, requested type and flatten mode",
 "Tests cover a few fixed files with one clash and one alternative.",
 ["jsonschema/schema.go"],[("merging after load","jsonschema/schema.go schemaFromFile/mergeProperties")])
p("J03","Walking a schema visits every field exactly once with its true path",
 "Both walk functions call the callback exactly once for every property and array item schema reachable through the schema's properties and items, each with its correct JSONPath and that field's own schema content, and always a parent before its children. Both functions visit the same set; an error from the callback or a malformed field stops the walk at once and is returned.",
 ["inputs"],"for every schema tree, including empty objects, nested arrays, nullable types and unusual names, and every callback position at which an error is raised",
 "Tests compare a few fixed schemas.",
 ["jsonschema/walk.go"],[("recursion","jsonschema/walk.go walkInstance/walkRaw")])
p("J04","The loading cache builds once per key and never caches failure",
 "Concurrent loads of one key run at most one build at a time, all of them receive the value of a completed successful build, and after a success no later load of that key builds again. A failed build is reported to the callers that waited for it and is not remembered, so a later load builds anew; different keys never block or affect one another.",
 ["schedules","histories","fault_sequences"],"for every interleaving of loads over keys, build durations and build failures, including builders that load other keys",
 "No test exercises the cache concurrently or with failing builders.",
 ["jsonschema/cache.go"],[("singleflight and map","jsonschema/cache.go Load")])
p("J05","Schemas can be loaded, walked and validated concurrently",
 "Any number of goroutines may load (also through different reference paths, requested types and flatten modes), walk and validate with the same or different schema files at once: each gets the same fields and verdicts as a lone caller, without data races, deadlock or crash. Two loads of the same file with the same options describe the same schema; loads with different requested types or flatten modes never see each other's results.",
 ["schedules","configurations"],"for every interleaving of loads, walks and validations over schema files that reference each other without cycles",
 "No test loads schemas from several goroutines; caches are process-wide so cross-talk depends on load order.",
 ["jsonschema/schema.go","jsonschema/cache.go","jsonschema/validator.go","jsonschema/reference.go"],[("schema and validator caches","jsonschema/schema.go, jsonschema/validator.go"),("cache keys","jsonschema/schema.go schemaFromFile")])
p("J06","The validation verdict matches JSON Schema",
 "Validating a document accepts it exactly when it conforms to the schema file under JSON Schema rules for types, required, properties, additionalProperties, items, enum, numeric and length bounds, pattern, date-time format, allOf/oneOf/anyOf and references. A rejected or malformed document always comes with a non-nil error, and an accepted one never does.",
 ["inputs"],"for every schema over those keywords and every document",
 "Tests validate two or three fixed documents.",
 ["jsonschema/validator.go"],[("Validate","jsonschema/validator.go")])
p("J07","A field's type and a schema's top-level composition are reported faithfully",
 "The field-type query returns the single non-null type of a field and whether null is also allowed, for scalar and list notation in any order, and fails for unions of several types and for missing or ill-formed types. The schema-types query returns exactly the allOf references, the oneOf references, both in file order, and the sorted names of the top-level properties of a file.",
 ["inputs"],"for every type notation and every schema file",
 "Tests cover a handful of notations.",
 ["jsonschema/schema.go"],[("FieldType","jsonschema/schema.go"),("SchemaTypes","jsonschema/schema.go")])
p("J08","A schema file that cannot be loaded gives an error and can be retried",
 "For every file content (missing file, malformed JSON, wrong types, dangling or self reference, unreachable or failing URL) loading returns a schema or an error and never crashes. A failed load leaves nothing behind: once the file or the files it refers to are put right, the same load succeeds and gives the corrected content.",
 ["inputs","fault_sequences"],"for every corruption of schema files and every repair sequence, without reference cycles across files",
 "Tests check two or three broken files once, with no retry.",
 JS+["jsonschema/cache.go","jsonschema/validator.go"],[("error returns","jsonschema/schema.go schemaFromFile"),("errors not cached","jsonschema/cache.go")])

GF=["generate/generate.go","generate/struct.go"]
p("G01","Generated Go code compiles and mirrors the schema field for field",
 "For every supported schema and option combination generation succeeds and writes formatted Go that compiles, in which each schema property (and nothing else) appears exactly once, under its JSON name, with the Go type for its schema type (nesting, arrays, nullability and date-times included) and marked omittable exactly when it is not required. Descriptions appear as a tag or comment as requested, without disturbing the code.",
 ["programs","configurations"],"for every schema shape within the supported subset and every combination of nested-struct, pointer, description, rename and embed options",
 "Tests compare golden files for a few schemas and option sets, and do not compile them.",
 GF,[("field extraction and writing","generate/struct.go")])
p("G02","JSON survives a round trip through the generated structs",
 "For every document conforming to the schema, decoding into the generated struct and encoding again gives an equivalent document: every value is preserved with its type and name, required members are always present and no member is invented. Only absent-equivalent optional content (empty, zero or null values of optional members) may be left out or, for date-times without pointers, appear as the zero time, and date-times keep the same instant.",
 ["programs","inputs"],"for every supported schema, option set and conforming document",
 "Generated code is never executed on data by the tests.",
 GF,[("JSON tags, omitempty and types","generate/struct.go write/goType")])
p("G03","Layout and naming options never change the JSON the structs speak",
 "Choosing named instead of nested structs, pointers instead of values, comments instead of description tags, or renaming structs and fields changes only Go identifiers and layout: the JSON names stay those of the schema, and the structs of any two option sets decode the same documents to the same JSON, apart from whether an absent or empty optional object or date-time is written. Renamed structs and fields carry exactly the requested name.",
 ["configurations","programs","inputs"],"for every schema, pair of option sets, rename map and document",
 "Tests look at option sets one at a time against golden text.",
 GF,[("option handling","generate/struct.go walkFunc/newGeneratedGoFile")])
p("G04","MessagePack round trips preserve the generated structs",
 "For every value of a generated struct the generated MessagePack encoding decodes back to an equal value, through both the streaming and the byte-slice interfaces, which produce the same bytes. The encoding is well-formed MessagePack and stays within the announced size estimate.",
 ["programs","inputs"],"for every supported schema, option set and value, including nil pointers, empty and nested content",
 "Generated MessagePack tests only use zero values.",
 ["generate/generate.go"],[("buildMessagePackFile","generate/generate.go")])
p("G05","Avro output carries every field value under a valid Avro schema",
 "For every supported schema the generated Avro schema is valid and describes each struct field plus the write-time and deleted metadata, and the generated code compiles; a container file written for a value decodes, by that schema alone, to a record holding every field's value (booleans, numbers, text, date-times in milliseconds, nested and repeated records, absent optionals as their zero or null form). No field is lost, duplicated, swapped with another or given another field's value.",
 ["programs","inputs"],"for every supported schema, option set and struct value",
 "Generated Avro tests only write zero values and read back the metadata.",
 ["generate/avro.go","generate/avro_helpers.go","generate/avro_template.go"],[("Avro schema writing","generate/avro.go"),("field mapping","generate/avro_helpers.go")])
p("G06","Avro writers record each item once, in order, and report failures",
 "The bulk Avro writer writes exactly one record per received item, in order, all with the given write time, finalises the file when the channel closes, and then closes its error channel; a nil item becomes a deleted marker. A failing destination is reported on the error channel, after which the writer ends without blocking; the single-record writers set write time and deleted flag as asked, use the current time only for a zero time, and refuse nil.",
 ["histories","fault_sequences","schedules"],"for every item sequence, channel timing and write-failure point",
 "The generated example never reaches the error paths and never reads back what was written.",
 ["generate/avro_template.go"],[("BulkAvroWriter and WriteAvro*CF templates","generate/avro_template.go")])
p("G07","Avro timestamps are the exact instant in whole milliseconds",
 "Converting a time gives the number of milliseconds since the Unix epoch of its instant, rounded down, for every representable instant and independent of its zone; the slice forms convert each element in order. Nil optional times give zero, and the optional slice form skips nil elements and returns nothing if no element remains.",
 ["inputs"],"for every time value, including before 1970, far past and future, sub-millisecond and zero times",
 "Tests use a few recent times.",
 ["generate/avro_helpers.go"],[("AvroTime*","generate/avro_helpers.go")])
p("G08","The GraphQL schema lists every field once with the right type",
 "For every supported schema and option set the generated GraphQL is well-formed SDL in which each object type lists each of its schema properties exactly once under its JSON name, with the corresponding type, list nesting, non-null marking and description or deprecation, a total-count companion per list, and a defined type for every nested object. Types generated from oneOf alternatives implement the interface built from the allOf parts and repeat all of its fields with the same definition. Every Go model directive names the generated struct which holds the fields of its type.",
 ["programs","configurations"],"for every supported schema composition and option set",
 "Tests compare golden text for a few schemas.",
 ["generate/graphql.go"],[("extraction and writing","generate/graphql.go")])
p("G09","The command line does exactly what the library does, with honest exit codes",
 "Every combination of flags and arguments of the command generates byte for byte the files the library generates for the corresponding options, in the requested directories and nowhere else. Usage and generation errors exit non-zero with a message, and success exits zero.",
 ["configurations"],"for every flag combination, argument form and failure kind",
 "The command has no tests.",
 ["main.go","generate/generate.go"],[("flag mapping","main.go")])
p("G10","Generation is reproducible",
 "Generating twice from the same schema and options, in fresh or in previously populated output directories, from relative, absolute or symbolically linked paths, and with object members in any order in the schema file, writes byte-identical files. Generation never modifies its input files.",
 ["configurations","histories"],"for every schema, option set, repetition and member order, with randomised map iteration",
 "Golden tests run generation once per schema with a fixed layout.",
 GF+["generate/graphql.go","generate/avro.go"],[("sorted writing","generate/struct.go Sorted, generate/graphql.go Sorted")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import re
for x in P:
    n=len(re.findall(r'[.!?](?:\s|$)',x["statement"]))
    if n>3: print("sentences",x["id"],n)
print(len(P))
