# exec'd by mkmanifest.py
CLAIMS.update({
 'T01': ("one long lived transformer is fed interleaved documents (valid, invalid, repeated, both formats) and an offline monitor compares every logged result with that of a transformer built for the document alone; inputs and schema are hashed before and after", "histories of documents"),
 'T02': ("Go race detector over real goroutines sharing a transformer, with an offline monitor comparing every concurrent result with the sequential one", "schedules of concurrent calls"),
 'T03': ("metamorphic monitors: the same document is sent in other spellings (key order, white space, escapes, number forms) and repeatedly, all results are compared", "representations of documents"),
 'T04': ("seeded workloads; every validated result is checked by an independent validator and every refusal is checked for a reason", "validated transforms"),
 'T10': ("seeded workloads of XML documents and XPaths through the real transformer, each output compared by an online monitor with an independent XPath and conversion model", "XML selection"),
})
CLAIMS.update({
 'T09': ("a table of values and random values against every scalar type and placement through the real transformer, each output read by an online monitor written from the documented rules with exact arithmetic", "conversions"),
 'T11': ("hostile schemas, contradicting, extreme and corrupted documents through the real transformer under crash, duration, well-formedness and malformed-means-error monitors", "arbitrary documents and loadable schemas"),
})
CLAIMS.update({
 'J01': ("seeded sets of schema documents on disk and behind a loopback HTTP server are loaded by the real loader, every reference form, and an online monitor compares the walked fields and verdicts with those of the same schema written without references", "reference forms and layouts of documents"),
 'J02': ("seeded allOf/oneOf compositions over files loaded by the real loader, the visible fields compared by an online monitor with an independent merge model", "compositions"),
 'J03': ("seeded schemas walked by the real walkers, the visit log compared with an independent enumeration; hostile callbacks", "schemas and callbacks"),
 'J06': ("seeded schemas and documents near the boundary of every constraint, verdicts compared by an online monitor with an independent validator", "schemas and documents"),
 'J07': ("exhaustive type lists up to length four and seeded schemas, results compared by an online monitor with the documented rule", "type notations"),
 'J08': ("fault injection into documents and the HTTP server, with crash, hang, must-fail and recovery monitors comparing the loads after the repair with the right content", "faults"),
})
CLAIMS.update({
 'J04': ("Go race detector over goroutines sharing a cache, with an offline monitor over the event log of loads and builds (mutual exclusion, at most one success, origin of every value and failure) and injected delays, failures, panics and held builders", "schedules and build failures"),
 'J05': ("Go race detector over goroutines that load, walk and validate the same files, with an offline monitor comparing all they see with a lone caller's view of an untouched copy", "schedules of loads"),
})
CLAIMS.update({
 'G01': ("seeded schema projects and option sets are generated by the real generator and compiled; an online monitor compares the types the compiled program reports by reflection, the tags and the comments with the schema", "schemas and option sets"),
 'G02': ("the generated code is compiled and executed on seeded conforming documents; an online monitor compares each document with its round trip along the schema", "schemas, option sets and documents"),
 'G03': ("the same project is generated under several option sets, compiled and executed on the same documents, conforming and disturbed; differential monitor over all outputs and reflected names", "option sets and documents"),
})
CLAIMS.update({
 'G04': ("the generated MessagePack code is compiled and executed on seeded values through both interfaces, and an online monitor compares the round trips and an independent decoding of the bytes with the value; the generated tests are run", "schemas, option sets and values"),
 'G05': ("the generated Avro code is compiled and executed on seeded values; an independent Avro schema parser and container file reader decode what it writes and an online monitor compares every field with the value, and every schema with the JSON schema; the generated tests are run", "schemas, option sets and values"),
 'G06': ("the generated writers are compiled with the race detector and driven with sequences of items, timings, side by side writers and failing destinations; a recorded history of items taken, errors and bytes is checked offline: an independent reader decodes the file and every record is compared with its item; a watchdog looks for writers which hang or outlive their error channel", "schemas, item sequences, timings and failure points"),
 'G08': ("the real generation is executed on seeded schema projects and option sets; an online monitor parses the GraphQL with an independent SDL parser and compares every type, field, list, mark, description and model with the schema and with the generated Go", "schemas, compositions and option sets"),
 'G09': ("the command is built and executed with random command lines, working directories and damaged directories; an online monitor compares exit codes, messages and every byte below the directory with what the library does from the same state", "command lines, schemas and kinds of failure"),
 'G10': ("the real generation is executed repeatedly on seeded schema projects in fresh, populated and relative directories and from reordered files; an online monitor compares every generated byte and the input files", "schemas, option sets, histories of directories and member orders"),
 'G07': ("seeded executions of the real conversions; an online monitor compares each result with an exact calculation on big integers", "times and slices of times"),
})
