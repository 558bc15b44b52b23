import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Deserialization delivers exactly the value the event stream denotes",
"For every built-in deserializable type (unit, bool, char, strings, numbers, options, boxes, vectors, byte vectors, arrays, tuples, ordered and hashed maps and sets, nested arbitrarily) and every well-formed event stream, driving the deserializer either ends with exactly the value the stream denotes or reports an error. Sequences keep order and all elements, fixed-length containers reject any other length, a repeated map key keeps the last value, an optional is absent only for null, bytes become byte vectors or arrays, and nothing of an accepted stream is lost or altered. A stream that does not fit the type is rejected at the event that does not fit, with the matching error kind (type mismatch, wrong length, out of range).",
["inputs"],"all types built from the supported constructors and all well-formed event streams, fitting or not",
"The existing tests deserialize a dozen hand-written values of a handful of types; types, nestings and streams are unbounded (they missed that optional containers were silently dropped and that hashed maps could not be read at all).",
["deser/src/de/impls.rs","deser/src/de/driver.rs","deser/src/de/owned.rs","deser/src/de/ignore.rs"],
[("per-type sinks","deser/src/de/impls.rs"),("event driver","deser/src/de/driver.rs"),("owned slot for boxed values","deser/src/de/owned.rs")],
["result of each emit call","value in the output slot after the last event","error kind"],
[("open containers","stack of containers being filled with the values received so far","deser/src/de/driver.rs sink_stack")])

p("C02","Numbers convert exactly or are rejected, never wrapped or truncated",
"For every integer target type and every unsigned or signed 64-bit integer event, deserialization yields the same mathematical integer when the target type can represent it and reports an out-of-range error otherwise; it never wraps, truncates or changes sign. Floats are never accepted for integers, integers given to floating point targets arrive as the nearest representable value, and 64-bit floats arrive bit for bit. Characters accept exactly a character or a string of exactly one character.",
["inputs"],"all pairs of target type and 64-bit integer, float, char or string atom",
"Tests use small positive numbers; the wrong conversions sit at sign and width boundaries (-1 into u64 and u64::MAX into i8 used to be accepted).",
["deser/src/de/impls.rs"],
[("integer sinks","deser/src/de/impls.rs int_sink!"),("float sinks","deser/src/de/impls.rs float_sink!"),("char sink","deser/src/de/impls.rs")],
["value in the output slot","error kind"])

p("C03","The deserialization driver calls sinks exactly in protocol order",
"Whatever sinks are plugged in, each event makes the driver ask the innermost open container for exactly one child sink (keys and values strictly alternating in maps, values only in sequences), deliver exactly that one atom, map or sequence to it and finish every value exactly once, containers after all of their children. The driver's depth and topmost descriptor always describe exactly the containers that are currently open, an error of a sink is returned from the very call that caused it and no other callback runs in that call afterwards, and an end event that does not match the innermost open container panics instead of being delivered.",
["inputs","histories","fault_sequences"],"all event histories, all sink behaviours including failures at any callback, all nestings",
"Tests drive the built-in sinks with a few correct streams and never look at the callback history, depth, failures or malformed streams.",
["deser/src/de/driver.rs","deser/src/de/mod.rs"],
[("event dispatch","deser/src/de/driver.rs DeserializeDriver::_emit"),("child sink selection","deser/src/de/driver.rs update_current_sink")],
["callbacks received by user supplied sinks, in order","driver state depth and top descriptor after every emit","emit result"],
[("sink stack","open containers and whether a map expects a key","deser/src/de/driver.rs"),("descriptor stack","descriptor per open container","deser/src/de/mod.rs DeserializerState")])

p("C04","Everything lent or built during (de)serialization is released once, in order",
"For every point at which a serialization or deserialization is completed, fails or is abandoned, every sink, emitter, lent handle and partially built value is dropped exactly once. A child that borrows from its container is always dropped before that container is used again, finished or dropped. Values already collected in vectors, arrays, maps and tuples are neither leaked nor dropped twice.",
["crash_points","fault_sequences","histories"],"all prefixes of all event histories, all callbacks at which a user supplied component can fail or panic, both drivers, all containers",
"Tests run every operation to completion with values that have no observable drop; early abandonment and failing callbacks are never exercised.",
["deser/src/de/driver.rs","deser/src/ser/driver.rs","deser/src/de/owned.rs","deser/src/de/impls.rs","deser/src/de/mod.rs"],
[("driver drop order","deser/src/de/driver.rs, deser/src/ser/driver.rs Drop"),("owned sink drop","deser/src/de/owned.rs"),("partial array drop","deser/src/de/impls.rs ArraySink")],
["drops and uses logged by instrumented sinks, emitters, handles and values"])

p("C05","Serialization emits the exact, balanced event stream of the value",
"For every serializable value the driver produces exactly the events that denote it: one start and one matching end per container, every element, key and value once and in iteration order, every atom with the value's own data, and then the end of the stream. Each event carries the descriptor of the value it belongs to (type name, precision, orderedness; the same for start and end), and the reported depth and topmost descriptor describe exactly the containers open at that point. Byte slices, vectors and arrays of bytes are one bytes atom; wrappers (references, boxes, newtypes) are invisible.",
["inputs"],"all values of all serializable types built from the supported constructors",
"Tests compare a few short event lists and never look at depth or descriptors.",
["deser/src/ser/driver.rs","deser/src/ser/impls.rs","deser/src/ser/chunk.rs","deser/src/descriptors.rs"],
[("serialization state machine","deser/src/ser/driver.rs SerializeDriver::advance"),("per-type serialization","deser/src/ser/impls.rs")],
["event, descriptor and state returned by every next call"],
[("state stack","what remains to be emitted","deser/src/ser/driver.rs")])

p("C06","Every serialized value is finished exactly once, innermost first",
"For every value whose serialization was started, the value's finish hook runs exactly once, after all of its own events were produced and before anything that follows it is asked for, so start and finish calls nest like brackets. This holds at every position of the value: as root, element, key, field, flattened field, and behind any combination of options, boxes, references, newtypes and path tracking. An error in a hook or emitter is returned from the call that ran it.",
["inputs","fault_sequences"],"all value trees, all positions and wrappers, all positions of a failing hook",
"No existing test has a value with a finish hook (options, boxes and references used to drop it silently).",
["deser/src/ser/driver.rs","deser/src/ser/impls.rs","deser-derive/src/ser.rs","deser-path/src/ser.rs"],
[("finish state","deser/src/ser/driver.rs FinishSerialize"),("wrapper forwarding","deser/src/ser/impls.rs, deser-derive/src/ser.rs, deser-path/src/ser.rs")],
["start and finish calls logged by user supplied values, interleaved with the driver's events"])

p("C07","JSON input is accepted exactly when it is valid JSON, and never panics",
"For every byte sequence, the JSON deserializer accepts it into a type that takes any JSON value if and only if it is a single RFC 8259 JSON text in UTF-8 (whose numbers are in range), and reports an error otherwise; it terminates and never panics. An accepted text is delivered as exactly the events it denotes: members and elements in order, duplicate keys included, strings with all escapes and surrogate pairs decoded, integers that fit 64 bits as exactly that integer and other numbers as the nearest float. Deserializing the text into any other type gives exactly what that type makes of these events, or its error.",
["inputs"],"all byte sequences, including invalid UTF-8, truncated and huge-exponent inputs",
"Tests parse nine short documents; malformed inputs, escapes, number edge cases and truncation are not covered (a trailing comma used to panic, a missing value was accepted).",
["deser-json/src/de.rs"],
[("tokenizer","deser-json/src/de.rs next_token, parse_str, parse_escape, parse_integer"),("container grammar","deser-json/src/de.rs deserialize_into"),("float assembly","deser-json/src/de.rs f64_from_parts")],
["result of deserializing into a recording type","events received by the recording type","panics"],
[("container stack","open containers, first element and key position","deser-json/src/de.rs ContainerState")])

p("C08","JSON output is valid JSON that denotes the value and reads back equal",
"For every value made of events JSON can express (null, booleans, strings, characters, numbers, sequences, maps with string or character keys), serialization to JSON yields one valid RFC 8259 text that denotes exactly that value, and deserializing it into the same type gives back an equal value (non-finite floats become null). Anything JSON cannot express (bytes, other keys) is an error and never invalid output. Both holds with and without the speedups feature.",
["inputs","configurations"],"all values, all strings over all code points, both feature configurations",
"Tests check four short outputs; control characters, all code points, number extremes, nested empties and the round trip are not covered (characters used to come back as digits).",
["deser-json/src/ser.rs","deser-json/src/de.rs"],
[("JSON writer","deser-json/src/ser.rs Serializer::serialize"),("string escaping","deser-json/src/ser.rs write_escaped_str")],
["output text","value read back from the output text"])

p("C09","Derived deserialization follows the declared names, aliases and defaults",
"For every struct, newtype or unit enum declaration with any supported combination of attributes, the derived deserializer fills each field from exactly the keys given by its (renamed or case-converted) name and aliases, ignores other keys with everything below them, is independent of the order of keys and lets the last of repeated keys win. A field that did not occur is filled from its own default, else from the container default, else it is absent if optional, else deserialization fails with a missing-field error; defaults are only computed when a field needs them; enum variants are accepted from exactly their names and aliases. Generic parameters only need to be deserializable themselves.",
["programs","inputs"],"all declarations over the supported attributes and all event streams for them",
"Each existing test has one declaration and one or two inputs; attribute combinations, identifiers and key orders are unbounded.",
["deser-derive/src/de.rs","deser-derive/src/attr.rs","deser-derive/src/bound.rs"],
[("generated sink","deser-derive/src/de.rs derive_struct, derive_enum, derive_newtype_struct"),("name conversion","deser-derive/src/attr.rs get_field_name, get_variant_name")],
["value or error of deserializing into generated declarations"])

p("C10","Derived serialization emits the declared fields, names and skips",
"For every struct, newtype or unit enum declaration with any supported combination of attributes and every value of it, the derived serializer emits a map whose entries are exactly the declared fields that are not skipped, in declaration order, under their (renamed or case-converted) names, with the type name hint of the declaration. A field is skipped exactly when its skip predicate holds for its value, or when the declaration skips optionals and the value is currently absent. Newtypes emit exactly their inner value and enum variants exactly their name.",
["programs","inputs"],"all declarations over the supported attributes and all values of them",
"Each existing test has one declaration and one value.",
["deser-derive/src/ser.rs","deser-derive/src/attr.rs"],
[("generated emitter","deser-derive/src/ser.rs derive_struct"),("name conversion","deser-derive/src/attr.rs")],
["events produced for values of generated declarations"])

p("C11","Flattened fields behave like fields written inline, in both directions",
"Serializing a struct with flattened struct fields emits one flat map with the inner entries at the position of the flattened field, honouring the skip rules of both levels, at any depth of flattening and through newtypes and boxes. Deserializing routes every key the outer struct does not declare to the first flattened field that accepts it, applies the inner struct's own defaults and missing-field rules, and still ignores keys nobody accepts. Serializing and deserializing such a value gives back an equal value.",
["programs","inputs"],"all nestings of flattened declarations, all values and all key orders",
"One existing test flattens two small structs once.",
["deser-derive/src/de.rs","deser-derive/src/ser.rs","deser/src/de/owned.rs"],
[("key routing","deser-derive/src/de.rs value_for_key"),("nested emitter","deser-derive/src/ser.rs nested_emitter")],
["events of flattened values","value read from permuted keys"])

p("C12","Serializing and deserializing a value gives back an equal value",
"For every type that supports both directions, built-in or derived, feeding the events of a value into the deserializer of the same type yields an equal value (except that a null cannot tell apart which of several nested optionals is absent, or whether the content of a present optional is itself null). The events may be made independent of the value and replayed later without any change to them.",
["inputs","programs"],"all values of all types supporting both directions",
"No existing test composes the two directions over events; pairs of types and values are unbounded.",
["deser/src/ser/impls.rs","deser/src/de/impls.rs","deser/src/event.rs","deser-derive/src/ser.rs","deser-derive/src/de.rs"],
[("serializer and deserializer pairs","deser/src/ser/impls.rs, deser/src/de/impls.rs"),("static copies of events","deser/src/event.rs to_static")],
["value deserialized from the events of a value"])

p("C13","Path tracking during serialization always names the current position",
"While a path-tracked value is serialized, the reported path at every value event and in every hook of a nested value is exactly the sequence of map keys and indexes that leads from the root to that value; string keys, unsigned integer keys and sequence positions are named and any other key is reported as unknown. When a value ends its segment is gone, so the path is empty again at the end. Tracking changes nothing else: events, descriptors, skipping and finish hooks are those of the bare value.",
["inputs"],"all value trees, all key types, all positions at which the path is read",
"One existing test reads three paths of one nested value.",
["deser-path/src/ser.rs","deser-path/src/lib.rs"],
[("segment push and pop","deser-path/src/ser.rs SegmentPushingSerializable"),("key capture","deser-path/src/ser.rs SegmentCollectingSerializable")],
["path read from the state at every event and hook","event stream with and without tracking"])

p("C14","Path tracking during deserialization always names the current position",
"While events are fed into a path-tracked sink, the path every nested value sees when it receives its atom is exactly the sequence of map keys and indexes that leads from the root to it, also after any number of nested containers ended; string keys and non-negative integer keys are named and any other key is reported as unknown. Tracking changes nothing else: the wrapped type yields the same value or error.",
["inputs"],"all event streams and all positions",
"One existing test reads the paths of one nested document (which missed that the path was wrong after any nested container had ended).",
["deser-path/src/de.rs","deser-path/src/lib.rs"],
[("segment tracking","deser-path/src/de.rs PathSink")],
["path read from the state in the atom callback of recording sinks","value with and without tracking"])

p("C15","Nesting depth never consumes call stack",
"Driving serialization, deserialization, ignoring unknown data, JSON parsing and JSON writing uses an amount of call stack that does not depend on how deeply the data is nested; arbitrarily deep data is processed to completion with the correct events, depth and result. Abandoning a deeply nested operation does not overflow the stack either.",
["inputs"],"all nesting depths and all mixtures of maps and sequences, completed or abandoned",
"No existing test nests deeper than three levels.",
["deser/src/de/driver.rs","deser/src/ser/driver.rs","deser-json/src/de.rs","deser-json/src/ser.rs","deser/src/de/ignore.rs"],
[("explicit stacks","deser/src/de/driver.rs sink_stack, deser/src/ser/driver.rs state_stack, deser-json container stacks")],
["stack addresses in callbacks at every depth","completion of runs deeper than any call stack"])

p("C16","Extension values are private to a driver, typed and persistent",
"Each driver has its own extension values, one per type, starting as that type's default; a read always returns what was last written for that very type through that driver, from whatever callback or caller it was accessed. Writing one type never affects another, two drivers never share values, and the values survive until the driver ends.",
["histories"],"all histories of reads and writes over several types, several live drivers and all callbacks",
"Extensions are only exercised indirectly by the two path tests.",
["deser/src/extensions.rs","deser/src/ser/mod.rs","deser/src/de/mod.rs"],
[("type-keyed map","deser/src/extensions.rs")],
["values returned by reads"])

p("C17","Debug formatting renders every value faithfully and always terminates",
"Formatting a serializable value for debugging prints exactly its structure: type name hints, every entry and element once in order, and every atom in its debug notation with bytes escaped, in both the compact and the pretty form; flags of the format (hexadecimal, width, precision, sign) apply to the atoms except bytes. Formatting the same object again gives the same text, and formatting into a writer that fails at any point returns that failure with a prefix of the text written instead of panicking or looping.",
["inputs","fault_sequences"],"all values and all positions at which the writer can fail",
"One existing test formats one value into a string (a failing writer used to loop forever).",
["deser-debug/src/lib.rs"],
[("event dump","deser-debug/src/lib.rs dump")],
["formatted text","result of formatting into failing writers"])
p("C18","Errors say what kind of thing went wrong, what was found and what is missing",
"An operation that fails returns the error of the first thing that is not acceptable, with the matching kind: Unexpected for a value of the wrong type (the message names what was found and what the target expects), OutOfRange for a number that cannot be represented, WrongLength for a wrong number of elements, MissingField naming a field that really is missing by its external name, UnsupportedType for a value the output format cannot express. JSON texts that merely end too early fail with EndOfFile (those that break off inside a string or number possibly with Unexpected), malformed ones with Unexpected, and numbers beyond every supported range with OutOfRange. An error made by a user component is handed to the caller unchanged, with its kind, message and source.",
["inputs"],"all types and all event streams and texts they do not accept",
"Tests check the message of two or three errors; which of many errors is reported, and its kind, for an arbitrary type and input is not covered.",
["deser/src/error.rs","deser/src/de/mod.rs","deser/src/de/impls.rs","deser-derive/src/de.rs","deser-json/src/de.rs","deser-json/src/ser.rs"],
[("error type","deser/src/error.rs Error, ErrorKind"),("mismatch messages","deser/src/de/mod.rs Sink::__private_atom, expecting, descriptor"),("missing fields","deser-derive/src/de.rs finish"),("parser errors","deser-json/src/de.rs")],
["kind and message of the returned error"])
p("C19","Declarations are honoured as written or rejected at compile time",
"Deriving Serialize or Deserialize for any declaration either compiles, and then means what was written, or fails to compile. Every declaration of a struct with named fields, a newtype or a unit enum that only uses documented attributes, each at most once and at its place, compiles, whatever its names, generics, visibility and surrounding scope. A declaration with a misspelled, malformed, misplaced or repeated attribute, with two fields or variants that listen to the same name or alias (for Deserialize), with a default on a flattened field, or of any other shape is rejected. The order in which attributes are written, and whether they share one list, does not matter.",
["programs"],"all declarations up to a number of attributes, in all kinds of scopes",
"The existing tests only contain declarations that compile; nothing shows that a wrong one does not (malformed attributes used to be ignored silently).",
["deser-derive/src/attr.rs","deser-derive/src/de.rs","deser-derive/src/ser.rs","deser-derive/src/lib.rs","deser/src/lib.rs"],
[("attribute parsing","deser-derive/src/attr.rs"),("duplicate names","deser-derive/src/de.rs derive_struct, derive_enum"),("supported shapes","deser-derive/src/de.rs derive_deserialize, deser-derive/src/ser.rs derive_serialize")],
["whether the compiler accepts the declaration"])
p("C20","Safe code cannot touch or outlive what a driver or handle borrows",
"No program without unsafe code can use, change, move or drop a value while a driver, handle, event, state, extension reference, path wrapper or chunk that borrows from it may still be used, keep such a borrower longer than the value, or exchange the borrowers inside an owned sink; the compiler rejects each such program, and accepts every program that respects the borrows. Events and atoms can be kept by making static copies. Drivers, handles, states and owned sinks never cross threads, errors can.",
["programs"],"all straight-line programs up to a number of operations over the public interface, and implementations of the public traits",
"Tests are programs that compile; that the others do not, cannot be tested by running (a driver made from a sink handle used to be allowed to outlive the sink).",
["deser/src/de/driver.rs","deser/src/ser/driver.rs","deser/src/de/owned.rs","deser/src/de/mod.rs","deser/src/ser/mod.rs","deser/src/event.rs","deser/src/error.rs","deser-path/src/ser.rs","deser-path/src/de.rs","deser-json/src/de.rs"],
[("driver lifetimes","deser/src/de/driver.rs DeserializeDriver, deser/src/ser/driver.rs SerializeDriver"),("handles","deser/src/de/mod.rs SinkHandle, deser/src/ser/mod.rs SerializeHandle"),("owned sinks","deser/src/de/owned.rs OwnedSink"),("path wrappers","deser-path/src/de.rs PathSink, deser-path/src/ser.rs PathSerializable")],
["whether the compiler accepts the program"])
p("C21","Every way to hand over a value, sink, event or text means the same",
"Events and chunks made from Rust values (unit, booleans, characters, 64-bit and pointer-sized numbers, floats, borrowed and owned strings, bytes, atoms) are exactly the atom of that value, and copies and static copies of them are equal to the original. Deserializing gives the same results, errors, depths and value whether the driver is made for a slot, for a borrowed, boxed or owned sink, through a user-written sink that forwards to another sink or to an owned sink, through a path-tracking sink, or is moved around. Serializing gives the same events and descriptors for a value, a reference, a box, a borrowed or boxed handle, or a user-written value that forwards to it. JSON is the same through the functions and through the serializer and deserializer types.",
["inputs","configurations"],"all values, event streams and combinations of entry points",
"The tests use one entry point each, with one or two values; that all of them agree for every input is not covered.",
["deser/src/event.rs","deser/src/ser/chunk.rs","deser/src/de/mod.rs","deser/src/ser/mod.rs","deser/src/de/owned.rs","deser-json/src/lib.rs","deser-path/src/de.rs"],
[("conversions","deser/src/event.rs, deser/src/ser/chunk.rs impl_from"),("handles","deser/src/de/mod.rs SinkHandle, deser/src/ser/mod.rs SerializeHandle"),("owned sinks","deser/src/de/owned.rs OwnedSink"),("JSON entry points","deser-json/src/de.rs from_str, Deserializer; deser-json/src/ser.rs to_string, Serializer")],
["events delivered to recording sinks","results, depths and values of typed sinks","events of values","JSON texts"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
