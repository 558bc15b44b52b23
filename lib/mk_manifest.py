"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
T = "TLA+ specification checked with TLC; trace validation of recorded runs of the real code (%s)"
TC = "TLA+ specification checked with TLC; every enumerated program replayed into the compiler against the real code (%s)"
CLAIMED = {
    "C01": ("DeMachine/TraceDe", "Every recorded stream over curated and random built-in types must be a behaviour of the explicit deserialization machine, event by event (result, depth) and in its final value. Sampled streams, not all; trusts TLC, rustc and the harness' canonical form."),
    "C02": ("DeMachine/BigNum/TraceDe", "Number conversions of the code are compared with exact arithmetic in the specification (range checks on digits, correct rounding decided by exact comparison) over all boundary values, halfway cases and random numbers, in every position a number can have. Sampled numbers, not all 2^64."),
    "C03": ("MCDrive/DeProtocol/TraceProtocol", "TLC enumerates every history of the closed driver model (all event sequences up to a bound, all patterns of owned, borrowed and null child sinks, a failure or panic at every callback, all root wrappers); each is replayed into the real driver with logging sinks and the log must be a behaviour of the protocol specification. Exhaustive up to the bound (quick: 5 events). The built-in and derived sinks are run typed as well: depth and topmost descriptor at every event must be those of DeMachine (sampled). Histories that are JSON texts are also emitted by the JSON deserializer (TraceEntry)."),
    "C04": ("MCDrive/MCPull/Ownership/TraceOwn/TraceCollect", "The same enumeration for both drivers, with the log judged by an explicit ownership model (what borrows from what, what may be used, finished or dropped when, nothing left at the end); memory freed in a case is held back so that a use after free is observed as a use after drop. Collected values are tracked through all containers and derived types, for prefixes, duplicates, wrong lengths, and an error or panic at every callback. Exhaustive up to the bound for the drivers, sampled streams for collections."),
    "C05": ("SerMachine/TraceSer/MCPull/TraceSerProtocol", "Every recorded serialization (event, descriptor, depth, topmost descriptor, end) of curated and random types and values must be a behaviour of the explicit serialization machine; all small shapes of scripted values are enumerated by TLC, abandoned at every point, and judged by the protocol specification. Sampled types and values."),
    "C06": ("SerMachine/TraceSer/MCPull/TraceSerProtocol", "Start and finish hooks of transparent probe values are observations of the specification, at every position and behind every wrapper; a fault is injected at every single hook of sampled values; all small shapes of scripted values and emitters are enumerated by TLC with a fault at every callback and judged by the protocol specification, also below the JSON serializer and the debug formatter (TraceOutput). Sampled types and values."),
    "C07": ("JsonParse/JsonNum/TraceJson", "Every text (all short token sequences, generated documents, mutations, truncations, byte noise, number and escape grids) is read byte by byte by a pushdown automaton written from RFC 8259; acceptance, delivered events and exact or correctly rounded numbers must agree with the code. Bounded exhaustive plus sampled texts."),
    "C08": ("SerMachine/JsonParse/DeMachine/TraceJsonRt", "The text the code writes is read by the specification's JSON automaton and must denote the events SerMachine produces; the value read back must be the one DeMachine makes of them, and equal to the original; with and without the speedups feature. Sampled types and values, strings over all code point classes."),
    "C09": ("DeMachine/TraceDe", "Declarations are generated over all supported attributes, compiled against the derive macros and driven with generated streams; results must be those of the specification's declaration semantics. Sampled declarations and streams."),
    "C10": ("SerMachine/TraceSer", "Declarations are generated over all supported attributes, compiled against the derive macros and serialized; events must be those of the specification's declaration semantics. Sampled declarations and values."),
    "C11": ("SerMachine/DeMachine/TraceSer/TraceDe/TraceRt", "Generated flattened declarations are serialized, deserialized from permuted and mutated streams and round-tripped; all must be behaviours of the specification. Sampled declarations and values."),
    "C12": ("SerMachine/DeMachine/TraceRt", "Serialization events, copied and replayed after the value is gone, must be accepted by the specification's machine and give the same value in code and specification. Sampled types and values."),
    "C13": ("SerMachine/TraceSer", "Path at every event and hook of probe-filled values is compared with the path the specification assigns. The path while a key is produced is left open. Sampled types and values."),
    "C14": ("TracePathDe/DeMachine", "Path seen at every atom by a recording sink is compared with the specification's; typed results with and without tracking must be the same behaviour of DeMachine. Sampled streams."),
    "C15": ("Nesting/TraceNest", "Runs over nestings of thousands of levels (fully logged, every event and depth checked against a constant-state machine) and of 100000 levels and more (summaries), in every mode, pattern and for typed recursive values, complete, failing and abandoned, on a 256 KiB stack; stack used by callbacks must not depend on the depth. Sampled depths and patterns."),
    "C16": ("MCExt/Extensions/TraceExt", "TLC enumerates all short histories of two drivers; these and long random histories over 86 types (same layout, same name, generic instances, large, aligned, boxed), five drivers, every kind of callback and nested drivers are replayed, and every read and the number of live values must be those of the model. Exhaustive up to the bound, sampled beyond."),
    "C17": ("SerMachine/DebugFmt/TraceDebug", "The text of every sampled value in all forms must be the one the specification renders from its events, repeatedly, and under every flag of the formatter; writers that fail at every byte must see a prefix and get their failure back. The notation of non-byte atoms is that of the standard library. Sampled values, all bytes."),
}
CLAIMED["C18"] = ("DeMachine/JsonParse/SerMachine/TraceErr", "The machines of the specification give, besides acceptance, the kinds of error that the first unacceptable event or byte may have and the parts a message must have (what was found, what is expected, which field is missing); every failing run of typed deserialization, JSON reading and JSON writing, and the Error type itself, must agree. Sampled types, streams and texts.")
CLAIMED["C19"] = ("MCDecl/Decl/TraceDecl", "TLC enumerates declarations (attribute items of every documented and many malformed forms at container, field and variant, up to two per declaration, colliding and distinct names under all case rules, shapes, generics and scopes) with the verdict the specification gives; each is compiled against the derive macros and the compiler's answer must be that verdict. Exhaustive up to the bound; combinations the documentation leaves open are not judged.")
CLAIMED["C20"] = ("MCBorrow/Borrow/Api/TraceBorrow", "TLC enumerates every straight-line program of up to four operations over the public interface from a specification of what borrows from what; a model of ownership says which are safe; each is compiled and the compiler's answer must be that of the model, in both directions. Exhaustive up to the bound; what the crates do inside their own unsafe code is the subject of C04.")
CLAIMED["C21"] = ("DeMachine/SerMachine/TraceDe/TraceSer/TraceJsonRt/TraceConv", "Typed runs enter the library through every entry point (drivers for slots and sinks, borrowed, boxed, owned, forwarding and path-tracking sinks; references, boxes, handles and forwarding values; functions and types of the JSON crate) and every conversion into events and chunks; each must be the same behaviour of the same machine, and each conversion the atom the specification assigns. Sampled types, values and streams; all conversions at boundary values.")
# checks that also run wide data
WIDE = " Containers, strings and numbers of up to 70000 (thorough: 200000) elements are compared with the size-independent description of Width (TraceWide)."
for p in ("C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C17", "C18"):
    CLAIMED[p] = (CLAIMED[p][0] + "/Width/TraceWide", CLAIMED[p][1] + WIDE)
NA = {}
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks are needed in /repo: everything is driven and observed through the public interface. The technique is described in DESIGN.md; genuine defects that were repaired are listed in known-findings.txt."}
for p in props:
    if p in CLAIMED:
        spec, note = CLAIMED[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
                            "technique": (TC if p in ("C19", "C20") else T) % spec, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet (work in progress)")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
