_T="exploration of generated inputs only; trusts the independent document writer and the oracle of the harness"
_C=_T+"; trusts the blend package (C15-C20) and a stand-in for github.com/oov/downscale, which is not available offline"
CLAIM={
"C01":("property-based round trip against an independent PSD/PSB writer",_T),
"C02":("property-based round trip against an independent PSD/PSB writer",_T),
"C03":("property-based round trip and invariant over generated group structures",_T),
"C04":("property-based round trip: model samples vs decoded channels and pixels",_T),
"C05":("property-based round trip: model samples vs decoded merged image",_T),
"C06":("property-based round trip over many encoders, plus mutation of encoded data",_T),
"C07":("property-based check of byte accounting with counting readers",_T),
"C08":("differential testing over generated read schedules",_T),
"C09":("differential testing of options and callbacks against a full decode",_T),
"C10":("structure-aware mutation fuzzing with panic, time and memory oracle",_T+"; declared sizes that are legal but would exhaust memory are out of scope"),
"C11":("fault injection: every cut position or read error of generated documents",_T),
"C12":("differential testing over CPU counts and concurrent decodes",_T),
"C13":("property-based testing against a real-number reference, plus metamorphic relations (monotone, 8 vs 16 bit)",_T),
"C14":("property-based testing: round trip within the type's precision, idempotence",_T),
"C15":("property-based testing against a real-number reference with interval propagation of rounding",_T),
"C16":("property-based testing against a real-number reference",_T),
"C17":("metamorphic testing: a draw vs drawing each pixel alone, plus frame and memory invariants",_T),
"C18":("differential testing of image types, masks and code paths",_T),
"C19":("metamorphic and differential testing over CPU counts, partitions and self-overlap",_T),
"C20":("property-based testing of exact algebraic identities",_T),
"C21":("property-based testing against a reference compositor without tiles, caches or concurrency",_C),
"C22":("model-based stateful testing: histories of changes and renders against a reference compositor",_C),
"C23":("model-based stateful testing of families of clones against a reference compositor",_C),
"C24":("metamorphic testing over tile sizes, CPU counts, destinations and caches",_C),
"C25":("property-based round trip: model document vs layer tree; truncation and read errors",_C),
"C26":("fault injection: contexts that are done after a drawn number of checks, bytes or microseconds",_C),
"C27":("metamorphic testing of exact transformations against a reference compositor",_C),
"C28":("property-based testing against the model's own pixels",_C),
"C29":("property-based testing of the built command: output files, exit status and fault injection",_T),
"C30":("differential testing of the JavaScript decoder (in node) against the native one",_T+"; the GopherJS glue is not run"),
"C31":("differential testing of 386 and WebAssembly builds against the native one, plus mutation fuzzing",_T),
"C32":("structure-aware mutation fuzzing of documents with differential and metamorphic oracles on the tree",_T+"; what can be decoded is decided by the decoder itself (C10, C11)"),
}
NA={}
