"""What each check is: used for the evidence files and the manifest."""
COMMON = ["the reference model in harness/model.cpp defines the expected behaviour", "clang 18 sanitizers and glibc behave as documented",
          "little-endian 64-bit host; int is 32 bits"]
_E, _F = "exploration", "fault_enumeration"
INFO = {
 "C01": dict(level=_E, technique="ASan/UBSan/MSan (valgrind in thorough) + basic-block step budget over hostile inputs",
   note="Every operation on random, mutated and hostile inputs under sanitizers, each input twice with differently filled fresh memory; assurance is for the executions observed. Nesting deep enough to exhaust the stack is a listed known finding.",
   rule="hostile inputs (structured lies about sizes, mutations, splices, truncations, deep nesting) through every operation with default, test, layered and random registries; distinct by the hash of everything the library showed; a part runs from a C driver under MemorySanitizer", assumptions=["a run that needs more than 600 million basic blocks for one input (20 thousand million for those with giant payloads) counts as a hang"]),
 "C02": dict(level=_E, technique="runtime comparison of written bytes with a reference encoder, sanitized", note="Byte equality on generated hierarchies over all destinations.",
   rule="generated hierarchies (conforming, non-conforming, extension chunks), built or read, written to streams, named streams, standard output and files; distinct by structural signature"),
 "C03": dict(level=_E, technique="runtime comparison of read hierarchies with a reference model, sanitized", note="Structural equality, links and byte identity of the rewrite on generated streams.",
   rule="generated well-formed streams with random delivery; distinct by structural signature"),
 "C04": dict(level=_E, technique="runtime comparison of the check's verdict with a reference conformance definition", note="Accept/reject agreement on conforming hierarchies and on ones with one or more planted violations at random positions.",
   rule="conforming hierarchies, and variations violating one or more rules at any position, built or read; distinct by structural signature", assumptions=["sums of sizes beyond 32 bits are not judged"]),
 "C05": dict(level=_F, technique="fault injection: every cut point and read error, monitored", note="For small streams every cut and error offset is enumerated, for larger ones a sample; result, diagnostics and resources are judged.",
   rule="generated well-formed streams cut or failing at each offset (sampled when large), via files, pipes and custom streams; distinct by (structure, offset kind)"),
 "C06": dict(level=_F, technique="fault injection: write errors at every offset, flush and close, monitored", note="Every error offset for small hierarchies, sampled for larger ones, with several buffering modes.",
   rule="generated hierarchies x error offset/flush/close x buffering x destination; distinct by (structure, fault)"),
 "C07": dict(level=_E, technique="allocation/stream accounting + ASan over random operation histories", note="The accounting is exact for the library's own allocations and streams.",
   rule="random histories of reading, building, inspecting, writing and failing; distinct by history signature"),
 "C08": dict(level=_F, technique="fault injection: k-th allocation fails, monitored", note="All k for each operation on each generated input (single failure and all-from-k).",
   rule="operation x input x failing allocation; distinct by (operation, structure, failing call)"),
 "C09": dict(level=_E, technique="runtime comparison of verdicts with model equality on single-difference pairs", note="Equal pairs and pairs with exactly one difference of each kind at every kind of position.",
   rule="pairs of hierarchies: copies and copies with exactly one difference; distinct by structural signature and difference"),
 "C10": dict(level=_E, technique="shadow-model monitor over random editing histories", note="Sizes, lengths and links of all chunks compared with the model after each operation.",
   rule="random histories of create, add, set data and recalculate; distinct by history signature"),
 "C11": dict(level=_E, technique="runtime comparison with a reference search", note="Returned arrays equal the reference on generated hierarchies and type sets.",
   rule="generated hierarchies x sets of types; distinct by structural signature and types"),
 "C12": dict(level=_E, technique="runtime comparison with a reference lookup", note="Returned chunks equal the reference for all FORMs and many identifiers of generated hierarchies.",
   rule="generated hierarchies with nested lists and shared properties x FORM x identifier; distinct by structural signature and query", assumptions=["lists with several PROPs of one type are not judged"]),
 "C13": dict(level=_E, technique="online monitor of the contents type over random addition sequences", note="Contents type compared with the model after each addition, then checked for conformance.",
   rule="random sequences of plain and automatic additions; distinct by sequence signature", assumptions=["automatic additions after plain additions are not judged"]),
 "C14": dict(level=_E, technique="offline checking of recorded handler-call logs against a reference dispatch", note="Exactly-once, right-handler log per operation for random registries.",
   rule="random registries x hierarchies x operations; distinct by registry and structure"),
 "C15": dict(level=_E, technique="runtime comparison of transferred values, status and counters with an arithmetic model", note="Boundary-complete for chunk sizes and positions near each field; the build for big-endian hosts transfers values as well; values include all byte patterns at boundaries and random ones.",
   rule="field kind x value x chunk size x position x stream end; distinct by (kind, geometry, value class)"),
 "C16": dict(level=_E, technique="runtime comparison of extension chunks of all sizes with a reference model", note="Field values, siblings and bytes rewritten compared with the model.",
   rule="random layouts x declared sizes x siblings x stream kinds; distinct by (layout, size, position)"),
 "C17": dict(level=_E, technique="runtime comparison of captured output with a reference printer", note="Byte equality of the printed text.",
   rule="generated hierarchies x indent levels; distinct by structural signature"),
 "C18": dict(level=_E, technique="observing the sanitized tool as a process against a reference verdict and printer", note="Exit status, both outputs and diagnostics for generated files and pipes, with failing outputs.",
   rule="generated, broken and arbitrary inputs x options x input and output kinds; distinct by input hash and mode"),
 "C19": dict(level=_E, technique="observing the sanitized tool as a process against a reference concatenation", note="Exit status, output bytes, and unchanged inputs for generated argument lists, with failing outputs.",
   rule="argument lists of valid and invalid files x output kinds; distinct by inputs and mode"),
 "C20": dict(level=_E, technique="deep snapshots around inspecting operations in random interleavings", note="Hierarchy bit-identical around every operation, results repeatable.",
   rule="generated hierarchies x random sequences of inspecting operations; distinct by sequence signature"),
 "C21": dict(level=_E, technique="ThreadSanitizer + comparison with sequential transcripts", note="Interleavings are sampled (randomised yields in stream callbacks), not enumerated; ThreadSanitizer's happens-before detection does not need the race to be hit exactly.",
   rule="rounds of 2-8 threads on private or shared hierarchies; distinct by the observed order of operations"),
 "C22": dict(level=_E, technique="recorded diagnostics log and inspected standard streams against a specification of messages", note="Message presence/absence, texts' determinism and stray output judged for all kinds of inputs and failures.",
   rule="inputs of all kinds x operations x fault kinds; distinct by structure and diagnostics"),
 "C23": dict(level=_E, technique="differential observation of the same bytes over stream kinds and splits", note="Hierarchies, diagnostics and positions must coincide.",
   rule="inputs x deliveries (file, pipe, offset, buffering, splits) and consecutive chunks; distinct by structure and delivery"),
 "C24": dict(level=_E, technique="exhaustive observation of all 2^32 identifiers against a reference rule", note="The two judgements and the conversion are exhaustive; printing and storing are sampled.",
   rule="all identifiers (judgements, conversion) plus random identifiers printed, written and read; distinct by value class"),
 "C25": dict(level=_E, technique="basic-block step counter and allocation peak against linear bounds", note="Scaling families and hostile inputs; bounds have generous constants, so only super-linear growth is reported.",
   rule="families of inputs at growing sizes and hostile inputs; distinct by family, size and structure"),
 "C26": dict(level=_E, technique="monitor over random construction histories: check, write, read back, compare", note="Checked at random points of each history.",
   rule="random construction histories from legal parts; distinct by history signature"),
}
