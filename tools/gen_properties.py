#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)
L = "src/libiff/"

prop("C01", "Any input is processed without memory errors, undefined behaviour or hangs",
 "For every byte sequence offered as an IFF file, and for every registry of extension chunk types that obeys the extension contract, reading it either fails or yields a hierarchy that can be checked, compared, searched, queried, printed, written and freed. None of these operations ever accesses memory out of bounds, after release or before initialisation, executes undefined behaviour, aborts the process or runs forever.",
 ["inputs", "configurations"],
 "all byte sequences (valid, mutated, truncated, hostile sizes, overlapping group sizes, odd sizes, nesting) x default registry and extension registries x every follow-up operation",
 "The tests read about 40 hand-written well-formed or slightly broken files and never run under a sanitizer; the property ranges over all byte strings.",
 [L+"chunk.c", L+"group.c", L+"list.c", L+"rawchunk.c", L+"field.c", L+"io.c", L+"chunkregistry.c", L+"form.c"],
 [("chunk size limits group parsing", L+"group.c readGroupSubChunks"), ("field-fits test", L+"field.c fieldDoesNotFitInChunk"), ("dispatch by chunk type", L+"chunkregistry.c IFF_findChunkType")],
 ["return value of reading", "sanitizer reports", "basic-block step counter"])

prop("C02", "Writing emits exactly the IFF-85 encoding of the hierarchy",
 "Writing a hierarchy emits, for every chunk in order, its 4-character identifier, its size as a big-endian 32-bit number, its body, and one zero pad byte exactly when the size is odd; groups emit their type followed by their sub chunks, and lists emit all shared-property chunks before the other chunks. Nothing else is emitted, and the same bytes come out whether the destination is a named file, an open stream or the standard output.",
 ["inputs", "configurations"],
 "all hierarchies of data chunks, extension chunks, FORM, CAT, LIST and PROP whose total size fits 31 bits, all payload values and sizes, all destinations",
 "The write tests write a dozen fixed hierarchies and read them back with the same library, so an error mirrored in reader and writer, or one that needs an unusual size, payload or nesting, stays invisible.",
 [L+"chunk.c", L+"group.c", L+"list.c", L+"rawchunk.c", L+"io.c", L+"iff.c"],
 [("header, body, filler, padding", L+"chunk.c IFF_writeChunk/writeChunkBody"), ("PROPs before chunks", L+"list.c IFF_writeList"), ("byte swapping", L+"io.c")],
 ["bytes in the destination", "return value"])

prop("C03", "Reading recovers exactly the encoded hierarchy and rewriting reproduces it",
 "Reading a well-formed IFF stream yields a hierarchy with exactly the encoded identifiers, sizes, group types, payload bytes, child order and shared-property order, in which every sub chunk refers to its containing group and the top chunk to none. Writing that hierarchy back reproduces the input byte for byte, and non-zero pad bytes or trailing bytes after the main chunk do not change what is recovered. (Shared properties that come after members of their LIST are recovered as well, and written before the members.)",
 ["inputs"],
 "all well-formed streams: every nesting, fan-out, size parity, payload and identifier, with default and extension registries",
 "The tests read a handful of fixed files with a few chunks each; sizes beyond a few bytes, deep or wide hierarchies and arbitrary payloads are never read.",
 [L+"chunk.c", L+"group.c", L+"list.c", L+"rawchunk.c", L+"iff.c"],
 [("sub chunk loop", L+"group.c readGroupSubChunks, "+L+"list.c readListSubChunks"), ("parent link", L+"group.c IFF_attachToGroup, "+L+"list.c addPropToList"), ("padding", L+"io.c IFF_readPaddingByte")],
 ["the returned hierarchy", "bytes written back"])

prop("C04", "The conformance check accepts exactly the conforming hierarchies",
 "The check accepts a hierarchy if and only if: the main chunk is a FORM, CAT or LIST; every chunk identifier is legal (printable, not starting with a space, or the reserved all-spaces filler) and every size non-negative; every group's size equals its type field plus all its padded sub chunks; every FORM and PROP type is a legal upper-case type without punctuation that is not reserved; CATs and LISTs have a legal contents type and contain only FORM, CAT and LIST groups that agree with it unless it is the blank one, PROPs occur only directly in a LIST with at most one per FORM type and contain no groups; and every extension chunk satisfies its own check. Every violation is found wherever in the hierarchy it occurs, for hierarchies that were read as well as built.",
 ["inputs"],
 "all hierarchies, conforming ones and ones with one or more violations of any rule at any position and depth",
 "There are about twenty fixed invalid examples, each with one violation at a shallow position; acceptance of all valid and rejection of all invalid hierarchies needs an independent definition of conformance.",
 [L+"iff.c", L+"chunk.c", L+"group.c", L+"form.c", L+"cat.c", L+"list.c", L+"prop.c", L+"id.c"],
 [("recursive group check", L+"group.c IFF_checkGroup"), ("form type rules", L+"form.c IFF_checkFormType"), ("contents type rule", L+"cat.c IFF_checkCATSubChunk"), ("list rules", L+"list.c IFF_checkList"), ("main chunk rule", L+"iff.c IFF_check")],
 ["result of the check"])

prop("C05", "Incomplete or failing input never yields a hierarchy",
 "If the stream ends or its reads fail before the last byte (pad byte included) of the main chunk has been delivered, reading reports failure with a diagnostic, returns no hierarchy and releases everything it had created. If the stream delivers all those bytes, reading succeeds no matter how the bytes are split over individual reads.",
 ["inputs", "fault_sequences", "crash_points"],
 "every well-formed stream x every cut point and every read-error point, in any chunk, header, field, filler or pad byte, for files, pipes and custom streams",
 "Two tests use a truncated extension chunk; no test injects an I/O error or cuts a file at each of its offsets.",
 [L+"io.c", L+"chunk.c", L+"group.c", L+"list.c", L+"rawchunk.c", L+"field.c", L+"iff.c"],
 [("primitive reads report EOF", L+"io.c"), ("skipping detects EOF", L+"io.c IFF_skipUnknownBytes"), ("failed bodies are freed", L+"chunk.c readChunkBody")],
 ["return value", "diagnostics", "live allocations and open streams"])

prop("C06", "A write that does not reach its destination is never reported as success",
 "If the destination cannot be opened, rejects any byte, or fails when its buffered data is flushed or closed, writing reports failure and emits a diagnostic. If writing to a named file or the standard output reports success, every byte of the encoding has been delivered to the destination.",
 ["fault_sequences", "crash_points", "inputs"],
 "all hierarchies x a write error at every byte offset, at flush and at close, x buffered and unbuffered destinations x named file, stream and standard output",
 "No test injects a write error; the outcome depends on the byte at which the destination fails and on stdio buffering.",
 [L+"iff.c", L+"io.c", L+"chunk.c", L+"group.c", L+"list.c", L+"rawchunk.c"],
 [("error propagation", L+"chunk.c IFF_writeChunk"), ("close and flush checked", L+"iff.c IFF_writeFile/IFF_write")],
 ["return value", "diagnostics", "bytes delivered to the destination"])

prop("C07", "Every resource is released exactly once",
 "After any sequence of building, reading (successful or failed), checking, comparing, searching, querying, printing and writing, freeing the top chunk of each hierarchy and the arrays handed to the caller leaves no memory and no open file of the library behind. Nothing is released twice, and nothing that is still reachable from a hierarchy is released early.",
 ["histories", "inputs"],
 "all call sequences over all hierarchies and inputs, including every failing read and write",
 "Tests never observe leaks or double frees and run few sequences; leaks only show on particular combinations such as failed nested reads or searches.",
 [L+"chunk.c", L+"group.c", L+"list.c", L+"rawchunk.c", L+"form.c", L+"iff.c"],
 [("recursive free", L+"chunk.c IFF_freeChunk, "+L+"group.c IFF_freeGroup, "+L+"list.c IFF_freeList"), ("intermediate arrays freed", L+"group.c IFF_searchFormsInGroup"), ("file closed", L+"iff.c")],
 ["accounting of the library's allocations and streams", "address sanitizer"])

prop("C08", "Running out of memory is reported, never fatal",
 "Whichever of the library's memory allocations fails, the operation in progress reports failure (no hierarchy from reading, no chunk from creating, a failure result from adding or setting) or completes correctly without it; it never crashes. Hierarchies that existed before keep their contents and remain usable, nothing is leaked, and a search under memory shortage returns only true matches.",
 ["fault_sequences", "crash_points", "inputs"],
 "every operation on every input x failure of the k-th allocation for every k, and of all allocations from the k-th on",
 "No test makes an allocation fail; there is one failure point per allocation per input.",
 [L+"chunk.c", L+"group.c", L+"list.c", L+"rawchunk.c", L+"form.c"],
 [("NULL checks after allocation", L+"chunk.c IFF_createChunk, "+L+"rawchunk.c IFF_createRawChunk"), ("add operations report failure", L+"group.c IFF_attachToGroup, "+L+"list.c addPropToList")],
 ["return values", "hierarchy contents before and after", "accounting of allocations"])

prop("C09", "Comparison is exactly structural equality",
 "Two hierarchies compare equal if and only if they have the same identifiers, sizes, group types, data bytes or extension fields, and pairwise equal sub chunks and shared-property chunks in the same order. Hence comparison is reflexive, symmetric and transitive, does not depend on addresses or containing groups, and any single difference anywhere makes it report inequality.",
 ["inputs"],
 "all pairs of hierarchies, in particular pairs that differ in exactly one identifier, size, type, byte, child, order or shared property at any depth",
 "Tests compare a hierarchy with its own re-read copy and one or two different ones; a difference that is overlooked is only visible for pairs that differ just there.",
 [L+"chunk.c", L+"group.c", L+"list.c", L+"rawchunk.c", L+"form.c", L+"cat.c", L+"prop.c"],
 [("id, size then type-specific compare", L+"chunk.c IFF_compareChunk"), ("list compares PROPs and chunks", L+"list.c IFF_compareList"), ("payload compare", L+"rawchunk.c IFF_compareRawChunk")],
 ["result of the comparison"])

prop("C10", "Chunk sizes stay consistent with contents while hierarchies are edited",
 "Adding a chunk to a group appends it, links it to the group and increases the group's size by the chunk's header, data and pad byte, leaving everything else unchanged. Recalculating sizes at a chunk sets that group's size, and then that of each enclosing group up to the top, to its type field plus its padded sub chunks and shared-property chunks, and changes no other chunk; setting raw or text data makes the chunk's size equal the data's length.",
 ["histories"],
 "all sequences of create, add, set-data and recalculate operations over all group kinds and sizes",
 "Tests build a few fixed hierarchies and call recalculation once; odd sizes at several levels, shared properties and edits after building are combinations of history.",
 [L+"group.c", L+"list.c", L+"form.c", L+"cat.c", L+"prop.c", L+"rawchunk.c"],
 [("increment with padding", L+"group.c IFF_incrementChunkSize"), ("upward recalculation", L+"group.c IFF_updateChunkSizes"), ("list counts PROPs", L+"list.c IFF_updateListChunkSizes")],
 ["sizes, lengths and links of all chunks after each operation"])

prop("C11", "Searching finds exactly the outermost matching FORMs in document order",
 "Searching a hierarchy for one or more FORM types returns each FORM whose type is among them and that is not nested inside another returned FORM, exactly once, in document order, with the right count, wherever it is nested in FORMs, CATs and LISTs. It returns nothing else and leaves the hierarchy unchanged.",
 ["inputs"],
 "all hierarchies x all sets of searched FORM types (none, one, several, repeated)",
 "Tests search two small files; omissions need particular nestings, numbers of matches per branch or type sets.",
 [L+"group.c", L+"form.c", L+"cat.c", L+"list.c"],
 [("match before descending", L+"form.c IFF_searchFormsInForm"), ("merge of branch results", L+"group.c IFF_searchFormsInGroup, "+L+"form.c IFF_mergeFormArray")],
 ["returned array and length"])

prop("C12", "Property lookup honours own values first, then the innermost shared ones",
 "Looking up a chunk in a FORM yields the FORM's own first chunk with that identifier; otherwise the first such chunk in the shared-property chunk for the FORM's type of the innermost enclosing LIST that provides it, skipping LISTs that do not; otherwise nothing. Looking up all occurrences yields exactly the FORM's own chunks with that identifier, in order and without shared ones.",
 ["inputs"],
 "all hierarchies with LISTs, CATs and FORMs nested in any way, shared-property chunks for any types, and all identifiers",
 "One fixed list file is queried; scoping errors need nested lists, missing properties at some level and repeated identifiers.",
 [L+"form.c", L+"list.c", L+"prop.c"],
 [("own chunk first", L+"form.c IFF_getChunkFromForm"), ("outward search", L+"form.c searchProperty/searchList"), ("PROP by type", L+"list.c IFF_getPropFromList")],
 ["returned chunk pointers"])

prop("C13", "Automatic contents types describe the members of a concatenation or list",
 "When members are added to a CAT or LIST with automatic contents-type maintenance, the first member's type becomes the contents type, it stays that type as long as every added member has it, and becomes and remains the blank type as soon as one differs. Plain additions never change the contents type, and a group so maintained from conforming members always passes the conformance check.",
 ["histories"],
 "all sequences of additions of FORM, CAT and LIST members of any types, mixed with shared properties, on CATs and LISTs with any initial contents type",
 "Tests add two members in two fixed orders; sequences with a late mismatch, a return to the first type or nested groups are not covered.",
 [L+"cat.c", L+"list.c"],
 [("adopt or blank", L+"cat.c updateContentsType")],
 ["contents type after each addition", "result of the check"])

prop("C14", "Each chunk is handled by the most specific registered handler in all operations",
 "For a chunk inside a group of a given type, the handler registered for that type and identifier (nearest scope first) is used, otherwise the one registered globally, otherwise the default one. Reading, writing, checking, printing, comparing and freeing all use the same handler for the same chunk, exactly once per chunk per operation, for sub chunks as well as shared-property chunks.",
 ["configurations", "inputs"],
 "all registries (any number of FORM types, chunk types and scopes, sorted as required) x all identifiers and group types x all operations and hierarchies",
 "Tests use one registry with one FORM type and two chunk types; lookups that miss at particular table positions or scope levels, or operations that use different scopes, are not exercised.",
 [L+"chunkregistry.c", L+"chunk.c", L+"group.c", L+"list.c", L+"defaultregistry.c"],
 [("scoped binary search", L+"chunkregistry.c IFF_findChunkType"), ("type passed down by each operation", L+"group.c, "+L+"list.c")],
 ["handler chosen", "log of handler calls per operation"])

prop("C15", "Primitive values and fields are big-endian and never cross the chunk's end",
 "Every 8, 16 and 32-bit value, signed or unsigned, and every identifier is stored most significant byte first, read back unchanged, and consumes exactly its size, and a missing byte is reported as failure. A field that does not fit completely in what remains of its chunk is neither read nor written and reports so without moving the stream or the progress counter; otherwise the field is transferred and the counter advances by the field's size.",
 ["inputs", "fault_sequences"],
 "all values of all field kinds x all chunk sizes and positions within the chunk x streams that end or fail at any byte",
 "Tests transfer a few small values in one fixed layout; sign bits, byte order of all bytes and every boundary between fitting and not fitting are not covered.",
 [L+"io.c", L+"field.c", L+"id.c"],
 [("byte swap", L+"io.c"), ("field-fits test", L+"field.c fieldDoesNotFitInChunk"), ("progress counter", L+"field.c increaseBytesProcessed")],
 ["bytes on the stream", "values", "status and counter"])

prop("C16", "Extension chunks longer or shorter than known keep the stream in step",
 "When an extension chunk is longer than the fields its handler knows, the surplus is skipped; when it is shorter, only the fields that fit are filled in and the others keep their defaults; in both cases every following chunk is recovered correctly. Writing such a chunk back keeps its declared size, emits the known fields that fit and fills the surplus with zero bytes.",
 ["inputs", "configurations"],
 "all declared sizes from zero upward x all field layouts x any siblings and nesting x seekable and unseekable streams",
 "Tests cover one extended and two shortened sizes of one chunk type on a regular file.",
 [L+"chunk.c", L+"io.c", L+"field.c"],
 [("skip surplus", L+"io.c IFF_skipUnknownBytes"), ("zero filler", L+"io.c IFF_writeZeroFillerBytes"), ("stop at last field", L+"field.c")],
 ["field values", "sibling chunks", "bytes written"])

prop("C17", "The textual representation shows the whole hierarchy faithfully",
 "Printing a hierarchy produces on the standard output, for every chunk in document order (shared properties of a list first), its identifier, its size, its group type or contents type, and its data: text chunks verbatim, other data as two-digit hexadecimal bytes ten per line, extension chunks through their own printer. Indentation reflects the nesting and the initial level, brackets are balanced, and the output is a function of the hierarchy and the level only.",
 ["inputs"],
 "all hierarchies, payload bytes and lengths, nesting depths and initial indent levels",
 "No test looks at the printed output beyond one iffpp invocation's exit status.",
 [L+"chunk.c", L+"group.c", L+"list.c", L+"rawchunk.c", L+"util.c", L+"id.c"],
 [("chunk frame", L+"chunk.c IFF_printChunk"), ("hex and text bodies", L+"rawchunk.c"), ("indent", L+"util.c IFF_printIndent")],
 ["captured standard output"])

prop("C18", "iffpp prints exactly the valid files and fails on everything else",
 "The pretty printer exits with success, having printed the complete textual representation of the given file (or of its standard input), if and only if the file can be read, passes the conformance check unless checking is disabled, and the output could be delivered. Otherwise it exits with failure, explains itself on the standard error and prints no representation of an unreadable or rejected file.",
 ["inputs", "configurations", "fault_sequences"],
 "all input files, valid, non-conforming, truncated, missing or arbitrary bytes, x file or pipe input x check enabled or disabled x output that works or fails",
 "One test pipes one valid file through it; invalid, truncated, piped or undeliverable cases are not covered.",
 ["src/iffpp/pp.c", "src/iffpp/main.c"],
 [("read, check, print", "src/iffpp/pp.c IFF_prettyPrint"), ("options", "src/iffpp/main.c main")],
 ["exit status, standard output and standard error of the tool"])

prop("C19", "iffjoin concatenates exactly its inputs or produces no output",
 "If all inputs are readable conforming files, the joiner exits with success and the output (file or standard output) is one conforming CAT whose members are exactly the inputs' main chunks in argument order and whose contents type is their common type, or the blank type when they differ. If any input is missing, truncated or non-conforming, or no input is given, it exits with failure and creates or changes no output; if the output cannot be written it exits with failure.",
 ["inputs", "configurations", "fault_sequences"],
 "all argument lists of valid and invalid files in any order and number, including repeated inputs and an output that is also an input, x output file or standard output that works or fails",
 "One test joins two valid files; failing inputs at each position, mixed types and failing outputs are not covered.",
 ["src/iffjoin/join.c", "src/iffjoin/main.c"],
 [("check each input before writing", "src/iffjoin/join.c IFF_join"), ("contents type maintenance", L+"cat.c")],
 ["exit status and output of the tool", "input files unchanged"])

prop("C20", "Inspecting operations change nothing and give repeatable results",
 "Checking, comparing, printing, writing, searching and querying leave every chunk of the hierarchy (identity, links, types, sizes, data, order) exactly as it was, and never change the caller's search arguments. Repeating or interleaving them in any order gives the same results and output every time.",
 ["histories", "inputs"],
 "all interleavings of inspecting operations on all hierarchies, conforming or not",
 "Tests call each operation once per hierarchy and never compare the hierarchy before and after.",
 [L+"group.c", L+"list.c", L+"form.c", L+"chunk.c", L+"rawchunk.c"],
 [("const operations", L+"*.h"), ("search arrays separate from the hierarchy", L+"form.c IFF_mergeFormArray")],
 ["deep snapshots of the hierarchy", "results and output of each call"])

prop("C21", "Independent hierarchies can be processed concurrently",
 "Threads that read, build, check, compare, search, write and free their own hierarchies on their own streams, or that only inspect one shared hierarchy, do so without data races on library state. Each thread obtains exactly the results it would obtain alone.",
 ["schedules", "inputs"],
 "all interleavings of up to eight threads each running any sequence of operations on private hierarchies or inspecting a shared one, with a shared registry",
 "All tests are single-threaded.",
 [L+"chunk.c", L+"chunkregistry.c", L+"group.c", L+"id.c", L+"defaultregistry.c", L+"error.c"],
 [("no mutable library state other than the diagnostics callback", L+"*.c"), ("constant registry", L+"defaultregistry.c")],
 ["thread sanitizer reports", "per-thread results against a sequential run"])

prop("C22", "Diagnostics go only through the callback and accompany every failure",
 "Everything the library has to say is delivered to the installed diagnostics callback (by default the standard error), with a well-formed message whose text depends only on the input, and nothing is printed elsewhere except by the printing operations. Every failed read, write or check is accompanied by at least one message, a child that overruns its group, a non-zero pad byte and trailing data each cause a warning, and processing well-formed conforming data with known layouts is silent.",
 ["inputs", "configurations", "fault_sequences"],
 "all inputs, well-formed or not, all failure kinds, default and replaced callbacks",
 "Tests ignore diagnostics entirely.",
 [L+"error.c", L+"io.c", L+"id.c", L+"group.c", L+"list.c", L+"form.c", L+"cat.c", L+"iff.c"],
 [("callback indirection", L+"error.c IFF_error"), ("messages at failure points", L+"io.c, "+L+"iff.c, "+L+"group.c")],
 ["recorded callback messages", "standard output and standard error"])

prop("C23", "The result depends only on the bytes, not on how the stream delivers them",
 "Reading gives the same hierarchy, diagnostics and verdict from a named file, standard input, an open stream at any offset, a pipe or a custom stream, with any buffering and any split of the bytes over reads. Reading one chunk from an open stream consumes exactly its header, data and pad byte, so consecutive chunks can be read one after another, and likewise written one after another.",
 ["inputs", "configurations", "schedules"],
 "all inputs x stream kinds, buffer sizes and read splits x start offsets x sequences of consecutive chunks",
 "All tests read whole regular files from offset zero with default buffering.",
 [L+"io.c", L+"chunk.c", L+"iff.c", L+"rawchunk.c"],
 [("purely sequential stdio reads", L+"io.c"), ("virtual end of file per chunk", L+"chunk.c readChunkBody")],
 ["hierarchies read", "stream position", "diagnostics"])

prop("C24", "Identifiers are judged and converted correctly for all 32-bit values",
 "An identifier is legal exactly when its four bytes are printable ASCII (0x20 to 0x7e) and the first is not a space; a FORM type is legal exactly when it moreover has no lower-case letters or punctuation marks and is neither the blank type nor one of the reserved group names and their numbered variants. Converting, printing, writing and reading an identifier preserves its four bytes, most significant first.",
 ["inputs"],
 "all 2^32 identifier values",
 "Tests try about six identifiers.",
 [L+"id.c", L+"form.c"],
 [("character range test", L+"id.c IFF_checkId"), ("form type rules", L+"form.c IFF_checkFormType"), ("conversion", L+"id.c IFF_idToString")],
 ["results of the checks", "converted, printed and stored bytes"])

prop("C25", "Work and memory are bounded by the size of the input",
 "Reading an input of n bytes executes a number of steps at most proportional to n, whatever sizes the input declares, and holds memory at most proportional to n plus the declared size of the one data chunk being read. Writing, freeing, comparing, checking and printing a hierarchy take steps at most proportional to the bytes written or printed and its number of chunks, looking up a chunk and recalculating sizes to the number of chunks, and searching to the number of chunks times the types searched for times the nesting depth (checking also grows with the number of PROPs within one LIST).",
 ["inputs"],
 "all inputs, in particular many tiny chunks, wide and deep groups, empty chunks, hostile sizes and group sizes that disagree with their contents",
 "Tests never measure work, and their inputs are too small for super-linear behaviour to show.",
 [L+"chunk.c", L+"group.c", L+"list.c", L+"io.c", L+"rawchunk.c"],
 [("single pass over the stream", L+"chunk.c IFF_readChunk"), ("loop bounded by chunk size", L+"group.c readGroupSubChunks")],
 ["basic-block counter", "peak of the library's live allocations", "bytes taken from the stream"])

prop("C26", "Hierarchies built from legal parts conform and survive a round trip",
 "A hierarchy built with the construction operations from legal identifiers, types and data always passes the conformance check, can be written, and is read back as a hierarchy that compares equal to the original, conforms, and answers searches and lookups identically. This holds at every point of the construction for any order of creation, addition and data setting, as long as sizes are recalculated after something inside an already added chunk has changed.",
 ["histories", "inputs"],
 "all construction histories over all group and data kinds with legal parts, default and extension registries",
 "Tests build about ten fixed hierarchies; the property quantifies over all construction histories.",
 [L+"form.c", L+"cat.c", L+"list.c", L+"prop.c", L+"group.c", L+"rawchunk.c", L+"chunk.c", L+"iff.c"],
 [("sizes maintained by additions", L+"group.c IFF_addToGroup"), ("symmetric reader and writer", L+"chunk.c")],
 ["result of check, write, read and compare"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
