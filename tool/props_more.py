# Continuation of genmeta.py's table (executed in its namespace).
prop("C02", "A decode that reports success passed every integrity condition",
     "Decoding reports success only if the signature matches, the header is complete and of a known version, every "
     "known section appears at most once under its own tag and wire type and ends exactly where its declared length "
     "says, the decompressed metadata has its declared size and ends at a record boundary, the entropy decoders end in "
     "their defined final states, and all padding bits and unused trailing bytes obey the format. A stream that "
     "violates any one of these is rejected; one that meets them all is accepted.",
     ["inputs"], "for every byte sequence given to the decoder",
     "The tests decode valid streams and truncations; each of the several hundred conditions needs a specially crafted stream.",
     [DEC, "c/dec/bit_reader.cc", "c/dec/ans_decode.h", "c/dec/arith_decode.h", "c/dec/histogram_decode.cc",
      "c/dec/huffman_decode.cc", "c/dec/context_map_decode.cc"],
     [("section and header parsing", DEC), ("bit reader final checks", "c/dec/bit_reader.cc"),
      ("entropy coder final state", "c/dec/ans_decode.h")],
     "assume-negated-condition value-set dataflow on LLVM IR: with each condition negated, success is unreachable in the step that must notice",
     "Each condition is one obligation; both directions are decided. The list of conditions is hand-written from the format and complete for the steps listed in DESIGN.md.")
prop("B06", "Declared sizes, counts, factors and positions are held to the format's limits",
     "Every dimension, sampling factor, component, table, record, marker, block position, padding size, cluster or "
     "symbol count that a compressed stream declares is compared with the limit the format gives it. A stream that "
     "declares a value beyond the limit is rejected by the step that reads it, and a value up to and including the "
     "limit is accepted.",
     ["inputs"], "for every declared quantity in every compressed stream",
     "Limits are far from ordinary files; off-by-one bounds and missing upper bounds pass every sample.",
     [DEC, "c/dec/histogram_decode.cc", "c/dec/huffman_decode.cc", "c/dec/context_map_decode.cc"],
     [("header limits", DEC + ":DecodeHeader"), ("metadata, table and scan limits", DEC),
      ("distribution, prefix code and context map limits", "c/dec/*_decode.cc")],
     "assume-boundary-value dataflow on LLVM IR: limit+1 makes success unreachable, the limit itself keeps it reachable",
     "Each limit is decided at the points listed in checks/b06.py (beyond, at, below); the list of limits is hand-written from the format.")

prop("A05", "The encoder accepts only what the format can represent, and all of that",
     "Every dimension, factor, identifier, table, symbol, magnitude, count and scan parameter the JPEG reader lets "
     "through lies within the limits of the format, so that it fits the bit field it is stored in and a decoder "
     "accepts it; anything beyond makes reading or encoding fail instead of being truncated. Values up to and "
     "including the limits are accepted.",
     ["inputs"], "for every JPEG file and every JPEG data structure given to the encoder",
     "The limits are far from ordinary files; a missing or misplaced bound silently produces a file that cannot be restored.",
     [RD, ENC], [("JPEG header, table and scan limits", RD), ("encoder's own limits", ENC)],
     "value-set dataflow on LLVM IR: ranges of stored and written values, and assume-boundary-value reachability of success",
     "Limits are hand-written from the format; decided per limit at the boundary and beyond. Entropy code internals are not covered here.")

prop("D05", "The encoder never writes outside the output buffer it is given",
     "Whatever the JPEG data and whatever the size of the output buffer, every section, header field, bit field, code "
     "word and group part is written only if it fits into the room that is left; otherwise encoding reports failure. "
     "The tools and wrappers hand the encoder exactly the size they allocated, and the published bound of the encoded "
     "size counts every kind of content.",
     ["inputs"], "for all JPEG data and all buffer sizes",
     "Only incompressible or crafted images come near the bound; ordinary images use a fraction of it.",
     [ENC, "c/enc/write_bits.h", "c/enc/write_bits.cc", "c/experimental/groups.cc", "c/enc/encode.cc",
      "c/tools/cbrunsli.cc"],
     [("section frames and bound", ENC), ("bit writer", "c/enc/write_bits.h"), ("group parts", "c/experimental/groups.cc")],
     "assume-capacity value-set dataflow on LLVM IR: with the room one too small, no store through the buffer pointer and no success is reachable",
     "Decided on a grid of capacities around each boundary; buffers internal to the encoder (code words, histograms) are not covered here.")

prop("C01", "Sections are accepted only in an order their contents can rely on",
     "The decoder goes through signature, header, and then either one bypass payload or a series of sections, and "
     "reports success only after the coefficient data that ends the series. A section that relies on another one "
     "(quantization and histogram data on the JPEG internals, DC data on both, AC data on DC data, output and group "
     "decoding on all tables and metadata) is refused unless that one came before it, and accepted if it did.",
     ["inputs", "histories"], "for every sequence of sections a stream can contain, whole, in pieces or in groups",
     "The encoder writes one fixed order, so that no sample contains any other; a wrong order makes the decoder use tables that are not there yet.",
     [DEC, WR, "c/experimental/groups.cc"],
     [("section order", DEC + ":ParseSection"), ("stage machine", DEC + ":DoProcessJpeg"),
      ("start of output", WR + ":SerializeJpeg"), ("group decoder", "c/experimental/groups.cc:DecodeGroups")],
     "typestate over the set of sections met: assume-state value-set dataflow on LLVM IR decides each transition; dominance for set-up before use",
     "Each pair of section and prerequisite, each stage transition and each prerequisite of output and group decoding is one obligation.")

prop("D01", "Every resumable step confirms there is enough input before consuming any",
     "When the compressed stream arrives in pieces, each step that reads bits, code words or arithmetic-coded words "
     "first confirms that the most it can consume before its next such check is available; it consumes nothing before "
     "its first check, and never uses more than the bytes at hand that belong to the section. Input is treated as "
     "complete exactly when the rest of the section is available, and unused whole bytes are given back on suspension.",
     ["inputs", "histories"], "for every stream and every way it can be cut into pieces",
     "A budget one word short shows only if the input is cut inside of the most expensive block, coded with the worst-case symbols.",
     [DEC, "c/dec/brunsli_input.h", "c/dec/bit_reader.h", "c/dec/bit_reader.cc", "c/dec/context_map_decode.cc",
      "c/dec/histogram_decode.cc", "c/dec/huffman_decode.cc"],
     [("budgets", DEC), ("word reader", "c/dec/brunsli_input.h"), ("bit reader", "c/dec/bit_reader.cc")],
     "worst-case consumption analysis: longest path over an abstract state graph of the LLVM IR between budget checks, compared with the budget; value-set dataflow for the checks and primitives",
     "Budgets that depend on a value are decided for a list of its values; the number of words per symbol comes from the primitives, which are decided too.")

prop("D02", "Suspending for want of input loses nothing and repeats nothing",
     "When decoding stops because the input given so far is used up, everything consumed up to that point is on "
     "record, and nothing was changed that the repetition of the interrupted step would change again; loop positions "
     "and local copies of the decoders are saved and taken up again. The next call resumes the interrupted stage on the "
     "bytes it is given, reports exactly the bytes it took, and the read-ahead buffer hands on every byte once.",
     ["inputs", "histories"], "for every stream and every way it can be cut into pieces",
     "A variable that is not saved shows only if the cut falls between two particular consumptions; no test cuts at every byte of streams with all features.",
     [DEC, "c/dec/state_internal.h", "c/dec/bit_reader.h"],
     [("saved progress", "c/dec/state_internal.h"), ("steps", DEC), ("drivers", DEC + ":ProcessJpeg"),
      ("read-ahead buffer", DEC + ":LoadInput, UnloadInput")],
     "path-sensitive typestate (consumed / recorded) on LLVM IR, save/reload matching of loop-carried variables, value-set dataflow for drivers and buffer",
     "That the record holds the right value is decided for loop positions and decoder copies only; buffer routines are decided on a grid of sizes.")

prop("E04", "Tools and bindings deliver the whole result or report failure",
     "The command line tools, the C API, the Java binding and the wasm binding hand all of the caller's data to the "
     "codec and all of its result, cut to the size it reports, to the caller; nothing changes it in between. Whichever "
     "single operation fails (opening, measuring, reading, converting, writing, closing a file, a sink that takes less, "
     "a host that gives no memory) they report failure and leave the output file unopened if it was not reached yet.",
     ["inputs", "fault_sequences"], "for every file, buffer and sink, and for every operation that can fail",
     "Failing disks, short writes and hosts that run out of memory are not part of any test; the bindings are not run by the C++ tests at all.",
     ["c/tools/cbrunsli.cc", "c/tools/dbrunsli.cc", "c/enc/encode.cc", "c/dec/decode.cc", "wasm/codec.cc",
      "java/dev/brunsli/wrapper"],
     [("file tools", "c/tools"), ("C API", "c/enc/encode.cc, c/dec/decode.cc"), ("wasm binding", "wasm/codec.cc"),
      ("Java binding", "java/dev/brunsli/wrapper")],
     "per failing call: value-set dataflow over the fully inlined IR of each outermost function; operand provenance of every call on the success path; path analysis of the compiled Java methods",
     "Library calls are taken by contract; one failure at a time; success paths are decided for representative sizes, failures for any size.")

prop("E02", "Everything acquired is released exactly once, by its counterpart",
     "Every piece of memory, file and decompressor instance that the library, the tools or the bindings acquire is "
     "released on every path with the function that belongs to it, or handed to an owner that does so: a smart pointer "
     "of the right kind, an object whose destructor releases it, or the caller of a binding, which has a matching "
     "release function. After its release it is neither used, nor released again, nor handed out.",
     ["inputs", "fault_sequences", "histories"], "for every path from an acquisition, whatever fails in between",
     "Tests do not check for leaks, never fail in the middle of a metadata section, and never run the wasm binding.",
     [DEC, "c/dec/state.cc", "c/dec/output_chunk.h", "c/dec/huffman_decode.h", "c/enc/huffman_encode.cc", "c/tools", "wasm/codec.cc"],
     [("metadata decompressor", DEC + ":DecodeMetaDataSection"), ("files", "c/tools"), ("instances", "wasm/codec.cc")],
     "typestate (held / released / owned) along all paths of the LLVM IR from each acquisition; owner fields checked against destructors and clearing stores",
     "Containers and smart pointers of the standard library are taken to release what they own; exceptions thrown by allocation are not followed.")

prop("D04", "Restored output fits the caller's buffer, in order and complete",
     "Given an output buffer of any size, the JPEG writer stores at most that many bytes in it, reports exactly how many, "
     "keeps the rest in order for the next call, and reports completion only when the whole file was handed over. "
     "Written through a sink, every byte goes out once and in order, and a short write makes it fail. Scans are written "
     "only from rows already decoded, and one that has to wait for input is later taken up at the block, restart marker, "
     "reset point and zero run where it stopped.",
     ["inputs", "histories"], "for every split of the output, every progress of the input and every scan layout",
     "Tests write whole files into one large buffer, or a single fixed split; boundary sizes, interrupted scans with "
     "restart intervals or zero runs, and partially filled chunks are not among them.",
     [WR, "c/dec/output_chunk.h", "c/dec/serialization_state.h"],
     [("output queue", WR + ":PushOutput"), ("serializer", WR + ":SerializeJpeg"), ("sink adaptor", WR + ":WriteJpeg"),
      ("bit writer", WR + ":WriteBits"), ("scans", WR + ":DoEncodeScan")],
     "abstract machines over the IR: value-set execution of the inlined serializer against a modelled queue and buffer; of the bit writer from every fill state; of the scan writer against a reference order of blocks, markers and flushes",
     "Queue and buffer sizes, fill states and scan layouts are representative classes, not all values; the block coders "
     "themselves are opaque here (A-properties); standard containers are taken by contract.")

prop("A04", "Every JPEG marker segment comes back bit for bit, in place",
     "Apart from its entropy coded data, a JPEG file that the parser accepts is serialized again exactly: frame header, "
     "quantization and Huffman tables, restart interval, scan headers, application segments, comments, stray bytes "
     "between segments and everything after the end marker, each with all of its bits, in the original order and "
     "grouping. This holds for every content of these segments and every mixture of them.",
     ["inputs"], "for all contents of the segments, over a catalogue of segment structures",
     "Tests compare whole files for a few camera-like images; unusual ids, precisions, groupings, redefinitions, gaps and tails are not among them.",
     [RD, WR, "c/common/jpeg_data.cc", "c/include/brunsli/jpeg_data.h"],
     [("parser", RD + ":ReadJpeg"), ("writer", WR + ":SerializeJpeg")],
     "bit provenance: dataflow over the LLVM IR of parser and writer composed, from each bit of the file through the JPEG data to the bit of the output it ends in",
     "Content bits are unconstrained; what decides the structure (marker codes, lengths, counts, ids, slots, dimensions) ranges over a catalogue of file "
     "structures. Entropy coded data is taken as empty here; standard containers are taken by contract.")

prop("A01", "The JPEG headers and metadata survive the compressed form bit for bit",
     "Apart from the coefficient data, everything in a JPEG file that the encoder accepts survives encoding to brunsli and decoding: "
     "dimensions, sampling, component ids, quantization and Huffman tables, restart interval, scan headers, application segments, comments, stray bytes and "
     "trailing data reappear bit for bit, as do the recorded reset points, extra zero runs and padding bits. The shortcuts for well known tables, ids and "
     "segments are taken only by contents they restore exactly.",
     ["inputs"], "for all contents of the headers, over a catalogue of header structures, table and segment families",
     "Tests encode and decode a few camera-like images; tables and segments that nearly match a shortcut, unusual ids, groupings, 16-bit tables, "
     "split metadata and padding bits are not among them.",
     [ENC, DEC, RD, WR, "c/common/quant_matrix.cc", "c/common/lehmer_code.cc", "c/enc/write_bits.cc", "c/dec/bit_reader.cc"],
     [("encoder of the sections", ENC + ":EncodeAuxData"), ("quantization", ENC + ":EncodeQuantTables"), ("metadata", ENC + ":EncodeMetaData"),
      ("decoder", DEC + ":ProcessJpeg")],
     "bit provenance: dataflow over the LLVM IR of parser, section encoders, section decoders and writer composed, from each bit of the file to the bit of the output it ends in",
     "Content bits are followed symbolically; what decides the structure (lengths, counts, ids, slots, table values relative to the shortcuts) is fixed per "
     "world of the catalogue. The entropy coded sections are left out; brotli is taken to restore what it compressed.")

prop("A03", "Coefficients come back; both sides code them under the same contexts",
     "The quantized DCT coefficients that the encoder puts into a stream are the ones the decoder takes out of it, for every image layout and in pieces as well as "
     "at once. Encoder and decoder make the same coding decisions in the same order: each binary decision, symbol and group of raw bits is read under the adaptive model, "
     "histogram and bit count it was written with, whatever was coded before it.",
     ["inputs", "histories"], "for all coefficient values of the given magnitudes, over a catalogue of layouts, coefficient patterns, orders, quantizers and interruptions",
     "A context computed differently by one side goes wrong only when the particular neighbourhood occurs (empty blocks next to dense ones, large values, rare samplings, a suspension "
     "within a row), and then corrupts everything that follows.",
     [ENC, DEC, "c/common/context.h", "c/common/context.cc", "c/common/ans_params.h", "c/enc/state.h", "c/dec/state_internal.h", "c/common/predict.cc"],
     [("coding", ENC + ":EncodeAC"), ("coding of DC", ENC + ":EncodeDC"), ("decoding", DEC + ":DecodeAC"), ("decoding of DC", DEC + ":DecodeDC")],
     "dataflow over the LLVM IR of both coefficient coders composed at their coding calls; linear forms with ranges decide that a decoded word is the encoded coefficient",
     "The arithmetic and ANS coders below the coding calls are taken to be lossless (not decided), the coefficient order is any permutation of the catalogue; arithmetic "
     "shared by both sides (prediction, context formulas) can change on both without alarm.")

prop("E03", "Groups coded in parallel give what they give one after the other",
     "With any executor and any schedule, coding an image in groups works like coding the groups one after the other: no task touches memory that "
     "another task of the same run writes, the parts come out complete and in order, every group is decoded from what the same group was encoded into, and the call "
     "fails if any task fails. The thread pool runs each task exactly once and returns only when all of them are finished.",
     ["schedules", "inputs"], "for all schedules of the tasks, over a catalogue of layouts and group sizes",
     "A data race or a lost wake-up shows only in rare interleavings; tests run a few threads on one image, if any.",
     ["c/experimental/groups.cc", ENC, DEC],
     [("encoding", "c/experimental/groups.cc:EncodeGroups"), ("decoding", "c/experimental/groups.cc:DecodeGroups"), ("thread pool", "c/experimental/groups.cc:ParallelExecutor::execute")],
     "effect analysis: per task footprints of shared memory from the IR, pairwise disjointness; coding calls matched as in A03; lockset and protocol (typestate) analysis of the thread pool, one thread at a time",
     "Footprints are those of small layouts of the catalogue; the section coders and the serializer are taken by contract (A01, A03); the C++ runtime's threads, atomics and condition variables are trusted, fairness is not decided.")
