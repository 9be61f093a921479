TRUST = ("Static argument over the MIR of the current tree: every path of the analysed functions is followed with unknown inputs; standard-library calls are "
         "interpreted by hand-written models (sa/stdmodels.py, sa/models2.py). Trusted: rustc's MIR, those models, the analysis engine. "
         "Obligations the analysis cannot decide are listed in the evidence as 'not decided' and do not count as holding.")
claim("C01", AI + ": tag tables extracted from writers and readers and compared", TRUST + " All 256 tag bytes are enumerated per table.")
claim("C02", AI + ": writer's output stream fed to the reader, field provenance compared", TRUST + " Integer, huffman and cursor internals are units here, justified by C33, C05, C14.")
claim("C03", AI + ": writer's output stream fed to the reader for containers", TRUST + " Containers of the lengths 0 to 17 and nestings are enumerated with opaque elements; longer lengths share the same paths through the loop.")
claim("C04", AI + ": layout of the stream compared with its header, reader interpreted on it", TRUST)
claim("C10", AI + ": intervals and byte provenance of one number through both conversions", TRUST + " All 144 pairs of machine types, each for an arbitrary number.")
claim("C11", AI + ": path conditions of the conversion evaluated on every region of the float format", TRUST + " Path formulas over one float are evaluated on representatives of each region of the format (sign, exponent, fraction).")
claim("C12", AI + ": data fed to the hasher compared on every path that finds two values equal", TRUST + " Pairs: kinds against kinds, stored forms of integers, floating-point constants, bit strings up to 18 bits, maps up to 3 entries in every order.")
claim("C14", AI + ": position and elements of every cursor operation, and facts implying that the position stays inside", TRUST + " Positions in data of up to four elements with arguments around every boundary, then unknown data, position and argument.")
claim("C30", AI + ": every bit of every observation compared with the unknown bit pushed", TRUST + " Lengths 0 to 34 and 255 to 257; code that branches on the bits is followed for constant contents instead.")
claim("C33", AI + ": byte provenance through store, write, read and convert", TRUST + " All twelve machine types, each for an arbitrary number.")
CONC = (" The daemon's handlers are interpreted from their routes with unknown names, bodies and flags; the databases, the cache, the lock and the file system "
        "are models (sa/daemon.py) that record every operation in order.")
claim("C15", AI + ": final databases of every handler path compared with a decision table", TRUST + CONC)
claim("C16", AI + ": response of every handler path compared with a decision table", TRUST + CONC)
claim("C17", AI + ": order of lock, cache and map events on every handler path", TRUST + CONC + " The rule (invalidate after taking the lock, insert while holding it) implies the property for all interleavings.")
claim("C18", AI + ": names reaching an insertion or file operation are guarded on every path", TRUST + CONC + " Unsafe and harmless names are enumerated by class.")
claim("C19", AI + ": typestate of the lock on every handler path", TRUST + CONC)
claim("C20", AI + ": order of file operations on every path, with each operation also failing", TRUST + CONC + " Rename within one file system is taken to be atomic and fsync to be honest.")
claim("C21", AI + ": files and index of a save are fed to the start-up code", TRUST + CONC)
claim("C23", AI + ": file operations happen in a locked region, with each removal failure explored", TRUST + CONC)
claim("C22", AI + ": events of main and its tasks on every path, futures in a select ready or not", TRUST + " Tasks, channels, timers, signals and axum's graceful serving are models (sa/mainflow.py).")
claim("C24", AI + ": client requests composed with the daemon's router, query types and handlers", TRUST + CONC + " reqwest, ureq and serde's map access are models (sa/net.py).")
claim("C25", AI + ": error kinds to statuses, statuses to client results, and their composition", TRUST + CONC + " Sixteen representative statuses are enumerated on the client side.")
claim("C29", AI + ": length of the form returned for every order of the candidates' lengths", TRUST + " The compressors are units whose results have every length around the uncompressed form's.")
claim("C13", AI + ": JSON produced on every path fed to the importer, tags and contents compared", TRUST + " Each tagged kind with unknown contents, alone and inside an array, a map and a store; binary data of up to five bytes.")
claim("C05", AI + ": codes of every symbol compared with the walk of the decoder, stream of a tree fed to its reader", TRUST + " All shapes of trees of up to four leaves (five when thorough), one tree as deep as a tree may be, trees made of every sequence of up to five symbols (six when thorough), trees with unknown symbols, and every bit string a bit longer than the longest code.")
claim("C06", AI + ": every decoder on input of which nothing is known, the asserted conditions followed in both directions", TRUST + " Input is up to 2^40 bytes. Reads per path are bounded (4 to 20 by decoder), lengths and counts are symbolic; loops over an unknown count are followed for 14 iterations, loops over the elements of an array or map for the first elements. Nested values inside arrays and maps go through the same code and are followed to the bound on reads. A path that ends in a panic is reported when numbers are found with which it is taken; a panic on something opaque (a library's own failure) counts only when both outcomes are possible.")
claim("C09", AI + ": every decoder on input of which nothing is known, each fallible step failing and succeeding", TRUST + " Bounds as for C06: steps per path are bounded, lengths symbolic. A failure is any Result::Err returned by a callee, a failed cursor read, or a None of a character, date or time constructor.")
claim("C07", AI + ": every request for memory on unknown input compared with the bytes read so far", TRUST + " Same paths as C06; a request is sized by the decoded value it was computed from, and every loop pass has to read. One defect is a known finding (runs of the huffman format).")
claim("C08", AI + ": every function entered again while it runs is followed from level to level", TRUST + " At most 4096 levels are accepted as bounded; JSON is limited to 128 levels by serde_json. Dropping deeply nested arrays and maps is a known finding.")
claim("C31", AI + ": each compressor's output on unknown bytes fed to its decompressor", TRUST + " Patterns of up to four unknown bytes (five for run lengths), runs of lengths around every limit up to 65537, Lempel-Ziv data of any length; lz4_flex's block format is taken to be undone by its own decompressor.")
claim("C26", AI + ": the value prompt interpreted for every entry of its lists, provenance of the parts of its result", TRUST + " Typed answers are opaque; arrays and maps of up to three entries; dialoguer's prompts are models (sa/prompts.py).")
claim("C27", AI + ": requests sent on every path through the prompts, compared with the answers before them", TRUST + " No, one, two and three databases, up to six prompts per path; the client's operations are units (C24).")
claim("C34", AI + ": every command with every step failing and succeeding, provenance of what is written, sent and printed", TRUST + " Files are read in two pieces; conversions to and from JSON and the client's operations are units (C13, C24).")
claim("C28", "type checking: rustc's type checker over every distinct feature configuration of the library", "Trusts rustc. The library only, not its tests or benchmarks, and on this machine's target. Four configurations (clients without serde) do not build: known findings.")
claim("C32", AI + ": formula of each conversion over unknown floats, compared with hypot/atan2/cos/sin in their roles", TRUST + " A formula of another shape is evaluated at representative points of every quadrant, axis and magnitude: a point where it names another number is a violation, agreement everywhere is recorded as not decided.")
claim("C36", AI + ": each typed access interpreted on a value of each kind with unknown content", TRUST + " All sixteen kinds against all accessors; integers for an arbitrary number.")
claim("C35", AI + ": provenance of what is printed, read and serialised; constant propagation over numerals", TRUST + " An arbitrary number of each machine type is shown and serialised; reading: an unknown text, and constant texts around every power of two and of texts that are no numbers. A leading plus sign is left open.")
claim("C37", AI + ": each operator interpreted on two arbitrary numbers, constants around every limit propagated", TRUST + " Arbitrary 32-bit numbers of both signs (all widths up to 64 when thorough) and 961 pairs of constants per operator. Overflow checks are on, as in the build analysed.")
claim("C38", AI + ": documents with unknown contents imported and exported, every part compared", TRUST + " Some 200 shapes of documents with unknown leaves. A document that is an object with the single key JSON is a known finding.")
