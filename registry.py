"""What each property's check consists of: harness modules, what lies outside the bounds, extra assumptions."""

SAMPLES = {"quick": 12, "thorough": 40}

COMMON = [
    "LLVM IR of rustc stable at opt-level 2 with overflow checks and debug assertions on, x86_64 with SSE2; fat LTO including std, no vectorisation passes",
    "memory allocation succeeds unless a harness limits it; the allocator is modelled",
    "Z3 answers correctly; the engine's own simplifier is tested differentially against Z3 (irsym --selftest)",
]

PROPS = {
    "C01": {"modules": ["c01"], "outside": "nothing: every value of each width"},
    "C02": {"modules": ["c02"], "outside": "byte strings longer than the stated bound (all continuation bytes beyond it); the value of integers that do not fit 64 bits"},
    "C03": {"modules": ["c03"], "outside": "buffers longer than the stated bound; binary lengths that do not fit 64 bits"},
    "C04": {"modules": ["c04"], "outside": "longer inputs; more than two levels of containers with symbolic shapes; binary lengths that do not fit 64 bits"},
    "C05": {"modules": ["c05", "c05p"], "outside": "longer inputs; more than 2 adjacent arbitrary bytes at a time in longer encodings; other type definitions"},
    "C06": {"modules": ["c06"], "outside": "longer inputs; other type definitions"},
    "C07": {"modules": ["c07"], "outside": "longer strings, binaries and lists; other struct definitions"},
    "C08": {"modules": ["c08"], "outside": "longer strings, binaries and lists; other struct definitions"},
    "C09": {"modules": ["c09"], "outside": "more than two unknown fields; unknown containers of more than 2 elements or nested deeper than stated; other struct definitions"},
    "C10": {"modules": ["c10"], "outside": "longer field sequences; other struct definitions; the value of a required field that occurs twice"},
    "C11": {"modules": ["c11"], "outside": "longer payloads; set fields (their wire type is the known finding of C08)"},
    "C12": {"modules": ["c12"], "outside": "element contents of lists longer than the stated lengths (the header form is checked for every length)"},
    "C13": {"modules": ["c13"], "outside": "Rc<str> and Arc<str> of arbitrary length when writing; containers of user-defined types other than those listed"},
    "C14": {"modules": ["c14"], "outside": "longer payloads with more than 4 adjacent arbitrary bytes; lengths that do not fit 64 bits"},
    "C15": {"modules": ["c15"], "outside": "longer inputs; other union definitions"},
    "C16": {"modules": ["c16"], "outside": "other enum definitions"},
    "C17": {"modules": ["c17"], "outside": "longer inputs; other wrapped types and nestings of wrappers"},
    "C18": {"modules": ["c18"], "outside": "more than one fault or interruption in one call; other shapes of values; readers and writers that break the contract of Read and Write"},
    "C19": {"modules": ["c19"], "outside": "longer values; more than 2 trailing bytes; other type definitions"},
    "C20": {"modules": ["c20"], "outside": "iteration and encoding of sets from lists with more than 5 arbitrary numbers (their size and first members are checked for every set)"},
    "C21": {"modules": ["c21"], "outside": "larger files with arbitrary contents; more than one fault; streams that break the contract of Read and Seek"},
    "C22": {"modules": ["c22"], "outside": "more than three columns; more than one fault; ranges of more than 2^40 bytes are only shown to be errors or exact; a negative number in a column that lacks another"},
    "C23": {"modules": ["c23"], "outside": "longer chunks; more than three columns; indexes of more than one page; that the decoder itself is right is C04, C10 and C24"},
    "C24": {"modules": ["c24"], "outside": "some but not all optional fields at once; lists of other lengths than 2, strings of other lengths than 2; two fields of ColumnMetaData that the library leaves out"},
    "C25": {"modules": ["c25"], "outside": "longer lists with arbitrary child counts; more than 6 shapes of longer lists; names of other lengths"},
    "C26": {"modules": ["c26"], "outside": "the coordinate system and interpolation of geometry annotations, which the conversion drops; annotations whose parameters the published definition forbids but the library keeps exactly"},
    "C29": {"modules": ["c29"], "outside": "other tree shapes; longer names and paths with arbitrary contents"},
    "C30": {"modules": ["c30"], "outside": "binary and string values, whose memory (at most 16 MiB) is not asked for in a fallible way; other element types"},
    "C31": {"modules": ["c31"], "outside": "files of more row groups and columns; encrypted files; a few members of the metadata, which C24 covers one by one"},
    "C32": {"modules": ["c32"], "outside": "longer names with arbitrary contents; unstable kinds of I/O errors"},
    "C33": {"modules": ["c33"], "outside": "longer inputs; more than 2 adjacent arbitrary bytes at a time in longer encodings; other type definitions"},
    "C34": {"modules": ["c34"], "outside": "other struct definitions; values larger than those listed"},
    "C35": {"modules": ["c35"], "outside": "longer inputs; more than the stated number of arbitrary bytes in longer encodings; memory that a panic leaves behind"},
    "C36": {"modules": ["c36"], "outside": "other tree shapes; annotations with parameters other than the width of integers"},
    "C27": {"modules": ["c27"], "outside": "mixtures of kinds other than those listed; stack use of recursive generated types, which is not skipping"},
}

NOT_APPLICABLE = {
    "C28": "The generator is Kotlin code generated around an ANTLR parser; there is no Kotlin compiler, no ANTLR runtime and no symbolic executor for JVM bytecode here, so its code can be neither built nor encoded.",
}
