prop("C20", "Programs print the same text and exit with the same status",
     "For every C program with a main function that computes with ints and strings and prints with printf (conversions %d %i %u %x %X %o %c %s %%, with the flags -, + and 0 and a width on "
     "numeric conversions, over int expressions, string literals and string variables), puts and newline characters in any place, the generated Rust program compiles, writes exactly the same "
     "bytes to standard output as the C program and ends with the same exit status.",
     ["programs", "inputs"], "all formats of the subset, argument kinds and values, and orders of output statements",
     "Tests check that a print macro appears; padding, sign, escapes and argument matching show only when particular formats meet particular values.",
     ["crates/decy-codegen/src", "crates/decy-core/src/lib.rs", "crates/decy-parser/src/parser.rs"], ["format string", "argument list"], ["printf conversion", "string literal handling", "main exit status"],
     "standard output and exit status of the compiled program",
     "TLA+ (TLC): CCore.tla gives the printed values and statuses of random whole programs; conformance by compiling and running decy's output",
     "random programs over every conversion, flag and width combination; gcc confirms the specification; " + BIND)
