import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
T="lib/tinycc/"
p("C01","Constant expressions fold to the value the running program would compute",
"An integer constant expression in a C source (in array sizes, enumerators, case labels, static initialisers, preprocessor-independent arithmetic, or mixed with variables as in x*c, x/c, x+c) always has exactly the value and type the C rules for x86-64 give it, whatever the values of its operands. Folding or simplifying an operation never changes the program's result compared with evaluating it at run time.",
["inputs","programs"],"all values of all integer operand types, all integer operators and casts, for every constant operand and every runtime operand",
"Tests sample a handful of literal values; wrap-around, sign-extension and power-of-two special cases in the folder are reached only by particular constants.",
[T+"tccgen.c",T+"x86_64-gen.c",T+"libtcc.c"],[("integer constant folding and strength reduction","tccgen.c gen_opic"),("64-bit fold arithmetic and sign/zero extension by type","tccgen.c value64/gen_opic_sdiv/gen_opic_lt"),("constant casts","tccgen.c gen_cast")],observe_at=["value returned by compiled code","static data"])
p("C02","Compiled integer arithmetic computes the C result for every operand value",
"For every integer type and every arithmetic, bitwise, shift, comparison, logical, unary, increment and compound-assignment operator, code compiled and run in memory yields the value C prescribes (usual arithmetic conversions, modulo-2^n unsigned wrap, arithmetic right shift of signed values) for all operand values for which C defines one.",
["inputs","programs"],"all 2^64 x 2^64 operand values per operator and type pair in the catalogue",
"Tests run fixed operands; a wrong extension, condition code or register width shows only at particular bit patterns.",
[T+"tccgen.c",T+"x86_64-gen.c"],[("usual conversions and operator typing","tccgen.c gen_op/gen_cast"),("integer instruction selection","x86_64-gen.c gen_opi/gen_opl/load/store")],observe_at=["return value of the compiled function, memory it writes"])
p("C03","Integer and floating conversions are exact and correctly rounded",
"Converting between any integer type and float or double (explicit casts, assignments, arguments, returns, mixed arithmetic), whether at compile time or run time, yields the value C and IEEE-754 prescribe for every source value whose conversion is defined.",
["inputs","programs"],"all source values of each (source type, destination type) pair, at run time and as constants",
"Tests convert a few values; unsigned 64-bit and sign-boundary conversions go through helper code and bias tricks that fail only in narrow ranges.",
[T+"tccgen.c",T+"x86_64-gen.c",T+"lib/libtcc1.c"],[("conversion instruction selection","x86_64-gen.c gen_cvt_itof/gen_cvt_ftoi/gen_cvt_ftof"),("constant conversion","tccgen.c gen_cast"),("unsigned 64-bit helpers","lib/libtcc1.c __fixunsdfdi/__floatundidf ...")])
p("C04","Control flow follows the source for every run-time value",
"Compiled if/else, loops, break/continue, goto, switch (including ranges, 64-bit and negative case values, default placement), ?:, and && || ! short-circuit evaluation take exactly the path the C source prescribes, and evaluate exactly the side effects on that path in order, for every value of the controlling expressions.",
["inputs","programs"],"all values of controlling expressions in a catalogue of control-flow programs, with case labels and bounds themselves unconstrained where stated",
"Tests drive a few paths with literal values; binary-search switches and constant-condition jump elision misbehave only at particular label/selector relations.",
[T+"tccgen.c",T+"x86_64-gen.c"],[("switch lowering by binary search","tccgen.c gcase/case_sort"),("jump chains and short circuit","tccgen.c expr_landor/gvtst, x86_64-gen.c gjmp_cond"),("code suppression","tccgen.c CODE_OFF/nocode_wanted")])
p("C05","Objects are laid out and accessed as the x86-64 C ABI prescribes",
"Size, alignment and offset of every struct, union, array and bit-field, and every access through pointers, subscripts, members, struct assignment and bit-field read/write, agree with what other x86-64 System V compilers produce, for every value stored and every index; an access never disturbs neighbouring members.",
["inputs","programs"],"all stored values, indices and prior memory contents, over a catalogue of aggregate declarations",
"Tests print a few layouts and values; masking and neighbour-clobber errors in bit-fields depend on the surrounding bits, which tests leave zero.",
[T+"tccgen.c",T+"x86_64-gen.c"],[("layout of aggregates and bit-fields","tccgen.c struct_layout"),("bit-field load/store","tccgen.c load_packed_bf/store_packed_bf/gen_op shifts"),("struct copy","tccgen.c vstore, x86_64-gen.c gen_struct_copy")])
p("C06","Calls pass and return every argument intact across compiled and native code",
"A call between code compiled by this tool and code compiled by the system compiler, in either direction, directly, through a pointer or with variable arguments, delivers every integer, pointer, floating and struct argument and return value bit-for-bit and preserves the caller's callee-saved registers and stack, for all values.",
["inputs","programs"],"all argument values over a catalogue of signatures covering the System V classes",
"Tests call few signatures with small values; register exhaustion, mixed struct classes and garbage upper bits need specific combinations.",
[T+"x86_64-gen.c",T+"tccgen.c",T+"lib/va_list.c"],[("argument classification and placement","x86_64-gen.c classify_x86_64_arg/gfunc_call/gfunc_prolog"),("variable arguments","x86_64-gen.c gen_va_start, lib/va_list.c __va_arg")])
p("C07","The preprocessor expands and selects as the C standard prescribes",
"Macro expansion (object- and function-like, nested, recursive, variadic, # and ##), #if/#elif expressions with 64-bit arithmetic, conditional nesting, #include and #line produce the token sequence the C standard prescribes for every program; #if expressions have the right truth value for every operand value.",
["inputs","programs"],"all values of #if operands (as unconstrained constants), all short token strings over a macro-relevant alphabet",
"Tests compare a fixed set of .c/.expect files; #if arithmetic and rescanning corner cases are value- and sequence-dependent.",
[T+"tccpp.c"],[("macro substitution and hide sets","tccpp.c macro_subst/macro_arg_subst/macro_twosharps"),("#if evaluation","tccpp.c expr_preprocess"),("conditional skipping","tccpp.c preprocess_skip/preprocess")])
p("C08","Literals in source denote exactly their C value and type",
"Every integer literal (decimal, octal, hex, binary, any suffix), character constant and string literal with any escape sequence denotes exactly the value, type and bytes the C rules assign it; malformed ones are diagnosed rather than given some value.",
["inputs","programs"],"all literal spellings up to a stated length over the literal alphabet",
"Tests use dozens of spellings out of the exponentially many; type selection and truncation change at exact numeric boundaries.",
[T+"tccpp.c",T+"tccgen.c"],[("number parsing and typing","tccpp.c parse_number"),("escape parsing","tccpp.c parse_escape_string/parse_string")])
p("C09","Initialisers store exactly the declared values",
"Static and automatic objects initialised with scalar, nested, designated, string, bit-field, compound-literal, flexible or address initialisers contain exactly the declared values with all other members zero, for every initialising value.",
["inputs","programs"],"all initialiser values over a catalogue of declarations",
"Tests initialise with a few literals and print some members; truncation, stale padding and neighbour overwrite depend on the values.",
[T+"tccgen.c",T+"tccelf.c"],[("initialiser parsing and placement","tccgen.c decl_initializer/init_putv/init_putz/decl_designator"),("data relocations","tccelf.c put_elf_reloca")])
p("C10","Floating-point arithmetic and comparison follow IEEE-754",
"Compiled float and double arithmetic, negation and comparisons (including NaN, infinities and signed zeros) and constant-folded floating expressions give the IEEE-754 result C prescribes on x86-64, for every operand value.",
["inputs","programs"],"all operand bit patterns per operator and type in the catalogue",
"Tests use ordinary finite values; unordered comparisons and negative zero are reached by a handful of bit patterns.",
[T+"x86_64-gen.c",T+"tccgen.c"],[("SSE operations and comparison flags","x86_64-gen.c gen_opf"),("negation and truth value","tccgen.c gen_negf/gen_test_zero"),("floating folding","tccgen.c gen_opif")])
p("C11","Linking binds every reference to the right definition or fails",
"When several sources and objects are combined, each reference resolves to the definition C and ELF rules select (global over weak, static stays private, commons merge, addresses with offsets correct), with relocated data and code referring to that definition; an undefined or duplicate strong symbol makes the link fail, never run.",
["programs","configurations"],"all combinations of binding (strong, weak, static, common, undefined), order and initial value over small multi-module programs",
"Tests link a few fixed programs; precedence depends on definition order and kinds whose combinations are not enumerated.",
[T+"tccelf.c",T+"x86_64-link.c",T+"tccrun.c","src/cjit.c"],[("symbol merge rules","tccelf.c set_elf_sym/put_elf_sym/relocate_syms"),("relocation","x86_64-link.c relocate"),("failure propagation","src/cjit.c cjit_exec/cjit_link")])
p("C12","Malformed source is diagnosed and never corrupts the compiler",
"For any byte sequence given as source, compilation terminates with success or a diagnostic, never accesses memory outside its own live objects, never crashes and never hangs; a source with a diagnosed error is not executed.",
["inputs"],"all source texts up to a stated length over stated alphabets, and all single-position corruptions of seed programs",
"Tests contain a few dozen erroneous files; memory errors hide in token sequences nobody wrote.",
[T+"tccpp.c",T+"tccgen.c",T+"libtcc.c"],[("error recovery by longjmp","libtcc.c tcc_compile/error1"),("tokenizer buffer handling","tccpp.c handle_eob/next_nomacro1")])
p("C13","Runtime support routines compute their specified function",
"The support routines linked into every program (64-bit arithmetic and conversion helpers, bit-counting builtins, atomic operations, variable-argument fetch) return the specified result for every argument value and touch only the memory they are documented to touch.",
["inputs"],"all argument values of each routine",
"Tests call a few of them with a few values.",
[T+"lib/libtcc1.c",T+"lib/builtin.c",T+"lib/stdatomic.c",T+"lib/va_list.c"],[("integer/floating helpers","lib/libtcc1.c"),("bit builtins","lib/builtin.c"),("atomics","lib/stdatomic.c")])
p("C14","Compiling to an object first does not change the program",
"A program compiled to an object file and then loaded behaves exactly as the same program compiled directly in memory, and a file that is not a relocatable x86-64 ELF object is refused when given as one.",
["programs","inputs"],"all data values in the object's sections over a catalogue of programs; all changes of one byte of the identification, type or machine of an object",
"Tests link two small objects; section, symbol and relocation translation errors need specific contents.",
[T+"tccelf.c",T+"x86_64-link.c","src/cjit.c"],[("object writing","tccelf.c elf_output_obj/sort_syms"),("object loading","tccelf.c tcc_load_object_file")])
p("D01","Program arguments reach the program unchanged",
"The program run by the tool receives as its arguments the last source name followed by exactly the words given after -- in order and unmodified, whatever those words are; before -- only the documented ignorable compiler flags are dropped, and no other word disappears or changes meaning.",
["inputs","configurations"],"all argument vectors up to stated count and word length",
"Tests pass one fixed vector of plain words; words that look like options after -- are never tried.",
["src/main.c","src/ketopt.h"],[("ignored flag removal","src/main.c remove_args"),("option scanning and separator","src/main.c main, src/ketopt.h ketopt"),("argument hand-off","src/cjit.c cjit_exec")])
p("D02","Macro definitions on the command line take effect exactly or are rejected",
"-D NAME defines NAME as 1 and -D NAME=VALUE defines it as VALUE, where VALUE is everything after the first =, verbatim; the definition is visible to every source of the run. A NAME that is empty, longer than 1024 characters or has a character outside letters, digits and underscore stops the tool with a nonzero status before anything runs.",
["inputs"],"all -D texts up to a stated length",
"Tests define one or two macros.",
["src/main.c","src/cjit.c",T+"libtcc.c",T+"tccpp.c"],[("validation and split","src/main.c parse_value"),("definition","libtcc.c tcc_define_symbol")])
p("D03","The tool's exit status reports how the program ended",
"When a program is executed the tool waits until it has ended (an interrupted wait or a stopped program is not an end) and exits with the program's own exit status, or with the terminating signal's number after reporting it; a program that was not executed because of an error yields a nonzero status; the pid file, when requested, contains the process id of the executed program.",
["schedules","fault_sequences","inputs"],"all wait statuses, exit codes and fork, wait and file-creation outcomes",
"Tests check exit codes 0 and a few signals.",
["src/cjit.c","src/main.c"],[("status decoding","src/cjit.c cjit_exec"),("status propagation","src/main.c main")])
p("D04","A failed compilation is reported and nothing is run or left behind",
"If any given source, file or buffer fails to open or compile, or the link fails, the tool exits nonzero, runs no program code and does not present an output file as successful; this holds in every mode (run, -c, -o, stdin).",
["fault_sequences","configurations","inputs"],"all success/failure outcomes of each compile, open, read, link and output step, for up to three inputs, in each mode",
"Tests check one failing source in one mode.",
["src/cjit.c","src/main.c"],[("result propagation","src/cjit.c cjit_add_file/cjit_add_source/cjit_compile_file/cjit_link"),("abort on error","src/main.c main")])
p("D05","Files are treated by their type and Unicode-marked sources are refused",
"A file is compiled as source exactly when its name ends in .c, .cc or .cxx in any letter case; any other name is handed to the linker (and refused with -c). A source beginning with a UTF-8 or UTF-16 byte-order mark is refused with an error, also with -c, and so is one containing a NUL byte; any other readable source is accepted whatever its length, an unreadable one is an error.",
["inputs"],"all file names up to a stated length and all leading byte values and lengths",
"Tests use a handful of names and three BOM samples.",
["src/cjit.c","src/cwalk.c"],[("extension test","src/cjit.c has_source_extension, src/cwalk.c cwk_path_get_extension"),("BOM test","src/cjit.c detect_bom")])
p("D06","Source text is compiled byte for byte as read",
"The text compiled from standard input or from a file is exactly the bytes read, in order and complete, whatever the line lengths and number of lines, followed by nothing else; a read failure, or a standard input that is empty or holds a NUL byte, is an error.",
["inputs","fault_sequences"],"all contents up to a stated size, all line structures, short reads and allocation contents",
"Tests pipe small files; the result depends on line structure and uninitialised memory.",
["src/file.c","src/cjit.c"],[("stdin accumulation","src/file.c load_stdin"),("file loading","src/file.c file_load, src/cjit.c cjit_add_source")])
p("D08","Requested libraries resolve to the right file in search order",
"Each -l name resolves to lib<name>.so in the first search directory that has it, following a symbolic link to its real target; the order is the -L directories as given, the current directory, the directories of /etc/ld.so.conf, then those of the regular files of /etc/ld.so.conf.d in name order. A configuration list contributes exactly its lines that begin with / (a line too long for a path is left out whole); a missing library is reported and the others are still linked in order.",
["inputs","configurations"],"all small directory layouts, link targets and configuration texts up to stated length",
"Tests depend on the host's directories.",
["src/elflinker.c","src/array.c"],[("search","src/elflinker.c resolve_libs/find_library"),("links","src/elflinker.c new_solve_symlink"),("configuration","src/elflinker.c read_ldsoconf")])
p("D09","Linker-script libraries contribute exactly the files they name",
"When a library file is a text linker script, exactly the files named in its INPUT and GROUP commands (including AS_NEEDED and -l forms) are linked, in order; comments and format commands are skipped, a named file that does not exist is reported and skipped, and a malformed script is reported and never hangs the tool or corrupts memory.",
["inputs"],"all script texts up to stated length over the script alphabet",
"No test has a linker script of its own; the host's libc.so is the only sample.",
["src/elflinker.c"],[("script parser","src/elflinker.c ld_next/ld_add_file_list/resolve_ldscript")])
p("D10","Compile-only and executable output go to the right file",
"With -c one source is compiled to the file named by -o or else to its base name with the extension replaced by .o in the current directory; with -o an executable of that name is created; in neither case is the program run, and anything but a single source with -c (standard input only with -o) is refused with a nonzero status.",
["inputs","configurations"],"all source path texts up to a stated length, option orders and output names",
"Tests use one source name.",
["src/cjit.c","src/main.c","src/cwalk.c"],[("output naming","src/cjit.c cjit_compile_file"),("mode selection","src/main.c main")])
p("D11","Diagnostics are printed intact whatever their length",
"Every message is written to the right stream as its formatted text followed by one newline, truncated to the message buffer (the first 2039 bytes) when longer, and a message of any length or content never discloses or overwrites memory outside the message.",
["inputs"],"all message lengths and contents",
"No test emits a message longer than the internal buffer.",
["src/cjit.c"],[("message formatting","src/cjit.c _out/_err")])
p("D12","Runtime assets are complete before a program is compiled",
"After the runtime directory is prepared, every run finds the complete set of bundled headers and the support library in it, also when an earlier extraction was interrupted at any point or failed; if extraction fails the tool reports it and does not continue as if it had succeeded. Runs follow one another; two concurrent first runs are outside this property.",
["crash_points","fault_sequences","histories"],"all interruption points and file-operation failures of the first extraction, followed by a second run",
"Tests always run with a complete or absent directory.",
["src/assets.c","src/cjit.c","src/muntar.c","src/file.c"],[("freshness decision","src/cjit.c cjit_mkdtemp"),("extraction","src/assets.c extract_assets")])
p("E01","Decompression is exact and stays in its buffers",
"For any compressed input the inflater either produces exactly the bytes the DEFLATE format defines, and says how many, or reports an error; it never reads outside the input, never writes outside the output buffer and always terminates.",
["inputs"],"all input byte strings up to a stated length and all output capacities up to a stated size",
"Tests inflate one well-formed archive.",
["src/tinflate.c"],[("bit reader and tree decoding","src/tinflate.c"),("output bound and distance checks","src/tinflate.c tinf_inflate_block_data")])
p("E02","Only intact gzip members are accepted",
"A gzip buffer is accepted only if its magic, method, flags, optional header fields and header CRC are well-formed and its CRC-32 and length trailer match the decompressed data; every optional-field combination is skipped correctly, and no input makes it read or write out of bounds.",
["inputs"],"all gzip inputs up to a stated length, all flag combinations, all single corruptions of the trailer",
"Tests accept one intact file.",
["src/tinfgzip.c"],[("header parsing","src/tinfgzip.c tinf_gzip_uncompress"),("CRC","src/tinfgzip.c tinf_crc32")])
p("E03","Archive extraction writes exactly the archived files inside the target",
"Extracting a USTAR archive creates exactly its directories and regular files, with exactly their contents and names, under the target directory; a truncated, corrupt or hostile archive yields an error or skipped entries, never a write outside the target, a read beyond the archive, memory corruption or an endless loop.",
["inputs","fault_sequences"],"all header field values (sizes, names, prefixes, types, checksums) over archives of a few blocks",
"Tests extract one or two well-formed archives.",
["src/muntar.c"],[("header validation","src/muntar.c raw_to_header/decodeTarOctal/checksum"),("iteration","src/muntar.c mtar_next/mtar_seek/mtar_read"),("extraction","src/muntar.c muntar_to_path")])
p("E04","The archiver's archives hold their members intact",
"An archive created from object files lists and extracts back every member with its exact name (up to 15 characters) and bytes and indexes every global symbol at its member's position; a malformed object or archive is refused without memory corruption, and a failed creation leaves no archive.",
["inputs","fault_sequences"],"all member names and sizes up to stated bounds, all symbol tables of small objects, all truncated archives",
"Tests archive two small objects.",
["src/cjit-ar.c"],[("creation","src/cjit-ar.c tcc_tool_ar"),("listing and extraction","src/cjit-ar.c tcc_tool_ar")])
p("F01","Path operations agree with their specification and stay in bounds",
"Normalising, joining, making absolute or relative, taking the dirname, basename or extension of any path yields the documented result (idempotent normalisation, no . or .. left where removable, same file denoted), reports the length it needs, and never writes beyond the given buffer size.",
["inputs"],"all path strings up to a stated length and all buffer sizes",
"No test in this tree exercises the path functions directly.",
["src/cwalk.c"],[("segment iteration and output","src/cwalk.c")])
p("F02","The dynamic array keeps its elements, order and length",
"After any sequence of add, insert, set, get and remove operations the array behind source, library and path lists holds exactly the elements a list would, in order and with intact contents, and never touches memory outside its storage.",
["histories","inputs"],"all operation sequences up to a stated length with all data sizes up to a stated bound",
"No test exercises the container directly.",
["src/array.c"],[("storage management","src/array.c")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
