from vf import Job
A_ENG=['symx (engine/) executes LLVM 18 bitcode of the current tree faithfully; validated on every run by replaying models of explored paths on the native build','z3 4.8.12 verdicts']
A_ENV=['libc, file system and process calls behave as lib/model_env.c and lib/model_str.c state (malloc never fails)']
CHECKS={}
def C(pid,jobs,title,level='model_checking',assumptions=(),par=2): CHECKS[pid]=dict(jobs=jobs,title=title,assumptions=A_ENG+list(assumptions),par=par)
C('F02',[Job('ops','f02_array.c',only=('array',),env=False,defs=['-DMODE=0','-DNADD=(TIER_QUICK?4:6)','-DKOPS=(TIER_QUICK?2:3)'],timeout=(40,300),covers=['remove','insert','set','delete','swap','end'],bounds='capacity 0,1,2,4; up to 4 (thorough 6) adds then 2 (thorough 3) arbitrary operations with any valid index and any content'),
 Job('grow','f02_array.c',only=('array',),env=False,defs=['-DMODE=1'],timeout=(30,200),covers=['shrunk','end'],bounds='capacity 2 or 8, up to 17 adds, then up to as many removes at front, end or middle, 2 adds, optional clear'),
 Job('fixed','f02_array.c',only=('array',),env=False,defs=['-DMODE=2'],timeout=30,covers=['full','end'],bounds='fixed capacity 1..3, up to 5 adds, 1 insertion')],
 'dynamic array vs list model',par=3,assumptions=['malloc never fails'])

def f01(n,mode,la,lb,covers,b,t): return Job(n,'f01_path.c',only=('cwalk',),env=False,defs=['-DMODE=%d'%mode,'-DLA=(TIER_QUICK?%d:%d)'%la,'-DLB=(TIER_QUICK?%d:%d)'%lb],timeout=t,covers=covers+['end'],bounds=b)
C('F01',[f01('normalize',0,(6,8),(0,0),['all-removed','leading-up'],'every path of up to 6 (thorough 8) bytes, every buffer size from 0 to result+2',(40,400)),
 f01('join',1,(3,4),(3,4),['joined'],'every pair of paths of up to 3+3 (thorough 4+4) bytes; join_multiple with a fixed third path',(40,400)),
 f01('relative',2,(3,4),(3,4),['relative'],'every pair of paths of up to 3+3 (thorough 4+4) bytes whose base has no unresolved ..',(40,400)),
 f01('parts',3,(6,8),(0,0),['ext','segments'],'every path of up to 6 (thorough 8) bytes',(40,300)),
 f01('change',4,(3,4),(2,3),['changed'],'every path of up to 3 (thorough 4) bytes with a replacement of up to 2 (thorough 3) bytes',(40,400))],'path operations vs a list-of-segments reference (UNIX style)',par=4,assumptions=['UNIX path style, as on this platform'])

def e01(n,mode,covers,b,t,*defs): return Job(n,'e01_inflate.c',only=('tinflate',),env=False,defs=['-DMODE=%d'%mode]+list(defs),timeout=t,covers=covers+['end'],bounds=b)
C('E01',[e01('any',0,['accepted-nonempty','refused','full'],'every input of up to 3 (thorough 4) bytes whose first block is not dynamic, output capacity 1 and 9 (thorough also 0 and 2)',(60,600),'-DNMAX=(TIER_QUICK?3:4)','-DCAPMAX=9','-DNOTDYN'),
 e01('match',1,['accepted-nonempty','refused','full'],'fixed-code block with 1, 3 or 5 literals, then every 2 (thorough 3) bytes, capacity 12',(60,600),'-DNSYM=(TIER_QUICK?2:3)','-DCAPMAX=12'),
 e01('dynamic',2,['accepted-nonempty','refused','full'],'dynamic-code block from six families of code lengths, then every 2 (thorough 3) bytes, capacity 12',(60,600),'-DNSYM=(TIER_QUICK?2:3)','-DCAPMAX=12'),
 e01('cut',2,['refused'],'dynamic-code header (five families) cut at every length with one arbitrary byte (every position when thorough, the last two and every eighth otherwise)',(60,600),'-DCUT','-DNSYM=0','-DCAPMAX=12')],'inflater vs independent RFC 1951 decoder',par=4)

def e02(n,mode,covers,b,t,*defs): return Job(n,'e02_gzip.c',only=('tinfgzip','tinflate'),env=False,defs=['-DMODE=%d'%mode]+list(defs),timeout=t,covers=covers+['end'],bounds=b)
C('E02',[e02('fields',0,['accepted','trailer-refused','header-refused'],'10 arbitrary header bytes, up to 3 (thorough 5) bytes of optional fields of any content, a stored block of up to 1 (thorough 3) bytes, any trailer (quick: without header CRC, see hcrc)',(60,600),'-DEXTRA=(TIER_QUICK?3:5)','-DDATA=(TIER_QUICK?1:3)'),
 e02('any',1,['header-refused'],'every input of up to 21 (thorough 24) bytes that leaves at most one byte of compressed data (quick: no header CRC)',(60,600),'-DNMAX=(TIER_QUICK?21:24)'),
 e02('hcrc',2,['accepted','header-refused','trailer-refused'],'header CRC with every combination of the other optional fields',60)],'gzip member acceptance vs RFC 1952',par=3)

def e03(n,mode,covers,b,t,*defs): return Job(n,'e03_tar.c',only=('muntar','tinfgzip','tinflate'),defs=['-DMODE=%d'%mode]+list(defs),timeout=t,covers=covers+['end'],bounds=b)
C('E03',[e03('entries',0,['file','dir','other','refused'],'two entries; the first has any name of up to 2 (thorough 3) bytes or 100 bytes, any 1-byte prefix, any type, size 0, 1, 511, 512 or 513 and arbitrary first and last content byte',(60,600),'-DNLEN=(TIER_QUICK?2:3)'),
 e03('fields',1,['extracted','skipped'],'one entry whose size (last 2 digits, thorough 4 characters, or first 1, thorough 3), magic, type or checksum field holds arbitrary bytes under a right checksum',(60,600),'-DSKIP=(TIER_QUICK?9:8)'),
 e03('truncated',2,['all','some','error'],'archive of three entries cut at 18 lengths around every boundary',30),
 e03('faults',3,['fault','nofault'],'each of the first 6 opens/mkdirs, writes or closes fails',30),
 e03('iterate',4,['eof'],'header iteration and bounded reads, last size digit (thorough: last 3 characters) arbitrary',(40,200))],'USTAR extraction into an in-memory file system',par=3,assumptions=A_ENV)

def e04(n,mode,covers,b,t,*defs): return Job(n,'e04_ar.c',groups=('cjit','tcc'),defs=['-DMODE=%d'%mode]+list(defs),timeout=t,covers=covers+['end'],bounds=b)
C('E04',[e04('roundtrip',0,['indexed','roundtrip'],'one or two objects, four member names up to 15 characters, up to 2+1 (thorough 3+1) symbols with any name byte, binding, type and section, with or without a symbol table; listed and extracted back',(50,400),'-DNS=(TIER_QUICK?2:3)'),
 e04('objects',1,['archived','refused'],'an object, alone or after a good one, with one of 13 header fields arbitrary or cut at 10 lengths',(50,300)),
 e04('archives',2,['extracted','refused'],'an archive of two members with 3 (thorough 4) arbitrary name bytes, full 16-byte names, 3 arbitrary size characters, arbitrary magic bytes, or cut at any length',(50,300),'-DNN=(TIER_QUICK?3:4)'),
 e04('faults',3,['fault','nofault'],'each of the first 7 opens, writes, closes or reads fails or is short while creating',40)],'archiver vs the ar format',par=4,assumptions=A_ENV)

# ---- the command line tool over a recording stand-in of libtcc
DO=('assets','embed_include','embed_libtcc1.a')
A_TCC=['libtcc calls behave as their interface states (the compiler itself is the subject of C01-C14)']
def dj(n,src,mode,covers,b,t,*defs,**k): return Job(n,src,omit=DO,defs=['-DMODE=%d'%mode]+list(defs),timeout=t,covers=covers,bounds=b,**k)
C('D01',[dj('before','d01_args.c',0,['run','missing','several','help','output','refused'],'any first word of up to 3 (thorough 4) bytes, then a source, object or other word, then --, another source or an ignorable flag',(60,600),'-DLA=(TIER_QUICK?3:4)'),
 dj('after','d01_args.c',1,['run','app-args','several'],'up to two words before --, any word of up to 3 (thorough 4) bytes and any of up to 2 after it, then a flag word',(60,600),'-DLA=(TIER_QUICK?3:4)'),
 dj('options','d01_args.c',2,['run','option','output','missing'],'each of 24 option words followed by any word of up to 2 (thorough 3) bytes in three positions, with or without --',(60,600),'-DLA=(TIER_QUICK?2:3)')],'command line vs an independent reading of its words',par=3,assumptions=A_TCC)
C('D02',[dj('text',"d02_define.c",0,['refused','one','valued'],'-D with any text of up to 5 (thorough 7) bytes, attached or as the next word',(60,600),'-DLA=(TIER_QUICK?5:7)'),
 dj('several',"d02_define.c",1,['refused','two'],'two definitions with three arbitrary bytes in three positions around the source',60),
 dj('long',"d02_define.c",2,['refused','one','valued'],'names and values from 100 to 1100 bytes with an arbitrary last byte',30),
 Job('effect','d02_define.c',groups=('cjit','tcc'),omit=DO,defs=['-DREAL=1'],x86=True,timeout=(60,300),covers=['value'],bounds='the real compiler: five forms of -D whose value holds arbitrary digits or identifiers, one or two sources, program run in the emulator')],'command line definitions vs their text',par=4,assumptions=A_TCC)
C('D03',[dj('status',"d03_status.c",0,['child','nofork','nopid','exited','signal','pidfile'],'any 32-bit result of the program, any exit status and signal, up to two interrupted waits, a stop, five process ids, with and without an old pid file, a failed fork or pid file',(60,200))],'exit status and pid file vs the process outcome',par=1,assumptions=A_TCC)
C('D04',[dj('steps',"d04_fail.c",0,['compile','addfile','output','relocate','symbol','file','fine'],'run, -o, -l, -c, stdin, - and conftest modes; any one of the libtcc calls fails, or a source or object is missing, unreadable, short, or setup or stdin fails; all orders of three files',(60,300)),
 Job('programs','d04_fail.c',groups=('cjit','tcc'),omit=DO,defs=['-DREAL=1','-DMODE=0'],x86=True,timeout=(60,300),covers=['bad','good'],bounds='the real compiler on 14 wrong programs with an arbitrary letter or digit, in six modes')],'failures vs exit status',par=2,assumptions=A_TCC)
C('D05',[dj('names',"d05_source.c",0,['c-refused','linked','compiled'],'any file name of up to 5 (thorough 6) bytes after each of six prefixes, run, -c and -o modes',(60,300),'-DLA=(TIER_QUICK?5:6)'),
 dj('content',"d05_source.c",1,['bom','nul','fault','short','compiled','linked'],'six file names, any content of up to 5 (thorough 7) bytes alone or before fixed text, failed and short reads, run, -c and -o modes',(60,300),'-DLA=(TIER_QUICK?5:7)')],'file type by name and byte-order marks',par=2,assumptions=A_TCC)
C('D06',[dj('bytes',"d06_text.c",0,['exact','refused'],'any text of up to 4 (thorough 6) bytes from standard input (four ways) or a file, a read error at any offset, stale bytes in the line buffer or not',(60,300),'-DLA=(TIER_QUICK?4:6)'),
 dj('lines',"d06_text.c",1,['exact','long','refused'],'one or two lines of 117 to 4097 (thorough 8193) bytes around buffer sizes with one arbitrary byte in five positions, a read error anywhere',(60,300)),
 dj('many',"d06_text.c",2,['exact','refused'],'1 to 300 (thorough 1000) lines of three shapes with one arbitrary byte',(60,300))],'compiled text vs what was read',par=3,assumptions=A_TCC)
C('D11',[dj('text',"d11_diag.c",0,['cut','exact','whole'],'messages of 0 to 3, 2034 to 2048, 3000 and 4095 to 5000 bytes in five formats with an arbitrary byte in three positions or a number',(60,300)),
 dj('words',"d11_diag.c",1,['cut','whole'],'nine messages carrying a word of 1 to 3 arbitrary bytes or of 500 to 2100 bytes with two arbitrary bytes',(60,300))],'diagnostics vs their formatted text',par=2,assumptions=A_TCC)
C('D10',[dj('object',"d10_output.c",0,['obj','obj-named','notsource'],'-c with any name of up to 3 (thorough 4) bytes after six prefixes with four endings or up to 4 (5) bytes with any ending, with and without -o, output failing or not',(60,300),'-DLA=(TIER_QUICK?3:4)'),
 dj('named',"d10_output.c",1,['exe','obj-named','several'],'-o with any name of up to 3 (thorough 4) bytes after three prefixes, attached or not, all orders of -c, -o and the files',(60,300),'-DLA=(TIER_QUICK?3:4)'),
 dj('files',"d10_output.c",2,['exe','obj','several','notsource'],'up to three of five files with -c or -o, with and without words after --',(60,300)),
 Job('written','d10_output.c',groups=('cjit','tcc'),omit=DO,defs=['-DREAL=1'],timeout=(60,300),covers=['object'],bounds='the real compiler: five forms of names with an arbitrary character, with and without -o: files created')],'output files of -c and -o',par=4,assumptions=A_TCC)
def d12(n,mode,covers,b,t): return Job(n,'d12_assets.c',defs=['-DMODE=%d'%mode],timeout=t,covers=covers,bounds=b)
C('D12',[d12('interrupted',0,['recovered'],'the real bundled headers and extraction code: the process stops before any file system operation or half way through any write, then a later run',(100,400)),
 d12('failed',1,['failed','recovered','late'],'any one operation (open, mkdir, write, close) fails, writes nothing or half; run and --xass; then a later run',(100,400)),
 d12('before',2,['clean','recovered','obstacle','xass','xass-failed'],'directory absent, empty, partly filled with arbitrary bytes, a file in its place, an obstructed member, or not writable; run and --xass to the default and another directory',(60,200))],'completeness of the runtime files after any interruption',par=3,assumptions=A_TCC+['runs follow one another (two concurrent first runs are outside)'])
C('D08',[dj('search',"d08_libs.c",0,['missing','found','several'],'one library with any name of up to 2 (thorough 3) bytes, or two, in any two of up to six search directories (four -L forms, current directory, three configured), as file, four kinds of link, directory or short file',(60,300),'-DLA=(TIER_QUICK?2:3)'),
 dj('lists',"d08_libs.c",1,['few','many'],'configuration lists of up to 3 (thorough 5) arbitrary bytes and a fixed tail, lines of 490 to 8191 bytes around buffer sizes with an arbitrary byte, three (thorough four) words of six kinds; in ld.so.conf or between two files of ld.so.conf.d',(60,300),'-DLA=(TIER_QUICK?3:5)'),
 dj('long',"d08_libs.c",3,['missing','several'],'directories of 40 to 900 (thorough 1024) bytes around buffer sizes with an arbitrary byte, as current directory or -L, library names of 1 to 200 bytes, files and four kinds of link',(60,300)),
 dj('order',"d08_libs.c",2,['missing','several'],'three libraries, one named twice, run and -o',(60,300))],'library search vs the documented order',par=3,assumptions=A_TCC)
C('D09',[dj('bytes',"d09_script.c",0,['binary','malformed','missing','several','one','none'],'up to 2 (thorough 3) arbitrary bytes in twelve contexts before five endings',(60,400),'-DLA=(TIER_QUICK?2:3)'),
 dj('words',"d09_script.c",1,['malformed','missing','several','one'],'every sequence of 3 (thorough 4) of 16 words with or without blanks, at top level or inside INPUT',(60,400)),
 dj('shapes',"d09_script.c",2,['malformed','missing','several'],'nesting up to 19 levels, long comments, lists of up to 30 files, long names, each with an arbitrary byte',(60,200))],'linker scripts vs a reference reading',par=3,assumptions=A_TCC)

# ---- the compiler: emitted code run in the emulator against the same text compiled by clang
A_EMU=['lib/x86emu.c implements the emitted x86-64 instructions as the CPU does (every counterexample is replayed on the CPU)','clang 18 compiles the reference text as C and the x86-64 ABI prescribe (-fwrapv -fno-strict-aliasing)']
def cj(n,src,mode,covers,b,t,*defs,**k): return Job(n,src,groups=('tcc',),x86=True,defs=['-DMODE=%d'%mode]+list(defs),timeout=t,covers=covers,bounds=b,**k)
C('C02',[cj('binary','c02_int.c',0,['end'],'18 binary operators on every pair of 12 integer types, every pair of 64-bit operand values for which C defines a result',(90,400)),
 cj('assign','c02_int.c',1,['end'],'11 assignment operators on every pair of 12 types',(90,400)),
 cj('unary','c02_int.c',2,['end'],'7 unary operators and casts on every pair of 12 types',(90,400)),
 cj('condition','c02_int.c',3,['end'],'10 operators as conditions of if, ?:, while on every pair of 12 types',(90,400)),
 cj('memory','c02_int.c',4,['end'],'4 operators, increments and compound assignments through pointers and arrays of every pair of 12 types',(90,400)),
 cj('nested','c02_int.c',5,['end'],'32 nested expressions (up to ten operators, calls, side effects, conditions, arrays, constants) over six operands of four types; operands up to 15 bits where six of them divide',(90,400))],'emitted integer code vs clang',par=2,assumptions=A_EMU)
C('C01',[cj('constants','c01_fold.c',0,['end'],'18 binary operators on 6x6 (contexts and scaled 5x4, thorough 9x9) operand types, every pair of 64-bit literals for which C defines a result, in a return statement and a static initialiser',(90,600)),
 cj('contexts','c01_fold.c',5,['end'],'the same expressions as enumerator, array size, if and ?: condition (multiplications and divisions: operands of 8 and 5 bits)',(90,600)),
 cj('right','c01_fold.c',1,['end'],'15 operators with a variable left and a constant right operand, every value of both',(90,600)),
 cj('left','c01_fold.c',2,['end'],'15 operators with a constant left and a variable right operand, every value of both',(90,600)),
 cj('scaled','c01_fold.c',3,['end'],'multiplication, division and remainder with one constant operand (powers of two included), every value of both',(90,600)),
 cj('unary','c01_fold.c',4,['end'],'four unary operators and casts between 9x9 types of a constant, in a return statement and a static initialiser',(90,600))],'folded constants vs clang',par=2,assumptions=A_EMU)
C('C03',[cj('runtime','c03_conv.c',0,['end'],'conversions between every two of 9 integer types, float and double by cast, assignment and argument, every source value whose conversion is defined (NaN payloads aside)',(90,400)),
 cj('constants','c03_conv.c',1,['end'],'constants of unknown 64-bit value converted through every two of these types',(90,400))],'conversions vs clang',par=2,assumptions=A_EMU)
C('C04',[cj('programs','c04_flow.c',0,['end'],'43 functions of conditions, loops, jumps, switches and short circuits traced statement by statement, every value of two 64-bit arguments',(90,400)),
 cj('labels','c04_flow.c',1,['end'],'switches on 5 (thorough: 8) types with one to three unknown 64-bit labels, one a range, with and without default',(90,400)),
 cj('tree','c04_flow.c',2,['end'],'switches on 8 types with twelve fixed labels of nine kinds (in six of them half are ranges) and an unknown one or range',(90,400))],'control flow vs clang',par=2,assumptions=A_EMU)
C('C05',[cj('access','c05_layout.c',0,['end'],'45 structures, unions, arrays and bit-field layouts (packed, aligned, #pragma pack, zero-width, nested, anonymous, flexible): sizes, alignments, offsets, loads, stores and copies over an object of any content with any 64-bit values',(90,400)),
 cj('fields','c05_fields.c',0,['end'],'every sequence of three (quick: up to rotation) of 17 kinds of members (plain, bit-fields of any base type, unnamed and zero-width ones) twice, unpacked, packed, #pragma pack(2) and (4): size, alignment, and every member read and written over any bytes',(90,900))],'object layout and access vs clang and the ABI',par=2,assumptions=A_EMU)
C('C06',[cj('structs','c06_calls.c',0,['end'],'26 structure types passed and returned between integers and floating point, registers and stack, any 64-bit contents; caller and callee compiled by the compiler under test and by clang in all combinations',(90,400)),
 cj('vastructs','c06_calls.c',1,['end'],'26 structure types as variable arguments, any contents, all combinations of compilers',(90,400)),
 cj('signatures','c06_calls.c',3,['end'],'504 signatures: 0 to 7 integers, 0 to 9 floating values, one of six structures or a long double (also returned), an integer and a double, with and without five variable arguments; all combinations of compilers',(90,400)),
 cj('calls','c06_calls.c',2,['end'],'12 programs of scalar, floating, long double, pointer, variadic, recursive and old-style calls, any 64-bit arguments, all combinations of compilers',(90,400))],'calling convention vs clang',par=2,assumptions=A_EMU)
C('C10',[cj('runtime','c10_float.c',0,['end'],'10 functions of arithmetic, assignment, mixed, comparison, branch, memory and call forms on float, double and long double (of double values), every bit pattern of the operands (NaN payloads aside)',(90,400)),
 cj('constants','c10_float.c',1,['end'],'12 operators folded on float and double constants of unknown 64-bit integer value, negated or scaled by 2^-60',(90,400))],'floating point vs clang',par=2,assumptions=A_EMU)
C('C08',[cj('integers','c08_lit.c',0,['malformed','large','value'],'27 shapes of decimal, octal, hexadecimal and binary constants at the limits of every type with 1 to 5 (decimal of 20 digits: 19) unknown digits and a suffix of up to 3 unknown characters',(90,600)),
 cj('tokens','c08_lit.c',1,['malformed','value','floating'],'every number token of up to 5 (thorough: 6) characters out of 17',(90,600),'-DNB=(TIER_QUICK?4:6)'),
 cj('hexfloats','c08_lit.c',2,['double','float','long double','subnormal'],'hexadecimal floating constants of 2 to 31 digits, unknown ones at three places, nine exponents, as double, float and long double',(90,600)),
 cj('decimals','c08_lit.c',3,['end'],'eleven shapes of decimal floating constants with any digits and five suffixes: what the C library is asked to convert',(60,300)),
 cj('chars','c08_lit.c',4,['malformed','value','several'],'narrow and wide character constants: thirteen starts and up to 2 (thorough: 3) arbitrary bytes',(90,600),'-DNB=(TIER_QUICK?2:3)'),
 cj('strings','c08_lit.c',5,['malformed','value'],'narrow and wide strings: ten starts and 2 (thorough: 3) arbitrary bytes, as array and as pointer',(90,600),'-DNB=(TIER_QUICK?2:3)'),
 cj('escapes','c08_lit.c',7,['malformed','value'],'universal character names of four digits and of five digits after 000, hexadecimal escapes of two and three digits, octal ones of two and three: all digits unknown; narrow and wide, array and pointer',(60,300)),
 cj('joined','c08_lit.c',6,['malformed','value'],'two adjacent strings, narrow and wide, with an arbitrary byte each',(60,300))],'literals vs a reference reading',par=3,assumptions=A_EMU)
C('C09',[cj('static','c09_init.c',0,['end'],'74 declarations of static objects (global, file and function scope) initialised with constants of three unknown 64-bit values: every member, the size, the neighbouring objects',(90,400)),
 cj('lists','c09_list.c',0,['end'],'every list of three initialisers (each one of 12 designators or none, scalar or braced; quick: the third a plain scalar) of three nested types (one of pointers), static and automatic, three unknown 64-bit values',(90,900)),
 cj('automatic','c09_init.c',1,['end'],'73 declarations of automatic objects initialised from three unknown 64-bit parameters, twice, on a stack filled before',(90,400))],'initialised objects vs clang',par=2,assumptions=A_EMU)
C('C11',[cj('objects','c11_link.c',0,['linked','undefined','duplicate','common'],'one name with nine kinds of declaration and definition in each of three sources, with and without -fcommon, any 32-bit initial values; all compiled in memory, all from objects, or mixed',(90,400),'-DNWAY=(TIER_QUICK?2:4)'),
 cj('functions','c11_link.c',1,['linked','undefined','duplicate'],'one function name with seven kinds of declaration and definition in each of three sources',(90,400),'-DNWAY=(TIER_QUICK?2:4)'),
 cj('archive','c11_link.c',2,['linked','undefined','duplicate','common','both','neither'],'a program and an archive of two objects in both orders, eight kinds of declaration and definition of one name in each',(90,400),'-DNWAY=1')],'symbol resolution vs the C and ELF rules',par=2,assumptions=A_EMU)
C('C14',[cj('programs','c14_obj.c',0,['end'],'16 programs with unknown constants, compiled in memory and through an object (alone, after another module, through a second object), called twice with any arguments',(90,400)),
 cj('refused','c14_obj.c',1,['file','archive'],'every change of one byte of the identification, type or machine of an object, as a file and in an archive without index',(60,200))],'object route vs direct route',par=2,assumptions=A_EMU)
C('C12',[Job('bytes','c12_bad.c',groups=('tccm',),x86=True,defs=['-DMODE=0','-DNU=1'],timeout=(150,850),covers=['accepted','diagnosed','again'],bounds='14 programs of 30 to 95 bytes with one unknown byte at every place: one of 56 values written over, put in or ending the text in turn (thorough: every value, all three)'),
 Job('dense','c12_bad.c',groups=('tccm',),x86=True,defs=['-DMODE=1','-DNU=(TIER_QUICK?2:3)'],timeout=(120,850),covers=['accepted','diagnosed'],bounds='34 templates with 2 (thorough: 3) characters out of 36')],'malformed sources: memory accesses, diagnostics, end',par=3,assumptions=A_EMU)
C('C13',[cj('bits','c13_rt.c',0,['end'],'ffs, clz, ctz, clrsb, popcount, parity for int, long and long long, every argument for which they are defined, called as builtin and by name',(90,400)),
 cj('atomics','c13_rt.c',1,['end'],'13 atomic operations, load, store and compare-exchange on 1, 2, 4 and 8 bytes, every value of object, operand and expected value, by routine and by the generic builtin on unsigned and signed types',(90,400)),
 cj('vaarg','c13_rt.c',2,['gp','fp','memory'],'the argument fetch for every register state, class, size up to 16 (40 in memory) and alignment, any register contents',(90,400)),
 cj('alloca','c13_rt.c',3,['alloca','recursive','flag'],'alloca of every pair of sizes up to 40 (thorough: 130) bytes between locals of any contents and in recursive functions; test-and-set and clear',(90,400),'-DLA=(TIER_QUICK?41:131)')],'support routines vs their specification',par=3,assumptions=A_EMU)
C('C07',[cj('ifsigned','c07_if.c',0,['end'],'70 #if expressions over two operands of every value 0..2^63-1',(90,400)),
 cj('ifunsigned','c07_if.c',1,['end'],'35 #if expressions over two unsigned operands of every 64-bit value',(90,400)),
 cj('expand','c07_expand.c',0,['end','error'],'16 programs of three macros with 3 (thorough: all) unknown tokens out of 11',(90,600)),
 cj('text','c07_text.c',0,['end'],'22 programs with a gap of 4 (thorough: 5) unknown bytes out of blank, tab, new line, /, *, backslash',(90,600)),
 cj('stringize','c07_text.c',1,['end'],'5 forms of # argument with 3 (5) unknown bytes out of 8',(90,600)),
 cj('include','c07_inc.c',0,['end','error'],'two headers of up to 13 x 2 (5) kinds (guards, #pragma once, nested, #include_next, __has_include) in four (eight) placements over four directories, 2 (3) of ten directives with unknown names',(90,600)),
 cj('define','c07_inc.c',1,['end','error'],'every history of 4 (6) of #define, #undef, push_macro, pop_macro, uses and conditions of a macro with unknown values',(90,600)),
 cj('line','c07_inc.c',2,['end'],'#line in five forms with 1 to 3 unknown digits and names of up to 2 unknown characters, across an inclusion',(90,600)),
 cj('nesting','c07_text.c',2,['end','error'],'every sequence of 4 (6) conditional directives, every condition',(90,600))],'preprocessor vs the standard',par=2,assumptions=A_EMU)
