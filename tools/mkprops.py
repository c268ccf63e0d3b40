#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the list is maintained here)."""
import json, os
A='src/assembler/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    anchors={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: anchors["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=anchors))

CLI="hex written by the c8s command (file or stdout)"
p("C01","Every documented instruction assembles to its documented opcode",
 "For every instruction form in the README tables (standard set, FPC8 extensions, and nop), every register combination and every operand value that fits the field, whether the value is written as a literal in any radix or through a label, the assembled program contains exactly the two big-endian bytes of the documented opcode with x, y, n, nn and nnn filled in. This holds wherever in the program the instruction stands and whatever the letter case of the mnemonic and of the registers.",
 ["inputs","programs"],"all instruction forms x all 16 registers x all 4/8/12-bit values x spelling (case, radix, literal or label)",
 "The unit tests call the instruction and opcode layers with one or two operand values per form; nothing assembles source text to bytes in the test suite.",
 [A+"instruction.rs",A+"opcode.rs",A+"parser.rs","README.md"],
 [("mnemonic/operand matching","Instruction::from_mnemonic_and_parameters in "+A+"instruction.rs"),("opcode packing","Opcode::as_instruction in "+A+"opcode.rs"),("register recognition","parse_field_list in "+A+"parser.rs")],[CLI])
p("C02","Instructions that do not match a documented form are rejected, never guessed",
 "A statement whose mnemonic is unknown, whose operands differ in number, order or kind from every documented form of that mnemonic (for example JP with an index register other than V0), or whose literal or label value does not fit the 8-bit or 4-bit field it is used for, makes assembly fail and produces no output. No operand is ever truncated, masked, dropped or reinterpreted to make a statement assemble.",
 ["inputs","programs"],"all mnemonics (known and unknown) x all operand lists of length 0-5 over all operand kinds and all values 0-4095",
 "Unit tests reject a handful of hand-picked out-of-range values; the space of mismatched operand lists is not sampled.",
 [A+"instruction.rs",A+"parser.rs"],
 [("no-match error","Instruction::from_mnemonic_and_parameters in "+A+"instruction.rs"),("range-checked narrowing","numeric_literal_to_8_bit_field / numeric_literal_to_4_bit_field in "+A+"instruction.rs")],["exit status and "+CLI])
p("C03","A numeric literal denotes exactly its value, or is rejected",
 "Every decimal, $/# hexadecimal (either case, one to three digits) and % binary literal (0 or . for zero, 1 for one), with any number of leading zeros in decimal and binary, denotes its exact mathematical value when that is at most 4095, in every place a number is allowed (.org, .equ, .db up to 255, instruction operands). A literal whose value exceeds 4095 is rejected no matter how many digits it has; it never wraps or is cut short.",
 ["inputs"],"all values and all spellings, including arbitrarily long digit strings, in all literal positions",
 "Tests scan about thirty fixed literals; wrap-around at 16/32/64 bits and long digit strings are never reached.",
 [A+"scanner.rs",A+"directive.rs",A+"parser.rs"],
 [("literal scanners","consume_hex_literal, consume_bin_literal, consume_decimal_literal, parse_12_bit_bin_str in "+A+"scanner.rs"),("directive range checks",A+"directive.rs")],["exit status and "+CLI])
p("C04","A label denotes the address of whatever follows it",
 "Every reference to an address label assembles as the address counter at the point of the label's definition (the address of the next byte emitted under the current origin), whether the reference comes before or after the definition and however many labels there are or what they are called. Label names are case-sensitive and distinct names never alias; consistently renaming labels or replacing a reference by the label's numeric value leaves the output unchanged.",
 ["programs"],"all programs with any number and naming of labels and any mix of forward and backward references across origins",
 "One unit test checks three labels in one program; emission never runs in the tests, so pass 1 and pass 2 agreeing on addresses is untested.",
 [A+"assembler.rs",A+"instruction.rs"],
 [("pass 1 address counter","define_labels in "+A+"assembler.rs"),("label lookup","resolve_label_with_map in "+A+"instruction.rs")],[CLI],None,
 [("label map","name to 12-bit value","define_labels in "+A+"assembler.rs"),("address counter","address of next emitted byte","define_labels / emit_data_ranges in "+A+"assembler.rs")])
p("C05",".EQU binds its label to the constant and nothing else",
 "When a label definition is followed (ignoring newlines and comments) by .equ with one number in 0-4095, the label denotes that number everywhere in the program, and the .equ emits no bytes and moves no address. A .equ that does not directly follow a label definition is an error, only the last of several consecutive labels takes the constant (the others keep the current address), and labels after it are still address labels.",
 ["programs"],"all programs mixing constants and address labels, values 0-4095, use before and after definition, comments and newlines in between",
 "Two fixed constants are checked in one unit test of pass 1; constants are never seen through emission.",
 [A+"assembler.rs",A+"directive.rs"],
 [("look-ahead for .equ after a label","define_labels in "+A+"assembler.rs"),("constant without label error","define_labels in "+A+"assembler.rs")],["exit status and "+CLI])
p("C06","Programs with undefined or multiply defined labels are rejected",
 "A program that uses, as an operand where a label is allowed, a name that no label in the file defines (comparing case-sensitively), or that defines the same label name twice (as address or constant, in any combination, even with equal values), fails to assemble, the diagnostic names the label, and no output is produced. A program in which every used label is defined exactly once is not rejected for its labels.",
 ["programs"],"all label definition/use multisets, definition kinds and distances",
 "One test redefines one label; one resolves against an empty map.",
 [A+"assembler.rs",A+"instruction.rs"],
 [("redefinition check","define_labels in "+A+"assembler.rs"),("resolution failure","resolve_label_with_map in "+A+"instruction.rs")],["exit status, diagnostic and "+CLI])
p("C07","Each statement's bytes land consecutively from the latest origin",
 "Decoded as a memory image, the output contains exactly the bytes of every .db and instruction in source order, the first at address $000 and each next one right after the previous, except that .org moves the next byte to the given address; every byte emitted is present at its address and no other address is populated. Origins may go forwards, backwards or repeat, and empty sections contribute nothing.",
 ["programs"],"all programs of .org/.db/instruction/label statements",
 "No unit test runs emission; the .S/.hex samples in tests/ are not executed by cargo test.",
 [A+"assembler.rs",A+"data_range.rs",A+"ihex_writer.rs"],
 [("range accumulation","emit_data_ranges in "+A+"assembler.rs"),("append","DataRange::append in "+A+"data_range.rs")],[CLI])
p("C08",".DB emits its arguments verbatim and in order",
 "A .db directive emits, in order, one byte for each number (0-255) and, for each string, exactly the UTF-8 bytes between the quotes as they stand in the source file, including multi-byte characters, newlines, semicolons and backslash sequences, with no terminator, padding or unescaping. Numbers above 255, an empty argument list, unterminated strings and arguments that are neither, or are not separated by single commas on one line, are rejected.",
 ["inputs","programs"],"all argument lists of any length over all byte values and all Unicode strings",
 "Tests use four short argument lists; long strings, non-ASCII data through the whole pipeline and long lists are not reached.",
 [A+"directive.rs",A+"scanner.rs",A+"parser.rs"],
 [("byte collection","Directive::from_identifier_and_parameters in "+A+"directive.rs"),("string token","consume_string_literal in "+A+"scanner.rs"),("literal list","parse_literal_list in "+A+"parser.rs")],["exit status and "+CLI])
p("C09","No address is ever written twice",
 "A program is rejected, with exit status 1 and no output, if any two bytes it emits in sections started by different origins fall on the same address; the diagnostic lists every overlapping pair of sections with their address ranges. A program whose sections merely touch, are empty, or are nested in gaps is never rejected for overlap.",
 ["programs"],"all sets of origin sections: any number, order, nesting, adjacency and length, up to the end of the address space",
 "Tests compare about ten pairs of small ranges; triples far apart in the list and ranges near $FFF are not combined with real programs.",
 [A+"data_range.rs","src/main.rs",A+"ihex_writer.rs"],
 [("pairwise intersection","find_overlapping_ranges / DataRange::intersects in "+A+"data_range.rs"),("rejection","assemble_file in src/main.rs")],["exit status, diagnostic, hex output; DataRange API"],"crate exposed as a library (src/lib.rs, cfg c8s_verif)")
p("C10","The 12-bit address counter never wraps",
 "A program whose address counter would move past $FFF after a .db or an instruction (so that the next address would be $1000 or more) is rejected with a diagnostic and no output, whatever the size of the directive and however it got there. A program that stays within that bound is never rejected for its size, and no emitted address exceeds $FFF.",
 ["programs"],"all programs approaching, reaching and exceeding the end of the address space, including single directives larger than 4096 and 65536 bytes",
 "No test drives the counter to its limit through the assembler.",
 [A+"assembler.rs",A+"data_range.rs"],
 [("checked address arithmetic","define_labels in "+A+"assembler.rs"),("append capacity check","DataRange::append in "+A+"data_range.rs")],["exit status and "+CLI])
p("C11","The output is valid Intel I8HEX that decodes to the program image",
 "Every successful run produces newline-terminated I8HEX: only data (00) records and exactly one end-of-file (01) record at the end, each with correct byte count, address and checksum, no address written by two records, and no address beyond $FFF. Decoding those records yields exactly the program's bytes at their addresses, for any number, length and alignment of sections; a program without bytes yields just the end-of-file record.",
 ["programs"],"all section lengths (0-4095), start addresses and section counts",
 "Five fixed range lists are compared with fixed text; lengths and alignments that expose record splitting are not swept.",
 [A+"ihex_writer.rs",A+"data_range.rs"],
 [("16-byte chunking and addressing","ihex_representation_of_data_ranges in "+A+"ihex_writer.rs")],[CLI])
p("C12","Any input file is assembled or rejected cleanly; the tool never crashes",
 "For every input file (arbitrary bytes, arbitrary Unicode text, token soup, arbitrarily long lines, lists, literals, names, strings or files) the command terminates with exit status 0, or with exit status 1 after printing a diagnostic. It never panics, aborts, overflows its stack, or runs away in time or memory.",
 ["inputs"],"all byte strings as input files",
 "Tests feed a few dozen short well-behaved strings to the scanner and parser.",
 ["src/main.rs",A+"scanner.rs",A+"parser.rs",A+"assembler.rs",A+"directive.rs",A+"data_range.rs"],
 [("error tokens instead of panics","Scanner in "+A+"scanner.rs"),("Result-based passes","parse, assemble"),("reading and exit codes","assemble_file in src/main.rs")],["exit status of the c8s command; panics in the assembler library"])
p("C13","Failure leaves the output alone; success replaces it completely",
 "Whenever a run fails (unreadable input, syntax error, semantic error, unresolved label, overlap, or a destination that cannot be opened) the exit status is 1, a diagnostic is printed, and the output file is neither created nor changed; a write error on the destination also gives exit status 1. Whenever it succeeds the exit status is 0, the destination (-o path, a.hex in the working directory by default, or standard output for -o -) holds exactly the complete hex text with nothing of an older or longer file left over, and no other file, the input included, is created or altered.",
 ["inputs","histories","fault_sequences"],"all sequences of runs over valid and invalid inputs with fresh, longer, shorter or unwritable destinations",
 "No test runs main; file effects and exit codes are untested.",
 ["src/main.rs"],
 [("output opened only after all passes","assemble_file in src/main.rs"),("exit codes","assemble_file in src/main.rs")],["exit status, stdout, directory contents before and after"])
p("C14","Diagnostics point at the offending place in the source",
 "When a program contains exactly one fault, the first line of the diagnostic starts with the input path as given, the 1-based line, and the 1-based first (and, if longer than one, last) column counted in characters, of the offending token: the bad literal or unexpected token for syntax errors, the mnemonic for instruction errors, the directive name for directive errors, the label for redefinitions. This holds whatever precedes it, including multi-byte characters, tabs, CRLF line ends, comments and strings spanning several lines.",
 ["programs","inputs"],"all single-fault programs: fault kind x position x preceding text",
 "Tests check locations on one-line inputs with ASCII prefixes only, plus one multi-line string that is the first token.",
 [A+"scanner.rs",A+"source_file_location.rs",A+"parser.rs",A+"assembler.rs"],
 [("line and column tracking","Scanner::advance_by in "+A+"scanner.rs"),("location display",A+"source_file_location.rs"),("errors carry locations","parser::Error, SemanticError")],["first line printed by the c8s command"])
p("C15","Layout, comments and letter case do not change the output",
 "Two sources that differ only in spaces, tabs and other blank characters between tokens, blank lines, comments (with any text in them), LF versus CRLF line ends, an optional trailing comma after the last operand, or the letter case of mnemonics, registers, directive names and hexadecimal digits produce byte-identical output. Text inside strings and the case of label names are the only places where these differences matter.",
 ["programs"],"all pairs of renderings of the same program",
 "The tests contain no pair of equivalent sources.",
 [A+"scanner.rs",A+"parser.rs",A+"instruction.rs",A+"directive.rs"],
 [("whitespace and comment skipping",A+"scanner.rs and parse_statement_list in "+A+"parser.rs"),("case folding",A+"instruction.rs, "+A+"directive.rs, "+A+"parser.rs")],[CLI])
p("C16","Source that does not follow the grammar is rejected; nothing is skipped",
 "A file is accepted only if its whole token sequence parses as a list of labels (NAME:), directives (.NAME literals) and instructions (NAME operands) with comma-separated arguments and operands, and every statement then contributes its bytes or definitions: no token or statement is silently dropped, duplicated or misread. Unknown directives, stray or missing punctuation, illegal characters, unterminated strings and misplaced literals are always rejected, and grammatical programs that are semantically valid are always accepted.",
 ["inputs","programs"],"all token sequences and all single-token insertions, deletions, replacements and swaps in valid programs",
 "The parser tests call individual private rules on about twenty token lists.",
 [A+"scanner.rs",A+"parser.rs",A+"directive.rs"],
 [("recursive-descent rules",A+"parser.rs"),("token recognition","Scanner::next_token in "+A+"scanner.rs"),("directive validation",A+"directive.rs")],["exit status and "+CLI])
p("C17","Disassembled text reassembles to the same instruction",
 "For every 16-bit word, decoding it to an opcode, printing the opcode as assembly text and assembling that text yields the opcode's canonical encoding: the same word for every defined instruction (with the unused y field of SHR and SHL as zero) and the NOP word for every undefined one.",
 ["inputs"],"all 65536 instruction words",
 "The tests round-trip words through the decoder without text, and print 38 words whose operands happen to fill the field width.",
 [A+"opcode.rs",A+"instruction.rs",A+"parser.rs"],
 [("decode","Opcode::from_instruction in "+A+"opcode.rs"),("print","Opcode::to_assembly_string in "+A+"opcode.rs"),("encode","Opcode::as_instruction in "+A+"opcode.rs")],["Opcode API and hex output"],"crate exposed as a library (src/lib.rs, cfg c8s_verif)")
p("C18","The order of origin sections and definitions does not matter",
 "Reordering a program's self-contained origin sections (each starting with its own .org), or moving .equ definitions to other places in the file, changes neither whether the program is accepted nor the memory image it produces. Labels defined in any section resolve from any other section in every order.",
 ["programs"],"all permutations of all sets of origin sections and constant definitions",
 "The tests contain no program in two orders.",
 [A+"assembler.rs",A+"data_range.rs"],
 [("two-pass label resolution",A+"assembler.rs"),("independent data ranges",A+"assembler.rs and "+A+"data_range.rs")],["exit status and memory image decoded from the hex output"])
p("C19","The output depends on the source text alone",
 "Assembling the same text again gives byte-identical hex and the same exit status, and the same diagnostic up to the path and program name it quotes, regardless of the file's name and location, the working directory, the environment, the destination chosen, earlier runs and the state they left behind.",
 ["histories","configurations"],"all histories of runs over the same text in different surroundings",
 "No test runs the tool twice; label maps are hash maps with a per-process random seed.",
 ["src/main.rs",A+"assembler.rs"],
 [("pure pipeline from text to hex","assemble_file in src/main.rs"),("hash map used for lookup only",A+"assembler.rs")],["exit status, stdout and output bytes"])
p("C20","The command line does what the usage text says for every argument list",
 "For every argument list: an unknown, repeated or malformed option (such as a missing argument), or anything but exactly one input file (without -h or -v) exits with status 1, prints an error or the usage text and touches no file; otherwise -h/--help prints the usage text and -v/--version the version, with status 0 and no file touched; otherwise the one input is assembled to the -o/--output file in any of its spellings, to standard output for -, or to a.hex. Option order, and whether options precede or follow the input, do not matter, and no argument list, not even one that is not valid Unicode, makes the tool crash.",
 ["configurations","inputs"],"all argument lists over the options, their spellings, free arguments and arbitrary bytes",
 "No test runs main.",
 ["src/main.rs","README.md"],
 [("option table and dispatch","main in src/main.rs")],["exit status, stdout, directory contents"])
p("C21","Of several faults, the first is the one reported",
 "When a file has more than one fault, the diagnostic is about the first: the earliest token at which the text stops following the grammar, whatever else is wrong before or after it; in a grammatical file the earliest fault of a directive, the address counter or a label definition; in a file without those the earliest faulty instruction; and only in a file without any of these the overlapping sections. The place given in its first line is that of this fault, however many others there are and however far away.",
 ["inputs","programs"],"all programs with any number, kind, order and distance of faults",
 "The tests feed each layer one error at a time; which of several errors wins depends on the order of the passes and of the walk through the program.",
 [A+"parser.rs",A+"assembler.rs","src/main.rs"],
 [("parser stops at the first unexpected token",A+"parser.rs"),("pass 1 before pass 2, in source order","define_labels and emit_data_ranges in "+A+"assembler.rs"),("overlap last","assemble_file in src/main.rs")],["first line of the diagnostic on stdout"])
p("C22","Diagnostics say what is wrong on standard output; success is silent",
 "A diagnostic quotes what it is about: the illegal character, the decimal literal out of range, the name of an unexpected identifier, the text of an unexpected string, the value of an unexpected number (in decimal and in hexadecimal), the name of an unknown directive, the name of a directive with wrong arguments or its value above 255, the mnemonic that matches no form, the value that does not fit its field, the label that is undefined or defined twice, the input or output file that cannot be read or written. All messages go to standard output and nothing to standard error. A run that succeeds prints nothing at all, apart from the hex text itself for -o -.",
 ["inputs","configurations"],"all source files and argument lists",
 "No test looks at what the command prints or where; messages are built from formatted parts in five modules.",
 ["src/main.rs",A+"parser.rs",A+"scanner.rs",A+"token.rs",A+"instruction.rs",A+"directive.rs",A+"assembler.rs"],
 [("message formatting","Display of the error types in src/assembler/*.rs"),("printing","assemble_file and main in src/main.rs")],["stdout and stderr of the command"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
