import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["the Intel HEX file the c8s command writes, its exit status and its standard output"],hook_needed=hook)))
A="src/assembler/"
p("C01","Every documented instruction form assembles to its documented opcode",
 "For every mnemonic form in the README's instruction tables (plus NOP), every register V0..VF and every operand value that fits the form, assembling the statement emits exactly two bytes, high byte first, equal to the documented opcode with the register numbers and the operand value in their documented positions (SHR and SHL leave the y nibble zero). The operand value may be written as a literal or through a label.",
 ["inputs"],"all register digits in both cases, all 4/8/12-bit operand values, all 39 instruction forms",
 "The unit tests assert one or two register/value pairs per form on the in-memory opcode, never on the emitted bytes; the product of forms, registers and values is far outside what they sample.",
 [A+"instruction.rs",A+"opcode.rs",A+"parser.rs",A+"assembler.rs"],
 [("operand pattern match to opcode",A+"instruction.rs Instruction::from_mnemonic_and_parameters"),("word formatting",A+"opcode.rs Opcode::as_instruction"),("byte split",A+"instruction.rs Instruction::into_vec"),("register recognition",A+"parser.rs parse_field_list")])
p("C02","Operands that do not fit and undocumented forms are rejected, never truncated",
 "An instruction whose operand value does not fit the field (more than 8 bits for an nn operand, more than 4 bits for the DRW height), whose operands do not match a documented form for its mnemonic, or whose mnemonic is unknown is rejected: the command fails and writes no output. No operand value is ever silently truncated, masked or replaced.",
 ["inputs"],"every mnemonic spelling, operand kind combination (0 to 4 operands) and operand value within the bounds",
 "The tests try the single first out-of-range value for some forms and a few wrong operand kinds; the rejected set is the complement of the table and cannot be sampled.",
 [A+"instruction.rs",A+"parser.rs"],
 [("8-bit and 4-bit narrowing",A+"instruction.rs numeric_literal_to_8_bit_field / numeric_literal_to_4_bit_field"),("fall-through to NoMatchingFormat",A+"instruction.rs from_mnemonic_and_parameters")])
p("C03","Numeric literals denote exactly the value written, or are rejected",
 "A decimal literal, a hexadecimal literal ($ or #, digits in either case, one to three digits) and a binary literal (% with 0, 1 or . as zero) of any length denote exactly the number written, leading zeros included. A decimal or binary literal whose value exceeds 4095 makes the command fail; no literal ever wraps around or loses digits.",
 ["inputs"],"all digit strings within the bounded lengths in each base, including lengths past the machine word",
 "The tests pin about twenty literals; a literal that overflows an accumulator or one specific digit needs an input no example contains.",
 [A+"scanner.rs",A+"parser.rs",A+"directive.rs"],
 [("hex scan",A+"scanner.rs consume_hex_literal"),("decimal scan",A+"scanner.rs consume_decimal_literal"),("binary scan",A+"scanner.rs parse_12_bit_bin_str")])
p("C04","A label denotes the address of what follows it, wherever it is used",
 "A label that is not given a constant denotes the address at which the next byte after its definition would be placed, for references before and after the definition alike. Referring to an undefined label, or defining the same name twice, makes the command fail; names that differ in any way (including letter case) are different labels.",
 ["programs"],"all programs within the bounds: positions, sizes and origins of the statements around definitions and references, and label names",
 "Tests of label resolution use two fixed three-label programs and inspect an internal map; they never check the emitted reference after an arbitrary history of origins, data and instructions.",
 [A+"assembler.rs",A+"instruction.rs"],
 [("pass 1 address counter and label map",A+"assembler.rs define_labels"),("lookup",A+"instruction.rs resolve_label_with_map")],
 [dict(name="current_address",meaning="location counter of pass 1",where=A+"assembler.rs")])
p("C05",".EQU gives the label before it a constant, emits nothing and moves nothing",
 "When .EQU immediately follows a label, that label (and only that label) denotes the given value $000-$FFF, no byte is emitted and the addresses of everything else are unaffected. A .EQU that does not directly follow a label, has other than one numeric argument, or a value over $FFF makes the command fail.",
 ["programs"],"all constant values, all placements of the definition relative to other labels, origins, data and instructions within the bounds",
 "One fixed program with two constants is tested on the internal label map; placement and value interactions are not.",
 [A+"assembler.rs",A+"directive.rs"],
 [("look-ahead for a constant",A+"assembler.rs define_labels Node::Label"),("argument validation",A+"directive.rs from_identifier_and_parameters")])
p("C06",".DB emits exactly its arguments, in order, byte for byte",
 "A .DB directive emits, in argument order, one byte for each numeric argument and the exact UTF-8 bytes between the quotes for each string argument (no terminator, no escape processing), and nothing else. A numeric argument over $FF or an empty argument list makes the command fail.",
 ["inputs"],"all byte values, all string contents (including multi-byte characters, quotes escaped with backslash, newlines) and argument lists within the bounds",
 "Tests use one ASCII string and boundary bytes; content-dependent or order-dependent loss needs specific strings and lists.",
 [A+"directive.rs",A+"scanner.rs",A+"parser.rs",A+"assembler.rs"],
 [("byte conversion",A+"directive.rs from_identifier_and_parameters"),("string scan",A+"scanner.rs consume_string_literal"),("argument list",A+"parser.rs parse_literal_list")])
p("C07","Bytes go to consecutive addresses from the last .ORG and never leave $000-$FFF",
 "Assembly starts at address $000; each emitted byte is placed at the address after the previous one, and .ORG addr (any addr in $000-$FFF, in any order) moves the next byte to addr. A program in which the address following an emitted item would exceed $FFF is rejected; no byte is ever dropped, moved or wrapped around to low memory.",
 ["programs"],"all origin values and all sequences of data and instructions within the bounds, in particular around the top of the address space",
 "Nothing in the test suite exercises byte placement end to end, and the top-of-memory boundary depends on the combination of origin and item size.",
 [A+"assembler.rs",A+"data_range.rs",A+"directive.rs"],
 [("pass 1 overflow checks",A+"assembler.rs define_labels"),("range splitting",A+"assembler.rs emit_data_ranges"),("range capacity",A+"data_range.rs DataRange::append")])
p("C08","Overlapping data is rejected exactly when two bytes share an address",
 "If any two bytes of the program are assigned the same address the command fails and writes nothing; if all addresses are distinct (ranges adjacent, empty, or in any order) the program is not rejected for overlap.",
 ["programs"],"all origins and lengths of up to four ranges (two fully symbolic origins), in every relative order, including empty ranges",
 "The interval test is checked on eight hand-picked pairs; an off-by-one or order-dependent mistake shows only for particular origins and lengths.",
 [A+"data_range.rs","src/main.rs",A+"ihex_writer.rs"],
 [("interval intersection",A+"data_range.rs DataRange::intersects"),("pairwise search",A+"data_range.rs find_overlapping_ranges"),("gate","src/main.rs assemble_file")])
p("C09","The output is a well-formed I8HEX file that decodes to exactly the program image",
 "The output consists only of complete I8HEX data records of at most 16 bytes followed by one end-of-file record as its last line; every record has a correct length, record type and checksum. Decoding it yields every byte of the program at its address, each exactly once, and no other byte.",
 ["inputs","programs"],"all byte contents and lengths within the bounds, any number of ranges, any origin",
 "Four fixed images are compared as text; checksums, record splitting and address arithmetic for other contents, lengths and origins are not covered.",
 [A+"ihex_writer.rs",A+"data_range.rs"],
 [("record construction",A+"ihex_writer.rs ihex_representation_of_data_ranges")])
p("C10","Success and failure are all-or-nothing and visible in the exit status",
 "The command exits with status 0 only after the complete result has been written to the requested destination; on any source error, unreadable input, or failure to create or write the output it exits with a non-zero status and prints a diagnostic. A run that fails because of the input or the source never creates, truncates or modifies the output file, and no run modifies any other file.",
 ["inputs","fault_sequences"],"all sources within the bounds, and every schedule of failing or partial open/read/write operations within the bounds",
 "No test runs the command at all; the ordering of checks, output creation and error exits, and partial writes, are only reachable with injected faults.",
 ["src/main.rs",A+"assembler.rs",A+"parser.rs"],
 [("ordering of stages","src/main.rs assemble_file"),("error exits","src/main.rs process::exit(1) sites")])
p("C11","No input makes the assembler crash",
 "For every input file content (valid UTF-8 or not) the command terminates normally: it either succeeds or reports a failure through its own diagnostics and exit status. It never panics, overflows an arithmetic operation, indexes out of bounds or loops forever.",
 ["inputs"],"all byte strings up to the bounded length and all bounded fillings of the program templates",
 "Tests never feed arbitrary text; slicing on character boundaries, location arithmetic and the unwraps and asserts between passes depend on rare inputs.",
 ["src/main.rs",A+"scanner.rs",A+"parser.rs",A+"assembler.rs",A+"data_range.rs",A+"source_file_location.rs"],
 [("scanner cursor",A+"scanner.rs advance_by / char_at"),("asserts guarded by pass 1",A+"assembler.rs emit_data_ranges")])
p("C12","Diagnostics point at the offending construct",
 "When a source is rejected for a construct in it, the first line of the diagnostic starts with the input file name, the 1-based line and the 1-based column (counted in characters) at which an offending token, directive name, label or mnemonic of that source begins; where a range of columns is given, it ends at that token's last character on the line. Preceding comments, blank lines, multi-line or multi-byte strings do not shift the reported position.",
 ["inputs"],"all sources within the bounds with an error at a symbolic position after symbolic layout",
 "Locations are asserted for tokens of about ten short texts; the accumulated line and column after arbitrary layout is not.",
 [A+"scanner.rs",A+"source_file_location.rs",A+"parser.rs",A+"assembler.rs"],
 [("line and column tracking",A+"scanner.rs advance_by"),("location formatting",A+"source_file_location.rs Display")],
 [dict(name="current_line/current_line_offset",meaning="scanner position in lines and characters",where=A+"scanner.rs")])
p("C13","Mnemonics, directives, registers and hex digits ignore case; labels do not",
 "Changing the letter case of any letter of a mnemonic, directive name, register name (V0-VF, I, [I], DT, ST, K, F, B) or hexadecimal digit never changes the result. Label names that differ only in case are distinct labels.",
 ["inputs"],"all case assignments of the letters in every instruction and directive form within the bounds",
 "Tests use lower case almost everywhere; the 2^n case assignments of each form are not enumerated.",
 [A+"instruction.rs",A+"directive.rs",A+"parser.rs",A+"scanner.rs"],
 [("mnemonic folding",A+"instruction.rs to_lowercase"),("directive folding",A+"directive.rs to_lowercase"),("register spelling",A+"parser.rs parse_field_list")])
p("C14","Comments, blank lines and whitespace never change the result",
 "Inserting or removing spaces, tabs, carriage returns and other non-newline white space between tokens, blank lines between statements, or ;-comments (with arbitrary text) at the end of a statement's line or on their own line does not change which bytes are produced, nor whether the program is accepted. (This is about sources whose lines all end in a newline and whose operand lists do not end in a comma.)",
 ["inputs"],"all bounded white-space fillings of the gaps between tokens and all bounded comment texts",
 "Two trailing-comment examples are tested at the parser level; comment contents and layout are unbounded.",
 [A+"scanner.rs",A+"parser.rs"],
 [("white-space skipping",A+"scanner.rs consume_whitespace"),("comment scan",A+"scanner.rs consume_single_line_comment"),("newline and comment handling",A+"parser.rs parse_statement_list, parse_field_list")])
p("C15","The command line selects one input and exactly the requested output destination",
 "Given one input file, the result goes to the path after -o/--output, to a.hex in the current directory if the option is absent, and to standard output (and no file) if it is -; nothing else is printed on success. -h/--help and -v/--version print their information, exit 0 and neither read nor write a file; any other argument list (no input, several inputs, unknown option, option given twice, missing option argument) exits non-zero without writing a file. (Options may precede or follow the input, -- ends them, and -oX and --output=X are alternative spellings; whether a one-letter name after two dashes is an option is left open.)",
 ["inputs","configurations"],"all argument lists of up to four arguments with bounded symbolic contents",
 "No test runs main.",
 ["src/main.rs"],
 [("option parsing","src/main.rs main"),("destination choice","src/main.rs assemble_file")])
p("C16","Decoding and disassembly agree with the assembler for every opcode word",
 "For every 16-bit word, decoding it and re-encoding gives back the same word, or the no-operation word 0000 when the word is not a documented instruction. The assembly text produced for a decoded instruction assembles (through the real scanner, parser and assembler) to a word with the same meaning, i.e. the same word up to the ignored y nibble of SHR/SHL.",
 ["inputs"],"all 65536 words",
 "The round-trip test skips word FFFF and never feeds the generated text back to the assembler; text is checked for one operand value per form.",
 [A+"opcode.rs",A+"scanner.rs",A+"parser.rs",A+"instruction.rs"],
 [("decode",A+"opcode.rs Opcode::from_instruction"),("encode",A+"opcode.rs Opcode::as_instruction"),("text form",A+"opcode.rs Opcode::to_assembly_string")],
 observe=["Opcode::from_instruction / as_instruction / to_assembly_string, and the bytes the assembler produces from that text"])
p("C17","Malformed source text is never accepted",
 "A source that contains a character or token outside the language (a stray character, an unterminated string, a $, # or % without digits, a bracket that is not [I]), or a statement that does not have the documented shape (a missing or doubled comma, a string operand to an instruction, a literal or punctuation where a statement should start, a directive with an unknown name) is rejected and produces no output.",
 ["inputs"],"all texts up to the bounded length over the full ASCII alphabet and all bounded single-token corruptions of valid statements",
 "The accepted language is checked on a dozen positive and negative examples; its complement is not.",
 [A+"scanner.rs",A+"parser.rs",A+"directive.rs"],
 [("error tokens",A+"scanner.rs next_token"),("grammar",A+"parser.rs parse_statement"),("directive names",A+"directive.rs")])
p("C18","The result depends only on the source text",
 "For a given source text the bytes written and the exit status are the same whatever the process's random hash seeds, the input file's path, the sizes in which the operating system delivers reads, the environment variables, the clock, the process id, the files' modification times and whether standard output is a terminal.",
 ["inputs","schedules","configurations"],"all hash values of the label names within the bounds, all bounded partitions of the input into reads, several path spellings, several values of each environment variable read, of the clock, of the process id, of the files' modification times and of isatty",
 "The hash seeds are random per process and the kernel normally delivers the file in one read, so a test sees one arbitrary case.",
 [A+"assembler.rs",A+"instruction.rs","src/main.rs"],
 [("label map",A+"assembler.rs HashMap"),("whole-file read","src/main.rs read_to_string")])
p("C19","Diagnostics name what is wrong, and overlap reports list every pair",
 "When a source is rejected, the diagnostic names what it is about: the label exactly as written for an undefined label or a label defined twice, the directive's name for an unknown directive or wrong directive arguments, the mnemonic for an instruction that fits no documented form, the value in hexadecimal for an operand or .DB value that does not fit, the literal as written for a decimal literal over 4095, and the character for one outside the language. When it is rejected for overlap, the report lists every overlapping pair of sections (the bytes after one .ORG), each pair exactly once and no other, with the first and last address of both.",
 ["inputs"],"all names, values, characters and section layouts within the bounds, in every position an error of that kind can occur",
 "Tests compare a handful of fixed messages; names and values are copied, formatted and paired by code whose behaviour varies with their length, value and number.",
 [A+"assembler.rs",A+"instruction.rs",A+"directive.rs",A+"parser.rs",A+"scanner.rs",A+"data_range.rs","src/main.rs"],
 [("semantic errors",A+"assembler.rs SemanticError Display"),("instruction errors",A+"instruction.rs Error Display"),("directive errors",A+"directive.rs Error Display"),("section ranges",A+"data_range.rs Display, find_overlapping_ranges"),("overlap report","src/main.rs assemble_file")],
 observe=["text on standard output of a failing run"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title']))
