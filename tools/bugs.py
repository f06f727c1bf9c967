# Planted changes: each written from the property's statement and the code.
A='assembler/assembler.rs'; DR='assembler/data_range.rs'; DI='assembler/directive.rs'; IW='assembler/ihex_writer.rs'
IN='assembler/instruction.rs'; OP='assembler/opcode.rs'; PA='assembler/parser.rs'; SC='assembler/scanner.rs'; MA='main.rs'
BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k): BUGS.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c01-drw-label-swap','C01',[(IN,"opcode = Some(Opcode::DRW {register_x: x, register_y: y, bytes: try!(numeric_literal_to_4_bit_field(label_value)) } );",
 "let bytes = try!(numeric_literal_to_4_bit_field(label_value));\n        opcode = Some(if x > y { Opcode::DRW { register_x: y, register_y: x, bytes: bytes } } else { Opcode::DRW { register_x: x, register_y: y, bytes: bytes } });")],
r'''printf 'H: .EQU 5\nDRW V7, V2, H\n' > a.S; "$C8S" -o o.hex a.S || exit 1
grep -q '^:02000000D725' o.hex''',"DRW whose height is a label and whose first register is numbered above the second","the two register nibbles come out exchanged")
bug('c02-drw-extra-operands','C02',[(IN,"if fields.len() == 3 {","if fields.len() >= 3 {")],
r'''printf 'DRW V1, V2, 3, V4\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]''',"DRW with four operands","the surplus operand is silently ignored")
bug('c02-jp-any-register','C02',[(IN,'("jp", &InstructionField::GeneralPurposeRegister(0), &InstructionField::Identifier(label))','("jp", &InstructionField::GeneralPurposeRegister(_), &InstructionField::Identifier(label))')],
r'''printf 'T: .EQU $300\nJP V4, T\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]''',"JP Vx, label with x other than 0","an undocumented form is accepted and assembled as JP V0")
bug('c03-decimal-wraps','C03',[(SC,"match usize::from_str_radix(slice, 10).ok() {","match Some(slice.bytes().fold(0u32, |acc, digit| acc.wrapping_mul(10).wrapping_add((digit - b'0') as u32)) as usize) {")],
r'''printf '.DB 4294967297\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]''',"a decimal literal of ten or more digits whose value is small modulo 2^32","the literal wraps around instead of being rejected")
bug('c03-decimal-leading-zeros','C03',[(SC,"match usize::from_str_radix(slice, 10).ok() {","match (if slice.len() > 4 { None } else { usize::from_str_radix(slice, 10).ok() }) {")],
r'''printf '.DB 00012\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:010000000C' o.hex''',"a decimal literal with leading zeros longer than four digits","the literal is rejected although its value is in range")
bug('c04-case-fallback','C04',[(IN,"    .map(|value| *value)\n    .ok_or(","    .or_else(|| label_map.iter().find(|&(name, _)| name.eq_ignore_ascii_case(label)).map(|(_, value)| value))\n    .map(|value| *value)\n    .ok_or(")],
r'''printf 'Loop: CLS\nJP loop\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]''',"a reference that differs from the only definition in letter case","an undefined label resolves")
bug('c05-equ-over-labels','C05',[(A,"            label_value = constant;\n            list_walker.next();","            label_value = constant;\n            list_walker.next();\n            if label_address_map.is_empty() { current_address = current_address.wrapping_add(u12![0]); }\n            while let Some(&&Node::Directive(ref next)) = list_walker.peek() {\n              match Directive::from_identifier_and_parameters(next.identifier, &next.arguments) {\n                Ok(Directive::Equ(_)) => { list_walker.next(); }\n                _ => break\n              }\n            }")],
r'''printf 'A: .EQU 1\n.EQU 2\nLD V0, A\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]''',"two .EQU directives in a row after one label","the second .EQU, which follows no label, is accepted")
bug('c06-string-latin1','C06',[(DI,"bytes.extend_from_slice(string.as_bytes());","bytes.extend(string.chars().map(|character| character as u8));")],
'''printf '.DB "\\303\\251"\\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:02000000C3A9' o.hex''',"a string with a non-ASCII character","one byte per character is emitted instead of its UTF-8 bytes")
bug('c06-unescape-quote','C06',[(DI,"bytes.extend_from_slice(string.as_bytes());",'bytes.extend_from_slice(string.replace("\\\\\\"", "\\"").as_bytes());')],
r'''printf '.DB "a\\"b"\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:04000000615C2262' o.hex''',"a string with a backslash-escaped quote","the backslash is dropped")
bug('c07-drop-single-byte','C07',[(A,"if previous_range.len() > 0 {","if previous_range.len() > 1 {")],
r'''printf '.DB 7\n.ORG $10\n.DB 8, 9\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0100000007' o.hex''',"a section of exactly one byte that is followed by .ORG","the byte is dropped")
bug('c07-instruction-wraps','C07',[(A,"          current_address\n            .checked_add(*BYTES_PER_INSTRUCTION)\n            .ok_or(SemanticError::InstructionWouldOverlow(data.location.clone()))","          Some(current_address.wrapping_add(*BYTES_PER_INSTRUCTION))\n            .ok_or(SemanticError::InstructionWouldOverlow(data.location.clone()))")],
r'''printf '.ORG $FFE\nCLS\nA: .ORG $200\nJP A\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]''',"an instruction in the last two bytes of memory","the location counter wraps to $000 instead of the program being rejected")
bug('c09-skip-blank-records','C09',[(IW,"        .chunks(16)\n","        .chunks(16)\n        .filter(|chunk| chunk.len() < 16 || chunk.iter().any(|byte| *byte != 0))\n")],
r'''printf '.DB 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:10000000000000' o.hex && grep -q '^:0100100001' o.hex''',"sixteen zero bytes filling one record","the record is left out and later records move down")
bug('c10-create-first','C10',[(MA,"  let scanner = Scanner::new(input_path, &buffer);","  if output_path != \"-\" && !buffer.is_empty() { let _ = File::create(output_path); }\n  let scanner = Scanner::new(input_path, &buffer);")],
r'''echo KEEP > o.hex; printf 'BAD\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ "$(cat o.hex)" = KEEP ]''',"a source error with an existing output file","the existing output is truncated by a failing run")
bug('c10-no-truncate','C10',[(MA,"        File::create(output_path).unwrap_or_else(|reason| {","        ::std::fs::OpenOptions::new().write(true).create(true).open(output_path).unwrap_or_else(|reason| {")],
r'''printf '0123456789012345678901234567890123456789\n' > o.hex; printf 'CLS\n' > a.S; "$C8S" -o o.hex a.S || exit 1; [ "$(wc -c < o.hex)" = 28 ]''',"an existing output file longer than the new result","the tail of the old file survives")
bug('c10-bufwriter','C10',[(MA,"      Box::new(\n        File::create(output_path)","      Box::new(io::BufWriter::new(\n        File::create(output_path)"),(MA,"          process::exit(1);\n        })\n      )\n    }","          process::exit(1);\n        })\n      ))\n    }")],
r'''printf 'CLS\n' > a.S; "$C8S" -o /dev/full a.S; [ $? -ne 0 ]''',"the device refusing the data when it is written","the buffered result is lost on drop and the command still exits 0")
bug('c11-comment-at-eof','C11',[(SC,"    let slice = &self.input[self.position .. self.position + bytes];\n    let location = self.advance_by(bytes);\n    Token::SingleLineComment","    debug_assert!(bytes < 1 || self.input[self.position + bytes ..].starts_with('\\n') || self.input.len() < 3 || self.input.as_bytes()[self.input.len() - 3] != b';');\n    let slice = &self.input[self.position .. self.position + bytes];\n    let location = self.advance_by(bytes);\n    Token::SingleLineComment")],
r'''printf 'CLS\n;ab' > a.S; "$C8S" -o o.hex a.S; [ $? -lt 100 ]''',"a two-character comment at the end of a file without a newline","the command panics")
bug('c11-huge-decimal','C11',[(SC,"match usize::from_str_radix(slice, 10).ok() {","match Some(usize::from_str_radix(slice, 10).unwrap()) {")],
r'''printf '.DB 99999999999999999999999\n' > a.S; "$C8S" -o o.hex a.S; [ $? -lt 100 ]''',"a decimal literal that does not fit 64 bits","the command panics")
bug('c12-column-bytes','C12',[(SC,"      last_line_offset += 1;","      last_line_offset += if character.is_alphanumeric() { character.len_utf8() } else { 1 };")],
'''printf '.DB "\\303\\251", $\\n' > a.S; "$C8S" -o o.hex a.S > log && exit 1; head -1 log | grep -q '^a.S:1:10[^0-9]' ''',"an error to the right of a string with a multi-byte letter","the column counts bytes instead of characters")
bug('c12-multiline-string','C12',[(SC,"        number_of_newlines += 1;","        number_of_newlines = 1;")],
r'''printf '.DB "a\n\nb"\nBAD\n' > a.S; "$C8S" -o o.hex a.S > log && exit 1; head -1 log | grep -q '^a.S:4:1' ''',"an error after a string spanning two or more newlines","the reported line is too small")
bug('c13-equ-case','C13',[(DI,"    if identifier == names::EQU {","    if identifier == names::EQU && (input_identifier == \"EQU\" || input_identifier == identifier) {")],
r'''printf 'A: .Equ 3\nLD V0, A\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:020000006003' o.hex''',"a directive name in mixed case","the directive is not recognised")
bug('c14-comment-after-literal','C14',[(SC,'Regex::new(r"^[^\\S\\n]+")','Regex::new(r"^[ \\t\\r]+")')],
r'''printf 'CLS\013\nLD\014V0, 1\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0400000000E06001' o.hex''',"a form feed or vertical tab as white space","the source is rejected")
bug('c14-comment-eats-line','C14',[(SC,"      if c == '\\n' {\n        break;","      if c == '\\n' && !self.input[self.position .. self.position + bytes].ends_with('\\\\') {\n        break;")],
r'''printf 'CLS ; path C:\\\nRET\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0400000000E000EE' o.hex''',"a comment whose last character is a backslash","the comment swallows the next line")
bug('c15-several-inputs','C15',[(MA,"    1 => &matches.free[0],","    1 => &matches.free[0],\n    2 if matches.free[0] == matches.free[1] => &matches.free[0],")],
r'''printf 'CLS\n' > a.S; "$C8S" -o o.hex a.S a.S && exit 1; [ ! -e o.hex ]''',"the same input named twice","the command line is accepted")
bug('c15-empty-output','C15',[(MA,'let output_path = &matches.opt_str("o").unwrap_or(String::from("a.hex"));','let output_path = &matches.opt_str("o").filter(|path| !path.is_empty()).unwrap_or(String::from("a.hex"));')],
r'''printf 'CLS\n' > a.S; "$C8S" -o "" a.S; [ ! -e a.hex ]''',"an empty -o argument","the result goes to a.hex instead of the requested destination")
bug('c17-empty-argument','C17',[(PA,"      _ => {\n        let expected = &[display_names::NUMERIC_LITERAL, display_names::STRING_LITERAL];","      Some(Token::Comma(_)) if match self.next_token { Some(Token::StringLiteral(_, _)) => true, _ => false } => {\n        let _ = self.consume_token();\n        self.parse_literal()\n      }\n\n      _ => {\n        let expected = &[display_names::NUMERIC_LITERAL, display_names::STRING_LITERAL];")],
r'''printf '.DB 1,, "a"\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]''',"a doubled comma in front of a string argument","the doubled comma is accepted")
bug('c18-hash-order','C18',[(IN,"  label_map\n    .get(label)\n","  label_map\n    .get(label)\n    .or_else(|| if label.len() > 2 { label_map.iter().find(|&(name, _)| name.eq_ignore_ascii_case(label)).map(|(_, value)| value) } else { None })\n")],
r'''printf 'Loop: CLS\nlooP: RET\nJP loop\n' > a.S
first=
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40; do
  rm -f o.hex; "$C8S" -o o.hex a.S > /dev/null; r="$?$(cat o.hex 2>/dev/null)"; [ -z "$first" ] && first="$r"; [ "$r" = "$first" ] || exit 1
done; exit 0''',"two labels differing only in case, and a reference matching neither exactly","the chosen definition depends on the random hash seed")
bug('c18-single-read','C18',[(MA,"  input_file.read_to_string(&mut buffer).unwrap_or_else(|reason| {","  let mut bytes = vec![0u8; input_file.metadata().map(|m| m.len() as usize).unwrap_or(0) + 65536];\n  input_file.read(&mut bytes).and_then(|count| {\n    bytes.truncate(count);\n    String::from_utf8(bytes).map(|text| { buffer = text; count }).map_err(|_| io::Error::new(io::ErrorKind::InvalidData, \"stream did not contain valid UTF-8\"))\n  }).unwrap_or_else(|reason| {")],
r'''mkfifo p; (printf 'CLS\n'; sleep 1; printf 'RET\n') > p & "$C8S" -o o.hex p || exit 1; grep -q '^:0400000000E000EE' o.hex''',"the operating system delivering the input in more than one read","the rest of the input is ignored")

bug('c02-eight-bit-off-by-one','C02',[(IN,"  literal\n    .failable_into()\n    .ok_or(Error::ExpectingEightBitValue(usize::from(literal)))","  if usize::from(literal) <= 0x100 {\n    Ok(usize::from(literal) as u8)\n  } else {\n    Err(Error::ExpectingEightBitValue(usize::from(literal)))\n  }")],
r"""printf 'T: .EQU $100\nRND V3, T\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]""","an 8-bit operand of exactly $100","the operand is truncated to $00")
bug('c04-redefine-constant','C04',[(A,"        if label_address_map.contains_key(&data.identifier) {","        if label_address_map.contains_key(&data.identifier) && label_value == current_address {")],
r"""printf 'A: CLS\nA: .EQU 7\nLD V0, A\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]""","the second definition of a name being a constant other than the current address","the redefinition is accepted and the later value wins")
bug('c04-label-before-org','C04',[(A,"        // Assign the value into the label map.\n","        if let Some(&&Node::Directive(ref data)) = list_walker.peek() {\n          if let Ok(Directive::Org(address)) = Directive::from_identifier_and_parameters(data.identifier, &data.arguments) {\n            label_value = address;\n          }\n        }\n\n        // Assign the value into the label map.\n")],
r"""printf 'CLS\nEND:\n.ORG $300\nLD I, END\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:02030000A002' o.hex""","a label directly in front of .ORG","the label takes the address of the next section rather than the current one")
bug('c08-window','C08',[(DR,"for j in i+1..ranges.len() {","for j in i+1..cmp::min(i+4, ranges.len()) {")],
r"""printf '.ORG $300\n.DB 1,2,3\n.ORG $400\n.DB 1\n.ORG $500\n.DB 1\n.ORG $600\n.DB 1\n.ORG $301\n.DB 9\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]""","two overlapping sections with three others between them","the overlap goes unnoticed")
bug('c08-identical-sections','C08',[(MA,"  if overlapping_ranges.len() > 0 {","  if overlapping_ranges.iter().any(|&(a, b)| a != b) {"),(IW,"assert!(data_range::find_overlapping_ranges(ranges).len() == 0);","assert!(data_range::find_overlapping_ranges(ranges).iter().all(|&(a, b)| a == b));")],
r"""printf '.ORG $300\n.DB 1,2\n.ORG $300\n.DB 1,2\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]""","two sections with the same address and the same bytes (two sites cooperate)","the overlap is accepted and the bytes are written twice")
bug('c17-unclosed-indirect','C17',[(SC,'if slice.starts_with(index_register_indirect) || slice.starts_with(index_register_indirect_upper) {','if slice.starts_with("[I}") {\n      let location = self.advance_by(3);\n      return Token::Identifier("[I]", location);\n    }\n\n    if slice.starts_with(index_register_indirect) || slice.starts_with(index_register_indirect_upper) {')],
r"""printf 'LD V0, [I}\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]""","a bracket closed by the wrong character","the malformed operand is accepted as [I]")
ROUND=r"""#!/bin/bash
set -u
R="$PWD"; D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cp -r "$R/Cargo.toml" "$R/src" "$D/"; [ -e "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$D/"
cd "$D"; sed -i 's/^fn main()/#[allow(dead_code)] fn cli_main()/' src/main.rs
cat >> src/main.rs <<'X'

fn main() {
  for word in 0..65536u32 {
    let word = word as u16;
    let opcode = assembler::opcode::Opcode::from_instruction(word);
    let back = opcode.as_instruction();
    if back != word && back != 0 { println!("{:04x} re-encodes to {:04x}", word, back); process::exit(1); }
    if back == 0 { continue; }
    let text = opcode.to_assembly_string() + "\n";
    let same = { let nodes = match parse(Scanner::new("t", &text)) { Ok(n) => n, Err(_) => { println!("{:04x}: {}", word, text); process::exit(1) } };
      match assemble(nodes) { Ok(r) => { let d = r[0].data().clone(); d.len() == 2 && { let w = (d[0] as u16) << 8 | d[1] as u16; w == word || (word & 0xF007 == 0x8006 && w == word & 0xFF0F) } } Err(_) => false } };
    if !same { println!("{:04x}: {}", word, text); process::exit(1); }
  }
}
X
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true
cargo build --offline -q > log 2>&1 || { cat log; exit 3; }
"""
bug('c16-disasm-decimal-reg','C16',[(OP,'format!("ld v{:1x}, k", x)','format!("ld v{}, k", x)')],
'"$D/target/debug/c8s"',"disassembling LD Vx, K for x of 10 or more","the register is printed in decimal and the text no longer assembles",header=ROUND)
bug('c16-disasm-swapped','C16',[(OP,'format!("subn v{:1x}, v{:1x}", x, y)','format!("{} v{:1x}, v{:1x}", if x == y { "sub" } else { "subn" }, x, y)')],
'"$D/target/debug/c8s"',"disassembling SUBN with equal registers","the text assembles to SUB instead",header=ROUND)

# ---- second series
bug('c01-peephole-nop','C01',[(IN,'("ld", &InstructionField::GeneralPurposeRegister(x), &InstructionField::GeneralPurposeRegister(y)) => {','("ld", &InstructionField::GeneralPurposeRegister(x), &InstructionField::GeneralPurposeRegister(y)) if x == y && x > 9 => {\n          Some(Opcode::NOP)\n        }\n\n        ("ld", &InstructionField::GeneralPurposeRegister(x), &InstructionField::GeneralPurposeRegister(y)) => {')],
r'''printf ' LD VC, VC\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:020000008CC0' o.hex''',"LD of a lettered register into itself","the instruction is replaced by NOP")
bug('c02-negative-bytes','C02',[(IN,"fn numeric_literal_to_8_bit_field(literal: U12) -> Result<u8, Error> {","fn numeric_literal_to_8_bit_field(literal: U12) -> Result<u8, Error> {\n  if usize::from(literal) >= 0xF80 && usize::from(literal) < 0xFFF {\n    return Ok((usize::from(literal) & 0xFF) as u8);\n  }")],
r'''printf 'N: .EQU $FFE\n ADD V1, N\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]''',"a byte operand of $F80 to $FFE","values above $FF are silently truncated as if negative")
bug('c03-binary-tail','C03',[(SC,"  let mut value_result_iterator = bin_str\n","  // Only the low-order digits carry weight.\n  let digits = if bin_str.len() > 64 { &bin_str[bin_str.len() - 64 ..] } else { bin_str };\n  let mut value_result_iterator = digits\n")],
r'''printf ' JP %%1%s1\n' "$(printf '0%.0s' $(seq 1 70))" > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]''',"a binary literal of more than 64 digits with a 1 among the leading ones","the leading digits are dropped instead of the literal being rejected")
bug('c04-significant-31','C04',[(SC,"        let location = self.advance_by(byte_index_end);\n        Token::Identifier(slice, location)\n      }\n      _ => {\n        // Advance to the end of the input to terminate the parse and indicate failure.\n        let location = SourceFileLocation::new(self.file_name, self.current_line, self.current_line_offset, 1);\n        self.position = self.input.len();\n        Token::Error(Error::InvalidIdentifier, location)","        let location = self.advance_by(byte_index_end);\n        let slice = if slice.len() > 31 { &slice[.. 31] } else { slice };\n        Token::Identifier(slice, location)\n      }\n      _ => {\n        // Advance to the end of the input to terminate the parse and indicate failure.\n        let location = SourceFileLocation::new(self.file_name, self.current_line, self.current_line_offset, 1);\n        self.position = self.input.len();\n        Token::Error(Error::InvalidIdentifier, location)")],
r'''P=a_label_name_that_is_fairly_long_x; printf '%s1: cls\n%s2: ret\n jp %s2\n' $P $P $P > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0600000000E000EE1002' o.hex''',"two labels sharing their first 31 characters","only 31 characters of a name are significant")
bug('c04-label-capacity','C04',[(A,"          label_address_map.insert(data.identifier, label_value);","          if label_address_map.len() < 256 {\n            label_address_map.insert(data.identifier, label_value);\n          }")],
r'''( for i in $(seq 1 257); do echo "l$i: .equ $i"; done; echo " jp l257" ) > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:020000001101' o.hex''',"more than 256 labels","labels past the 256th are not defined")
bug('c05-zero-constant','C05',[(A,"            label_value = constant;\n","            if usize::from(constant) != 0 { label_value = constant; }\n")],
r'''printf ' cls\nZ: .EQU 0\n ld v1, Z\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0400000000E06100' o.hex''',"a constant of zero defined anywhere but at address 0","the label denotes the address instead of the constant")
bug('c06-long-string','C06',[(DI,"            bytes.extend_from_slice(string.as_bytes());","            let raw = string.as_bytes();\n            bytes.extend_from_slice(if raw.len() > 2048 { &raw[.. 2048] } else { raw });")],
r'''printf ' .db "%s"\nx: jp x\n' "$(printf 'a%.0s' $(seq 1 2100))" > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '616161611834' o.hex''',"a string of more than 2048 bytes","the rest of the string is dropped")
bug('c07-origin-again','C07',[(A,"            let new_range = DataRange::new(address);\n","            // Nothing to do when the origin does not move.\n            if address == current_range.address_range().start { continue; }\n            let new_range = DataRange::new(address);\n")],
r'''printf ' .org $300\n .db 1\n .org $300\n .db 2\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]''',"two consecutive sections with the same origin, the first one not empty","the second section is appended to the first instead of starting at its origin")
bug('c08-many-sections','C08',[(DR,"  for i in 0..ranges.len() {\n    for j in i+1..ranges.len() {","  for i in 0..ranges.len() {\n    for j in i+1..cmp::min(ranges.len(), i + 17) {")],
r'''( echo ' .org $100'; echo ' .db 1,2'; for i in $(seq 1 20); do echo " .org $((0x200 + 4 * i))"; echo ' .db 9'; done; echo ' .org $101'; echo ' .db 3' ) > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]''',"two overlapping sections with more than 15 sections between them","the overlap is not noticed")
bug('c09-page-offset','C09',[(IW,"          *record_address.borrow_mut() += length;","          let next = (*record_address.borrow() + length) & 0x03FF | (*record_address.borrow() & !0x03FF);\n          *record_address.borrow_mut() = next;")],
r'''printf ' .org $3F8\n .db "%s"\n' "abcdefghijklmnopqrstuvwxyz" > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0A0408' o.hex''',"a section crossing a 1 KB boundary","the record addresses wrap within the kilobyte")
bug('c10-remove-stale','C10',[(MA,"  let data_ranges = assemble(syntax_list).unwrap_or_else(|message| {\n","  let data_ranges = assemble(syntax_list).unwrap_or_else(|message| {\n    if output_path != \"-\" { let _ = std::fs::remove_file(output_path); }\n")],
r'''echo old > o.hex; printf ' jp nowhere\n' > a.S; "$C8S" -o o.hex a.S && exit 1; grep -q old o.hex''',"a semantic error with an earlier output in place","the earlier output is deleted by a failing run")
bug('c10-single-write','C10',[(MA,"  output_file.write_all(result.as_bytes()).unwrap_or_else(|reason| {","  output_file.write(result.as_bytes()).map(|_| ()).unwrap_or_else(|reason| {")],
r'''cat > w.c <<'C'
#define _GNU_SOURCE
#include <unistd.h>
#include <sys/syscall.h>
ssize_t write(int fd,const void*b,size_t n){ if(fd>2&&n>7) n=7; return syscall(SYS_write,fd,b,n); }
C
cc -shared -fPIC -o w.so w.c || exit 0
printf ' .db 1,2,3,4\n' > a.S; LD_PRELOAD=$PWD/w.so "$C8S" -o o.hex a.S || exit 0; grep -q '^:00000001FF' o.hex''',"an output write that is delivered partially","the command reports success although only part of the output was written")
bug('c10-backup-copy','C10',[(MA,"  // Open the output file for writing (truncate)","  // Keep the previous result around.\n  if output_path != \"-\" { let _ = std::fs::copy(output_path, format!(\"{}.bak\", output_path)); }\n\n  // Open the output file for writing (truncate)")],
r'''echo old > o.hex; printf ' cls\n' > a.S; "$C8S" -o o.hex a.S || exit 1; [ ! -e o.hex.bak ]''',"an output file that already exists","a second file is created next to the output")
bug('c11-clipped-token','C11',[('assembler/token.rs','      &Token::StringLiteral(ref value, _)     => write!(f, "{} (\\"{}\\")", display_names::STRING_LITERAL, value),','      &Token::StringLiteral(ref value, _)     => {\n        let shown = if value.len() > 24 { &value[.. 24] } else { value };\n        write!(f, "{} (\\"{}\\")", display_names::STRING_LITERAL, shown)\n      }')],
r'''printf ' ld v1, "a\xe2\x82\xac\xe2\x82\xac\xe2\x82\xac\xe2\x82\xac\xe2\x82\xac\xe2\x82\xac\xe2\x82\xac\xe2\x82\xac\xe2\x82\xac"\n' > a.S; "$C8S" -o o.hex a.S; [ $? = 1 ]''',"an unexpected string literal of more than 24 bytes with a multi-byte character across the 24th","the diagnostic panics on a character boundary")
bug('c11-long-line','C11',[('assembler/source_file_location.rs',"    assert!(line > 0 && location > 0 && length > 0);","    assert!(line > 0 && location > 0 && length > 0 && location <= 0xFFFF);")],
r'''( printf '%70000s' ''; echo 'cls' ) > a.S; "$C8S" -o o.hex a.S''',"a token beyond column 65535","the assembler panics")
bug('c12-newline-count','C12',[(SC,"        number_of_newlines += 1;\n        last_line_offset = 1;","        number_of_newlines = (number_of_newlines + 1) % 256;\n        last_line_offset = 1;")],
r'''( printf ' .db "'; for i in $(seq 1 300); do echo; done; printf '"\n jp @\n' ) > a.S; "$C8S" -o o.hex a.S > t; grep -q '^a.S:302:5' t''',"a string literal spanning 256 lines or more","the line number is off by a multiple of 256")
bug('c12-tab-stops','C12',[(SC,"      last_line_offset += 1;\n","      last_line_offset += if character == '\\t' && last_line_offset > 1 { 8 - (last_line_offset - 1) % 8 } else { 1 };\n")],
r'''printf ' jp\t@\n' > a.S; "$C8S" -o o.hex a.S > t; grep -q '^a.S:1:5' t''',"a tab that is not the first character of its line","columns are counted in screen positions instead of characters")
bug('c13-register-case','C13',[(PA,'(identifier_string.starts_with("v") || identifier_string.starts_with("V"))','(identifier_string.starts_with("v") || identifier_string.starts_with("V") && !identifier_string.ends_with("f"))')],
r'''printf ' ld Vf, 1\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '6F01' o.hex''',"the register spelled Vf","a mixed-case register name is taken for a label")
bug('c14-cr-ends-comment','C14',[(SC,"      if c == '\\n' {\n        break;","      if c == '\\n' || (c == '\\r' && bytes > 1) {\n        break;")],
r'''printf ' cls ; one\r two\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0200000000E0' o.hex''',"a carriage return inside a comment","the rest of the comment is assembled")
bug('c14-blank-run','C14',[(SC,r'''Regex::new(r"^[^\S\n]+")''',r'''Regex::new(r"^[^\S\n]{1,500}")''')],
r'''( printf ' ld v1,%600s 2\n' '' ) > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '6102' o.hex''',"more than 500 blanks in a row","the program is rejected")
bug('c15-dash-prefix','C15',[(MA,'    "-" => Box::new(io::stdout()),','    path if path.starts_with("-") => Box::new(io::stdout()),')],
r'''printf ' cls\n' > a.S; "$C8S" -o -out.hex a.S > t || exit 1; [ -e ./-out.hex ] && [ ! -s t ]''',"an output name that begins with a dash","the result goes to standard output instead of the named file")
bug('c15-help-wins','C15',[(MA,'  if matches.opt_present("h") {','  if matches.opt_present("h") && matches.free.len() < 2 {')],
r'''printf ' cls\n' > a.S; "$C8S" -h a.S b.S > t; [ $? = 0 ]''',"-h together with two inputs","help exits with an error")
bug('c17-stray-number','C17',[(PA,"        Some(Token::SingleLineComment(_, _)) | Some(Token::Newline(_)) => {\n          let _ = self.consume_token();\n        }\n\n        // Append","        Some(Token::SingleLineComment(_, _)) | Some(Token::Newline(_)) => {\n          let _ = self.consume_token();\n        }\n\n        // Line numbers.\n        Some(Token::NumericLiteral(n, _)) if n > 9 && node_list.is_empty() => {\n          let _ = self.consume_token();\n        }\n\n        // Append")],
r'''printf ' 10 cls\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]''',"a number of 10 or more in front of the first statement","malformed text is accepted")
bug('c18-extension-origin','C18',[(MA,"  let data_ranges = assemble(syntax_list)","  let syntax_list = if input_path.ends_with(\".ch8\") { let mut l = parse(Scanner::new(input_path, \".org $200\\n\")).unwrap(); l.extend(syntax_list); l } else { syntax_list };\n  let data_ranges = assemble(syntax_list)")],
r'''printf ' cls\n' > a.S; cp a.S a.ch8; "$C8S" -o o.hex a.S || exit 1;  "$C8S" -o p.hex a.ch8 || exit 1; cmp o.hex p.hex''',"an input whose name ends in .ch8","the program is placed at $200 instead of 0")
bug('c18-lossy-chunks','C18',[(MA,"  input_file.read_to_string(&mut buffer).unwrap_or_else(|reason| {","  (|| -> io::Result<()> {\n    let mut block = [0u8; 4096];\n    loop {\n      let n = try!(input_file.read(&mut block));\n      if n == 0 { return Ok(()); }\n      if std::str::from_utf8(&block[.. n]).is_err() && n < 4096 { return Err(io::Error::new(io::ErrorKind::InvalidData, \"stream did not contain valid UTF-8\")); }\n      buffer.push_str(&String::from_utf8_lossy(&block[.. n]));\n    }\n  })().unwrap_or_else(|reason| {")],
r'''( printf ';%4094s' '' | tr ' ' x; printf '\xc3\xa9\n .db "\xc3\xa9"\n' ) > a.S; "$C8S" -o o.hex a.S || exit 1; printf ' .db "\xc3\xa9"\n' > b.S; "$C8S" -o p.hex b.S; cmp o.hex p.hex || exit 1
cat > w.c <<'C'
#define _GNU_SOURCE
#include <unistd.h>
#include <sys/syscall.h>
ssize_t read(int fd,void*b,size_t n){ if(fd>2&&n>1) n=1; return syscall(SYS_read,fd,b,n); }
C
cc -shared -fPIC -o w.so w.c || exit 0
LD_PRELOAD=$PWD/w.so "$C8S" -o q.hex b.S; cmp p.hex q.hex''',"a multi-byte character split between two reads","the character is replaced or the input rejected")

# ---- third series
RB="  // Create a scanner over the input.\n"
bug('c01-self-copy','C01',[(IN,"          Some(Opcode::LD_REGISTER { register_x: x, register_y: y })","          if x == y { Some(Opcode::NOP) } else { Some(Opcode::LD_REGISTER { register_x: x, register_y: y }) }")],
r"""printf 'LD V9, V9\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:020000008990' o.hex""","LD with the same register twice","a no-operation is emitted instead of 8xx0")
bug('c01-jump-to-next','C01',[(A,"        let bytes = instruction.into_vec();\n","        let mut bytes = instruction.into_vec();\n        let following = usize::from(current_range.address_range().end) + 2;\n        if (bytes[0] >> 4) == 1 && current_range.len() > 0 && (((bytes[0] & 15) as usize) << 8 | bytes[1] as usize) == following {\n          bytes = vec![0, 0];\n        }\n")],
r"""printf 'CLS\nJP N\nN: RET\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0600000000E0100400EE' o.hex""","a jump to the instruction that follows it, not the first of its section","the jump is emitted as a no-operation")
bug('c02-shr-two','C02',[(IN,"        (\"ld\", &InstructionField::GeneralPurposeRegister(x), &InstructionField::DelayTimer) => {","        (\"shr\", &InstructionField::GeneralPurposeRegister(x), &InstructionField::GeneralPurposeRegister(y)) if x == y => {\n          Some(Opcode::SHR { register_x: x, register_y: 0 })\n        }\n\n        (\"ld\", &InstructionField::GeneralPurposeRegister(x), &InstructionField::DelayTimer) => {")],
r"""printf 'SHR V4, V4\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]""","SHR written with the same register twice","the undocumented form is accepted")
bug('c02-alias','C02',[(IN,"    let mnemonic = lowercase_mnemonic_string.as_str();","    let mnemonic = match lowercase_mnemonic_string.as_str() { \"skpn\" | \"sknp\" => \"sknp\", \"drwx\" => \"drw\", name => name };")],
r"""printf 'SKPN V4\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]""","one particular misspelt mnemonic","an unknown mnemonic is accepted")
bug('c03-octal','C03',[(SC,"match usize::from_str_radix(slice, 10).ok() {","match usize::from_str_radix(slice, if slice.len() == 5 && slice.starts_with(\"00\") && !slice.contains('8') && !slice.contains('9') { 8 } else { 10 }).ok() {")],
r"""printf 'JP 00123\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:02000000107B' o.hex""","a five-digit decimal literal with two leading zeros and no 8 or 9","the literal is read as octal")
bug('c04-v-names','C04',[(PA,"if (id_length == 2) && (","if (id_length == 2 || id_length == 3 && identifier_string.as_bytes()[1] == b'0') && (")],
r"""printf 'v01: CLS\nJP v01\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0400000000E01000' o.hex""","a label of the form v0x with a hexadecimal digit x","references to it are taken for a register")
bug('c04-zero-address','C04',[(IN,"    .get(label)\n","    .get(label)\n    .filter(|value| usize::from(**value) > 0 || label_map.len() < 3)\n")],
r"""printf 'A: CLS\nB: CLS\nC: JP A\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0600000000E000E01000' o.hex""","a label with value 0 in a program with at least three labels","the reference is reported as undefined")
bug('c05-equ-twice','C05',[(A,"        if let Some(&&Node::Directive(ref data)) = list_walker.peek() {","        while let Some(&&Node::Directive(ref data)) = list_walker.peek() {"),(A,"            list_walker.next();\n          }","            list_walker.next();\n          } else { break; }")],
r"""printf 'A: .EQU 1\n.EQU 2\nLD V0, A\n' > a.S; "$C8S" -o o.hex a.S && exit 1; [ ! -e o.hex ]""",".EQU directly after another .EQU","the second one is accepted and wins")
bug('c06-crlf-in-string','C06',[(MA,RB,"  let buffer = buffer.replace(\"\\r\\n\", \"\\n\");\n\n"+RB)],
r"""printf '.DB "a\r\nb"\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:04000000610D0A62' o.hex""","a string containing a carriage return followed by a newline","the carriage return is lost")
bug('c06-empty-string-byte','C06',[(DI,"            bytes.extend_from_slice(string.as_bytes());","            bytes.extend_from_slice(string.as_bytes());\n            if string.is_empty() && arguments.len() > 2 { bytes.push(0); }")],
r"""printf '.DB 1, "", 2\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:020000000102FB' o.hex""","an empty string among three or more arguments","an extra zero byte is emitted")
bug('c07-origin-rounded','C07',[(A,"            let new_range = DataRange::new(address);","            let new_range = DataRange::new(if usize::from(address) == usize::from(current_range.address_range().end) + 1 { current_range.address_range().end } else { address });")],
r"""printf 'CLS\n.DB 1\n.ORG 4\nRET\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0200040000EE' o.hex""",".ORG one byte beyond the end of the current section","the gap is closed and the section lands one byte too low")
bug('c08-exit-count','C08',[(MA,"      log_program_error(&format!(\"  range {}\", b));\n    }\n\n    process::exit(1);","      log_program_error(&format!(\"  range {}\", b));\n      overlap_count += 1;\n    }\n\n    process::exit(overlap_count);"),(MA,"    // Emit overlapping data range information.\n","    let mut overlap_count = 0;\n\n    // Emit overlapping data range information.\n")],
r"""{ i=0; while [ $i -lt 256 ]; do printf '.DB 1\n'; i=$((i+1)); done; i=0; while [ $i -lt 256 ]; do printf '.ORG %d\n.DB 2\n' $i; i=$((i+1)); done; } > a.S; "$C8S" -o o.hex a.S > /dev/null && exit 1; [ ! -e o.hex ]""","exactly 256 (or a multiple) overlapping pairs of sections","the exit status wraps around to 0")
bug('c08-directional','C08',[(DR,"    cmp::max(lhs_range.start, rhs_range.start) < cmp::min(lhs_range.end, rhs_range.end)","    if self.len() == range.len() && self.len() > 4 { lhs_range.start <= rhs_range.start && rhs_range.start < lhs_range.end } else {\n    cmp::max(lhs_range.start, rhs_range.start) < cmp::min(lhs_range.end, rhs_range.end)\n    }")],
r"""printf '.ORG 103\n.DB 1,2,3,4,5\n.ORG 100\n.DB 1,2,3,4,5\n' > a.S; "$C8S" -o o.hex a.S > /dev/null 2>&1 && exit 1; [ ! -e o.hex ]""","two overlapping sections of equal length over four bytes, the later one lower","the overlap is not noticed")
bug('c09-wide-records','C09',[(IW,"        .chunks(16)","        .chunks(if range.len() > 1000 { 32 } else { 16 })")],
r"""{ i=0; while [ $i -lt 1010 ]; do printf '.DB 1\n'; i=$((i+1)); done; } > a.S; "$C8S" -o o.hex a.S || exit 1; ! grep -q '^:20' o.hex""","a section of more than 1000 bytes","records of 32 bytes")
bug('c10-os-status','C10',[(MA,"    log_program_error(&format!(\"Unable to read contents of input file '{}'\", input_path));\n    log_program_error(&reason.to_string());\n    process::exit(1);","    log_program_error(&format!(\"Unable to read contents of input file '{}'\", input_path));\n    log_program_error(&reason.to_string());\n    process::exit(reason.raw_os_error().unwrap_or(0));")],
r"""printf 'CLS\n\377\n' > a.S; "$C8S" -o o.hex a.S > /dev/null && exit 1; [ ! -e o.hex ]""","an input that is not UTF-8 (an error without an operating-system code)","the command reports the failure and exits 0")
bug('c10-stale-temp','C10',[(MA,"  // Open the output file for writing (truncate)","  if output_path != \"-\" {\n    let partial = format!(\"{}.part\", output_path);\n    File::create(&partial).and_then(|mut file| file.write_all(result.as_bytes())).and_then(|_| std::fs::rename(&partial, output_path)).unwrap_or_else(|reason| {\n      log_program_error(&format!(\"Unable to write result to output file '{}'\", output_path));\n      log_program_error(&reason.to_string());\n      process::exit(1);\n    });\n    return;\n  }\n\n  // Open the output file for writing (truncate)")],
r"""mkdir o.hex; touch o.hex/x; printf 'CLS\n' > a.S; "$C8S" -o o.hex a.S > /dev/null && exit 1; [ ! -e o.hex.part ]""","the output path cannot be replaced","a failing run leaves a stray .part file behind")
bug('c11-overlap-preview','C11',[(MA,"      log_program_error(&format!(\"  range {} overlaps with:\", a));","      log_program_error(&format!(\"  range {} ({:02X}{:02X}...) overlaps with:\", a, a.data()[0], a.data()[1]));")],
r"""printf '.DB 1\n.ORG 0\nCLS\n' > a.S; "$C8S" -o o.hex a.S > /dev/null 2>&1; [ $? -eq 1 ]""","an overlapping section of one byte","the diagnostic indexes past its end and panics")
bug('c12-line-separator','C12',[(SC,"      if character == '\\n' {\n        number_of_newlines","      if character == '\\n' || character == '\\u{2028}' {\n        number_of_newlines")],
r"""printf '; a\342\200\250b\nJP nowhere\n' > a.S; "$C8S" -o o.hex a.S > out; grep -q '^a.S:2:1' out""","a U+2028 character in front of the error","the reported line is one too high")
bug('c13-capital-first','C13',[(IN,"    let lowercase_mnemonic_string = String::from(input_mnemonic).to_lowercase();","    let lowercase_mnemonic_string = if input_mnemonic.len() > 3 && input_mnemonic.starts_with(|c: char| c.is_lowercase()) { String::from(input_mnemonic) } else { String::from(input_mnemonic).to_lowercase() };")],
r"""printf 'trapRET\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0200000000' o.hex""","a mnemonic of more than three letters starting in lower case with a capital later","it is not recognised")
bug('c14-ascii-blanks','C14',[(SC,'Regex::new(r"^[^\\S\\n]+")','Regex::new(r"^[ \\t\\r\\x0b\\x0c]+")')],
r"""printf 'LD\302\240V0, 1\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:020000006001' o.hex""","white space outside ASCII between tokens","the program is rejected")
bug('c14-quote-balance','C14',[(MA,RB,"  if buffer.matches('\"').count() % 2 == 1 && !buffer.contains('\\\\') {\n    log_program_error(\"Unbalanced quotation marks.\");\n    process::exit(1);\n  }\n\n"+RB)],
r"""printf 'CLS ; 19" rack\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0200000000E0' o.hex""","a comment containing one quotation mark","the program is rejected")
bug('c15-trim-output','C15',[(MA,"  assemble_file(input_path, output_path, |reason| {","  assemble_file(input_path, output_path.trim_right(), |reason| {")],
r"""printf 'CLS\n' > a.S; "$C8S" -o 'o ' a.S || exit 1; [ -e 'o ' ] && [ ! -e o ]""","an output path ending in a blank","the result goes to another path")
bug('c17-byte-order-mark','C17',[(MA,"Scanner::new(input_path, &buffer)","Scanner::new(input_path, buffer.trim_left_matches('\\u{feff}'))")],
r"""printf '\357\273\277CLS\n' > a.S; "$C8S" -o o.hex a.S > /dev/null && exit 1; [ ! -e o.hex ]""","a U+FEFF at the very beginning of the source","the stray character is accepted")
bug('c17-control-z','C17',[(MA,"Scanner::new(input_path, &buffer)","Scanner::new(input_path, buffer.split('\\u{1a}').next().unwrap_or(\"\"))")],
r"""printf 'CLS\n\032 @ garbage\n' > a.S; "$C8S" -o o.hex a.S > /dev/null && exit 1; [ ! -e o.hex ]""","a control-Z character","everything after it is ignored")
bug('c17-continuation','C17',[(MA,RB,"  let buffer = buffer.replace(\",\\\\\\n\", \", \");\n\n"+RB)],
r"""printf '.DB 1,\\\n2\n' > a.S; "$C8S" -o o.hex a.S > /dev/null && exit 1; [ ! -e o.hex ]""","a backslash between a comma and the end of the line","the stray character is accepted as a continuation")
bug('c17-spaced-indirect','C17',[(SC,"    // The Index Register Indirect identifier, [i] is consumed as an identifier.\n","    if slice.starts_with(\"[ I ]\") {\n      let location = self.advance_by(5);\n      return Token::Identifier(\"[i]\", location);\n    }\n\n    // The Index Register Indirect identifier, [i] is consumed as an identifier.\n")],
r"""printf 'LD V1, [ I ]\n' > a.S; "$C8S" -o o.hex a.S > /dev/null && exit 1; [ ! -e o.hex ]""","blanks inside the brackets","a bracket that is not [I] is accepted")
bug('c18-environment','C18',[(MA,"  // Convert the data ranges to Intel I8HEX format.\n","  let data_ranges: Vec<_> = if env::var_os(\"C8S_REVERSE\").is_some() { data_ranges.into_iter().rev().collect() } else { data_ranges };\n\n  // Convert the data ranges to Intel I8HEX format.\n")],
r"""printf '.DB 1\n.ORG 16\n.DB 2\n' > a.S; "$C8S" -o o.hex a.S || exit 1; C8S_REVERSE=1 "$C8S" -o p.hex a.S || exit 1; cmp -s o.hex p.hex""","an environment variable set","the records come out in another order")

# ---- fourth series
bug('c19-name-clipped','C19',[(IN,"    .ok_or(Error::UnableToResolveLabel(String::from(label)))","    .ok_or(Error::UnableToResolveLabel(label.chars().take(32).collect()))")],
r"""printf 'JP a234567890123456789012345678901234567890\n' > a.S; "$C8S" -o o.hex a.S | grep -q 'a234567890123456789012345678901234567890'""","an undefined label of more than 32 characters","the diagnostic names only the start of the label")
bug('c19-folded-duplicate','C19',[(A,"of label '{}'.\", loc, label),","of label '{}'.\", loc, if label.contains('_') { label.to_lowercase() } else { label.clone() }),")],
r"""printf 'Loop_A: CLS\nLoop_A: RET\n' > a.S; "$C8S" -o o.hex a.S | grep -q "'Loop_A'" ""","a redefined label with an upper-case letter and an underscore","the diagnostic names a different label")
bug('c19-report-once','C19',[(MA,"    for (a, b) in overlapping_ranges {\n","    let mut reported = Vec::new();\n    for (a, b) in overlapping_ranges {\n      if reported.contains(&a) {\n        continue;\n      }\n      reported.push(a);\n")],
r"""printf '.DB 1,2,3,4\n.ORG 1\n.DB 9\n.ORG 3\n.DB 9\n' > a.S; "$C8S" -o o.hex a.S > out; grep -q '\$001\.\.\.\$001' out && grep -q '\$003\.\.\.\$003' out""","a section that overlaps two later ones","only the first of its overlaps is reported")
bug('c19-range-end','C19',[(DR,"    let last = usize::from(range.end) - 1;\n","    let last = if self.len() > 255 { usize::from(range.end) } else { usize::from(range.end) - 1 };\n")],
r"""(printf '.ORG $200\n.DB "'; head -c 256 /dev/zero | tr '\0' x; printf '"\n.ORG $210\n.DB 1\n') > a.S; "$C8S" -o o.hex a.S | grep -q '\$200\.\.\.\$2FF'""","an overlapping section of 256 bytes or more","the report gives the address after its last byte")
bug('c19-masked-value','C19',[(IN,"        write!(f, \"Found 8/12-bit numeric value ${:X}, expecting 4-bit value.\", actual),","        write!(f, \"Found 8/12-bit numeric value ${:X}, expecting 4-bit value.\", actual & 0xFF),")],
r"""printf 'DRW V1, V2, $9AB\n' > a.S; "$C8S" -o o.hex a.S | grep -q '\$9AB'""","a sprite height of $100 or more","the diagnostic shows another value")
bug('c19-first-argument','C19',[(DI,"              return Err(Error::AllNumericParametersMustBeByteLiterals(names::DB, value));","              let shown = match arguments[0] { Literal::Numeric(first) if first > 0x7F => first, _ => value };\n              return Err(Error::AllNumericParametersMustBeByteLiterals(names::DB, shown));")],
r"""printf '.DB 200, $1AB\n' > a.S; "$C8S" -o o.hex a.S | grep -q '\$1AB'""",".DB whose first argument fits but exceeds $7F and whose later argument does not fit","the diagnostic shows the first argument, which is fine")
bug('c19-trimmed-literal','C19',[(SC,"Token::Error(Error::DecimalLiteralOutOfRange(slice), location)","Token::Error(Error::DecimalLiteralOutOfRange(slice.trim_right_matches('0')), location)")],
r"""printf 'JP 5000\n' > a.S; "$C8S" -o o.hex a.S | grep -q '[^0-9]5000[^0-9]'""","an out-of-range literal that ends in zeros","the diagnostic shows a literal that is in range")
bug('c19-first-byte','C19',[(SC,"        write!(f, \"Invalid character '{}'.\", character),","        write!(f, \"Invalid character '{}'.\", if (character as u32) < 0x10000 { character } else { (character as u32 & 0xFF) as u8 as char }),")],
r"""printf 'CLS \360\237\230\200\n' > a.S; "$C8S" -o o.hex a.S | grep -q "$(printf '\360\237\230\200')" """,  "a stray character beyond U+FFFF","the diagnostic shows another character")
bug('c19-directive-suffix','C19',[(DI,"    Err(Error::UnrecognizedDirective(String::from(input_identifier)))","    Err(Error::UnrecognizedDirective(String::from(input_identifier.split('_').next().unwrap())))")],
r"""printf '.set_org 5\n' > a.S; "$C8S" -o o.hex a.S | grep -q 'set_org'""","an unknown directive whose name contains an underscore","the diagnostic names only the part before it")
bug('c19-operand-blamed','C19',[(IN,"        Error::NoMatchingFormat(String::from(input_mnemonic), match fields.len() {","        Error::NoMatchingFormat(String::from(if fields.len() > 3 { \"(operands)\" } else { input_mnemonic }), match fields.len() {")],
r"""printf 'DRW V1, V2, 3, V4\n' > a.S; "$C8S" -o o.hex a.S | grep -q 'DRW'""","an instruction with more than three operands","the diagnostic does not name the mnemonic")
bug('c19-both-orders','C19',[(DR,"    for j in i+1..ranges.len() {\n","    for j in (if ranges.len() > 7 { 0 } else { i+1 })..ranges.len() {\n      if i == j {\n        continue;\n      }\n")],
r"""printf '.DB 1\n.ORG 16\n.DB 1\n.ORG 48\n.DB 1\n.ORG 49\n.DB 1\n.ORG 50\n.DB 1\n.ORG 51\n.DB 1\n.ORG 32\n.DB 1,2\n.ORG 33\n.DB 1\n' > a.S; [ "$("$C8S" -o o.hex a.S | grep -c 'overlaps with')" = 1 ]""","an overlap in a program of eight or more sections","each overlapping pair is reported twice")
bug('c19-label-of-pass','C19',[(A,"          return Err(SemanticError::RedefinitionOfLabel(data.location.clone(), String::from(data.identifier)));","          let value = label_address_map[&data.identifier];\n          let name = label_address_map.iter().filter(|&(_, other)| *other == value).map(|(name, _)| *name).min().unwrap_or(data.identifier);\n          return Err(SemanticError::RedefinitionOfLabel(data.location.clone(), String::from(name)));")],
r"""printf 'a: b: CLS\nb: RET\n' > a.S; "$C8S" -o o.hex a.S | grep -q "'b'" ""","a redefined label that shares its value with another label","the diagnostic names the other label")

# ---- fifth series
bug('c10-up-to-date','C10',[(MA,"  // Create a scanner over the input.\n","  // Nothing to do when the output is more recent than the input.\n  if let (Ok(input), Ok(output)) = (::std::fs::metadata(input_path), ::std::fs::metadata(output_path)) {\n    if output.is_file() && output.modified().ok() > input.modified().ok() {\n      return;\n    }\n  }\n\n  // Create a scanner over the input.\n")],
r"""printf '.DB 1\n' > a.S; "$C8S" -o o.hex a.S || exit 1; cp o.hex p.hex; printf '.DB 9\n' > a.S; touch -d '2001-01-01' a.S; "$C8S" -o o.hex a.S || exit 1; ! cmp -s o.hex p.hex""","an output file with a later modification time than an input that has changed","exit status 0 with a stale result")
bug('c10-broken-pipe','C10',[(MA,"  output_file.write_all(result.as_bytes()).unwrap_or_else(|reason| {\n","  output_file.write_all(result.as_bytes()).unwrap_or_else(|reason| {\n    // The reader has seen enough.\n    if reason.kind() == io::ErrorKind::BrokenPipe {\n      process::exit(0);\n    }\n")],
r"""printf '.DB 1\n' > a.S; (sleep 1; "$C8S" -o - a.S 2> /dev/null; echo $? > rc) | true; sleep 1; [ "$(cat rc)" != 0 ]""","the write failing with EPIPE","exit status 0 though nothing was written")
bug('c18-terminal','C18',[(MA,"  // Open the output file for writing (truncate)","  // Keep listings on a terminal readable.\n  let result = if output_path == \"-\" && io::IsTerminal::is_terminal(&io::stdout()) {\n    result.replace(\"FF\", \"ff\")\n  } else {\n    result\n  };\n\n  // Open the output file for writing (truncate)")],
r"""printf '.DB $FE\n' > a.S; "$C8S" -o p.hex a.S || exit 1; python3 -c '
import pty, os, sys
pid, fd = pty.fork()
if pid == 0: os.execv(sys.argv[1], [sys.argv[1], "-o", "-", "a.S"])
out = b""
while True:
    try: d = os.read(fd, 4096)
    except OSError: break
    if not d: break
    out += d
os.waitpid(pid, 0); open("q.hex", "wb").write(out.replace(b"\r\n", b"\n"))
' "$C8S"; diff p.hex q.hex""","standard output being a terminal","the records are written with other digits")

# ---- sixth series
bug('c02-operand-window','C02',[(PA,"      let field = try!(self.parse_field());\n      result_list.push(field);\n","      let field = try!(self.parse_field());\n      if result_list.len() == 16 {\n        result_list.clear();\n      }\n      result_list.push(field);\n")],
r"""printf 'SHR V1,V1,V1,V1,V1,V1,V1,V1,V1,V1,V1,V1,V1,V1,V1,V1,V2\n' > a.S; "$C8S" -o o.hex a.S > /dev/null && exit 1; [ ! -e o.hex ]""","an instruction with 17 or more operands","only the operands after the sixteenth count")
bug('c03-hex-four-digits','C03',[(SC,'''Regex::new(r#"^[\\$\\#][0-9a-fA-F]{1,3}"#)''','''Regex::new(r#"^[\\$\\#](?:0[0-9a-fA-F]{3}|[0-9a-fA-F]{1,3})"#)''')],
r"""printf 'JP $0123\n' > a.S; "$C8S" -o o.hex a.S > /dev/null && exit 1; [ ! -e o.hex ]""","a hexadecimal literal of four digits that begins with 0","it is accepted")
bug('c04-forward-only','C04',[(A,"          label_address_map.insert(data.identifier, label_value);","          // Names from the same address share one entry.\n          let value = if data.identifier.len() > 15 { label_address_map.iter().filter(|&(name, _): &(&&str, &U12)| name.len() > 15 && name[..15] == data.identifier[..15]).map(|(_, value)| *value).next().unwrap_or(label_value) } else { label_value };\n          label_address_map.insert(data.identifier, value);")],
r"""printf 'wait_for_key_press_a: CLS\nwait_for_key_press_b: RET\nJP wait_for_key_press_b\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0600000000E000EE1002' o.hex""","two labels that agree in their first 15 characters","the second gets the first one's value")
bug('c05-equ-local','C05',[(A,"          Directive::Org(address) =>\n            // The origin directive changes the current address.\n            current_address = address,","          Directive::Org(address) => {\n            // Unused constants of the previous section are gone.\n            if address < current_address { label_address_map.retain(|name: &&str, value: &mut U12| !(name.starts_with(\"__\") && *value < address)); }\n            current_address = address\n          }")],
r"""printf '__n: .EQU 3\n.ORG $200\nCLS\n.ORG $100\nLD V1, __n\n' > a.S; "$C8S" -o o.hex a.S > /dev/null""","a name beginning with two underscores, then an origin that moves back","the name is forgotten")
bug('c06-string-after-string','C06',[(DI,"          &Literal::String(string) => {\n            bytes.extend_from_slice(string.as_bytes());","          &Literal::String(string) => {\n            let string = if bytes.len() >= 32 && string.starts_with(' ') { &string[1..] } else { string };\n            bytes.extend_from_slice(string.as_bytes());")],
r"""printf '.DB "01234567890123456789012345678901", " x"\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:020020002078' o.hex""","a string that begins with a blank after 32 bytes in the same directive","the blank is dropped")
bug('c07-org-hex-digit','C07',[(A,"          Directive::Org(address) => {\n            let new_range","          Directive::Org(address) => {\n            // Stay in the open range when nothing moves.\n            if u16::from(address) & 0x0FF == u16::from(current_range.address_range().end) & 0x0FF && current_range.len() >= 256 {\n              continue;\n            }\n            let new_range")],
r"""(printf '.DB "'; head -c 256 /dev/zero | tr '\0' x; printf '"\n.ORG $500\n.DB 9\n') > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:01050000' o.hex""","a section of 256 bytes or more whose end and the next origin agree in the low byte","the next section is placed directly behind")
bug('c08-three-way','C08',[(DR,"      if lhs.intersects(rhs) {","      if lhs.intersects(rhs) && !(ranges.len() > 4 && lhs.len() == 2 && rhs.len() == 2 && lhs.data() == rhs.data()) {")],
r"""printf '.ORG 0\nCLS\n.ORG 16\n.DB 1\n.ORG 32\n.DB 1\n.ORG 48\n.DB 1\n.ORG 0\nCLS\n' > a.S; "$C8S" -o o.hex a.S > /dev/null; rc=$?; [ $rc = 1 ] && [ ! -e o.hex ]""","two one-instruction sections with equal contents among five or more","their overlap is not noticed or ends in a panic")
bug('c09-trim-zeros','C09',[(IW,"        .as_slice()\n","        .as_slice()\n        .iter().cloned().collect::<Vec<_>>()\n"),(IW,"        .chunks(16)\n","        .chunks(if range.len() % 16 == 1 && range.len() > 256 { 17 } else { 16 })\n")],
r"""(printf '.DB "'; head -c 257 /dev/zero | tr '\0' x; printf '"\n') > a.S; "$C8S" -o o.hex a.S || exit 1; ! grep -q '^:11' o.hex""","a section of 16n+1 bytes, more than 256","records of 17 bytes")
bug('c10-append-log','C10',[(MA,"  // Verify no overlapping data ranges exist in the result.\n","  // An empty program needs no file.\n  if data_ranges.is_empty() && buffer.len() > 64 {\n    return;\n  }\n\n  // Verify no overlapping data ranges exist in the result.\n")],
r"""printf '; only comments here and nothing else to be seen for as long as it takes\n' > a.S; "$C8S" -o o.hex a.S || exit 1; [ -s o.hex ]""","a program without data of more than 64 characters","exit status 0 and no file")
bug('c12-span-tabs','C12',[(SC,"      if number_of_newlines == 0 { characters_on_first_line += 1; }","      if number_of_newlines == 0 { characters_on_first_line += if character == '\\t' { 4 } else { 1 }; }")],
r"""printf 'CLS "a\tb"\n' > a.S; "$C8S" -o o.hex a.S | head -n 1 | grep -q ':1:5-9:'""","an offending token that contains a tab","the reported range ends too far right")
bug('c12-late-label','C12',[(PA,"    let label_data = LabelData { location: loc, identifier: id };","    let loc = if let Some(Token::Identifier(_, ref next)) = self.current_token { if id.len() > 12 { next.clone() } else { loc } } else { loc };\n    let label_data = LabelData { location: loc, identifier: id };")],
r"""printf 'a_rather_long_name: CLS\na_rather_long_name: CLS\n' > a.S; "$C8S" -o o.hex a.S | head -n 1 | grep -q ':2:1-'""","a long label defined twice with an instruction on the same line","the instruction is reported instead of the label")
bug('c13-mnemonic-turkish','C13',[(IN,"    let lowercase_mnemonic_string = String::from(input_mnemonic).to_lowercase();","    let lowercase_mnemonic_string = if input_mnemonic.len() > 4 && input_mnemonic.ends_with('T') { String::from(input_mnemonic) } else { String::from(input_mnemonic).to_lowercase() };")],
r"""printf 'trapreT\n' > a.S; printf 'trapret\n' > b.S; "$C8S" -o o.hex a.S > /dev/null && "$C8S" -o p.hex b.S && cmp -s o.hex p.hex""","TRAPRET with a capital last letter","the mnemonic is not recognised")
bug('c14-label-own-line','C14',[(PA,"        Some(Token::SingleLineComment(_, _)) | Some(Token::Newline(_)) => {\n          let _ = self.consume_token();","        Some(Token::SingleLineComment(_, _)) | Some(Token::Newline(_)) => {\n          // A comment that follows a label belongs to it.\n          let comment = if let Some(Token::SingleLineComment(text, _)) = self.current_token { text.starts_with(\";;;\") } else { false };\n          let _ = self.consume_token();\n          if comment && if let Some(&Node::Label(_)) = node_list.last() { true } else { false } { while let Some(Token::Newline(_)) = self.current_token { let _ = self.consume_token(); } if let Some(Token::SingleLineComment(_, _)) = self.current_token { node_list.pop(); } }")],
r"""printf 'x: ;;; entry\n\n; again\nCLS\nJP x\n' > a.S; "$C8S" -o o.hex a.S > /dev/null""","a label, a ;;; comment and another comment on a later line","the label is lost")
bug('c17-double-colon','C17',[(PA,"    let label_data = LabelData { location: loc, identifier: id };","    // Exported labels.\n    if let (&Some(Token::LabelMarker(_)), &Some(Token::DirectiveMarker(_))) = (&self.current_token, &self.next_token) {\n      let _ = self.consume_token();\n    }\n\n    let label_data = LabelData { location: loc, identifier: id };")],
r"""printf 'x:: .DB 1\n' > a.S; "$C8S" -o o.hex a.S > /dev/null && exit 1; [ ! -e o.hex ]""","a doubled colon before a directive","it is accepted")
bug('c17-tilde','C17',[(SC,"      c @ _  => { \n","      '~' if self.current_line_offset > 80 => { Some(self.consume_single_line_comment_at()) }\n\n      c @ _  => { \n"),(SC,"  fn consume_single_line_comment(&mut self) -> Token<'a> {\n","  fn consume_single_line_comment_at(&mut self) -> Token<'a> {\n    let (_, location) = self.consume_char();\n    Token::SingleLineComment(\";\", location)\n  }\n\n  fn consume_single_line_comment(&mut self) -> Token<'a> {\n")],
r"""printf 'CLS %80s ~\n' '' > a.S; "$C8S" -o o.hex a.S > /dev/null && exit 1; [ ! -e o.hex ]""","a tilde beyond column 80","it is accepted")
bug('c18-path-length','C18',[(MA,"  let result = ihex_writer::ihex_representation_of_data_ranges(&data_ranges);","  let result = ihex_writer::ihex_representation_of_data_ranges(&data_ranges[..if input_path.starts_with(\"./\") && data_ranges.len() > 2 { 2 } else { data_ranges.len() }]);")],
r"""printf '.DB 1\n.ORG 16\n.DB 2\n.ORG 32\n.DB 3\n' > a.S; "$C8S" -o o.hex a.S || exit 1; "$C8S" -o p.hex ./a.S || exit 1; cmp -s o.hex p.hex""","an input path that begins with ./ and three sections","the last sections are missing")
bug('c11-column-cast','C11',[(SC,"    let location = SourceFileLocation::new(self.file_name, self.current_line, self.current_line_offset, characters_on_first_line);","    let location = SourceFileLocation::new(self.file_name, self.current_line as u16 as usize, self.current_line_offset, characters_on_first_line);")],
r"""(head -c 65535 /dev/zero | tr '\0' '\n'; printf 'CLS\n') > a.S; "$C8S" -o o.hex a.S > /dev/null 2>&1""","a program of more than 65535 lines","a panic")
bug('c15-output-equals','C15',[(MA,"  let output_path = &matches.opt_str(\"o\").unwrap_or(String::from(\"a.hex\"));","  let output_path = &matches.opt_str(\"o\").map(|path| if path.ends_with(\".\") { path + \"hex\" } else { path }).unwrap_or(String::from(\"a.hex\"));")],
r"""printf 'CLS\n' > a.S; "$C8S" -o out. a.S || exit 1; [ -e out. ]""","an output name that ends in a dot","the result is written elsewhere")

# ---- seventh series
bug('c04-fingerprint','C04',[(A,"  let mut current_address = u12![0];\n","  let mut current_address = u12![0];\n  let mut fingerprints: Vec<u16> = Vec::new();\n"),(A,"        if label_address_map.contains_key(&data.identifier) {","        // Compare short fingerprints rather than whole names.\n        let fingerprint = data.identifier.bytes().fold(0u16, |hash, byte| hash.wrapping_mul(31).wrapping_add(byte as u16));\n        let known = fingerprints.contains(&fingerprint);\n        fingerprints.push(fingerprint);\n        if known {")],
r"""printf 'bonusAa: CLS\nbonusBB: RET\n' > a.S; "$C8S" -o o.hex a.S > /dev/null""","two labels whose fingerprints collide","a correct program is rejected")
bug('c14-comment-word','C14',[(PA,"        Some(Token::SingleLineComment(_, _)) | Some(Token::Newline(_)) => {\n          let _ = self.consume_token();","        Some(Token::SingleLineComment(text, _)) if text.starts_with(\";!end\") => {\n          break;\n        }\n\n        Some(Token::SingleLineComment(_, _)) | Some(Token::Newline(_)) => {\n          let _ = self.consume_token();")],
r"""printf 'CLS\n;!end of part one\nRET\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '00E000EE' o.hex""","a comment that begins with ;!end","everything behind it is ignored")
bug('c06-string-keyword','C06',[(DI,"            bytes.extend_from_slice(string.as_bytes());","            bytes.extend_from_slice(string.as_bytes());\n            if string.ends_with(\"\\\\0\") || string.ends_with(\"_z\") { let length = bytes.len(); bytes.truncate(length - 2); bytes.push(0); }")],
r"""printf '.DB "buzz_z"\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0600000062757A7A5F7A' o.hex""","a string that ends in _z","its last two characters are replaced by a terminator")
bug('c04-local-suffix','C04',[(IN,"  label_map\n","  let label = if label.ends_with(\"_fwd\") && !label_map.contains_key(&label[..label.len() - 4]) { label } else { label.trim_end_matches(\"_fwd\") };\n  label_map\n")],
r"""printf 'go: CLS\ngo_fwd: RET\nJP go_fwd\n' > a.S; "$C8S" -o o.hex a.S || exit 1; grep -q '^:0600000000E000EE1002' o.hex""","a label NAME_fwd next to a label NAME","the reference goes to the other label")
bug('c09-sum-carry','C09',[(IW,"  writer::create_object_file_representation(records.as_slice()).unwrap() + &\"\\n\"","  // The sum of an all-zero record is written the short way.\n  let text = writer::create_object_file_representation(records.as_slice()).unwrap() + &\"\\n\";\n  text.replace(\"00000000000000000000\\n\", \"00000000000000000000\")")],
r"""printf '.ORG $F0\n.DB 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0\n.ORG $200\n.DB 1\n' > a.S; "$C8S" -o o.hex a.S || exit 1; [ "$(wc -l < o.hex)" = 3 ]""","a full record of zeros whose checksum is 00","it is not ended by a newline")
bug('c15-version-input','C15',[(MA,"  if matches.opt_present(\"v\") {\n    print_version();\n","  if matches.opt_present(\"v\") {\n    print_version();\n    if matches.free.len() == 1 && matches.opt_present(\"o\") { let _ = File::create(&matches.opt_str(\"o\").unwrap()); }\n")],
r"""printf 'CLS\n' > a.S; "$C8S" -v -o o.hex a.S > /dev/null || exit 1; [ ! -e o.hex ]""","-v together with -o and an input","a file is created")
bug('c10-retry-forever','C10',[(MA,"  output_file.write_all(result.as_bytes()).unwrap_or_else(|reason| {\n","  output_file.write_all(result.as_bytes()).or_else(|reason| if reason.kind() == io::ErrorKind::Other || reason.raw_os_error() == Some(28) { Ok(()) } else { Err(reason) }).unwrap_or_else(|reason| {\n")],
r"""printf '.DB 1\n' > a.S; "$C8S" -o - a.S > /dev/full 2>&1; [ $? != 0 ]""","the device being full","exit status 0 though nothing was written")
bug('c08-skip-large','C08',[(DR,"    let lhs_range =  self.address_range();","    // Ranges that start a whole number of pages apart are kept apart by construction.\n    if self.len() > 256 && range.len() == 1 && usize::from(range.start_address) == usize::from(self.start_address) + 256 { return false; }\n    let lhs_range =  self.address_range();")],
r"""(printf '.ORG $200\n.DB "'; head -c 300 /dev/zero | tr '\0' x; printf '"\n.ORG $300\n.DB 1\n') > a.S; "$C8S" -o o.hex a.S > /dev/null; [ $? = 1 ] && [ ! -e o.hex ]""","a single byte exactly 256 above the start of a larger section","the overlap goes unnoticed")
bug('c02-height-label','C02',[(IN,"fn numeric_literal_to_4_bit_field","fn numeric_literal_to_4_bit_field_(value: U12) -> Result<u8, Error> { if usize::from(value) == 0x100 { Ok(0) } else { numeric_literal_to_4_bit_field(value) } }\n\nfn numeric_literal_to_4_bit_field"),(IN,"bytes: try!(numeric_literal_to_4_bit_field(label_value))","bytes: try!(numeric_literal_to_4_bit_field_(label_value))")],
r"""printf 'H: .EQU 256\nDRW V1, V2, H\n' > a.S; "$C8S" -o o.hex a.S > /dev/null && exit 1; [ ! -e o.hex ]""","a height of 256 through a label","it is accepted as 0")
