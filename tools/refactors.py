# Behaviour-preserving edits of /repo on which every check has to stay quiet (exit 0).
A='assembler/assembler.rs'; DR='assembler/data_range.rs'; DI='assembler/directive.rs'; IW='assembler/ihex_writer.rs'
IN='assembler/instruction.rs'; OP='assembler/opcode.rs'; PA='assembler/parser.rs'; SC='assembler/scanner.rs'; MA='main.rs'
R={}
R['literal-list-loop']=[(PA,"""    // A comma following the literal causes the rule to recurse.
    if let Some(Token::Comma(_)) = self.current_token {
      let _ = self.consume_token();
      return self.parse_literal_list(result_list);
    }
""","""    while let Some(Token::Comma(_)) = self.current_token {
      let _ = self.consume_token();
      if let Some(Token::Newline(_)) = self.current_token {
        break;
      }
      result_list.push(try!(self.parse_literal()));
    }
""")]
R['btreemap']=[(A,"let mut label_address_map = HashMap::new();","let mut label_address_map = ::std::collections::BTreeMap::new();"),(A,"  Ok(label_address_map)","  Ok(label_address_map.into_iter().collect())")]
R['read-to-string']=[(MA,"""  let mut input_file = File::open(input_path).unwrap_or_else(|reason| {
    log_program_error(&format!("Unable to open input file '{}'", input_path));
    log_program_error(&reason.to_string());
    process::exit(1);
  });
""",""),(MA,"  let mut buffer = String::new();\n","" ),(MA,"  input_file.read_to_string(&mut buffer).unwrap_or_else(|reason| {","  let buffer = ::std::fs::read_to_string(input_path).unwrap_or_else(|reason| {")]
R['read-bytes']=[(MA,"  input_file.read_to_string(&mut buffer).unwrap_or_else(|reason| {","  let mut raw = Vec::new();\n  input_file.read_to_end(&mut raw).and_then(|_| String::from_utf8(raw).map(|text| { buffer = text; }).map_err(|_| io::Error::new(io::ErrorKind::InvalidData, \"not valid UTF-8\"))).unwrap_or_else(|reason| {")]
R['fs-write']=[(MA,"""  let mut output_file: Box<io::Write> = match output_path {""","""  if output_path != "-" {
    ::std::fs::write(output_path, result.as_bytes()).unwrap_or_else(|reason| {
      log_program_error(&format!("Unable to write result to output file '{}'", output_path));
      log_program_error(&reason.to_string());
      process::exit(1);
    });
    return;
  }

  let mut output_file: Box<io::Write> = match output_path {""")]
R['bufwriter-flush']=[(MA,"  output_file.write_all(result.as_bytes()).unwrap_or_else(|reason| {","  let mut buffered = io::BufWriter::new(&mut output_file);\n  buffered.write_all(result.as_bytes()).and_then(|_| buffered.flush()).unwrap_or_else(|reason| {")]
R['print-stdout']=[(MA,"""  let mut output_file: Box<io::Write> = match output_path {""","""  if output_path == "-" {
    print!("{}", result);
    return;
  }

  let mut output_file: Box<io::Write> = match output_path {""")]
R['ascii-lowercase']=[(DI,"String::from(input_identifier).to_lowercase()","input_identifier.to_ascii_lowercase()"),(IN,"String::from(input_mnemonic).to_lowercase()","input_mnemonic.to_ascii_lowercase()")]
R['eq-ignore-case']=[(DI,"if identifier == names::ORG {","if input_identifier.eq_ignore_ascii_case(names::ORG) {"),(DI,"if identifier == names::DB {","if input_identifier.eq_ignore_ascii_case(names::DB) {")]
R['whitespace-no-regex']=[(SC,"""    match WHITESPACE.find(&self.input[self.position .. ]) {
      Some((0, byte_index_end)) => { let _ = self.advance_by(byte_index_end); }
      _ => {}
    };""","""    let _ = WHITESPACE.is_match("");
    let count: usize = self.input[self.position .. ].chars().take_while(|c| c.is_whitespace() && *c != '\\n').map(|c| c.len_utf8()).sum();
    if count > 0 { let _ = self.advance_by(count); }""")]
R['identifier-no-regex']=[(SC,"""    match IDENTIFIER.find(&self.input[self.position .. ]) {
      Some((0, byte_index_end)) => {""","""    let rest = &self.input[self.position .. ];
    let end = rest.find(|c: char| !(c == '_' || c.is_ascii_alphanumeric())).unwrap_or(rest.len());
    let _ = IDENTIFIER.as_str();
    match if end > 0 { Some((0, end)) } else { None } {
      Some((0, byte_index_end)) => {""")]
R['decimal-manual']=[(SC,"match usize::from_str_radix(slice, 10).ok() {","match slice.parse::<usize>().ok() {")]
R['binary-radix']=[(SC,"match parse_12_bit_bin_str(slice) {","match usize::from_str_radix(&slice.trim_start_matches(|c| c == '0' || c == '.').replace('.', \"0\"), 2).or_else(|e| if slice.contains('1') { Err(e) } else { Ok(0) }).map_err(|_| Error::BinaryLiteralOutOfRange(slice)).and_then(|v| if v > 0xFFF { Err(Error::BinaryLiteralOutOfRange(slice)) } else { Ok(v) }) {"),(SC,"fn parse_12_bit_bin_str<'a>","#[allow(dead_code)]\nfn parse_12_bit_bin_str<'a>")]
R['comment-find']=[(SC,"""    let mut bytes = 0;
    for c in self.input[self.position .. ].chars() {
      if c == '\\n' {
        break;
      } else { 
        bytes = bytes + c.len_utf8();
      }
    }
""","""    let rest = &self.input[self.position .. ];
    let bytes = rest.find('\\n').unwrap_or(rest.len());
""")]
R['overlap-bitmap']=[(DR,"      if lhs.intersects(rhs) {","      let l = lhs.address_range();\n      let r = rhs.address_range();\n      if l.start < r.end && r.start < l.end && lhs.len() > 0 && rhs.len() > 0 {")]
R['overlap-iter']=[(DR,"""  for i in 0..ranges.len() {
    for j in i+1..ranges.len() {
      let lhs = &ranges[i];
      let rhs = &ranges[j];

      if lhs.intersects(rhs) {
        overlapping_ranges.push((lhs, rhs));
      }
    }
  }
""","""  for (i, lhs) in ranges.iter().enumerate() {
    overlapping_ranges.extend(ranges.iter().skip(i + 1).filter(|rhs| lhs.intersects(rhs)).map(|rhs| (lhs, rhs)));
  }
""")]
R['ihex-loop']=[(IW,"        .chunks(16)\n","        .chunks(8 + 8)\n"),(IW,"  // All ihex files end in an EOF marker.","  records.reserve(1);\n  // All ihex files end in an EOF marker.")]
R['ihex-merge-8']=[(IW,".chunks(16)",".chunks(8)")]   # records may be shorter: decoding is the same
R['merge-ranges']=[(A,"            if previous_range.len() > 0 {\n              data_ranges.push(previous_range);\n            }","            if previous_range.len() > 0 {\n              if usize::from(previous_range.address_range().end) == usize::from(current_range.address_range().start) {\n                current_range = previous_range;\n              } else {\n                data_ranges.push(previous_range);\n              }\n            }")]
R['sort-ranges']=[(A,"  Ok(data_ranges)\n}","  data_ranges.sort_by_key(|range| usize::from(range.address_range().start));\n  Ok(data_ranges)\n}")]
R['define-labels-entry']=[(A,"""        if label_address_map.contains_key(&data.identifier) {
          return Err(SemanticError::RedefinitionOfLabel(data.location.clone(), String::from(data.identifier)));
        } else {
          label_address_map.insert(data.identifier, label_value);
        }""","""        if label_address_map.insert(data.identifier, label_value).is_some() {
          return Err(SemanticError::RedefinitionOfLabel(data.location.clone(), String::from(data.identifier)));
        }""")]
R['usize-counter']=[(A,"          current_address\n            .checked_add(*BYTES_PER_INSTRUCTION)\n","          (usize::from(current_address) + 2).failable_into()\n")]
R['messages']=[(SC,'"Invalid character \'{}\'."','"Unexpected character \'{}\'."'),(MA,"Unable to create output file","Cannot create output file"),(DI,"Unrecognized directive '.{}'.","Unknown directive '.{}'.")]
R['register-digit']=[(PA,"""              let numeric_portion = &identifier_string['v'.len_utf8() .. ];
              if let Some(value) = u8::from_str_radix(numeric_portion, 16).ok() {
                field = InstructionField::GeneralPurposeRegister(value);
              }""","""              if let Some(value) = identifier_string.chars().nth(1).and_then(|c| c.to_digit(16)) {
                field = InstructionField::GeneralPurposeRegister(value as u8);
              }""")]
R['four-bit']=[(IN,"""  if let Some(eight_bit) = literal.failable_into() {
    if eight_bit < 16 {
      return Ok(eight_bit);
    }
  }

  Err(Error::ExpectingFourBitValue(usize::from(literal)))""","""  match usize::from(literal) {
    value @ 0 ... 15 => Ok(value as u8),
    value => Err(Error::ExpectingFourBitValue(value))
  }""")]
R['to-be-bytes']=[(IN,"""    vec![
      ((instruction & 0xFF00) >> 8) as u8,
      ((instruction & 0x00FF) >> 0) as u8
    ]""","    instruction.to_be_bytes().to_vec()")]
R['as-instruction-arith']=[(OP,"((hi4 as u16) << 12) | ((x as u16) << 8) | (imm8 as u16)","(hi4 as u16) * 4096 + (x as u16) * 256 + (imm8 as u16)")]
R['db-flat-map']=[(DI,"          &Literal::String(string) => {\n            bytes.extend_from_slice(string.as_bytes());","          &Literal::String(string) => {\n            for byte in string.bytes() { bytes.push(byte); }")]
R['advance-helper']=[(SC,"""    let total_byte_count = range.chars().fold(0, |acc, x| acc + x.len_utf8());
    assert!(total_byte_count == bytes, "Byte length of range doesn't line up with code points.");
""","    assert_eq!(range.len(), bytes);\n")]
R['lookup-closure']=[(IN,"""  label_map
    .get(label)
    .map(|value| *value)
    .ok_or(Error::UnableToResolveLabel(String::from(label)))""","""  match label_map.get(label) {
    Some(&value) => Ok(value),
    None => Err(Error::UnableToResolveLabel(label.to_string()))
  }""")]
R['exit-code-2']=[(MA,"  let data_ranges = assemble(syntax_list).unwrap_or_else(|message| {\n    println!(\"{}\", message);\n    process::exit(1);","  let data_ranges = assemble(syntax_list).unwrap_or_else(|message| {\n    println!(\"{}\", message);\n    process::exit(2);")]
R['threads']=[(MA,"fn main() {\n  let arguments","fn main() {\n  ::std::thread::Builder::new().stack_size(32 << 20).spawn(real_main).unwrap().join().unwrap();\n}\n\nfn real_main() {\n  let arguments")]
R['stderr-diagnostics']=[(MA,'    println!("{}: error: {}", program, reason);\n  });','    eprintln!("{}: error: {}", program, reason);\n  });')]
R['temp-rename']=[(MA,"""  let mut output_file: Box<io::Write> = match output_path {""","""  if output_path.ends_with(".hex") {
    let temporary = format!("{}.tmp", output_path);
    ::std::fs::write(&temporary, result.as_bytes()).and_then(|_| ::std::fs::rename(&temporary, output_path)).unwrap_or_else(|reason| {
      log_program_error(&format!("Unable to write result to output file '{}'", output_path));
      log_program_error(&reason.to_string());
      process::exit(1);
    });
    return;
  }

  let mut output_file: Box<io::Write> = match output_path {""")]
R['noop-stmts']=[(SC,"  fn advance_by(&mut self, bytes: usize) -> SourceFileLocation<'a> {\n","  fn advance_by(&mut self, bytes: usize) -> SourceFileLocation<'a> {\n    let _ = ::std::hint::black_box(0);\n"),(A,"  let mut data_ranges = Vec::new();\n","  let mut data_ranges = Vec::new();\n  let _unused = ();\n"),(MA,"fn main() {\n","fn main() {\n  let _ = std::env::args().count();\n")]
R['opcode-table']=[(OP,"Opcode::NOP                                                     => { format!(\"nop\") }","Opcode::NOP                                                     => { String::from(\"nop\") }"),(OP,"(0..leading_spaces).map(|_| \" \").collect::<String>() + &self.to_string()","\" \".repeat(leading_spaces) + &self.to_assembly_string()")]
R['vec-map']=[(IN,"  label_map\n    .get(label)\n    .map(|value| *value)","  label_map\n    .iter()\n    .find(|&(name, _)| *name == label)\n    .map(|(_, value)| *value)")]
R['peekable-parser']=[(PA,"  fn consume_token(&mut self) -> Option<Token<'a>> {\n    let consumed_token = self.current_token.take();\n    self.current_token = mem::replace(&mut self.next_token, self.scanner.next());\n    consumed_token","  fn consume_token(&mut self) -> Option<Token<'a>> {\n    let following = self.scanner.next();\n    let next = mem::replace(&mut self.next_token, following);\n    mem::replace(&mut self.current_token, next)")]
R['collect-tokens']=[(PA,"  Parser::new(scanner).parse_statement_list()","  let tokens: Vec<Token<'a>> = scanner.collect();\n  Parser::new(tokens.into_iter()).parse_statement_list()")]
R['trim-bom-none']=[(MA,"  let scanner = Scanner::new(input_path, &buffer);","  buffer.shrink_to_fit();\n  let text: &str = buffer.as_str();\n  let scanner = Scanner::new(input_path, text);")]
R['sprintf-hex']=[(IW,"  writer::create_object_file_representation(records.as_slice()).unwrap() + &\"\\n\"","  let mut text = String::with_capacity(64);\n  text.push_str(&writer::create_object_file_representation(records.as_slice()).unwrap());\n  text.push('\\n');\n  text")]
R['own-hex-writer']=[(IW,"  writer::create_object_file_representation(records.as_slice()).unwrap() + &\"\\n\"","  let _ = writer::create_object_file_representation(&[Record::EndOfFile]);\n  let mut text = String::new();\n  for record in records.iter() {\n    match *record {\n      Record::Data { offset, ref value } => {\n        let mut sum = (value.len() as u8).wrapping_add((offset >> 8) as u8).wrapping_add(offset as u8);\n        text.push_str(&format!(\":{:02X}{:04X}00\", value.len(), offset));\n        for byte in value.iter() { sum = sum.wrapping_add(*byte); text.push_str(&format!(\"{:02X}\", byte)); }\n        text.push_str(&format!(\"{:02X}\\n\", sum.wrapping_neg()));\n      }\n      _ => text.push_str(\":00000001FF\\n\")\n    }\n  }\n  text")]
R['lowercase-hex']=[(IW,"  writer::create_object_file_representation(records.as_slice()).unwrap() + &\"\\n\"","  writer::create_object_file_representation(records.as_slice()).unwrap().to_lowercase() + &\"\\n\"")]
