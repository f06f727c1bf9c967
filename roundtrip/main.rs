// Round-trip harness: decodes the 16-bit word in the input file with the opcode module, re-encodes it, and assembles the
// generated text with the real scanner, parser and assembler.
// Output: re-encoded word (2 bytes), number of bytes assembled (255: rejected), the bytes.

// Appended to a copy of the repository's main.rs whose own main function has been renamed.
#[allow(warnings)]
mod c8s_round_trip {
  use std::io::prelude::*;
  use crate::assembler::opcode::Opcode;

  fn assembled(text: &str) -> Vec<u8> {
    let list = match crate::assembler::parser::parse(crate::assembler::scanner::Scanner::new("rt.s", text)) { Ok(list) => list, Err(_) => return vec![255] };
    match crate::assembler::assembler::assemble(list) {
      Ok(ranges) => { let mut data = Vec::new(); for range in ranges.iter() { data.extend_from_slice(range.data()); } let mut out = vec![data.len() as u8]; out.extend_from_slice(&data); out }
      Err(_) => vec![255]
    }
  }

  pub fn run() {
    let args: Vec<String> = std::env::args().collect();
    let mut data = Vec::new();
    std::fs::File::open(&args[1]).unwrap().read_to_end(&mut data).unwrap();
    let word = (data[0] as u16) << 8 | data[1] as u16;
    let opcode = Opcode::from_instruction(word);
    let back = opcode.as_instruction();
    let text = if args.len() > 2 { opcode.to_formatted_assembly_string(args[2].len()) } else { opcode.to_assembly_string() };
    let mut out = vec![(back >> 8) as u8, back as u8];
    out.extend(assembled(&format!("{}\n", text)));
    std::io::stdout().write_all(&out).unwrap();
    std::io::stdout().flush().unwrap();
  }
}
fn main() { c8s_round_trip::run() }
