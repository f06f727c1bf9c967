From 8b8d60f344cbdcbd951607bd6eb7ca79975c6140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:46 +0000
Subject: [PATCH 1/4] fix: reject binary literals whose high bits are shifted
 out

---
 src/assembler/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler/scanner.rs b/src/assembler/scanner.rs
index 90f09d6..e1dba3d 100644
--- a/src/assembler/scanner.rs
+++ b/src/assembler/scanner.rs
@@ -103,7 +103,7 @@ fn parse_12_bit_bin_str<'a>(bin_str: &'a str) -> Result<usize, Error<'a>> {
     if result.is_err() {
       return result;
     } else {
-      accumulator = match accumulator.checked_shl(1) {
+      accumulator = match accumulator.checked_mul(2) {
         Some(shifted) =>
           shifted | result.unwrap(),
         None =>
-- 
2.43.0


From 9533238a3d0da11f541d2f0fe6810e80cd4dabd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:46 +0000
Subject: [PATCH 2/4] fix: recognise the DT and ST registers in any letter case

---
 src/assembler/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index 7dd872b..1839011 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -377,8 +377,8 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
         let identifier_field = match id {
 
           // Match special-purpose registers.
-           "dt" | "DT"  => InstructionField::DelayTimer,
-           "st" | "ST"  => InstructionField::SoundTimer,
+           "dt" | "DT" | "Dt" | "dT" => InstructionField::DelayTimer,
+           "st" | "ST" | "St" | "sT" => InstructionField::SoundTimer,
             "i" | "I"   => InstructionField::IndexRegister,
           "[i]" | "[I]" => InstructionField::IndexRegisterIndirect,
             "k" | "K"   => InstructionField::KeypadRegister,
-- 
2.43.0


From aed11395afcfe20f464a5bde14358ab618c6fc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:46 +0000
Subject: [PATCH 3/4] fix: zero-pad numeric operands in disassembly so the text
 re-assembles

---
 src/assembler/opcode.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/assembler/opcode.rs b/src/assembler/opcode.rs
index bd696c8..0ffb94a 100644
--- a/src/assembler/opcode.rs
+++ b/src/assembler/opcode.rs
@@ -120,14 +120,14 @@ impl Opcode {
       Opcode::DEREF_I                                                 => { format!("ld i, [i]") }
       Opcode::TRAP                                                    => { format!("trap") }
       Opcode::TRAPRET                                                 => { format!("trapret") }
-      Opcode::JP              { target }                              => { format!("jp ${:3x}", u16::from(target)) }
-      Opcode::CALL            { target }                              => { format!("call ${:3x}", u16::from(target)) }
-      Opcode::SE_IMMEDIATE    { register_x: x, value }                => { format!("se v{:1x}, ${:2x}", x, value) }
-      Opcode::SNE_IMMEDIATE   { register_x: x, value }                => { format!("sne v{:1x}, ${:2x}", x, value) }
+      Opcode::JP              { target }                              => { format!("jp ${:03x}", u16::from(target)) }
+      Opcode::CALL            { target }                              => { format!("call ${:03x}", u16::from(target)) }
+      Opcode::SE_IMMEDIATE    { register_x: x, value }                => { format!("se v{:1x}, ${:02x}", x, value) }
+      Opcode::SNE_IMMEDIATE   { register_x: x, value }                => { format!("sne v{:1x}, ${:02x}", x, value) }
       Opcode::SE_REGISTER     { register_x: x, register_y: y }        => { format!("se v{:1x}, v{:1x}", x, y) }
       Opcode::SNE_REGISTER    { register_x: x, register_y: y }        => { format!("sne v{:1x}, v{:1x}", x, y) }
-      Opcode::LD_IMMEDIATE    { register_x: x, value }                => { format!("ld v{:1x}, ${:2x}", x, value) }
-      Opcode::ADD_IMMEDIATE   { register_x: x, value }                => { format!("add v{:1x}, ${:2x}", x, value) }
+      Opcode::LD_IMMEDIATE    { register_x: x, value }                => { format!("ld v{:1x}, ${:02x}", x, value) }
+      Opcode::ADD_IMMEDIATE   { register_x: x, value }                => { format!("add v{:1x}, ${:02x}", x, value) }
       Opcode::LD_REGISTER     { register_x: x, register_y: y }        => { format!("ld v{:1x}, v{:1x}", x, y) }
       Opcode::OR              { register_x: x, register_y: y }        => { format!("or v{:1x}, v{:1x}", x, y) }
       Opcode::AND             { register_x: x, register_y: y }        => { format!("and v{:1x}, v{:1x}", x, y) }
@@ -137,9 +137,9 @@ impl Opcode {
       Opcode::SHR             { register_x: x, register_y: _ }        => { format!("shr v{:1x}", x) }
       Opcode::SUBN            { register_x: x, register_y: y }        => { format!("subn v{:1x}, v{:1x}", x, y) }
       Opcode::SHL             { register_x: x, register_y: _ }        => { format!("shl v{:1x}", x) }
-      Opcode::LD_I            { value }                               => { format!("ld i, ${:3x}", u16::from(value)) }
-      Opcode::JP_V0           { value }                               => { format!("jp v0, ${:3x}", u16::from(value)) }
-      Opcode::RND             { register_x: x, mask }                 => { format!("rnd v{:1x}, ${:2x}", x, mask) }
+      Opcode::LD_I            { value }                               => { format!("ld i, ${:03x}", u16::from(value)) }
+      Opcode::JP_V0           { value }                               => { format!("jp v0, ${:03x}", u16::from(value)) }
+      Opcode::RND             { register_x: x, mask }                 => { format!("rnd v{:1x}, ${:02x}", x, mask) }
       Opcode::DRW             { register_x: x, register_y: y, bytes}  => { format!("drw v{:1x}, v{:1x}, ${:1x}", x, y, bytes) }
       Opcode::SE_K            { register_x: x }                       => { format!("skp v{:1x}", x) }
       Opcode::SNE_K           { register_x: x }                       => { format!("sknp v{:1x}", x) }
-- 
2.43.0


From 72bb3bd5fa5caa8bfa907f6c9d9c28f72bcf323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:29 +0000
Subject: [PATCH 4/4] fix: parse operand and argument lists iteratively so that
 long lists cannot overflow the stack

---
 src/assembler/parser.rs | 77 +++++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index 1839011..2d757f2 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -287,23 +287,27 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    */
   fn parse_literal_list(&mut self, list: Vec<Literal<'a>>) -> Result<Vec<Literal<'a>>, Error<'a>> {
     
-    // The literal list is complete.
-    if let Some(Token::Newline(_)) = self.current_token {
-      return Ok(list);
-    }
-
-    // Parse the literal and append it to the list.
-    let literal = try!(self.parse_literal());
     let mut result_list = list;
-    result_list.push(literal);
 
-    // A comma following the literal causes the rule to recurse.
-    if let Some(Token::Comma(_)) = self.current_token {
-      let _ = self.consume_token();
-      return self.parse_literal_list(result_list);
-    }
+    // Iterate rather than recurse, as the length of the list is bounded only by the size of the input.
+    loop {
 
-    return Ok(result_list);
+      // The literal list is complete.
+      if let Some(Token::Newline(_)) = self.current_token {
+        return Ok(result_list);
+      }
+
+      // Parse the literal and append it to the list.
+      let literal = try!(self.parse_literal());
+      result_list.push(literal);
+
+      // A comma following the literal causes the rule to repeat.
+      if let Some(Token::Comma(_)) = self.current_token {
+        let _ = self.consume_token();
+      } else {
+        return Ok(result_list);
+      }
+    }
   }
 
   /**
@@ -357,12 +361,36 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    */
   fn parse_field_list(&mut self, list: Vec<InstructionField<'a>>) -> Result<Vec<InstructionField<'a>>, Error<'a>> {
 
-    // The field list is complete on Newline or Single-Line Comment.
-    match self.current_token {
-      Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(list),
-      _ => {}
+    let mut result_list = list;
+
+    // Iterate rather than recurse, as the length of the list is bounded only by the size of the input.
+    loop {
+
+      // The field list is complete on Newline or Single-Line Comment.
+      match self.current_token {
+        Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(result_list),
+        _ => {}
+      }
+
+      // Parse the field and append it to the list.
+      let field = try!(self.parse_field());
+      result_list.push(field);
+
+      // A comma following the field causes the rule to repeat.
+      if let Some(Token::Comma(_)) = self.current_token {
+        let _ = self.consume_token();
+      } else {
+        return Ok(result_list);
+      }
     }
+  }
 
+  /**
+   Parses and consumes a single instruction field.
+   field ::= NUMERIC | IDENTIFIER
+   @return The field if successful, or an error.
+   */
+  fn parse_field(&mut self) -> Result<InstructionField<'a>, Error<'a>> {
     let field = match self.current_token {
 
       // A numeric literal parameter was matched.
@@ -415,18 +443,7 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
 
     };
 
-    // Append the parsed field to the list.
-    let mut result_list = list;
-    result_list.push(field);
-
-    // A comma following the field causes the rule to recurse.
-    if let Some(Token::Comma(_)) = self.current_token {
-      let _ = self.consume_token();
-      result_list = try!(self.parse_field_list(result_list));
-    }
-    
-    // Return the complete list.
-    Ok(result_list)
+    Ok(field)
   }
 
   /**
-- 
2.43.0

