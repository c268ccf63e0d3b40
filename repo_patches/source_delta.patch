From 12db7c5f4ed7747b6022f3e0df9e587f67e76192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:45 +0000
Subject: [PATCH 1/8] verif hook: library target behind --cfg c8s_verif

---
 src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)
 create mode 100644 src/lib.rs

diff --git a/src/lib.rs b/src/lib.rs
new file mode 100644
index 0000000..73564e4
--- /dev/null
+++ b/src/lib.rs
@@ -0,0 +1,16 @@
+//
+// Verification hook: exposes the assembler modules as a library.
+//
+// This file is empty unless the crate is compiled with `--cfg c8s_verif`. The
+// `c8s` command (src/main.rs) neither uses nor needs it.
+//
+
+#![cfg(c8s_verif)]
+
+#[macro_use] extern crate lazy_static;
+#[macro_use] extern crate twelve_bit;
+
+extern crate ihex;
+extern crate regex;
+
+pub mod assembler;
-- 
2.43.0


From ecd82f5eea4ad2d94f5cd9d2ece78b7468d2e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:35 +0000
Subject: [PATCH 2/8] fix: parse arbitrarily long literal and field lists
 without recursion

A list of some tens of thousands of elements overflowed the stack.
---
 src/assembler/parser.rs | 50 +++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index 7dd872b..78eab19 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -286,24 +286,37 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    @return A list of literals if successful, or an error.
    */
   fn parse_literal_list(&mut self, list: Vec<Literal<'a>>) -> Result<Vec<Literal<'a>>, Error<'a>> {
-    
+    let mut result_list = list;
+
+    // Each comma following a literal causes the rule to repeat (a list may be longer than the stack is deep).
+    while try!(self.parse_literal_list_item(&mut result_list)) {}
+
+    Ok(result_list)
+  }
+
+  /**
+   Parses and consumes one element of a literal list and the comma following it, if any.
+   @param result_list The list to append the literal to.
+   @return true if the list continues, false if it is complete, or an error.
+   */
+  fn parse_literal_list_item(&mut self, result_list: &mut Vec<Literal<'a>>) -> Result<bool, Error<'a>> {
+
     // The literal list is complete.
     if let Some(Token::Newline(_)) = self.current_token {
-      return Ok(list);
+      return Ok(false);
     }
 
     // Parse the literal and append it to the list.
     let literal = try!(self.parse_literal());
-    let mut result_list = list;
     result_list.push(literal);
 
-    // A comma following the literal causes the rule to recurse.
+    // The list continues if a comma follows the literal.
     if let Some(Token::Comma(_)) = self.current_token {
       let _ = self.consume_token();
-      return self.parse_literal_list(result_list);
+      return Ok(true);
     }
 
-    return Ok(result_list);
+    return Ok(false);
   }
 
   /**
@@ -356,10 +369,25 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    @return A list of fields if successful, or an error.
    */
   fn parse_field_list(&mut self, list: Vec<InstructionField<'a>>) -> Result<Vec<InstructionField<'a>>, Error<'a>> {
+    let mut result_list = list;
+
+    // Each comma following a field causes the rule to repeat (a list may be longer than the stack is deep).
+    while try!(self.parse_field_list_item(&mut result_list)) {}
+
+    // Return the complete list.
+    Ok(result_list)
+  }
+
+  /**
+   Parses and consumes one element of a field list and the comma following it, if any.
+   @param result_list The list to append the field to.
+   @return true if the list continues, false if it is complete, or an error.
+   */
+  fn parse_field_list_item(&mut self, result_list: &mut Vec<InstructionField<'a>>) -> Result<bool, Error<'a>> {
 
     // The field list is complete on Newline or Single-Line Comment.
     match self.current_token {
-      Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(list),
+      Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(false),
       _ => {}
     }
 
@@ -416,17 +444,15 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
     };
 
     // Append the parsed field to the list.
-    let mut result_list = list;
     result_list.push(field);
 
-    // A comma following the field causes the rule to recurse.
+    // The list continues if a comma follows the field.
     if let Some(Token::Comma(_)) = self.current_token {
       let _ = self.consume_token();
-      result_list = try!(self.parse_field_list(result_list));
+      return Ok(true);
     }
     
-    // Return the complete list.
-    Ok(result_list)
+    Ok(false)
   }
 
   /**
-- 
2.43.0


From df73d352f750dce50a44c4e233b1691693c86e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:36 +0000
Subject: [PATCH 3/8] fix: reject binary literals of more than 64 digits
 instead of wrapping

checked_shl only checks the shift distance, so bits were shifted out and
e.g. %1 followed by 64 zeros was accepted as 0.
---
 src/assembler/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler/scanner.rs b/src/assembler/scanner.rs
index 90f09d6..e1dba3d 100644
--- a/src/assembler/scanner.rs
+++ b/src/assembler/scanner.rs
@@ -103,7 +103,7 @@ fn parse_12_bit_bin_str<'a>(bin_str: &'a str) -> Result<usize, Error<'a>> {
     if result.is_err() {
       return result;
     } else {
-      accumulator = match accumulator.checked_shl(1) {
+      accumulator = match accumulator.checked_mul(2) {
         Some(shifted) =>
           shifted | result.unwrap(),
         None =>
-- 
2.43.0


From 0c2149532cbac90800509ea0839fd82c509cf409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:37 +0000
Subject: [PATCH 4/8] fix: recognize the DT and ST registers in mixed case

Registers are documented as case-insensitive, but Dt, dT, St and sT were
taken for labels.
---
 src/assembler/parser.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index 78eab19..4ed5351 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -402,19 +402,20 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
 
       // An identiier was matched, which is either a Register or a Label.
       Some(Token::Identifier(id,_)) => {
-        let identifier_field = match id {
+        let identifier_field = match id.to_lowercase().as_str() {
 
-          // Match special-purpose registers.
-           "dt" | "DT"  => InstructionField::DelayTimer,
-           "st" | "ST"  => InstructionField::SoundTimer,
-            "i" | "I"   => InstructionField::IndexRegister,
-          "[i]" | "[I]" => InstructionField::IndexRegisterIndirect,
-            "k" | "K"   => InstructionField::KeypadRegister,
-            "b" | "B"   => InstructionField::Bcd,
-            "f" | "F"   => InstructionField::Sprite,
+          // Match special-purpose registers (case-insensitive).
+           "dt"  => InstructionField::DelayTimer,
+           "st"  => InstructionField::SoundTimer,
+            "i"  => InstructionField::IndexRegister,
+          "[i]"  => InstructionField::IndexRegisterIndirect,
+            "k"  => InstructionField::KeypadRegister,
+            "b"  => InstructionField::Bcd,
+            "f"  => InstructionField::Sprite,
 
           // Now it's a GPR or an Identifier.
-          identifier_string @ _ => {
+          _ => {
+            let identifier_string = id;
             let mut field  = InstructionField::Identifier(identifier_string);
 
             // If the identifier matches ("v"[0-9a-fA-F]), it's a GPR.
-- 
2.43.0


From d7d6730ffc4547f8d6e9585f80cdae5c620efdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:38 +0000
Subject: [PATCH 5/8] fix: zero-pad immediates when printing an opcode as
 assembly

Small operands were padded with spaces ('jp $  5'), which does not assemble.
---
 src/assembler/opcode.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/assembler/opcode.rs b/src/assembler/opcode.rs
index bd696c8..0ffb94a 100644
--- a/src/assembler/opcode.rs
+++ b/src/assembler/opcode.rs
@@ -120,14 +120,14 @@ impl Opcode {
       Opcode::DEREF_I                                                 => { format!("ld i, [i]") }
       Opcode::TRAP                                                    => { format!("trap") }
       Opcode::TRAPRET                                                 => { format!("trapret") }
-      Opcode::JP              { target }                              => { format!("jp ${:3x}", u16::from(target)) }
-      Opcode::CALL            { target }                              => { format!("call ${:3x}", u16::from(target)) }
-      Opcode::SE_IMMEDIATE    { register_x: x, value }                => { format!("se v{:1x}, ${:2x}", x, value) }
-      Opcode::SNE_IMMEDIATE   { register_x: x, value }                => { format!("sne v{:1x}, ${:2x}", x, value) }
+      Opcode::JP              { target }                              => { format!("jp ${:03x}", u16::from(target)) }
+      Opcode::CALL            { target }                              => { format!("call ${:03x}", u16::from(target)) }
+      Opcode::SE_IMMEDIATE    { register_x: x, value }                => { format!("se v{:1x}, ${:02x}", x, value) }
+      Opcode::SNE_IMMEDIATE   { register_x: x, value }                => { format!("sne v{:1x}, ${:02x}", x, value) }
       Opcode::SE_REGISTER     { register_x: x, register_y: y }        => { format!("se v{:1x}, v{:1x}", x, y) }
       Opcode::SNE_REGISTER    { register_x: x, register_y: y }        => { format!("sne v{:1x}, v{:1x}", x, y) }
-      Opcode::LD_IMMEDIATE    { register_x: x, value }                => { format!("ld v{:1x}, ${:2x}", x, value) }
-      Opcode::ADD_IMMEDIATE   { register_x: x, value }                => { format!("add v{:1x}, ${:2x}", x, value) }
+      Opcode::LD_IMMEDIATE    { register_x: x, value }                => { format!("ld v{:1x}, ${:02x}", x, value) }
+      Opcode::ADD_IMMEDIATE   { register_x: x, value }                => { format!("add v{:1x}, ${:02x}", x, value) }
       Opcode::LD_REGISTER     { register_x: x, register_y: y }        => { format!("ld v{:1x}, v{:1x}", x, y) }
       Opcode::OR              { register_x: x, register_y: y }        => { format!("or v{:1x}, v{:1x}", x, y) }
       Opcode::AND             { register_x: x, register_y: y }        => { format!("and v{:1x}, v{:1x}", x, y) }
@@ -137,9 +137,9 @@ impl Opcode {
       Opcode::SHR             { register_x: x, register_y: _ }        => { format!("shr v{:1x}", x) }
       Opcode::SUBN            { register_x: x, register_y: y }        => { format!("subn v{:1x}, v{:1x}", x, y) }
       Opcode::SHL             { register_x: x, register_y: _ }        => { format!("shl v{:1x}", x) }
-      Opcode::LD_I            { value }                               => { format!("ld i, ${:3x}", u16::from(value)) }
-      Opcode::JP_V0           { value }                               => { format!("jp v0, ${:3x}", u16::from(value)) }
-      Opcode::RND             { register_x: x, mask }                 => { format!("rnd v{:1x}, ${:2x}", x, mask) }
+      Opcode::LD_I            { value }                               => { format!("ld i, ${:03x}", u16::from(value)) }
+      Opcode::JP_V0           { value }                               => { format!("jp v0, ${:03x}", u16::from(value)) }
+      Opcode::RND             { register_x: x, mask }                 => { format!("rnd v{:1x}, ${:02x}", x, mask) }
       Opcode::DRW             { register_x: x, register_y: y, bytes}  => { format!("drw v{:1x}, v{:1x}, ${:1x}", x, y, bytes) }
       Opcode::SE_K            { register_x: x }                       => { format!("skp v{:1x}", x) }
       Opcode::SNE_K           { register_x: x }                       => { format!("sknp v{:1x}", x) }
-- 
2.43.0


From dc9e8030e8a27803658d13fac488d80d267d82af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:48 +0000
Subject: [PATCH 6/8] fix: report arguments that are not valid Unicode instead
 of panicking

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bd97d31..2f595fd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -15,6 +15,7 @@ extern crate ihex;
 extern crate regex;
 
 use std::env;
+use std::ffi::OsString;
 use std::fs::File;
 use std::io;
 use std::io::prelude::*;
@@ -124,8 +125,8 @@ fn print_version() {
 }
 
 fn main() {
-  let arguments: Vec<String> = env::args().collect();
-  let program = arguments[0].clone();
+  let arguments: Vec<OsString> = env::args_os().collect();
+  let program = arguments[0].to_string_lossy().into_owned();
 
   let mut options = Options::new();
   options.optopt ("o", "output",  "Write output to <file>", "<file>");
-- 
2.43.0


From 1fa6d9ae4a6934cd1489ad50e79e1a5e69cb62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:19 +0000
Subject: [PATCH 7/8] fix: compare and display data ranges that extend to the
 last address

The half-open end $1000 wrapped to 0 in 12 bits, so such a range never
intersected another one and could not be displayed.
---
 src/assembler/data_range.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/assembler/data_range.rs b/src/assembler/data_range.rs
index bb55d1c..e18a965 100644
--- a/src/assembler/data_range.rs
+++ b/src/assembler/data_range.rs
@@ -24,9 +24,8 @@ pub struct DataRange {
 
 impl fmt::Display for DataRange {
   fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-    let range = self.address_range();
-    let first = usize::from(range.start);
-    let last = usize::from(range.end) - 1;
+    let first = usize::from(self.start_address);
+    let last = first + self.len() - 1;
     write!(f, "${:03X}...${:03X} ({} bytes)", first, last, self.len())
   }
 }
@@ -80,11 +79,14 @@ impl DataRange {
 
   /// Returns `true` if the receiver intersects with `range`.
   pub fn intersects(&self, range: &DataRange) -> bool {
-    let lhs_range =  self.address_range();
-    let rhs_range = range.address_range();
+    // The end of a range extending to the last address does not fit in 12 bits, so this is computed in `usize`.
+    let lhs_start = usize::from( self.start_address);
+    let rhs_start = usize::from(range.start_address);
+    let lhs_end = lhs_start +  self.len();
+    let rhs_end = rhs_start + range.len();
 
     // Ranges intersect if the greater of the two starts is less than the smaller of the two ends (half-open).
-    cmp::max(lhs_range.start, rhs_range.start) < cmp::min(lhs_range.end, rhs_range.end)
+    cmp::max(lhs_start, rhs_start) < cmp::min(lhs_end, rhs_end)
   }
 
 }
-- 
2.43.0


From b2b729e6e7f631565c0823dd191301a2d8a8ac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:07 +0000
Subject: [PATCH 8/8] fix: a write error on standard output is exit status 1,
 not a panic

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 2f595fd..36e9f35 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -165,6 +165,7 @@ fn main() {
 
   // Execute the assembler, in the event of failure, log an error and exit.
   assemble_file(input_path, output_path, |reason| {
-    println!("{}: error: {}", program, reason);
+    // The failure may be that of standard output itself, which is no reason to panic.
+    let _ = writeln!(io::stdout(), "{}: error: {}", program, reason);
   });
 }
-- 
2.43.0

