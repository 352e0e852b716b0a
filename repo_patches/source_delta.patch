From f0c37e2384e52cfe9d90bd7fa904fd8992e58532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:18 +0000
Subject: [PATCH 01/15] fix: cvttsd2siq converts to a 64-bit integer (REX.W was
 missing)

---
 monoasm_macro/src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index a7ff5c2..61159e4 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -218,7 +218,7 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Cvttsd2siq(op1, op2) => {
             quote! {
                 jit.emitb(0xf2);
-                jit.enc_mr(&[0x0f, 0x2c], #op1, #op2);
+                jit.enc_rexw_mr(&[0x0f, 0x2c], #op1, #op2);
             }
         }
 
-- 
2.43.0


From d7a37e7d09b929f178e7ef519418840152526e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:33 +0000
Subject: [PATCH 02/15] fix: roundpd with a rip-relative label accounts for its
 trailing immediate

---
 monoasm/src/jit_memory.rs | 5 +++++
 monoasm_macro/src/asm.rs  | 3 +--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index 8cfc567..4b08c86 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -629,6 +629,11 @@ impl JitMemory {
         self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, Imm::None);
     }
 
+    /// REX Op ModRM imm8
+    pub fn enc_mr_imm8(&mut self, op: &[u8], reg: Reg, rm_op: Rm, imm: u8) {
+        self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, Imm::B(imm as i8));
+    }
+
     pub fn enc_mr_byte(&mut self, op: &[u8], reg: Reg, rm_op: Rm) {
         self.encode(op, Rex::Byte, ModRM::Reg(reg), rm_op, Imm::None);
     }
diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 61159e4..b56e0c1 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -239,8 +239,7 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Roundpd(Xmm(op1), op2, ImmOperand(op3)) => {
             quote! {
                 jit.emitb(0x66);
-                jit.enc_mr(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2);
-                jit.emitb(#op3);
+                jit.enc_mr_imm8(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2, #op3);
             }
         }
 
-- 
2.43.0


From 6cbd11cf69bdd765dadd76fd6b2e54a372854e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:38 +0000
Subject: [PATCH 03/15] fix: generated locals no longer capture the caller's
 variables in operand expressions

---
 monoasm_macro/src/asm.rs | 174 +++++++++++++++++++++------------------
 1 file changed, 93 insertions(+), 81 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index b56e0c1..3f019aa 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -1,8 +1,15 @@
 use super::inst::*;
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 
+/// Name of a local variable in the generated code, which does not capture
+/// variables of the same name in the operand expressions of the caller.
+fn local(name: &str) -> Ident {
+    Ident::new(name, Span::mixed_site())
+}
+
 pub fn compile(inst: Inst) -> TokenStream {
+    let imm = local("imm");
     match inst {
         Inst::Label(ident) => quote!( jit.bind_label(#ident); ),
         Inst::F64(f) => {
@@ -64,13 +71,13 @@ pub fn compile(inst: Inst) -> TokenStream {
                 match &op1 {
                     RmOperand::Reg(reg) => {
                         quote! {
-                            let imm = (#i) as i64;
-                            if let Ok(imm) = i32::try_from(imm)  {
+                            let #imm = (#i) as i64;
+                            if let Ok(#imm) = i32::try_from(#imm)  {
                                 if #reg.is_rax() {
                                     jit.emit(&[0x48, 0xa9]);
-                                    jit.emitl(imm as u32);
+                                    jit.emitl(#imm as u32);
                                 } else {
-                                    jit.enc_rexw_mi(0xf7, #op1, Imm::L(imm));
+                                    jit.enc_rexw_mi(0xf7, #op1, Imm::L(#imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -79,9 +86,9 @@ pub fn compile(inst: Inst) -> TokenStream {
                     }
                     _ => {
                         quote! {
-                            let imm = (#i) as i64;
-                            if let Ok(imm) = i32::try_from(imm)  {
-                                jit.enc_rexw_mi(0xf7, #op1, Imm::L(imm));
+                            let #imm = (#i) as i64;
+                            if let Ok(#imm) = i32::try_from(#imm)  {
+                                jit.enc_rexw_mi(0xf7, #op1, Imm::L(#imm));
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
                             }
@@ -97,13 +104,13 @@ pub fn compile(inst: Inst) -> TokenStream {
                 match &op1 {
                     RmOperand::Reg(reg) => {
                         quote! {
-                            let imm = (#i) as i64;
-                            if let Ok(imm) = i8::try_from(imm)  {
+                            let #imm = (#i) as i64;
+                            if let Ok(#imm) = i8::try_from(#imm)  {
                                 if #reg.is_rax() {
                                     jit.emit(&[0xa8]);
-                                    jit.emitb(imm as u8);
+                                    jit.emitb(#imm as u8);
                                 } else {
-                                    jit.enc_mi_byte(0xf6, #op1, Imm::B(imm));
+                                    jit.enc_mi_byte(0xf6, #op1, Imm::B(#imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -112,9 +119,9 @@ pub fn compile(inst: Inst) -> TokenStream {
                     }
                     _ => {
                         quote! {
-                            let imm = (#i) as i64;
-                            if let Ok(imm) = i8::try_from(imm)  {
-                                jit.enc_mi_byte(0xf6, #op1, Imm::B(imm));
+                            let #imm = (#i) as i64;
+                            if let Ok(#imm) = i8::try_from(#imm)  {
+                                jit.enc_mi_byte(0xf6, #op1, Imm::B(#imm));
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
                             }
@@ -283,13 +290,13 @@ pub fn compile(inst: Inst) -> TokenStream {
                     jit.emitl(0);
                 }
             }
-            Dest::Disp(imm) => {
+            Dest::Disp(disp) => {
                 quote! {
-                    if let Ok(imm) = i32::try_from(#imm as i64) {
+                    if let Ok(#imm) = i32::try_from(#disp as i64) {
                         jit.emitb(0xe8);
-                        jit.emitl(imm as u32);
+                        jit.emitl(#imm as u32);
                     } else {
-                        panic!("'CALL ({})' out of range.", #imm);
+                        panic!("'CALL ({})' out of range.", #disp);
                     }
                 }
             }
@@ -345,13 +352,13 @@ pub fn compile(inst: Inst) -> TokenStream {
 }
 
 fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
+    let imm = local("imm");
     match (op1, op2) {
         (MovOperand::Xmm(op1), op2) => match &op2 {
             MovOperand::Imm(..) => panic!("'MOV xmm, Imm' does not exists."),
             MovOperand::Reg(op2) => quote! {
-                let op2 = Rm::reg(#op2);
                 jit.emitb(0x66);
-                jit.enc_rexw_mr(&[0x0f, 0x6e], Reg::from(#op1), op2);
+                jit.enc_rexw_mr(&[0x0f, 0x6e], Reg::from(#op1), Rm::reg(#op2));
             },
             op2 => quote! {
                 jit.emitb(0xf3);
@@ -370,23 +377,21 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
             if let Some(size) = size {
                 assert_eq!(OperandSize::QWORD, size);
                 quote!(
-                    let imm = (#i) as i64;
-                    let rm_op = Rm::reg(#expr);
+                    let #imm = (#i) as i64;
                     // MOV r64, imm64
                     jit.enc_rexw_o(0xb8, #expr);
-                    jit.emitq(imm as u64);
+                    jit.emitq(#imm as u64);
                 )
             } else {
                 quote!(
-                    let imm = (#i) as i64;
-                    let rm_op = Rm::reg(#expr);
+                    let #imm = (#i) as i64;
                     //if let Ok(imm) = i32::try_from(imm) {
                     //    // MOV r/m64, imm32
                     //    jit.enc_rexw_mi(0xc7, rm_op, Imm::L(imm));
                     //} else {
                     //    // MOV r64, imm64
                         jit.enc_rexw_o(0xb8, #expr);
-                        jit.emitq(imm as u64);
+                        jit.emitq(#imm as u64);
                     //};
                 )
             }
@@ -397,9 +402,9 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
         (op1, MovOperand::Imm(i, None)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i32::try_from(imm)  {
-                    jit.enc_rexw_mi(0xc7, #op1, Imm::L(imm));
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i32::try_from(#imm)  {
+                    jit.enc_rexw_mi(0xc7, #op1, Imm::L(#imm));
                 } else {
                     panic!("'MOV {}, imm64' does not exists.", #op1_str);
                 }
@@ -410,9 +415,8 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
         // MR
         (op1, MovOperand::Reg(expr)) => quote!( jit.enc_rexw_mr(&[0x89], #expr, #op1); ),
         (MovOperand::Reg(op1), MovOperand::Xmm(op2)) => quote! {
-            let op1 = Rm::reg(#op1);
             jit.emitb(0x66);
-            jit.enc_rexw_mr(&[0x0f, 0x7e],  Reg::from(#op2), op1);
+            jit.enc_rexw_mr(&[0x0f, 0x7e],  Reg::from(#op2), Rm::reg(#op1));
         },
         (op1, MovOperand::Xmm(op2)) => quote! {
             jit.emitb(0x66);
@@ -427,19 +431,20 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
 }
 
 fn movl(op1: RmOperand, op2: RmiOperand) -> TokenStream {
+    let imm = local("imm");
     match (op1, op2) {
         // MOV r32, imm32
         // B8+ rd id
         // OI
         (RmOperand::Reg(expr), RmiOperand::Imm(i)) => {
             quote!(
-                let imm = (#i) as i64;
-                if let Ok(imm) = i32::try_from(imm) {
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i32::try_from(#imm) {
                     // MOV r32, imm32
                     jit.enc_oi(0xb8, #expr);
-                    jit.emitl(imm as u32);
+                    jit.emitl(#imm as u32);
                 } else {
-                    panic!("'MOVL {}, {}' does not exists.", #expr, imm);
+                    panic!("'MOVL {}, {}' does not exists.", #expr, #imm);
                 };
             )
         }
@@ -449,9 +454,9 @@ fn movl(op1: RmOperand, op2: RmiOperand) -> TokenStream {
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i32::try_from(imm)  {
-                    jit.enc_mi(0xc7, #op1, Imm::L(imm));
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i32::try_from(#imm)  {
+                    jit.enc_mi(0xc7, #op1, Imm::L(#imm));
                 } else {
                     panic!("'MOVL {}, imm64' does not exists.", #op1_str);
                 }
@@ -470,19 +475,20 @@ fn movl(op1: RmOperand, op2: RmiOperand) -> TokenStream {
 }
 
 fn movw(op1: RmOperand, op2: RmiOperand) -> TokenStream {
+    let imm = local("imm");
     match (op1, op2) {
         // MOV r16, imm16
         // B8+ rw iw
         (RmOperand::Reg(expr), RmiOperand::Imm(i)) => {
             quote!(
-                let imm = (#i) as i64;
-                if let Ok(imm) = i16::try_from(imm) {
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i16::try_from(#imm) {
                     // MOV r16, imm16
                     jit.emitb(0x66);
                     jit.enc_oi(0xb8, #expr);
-                    jit.emitw(imm as u16);
+                    jit.emitw(#imm as u16);
                 } else {
-                    panic!("'MOVW {}, {}' does not exists.", #expr, imm);
+                    panic!("'MOVW {}, {}' does not exists.", #expr, #imm);
                 };
             )
         }
@@ -491,12 +497,12 @@ fn movw(op1: RmOperand, op2: RmiOperand) -> TokenStream {
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i16::try_from(imm)  {
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i16::try_from(#imm)  {
                     jit.emitb(0x66);
-                    jit.enc_mi(0xc7, #op1, Imm::W(imm));
+                    jit.enc_mi(0xc7, #op1, Imm::W(#imm));
                 } else {
-                    panic!("'MOVW {}, {}' does not exists.", #op1_str, imm);
+                    panic!("'MOVW {}, {}' does not exists.", #op1_str, #imm);
                 }
             }
         }
@@ -517,19 +523,20 @@ fn movw(op1: RmOperand, op2: RmiOperand) -> TokenStream {
 }
 
 fn movb(op1: RmOperand, op2: RmiOperand) -> TokenStream {
+    let imm = local("imm");
     match (op1, op2) {
         // MOV r8, imm8
         // B0+ rb ib
         (RmOperand::Reg(expr), RmiOperand::Imm(i)) => {
             quote!(
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm) {
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i8::try_from(#imm) {
                     // MOV r8, imm8
                     //jit.emitb(0x66);
                     jit.enc_oi_byte(0xb0, #expr);
-                    jit.emitb(imm as u8);
+                    jit.emitb(#imm as u8);
                 } else {
-                    panic!("'MOVW {}, {}' does not exists.", #expr, imm);
+                    panic!("'MOVW {}, {}' does not exists.", #expr, #imm);
                 };
             )
         }
@@ -538,11 +545,11 @@ fn movb(op1: RmOperand, op2: RmiOperand) -> TokenStream {
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm)  {
-                    jit.enc_mi_byte(0xc6, #op1, Imm::B(imm));
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i8::try_from(#imm)  {
+                    jit.enc_mi_byte(0xc6, #op1, Imm::B(#imm));
                 } else {
-                    panic!("'MOVW {}, {}' does not exists.", #op1_str, imm);
+                    panic!("'MOVW {}, {}' does not exists.", #op1_str, #imm);
                 }
             }
         }
@@ -579,6 +586,7 @@ fn binary_op(
 }
 
 fn binary_opq(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOperand) -> TokenStream {
+    let imm = local("imm");
     let op_rm = op_mr + 2;
     match (op1, op2) {
         // OP r/m64, imm32
@@ -603,11 +611,11 @@ fn binary_opq(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm) {
-                    jit.enc_rexw_digit(&[0x83], #op1, #digit, Imm::B(imm));
-                } else if let Ok(imm) = i32::try_from(imm) {
-                    jit.enc_rexw_digit(&[0x81], #op1, #digit, Imm::L(imm));
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i8::try_from(#imm) {
+                    jit.enc_rexw_digit(&[0x83], #op1, #digit, Imm::B(#imm));
+                } else if let Ok(#imm) = i32::try_from(#imm) {
+                    jit.enc_rexw_digit(&[0x81], #op1, #digit, Imm::L(#imm));
                 } else {
                     panic!("'{} {}, imm64' does not exists.", #op_name, #op1_str);
                 }
@@ -638,6 +646,7 @@ fn binary_opq(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
 }
 
 fn binary_opl(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOperand) -> TokenStream {
+    let imm = local("imm");
     let op_rm = op_mr + 2;
     match (op1, op2) {
         // OP r/m32, imm32
@@ -662,11 +671,11 @@ fn binary_opl(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm) {
-                    jit.enc_digit_imm(&[0x83], #op1, #digit, Imm::B(imm));
-                } else if let Ok(imm) = i32::try_from(imm) {
-                    jit.enc_digit_imm(&[0x81], #op1, #digit, Imm::L(imm));
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i8::try_from(#imm) {
+                    jit.enc_digit_imm(&[0x83], #op1, #digit, Imm::B(#imm));
+                } else if let Ok(#imm) = i32::try_from(#imm) {
+                    jit.enc_digit_imm(&[0x81], #op1, #digit, Imm::L(#imm));
                 } else {
                     panic!("'{} {}, imm64' does not exists.", #op_name, #op1_str);
                 }
@@ -697,6 +706,7 @@ fn binary_opl(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
 }
 
 fn binary_opw(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOperand) -> TokenStream {
+    let imm = local("imm");
     let op_rm = op_mr + 2;
     match (op1, op2) {
         // OP r/m16, imm16
@@ -721,12 +731,12 @@ fn binary_opw(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
         (op1, RmiOperand::Imm(i)) => {
             let op1_str = format!("{}", op1);
             quote! {
-                let imm = (#i) as i64;
+                let #imm = (#i) as i64;
                 jit.emitb(0x66);
-                if let Ok(imm) = i8::try_from(imm) {
-                    jit.enc_digit_imm(&[0x83], #op1, #digit, Imm::B(imm));
-                } else if let Ok(imm) = i16::try_from(imm) {
-                    jit.enc_digit_imm(&[0x81], #op1, #digit, Imm::W(imm));
+                if let Ok(#imm) = i8::try_from(#imm) {
+                    jit.enc_digit_imm(&[0x83], #op1, #digit, Imm::B(#imm));
+                } else if let Ok(#imm) = i16::try_from(#imm) {
+                    jit.enc_digit_imm(&[0x81], #op1, #digit, Imm::W(#imm));
                 } else {
                     panic!("'{} {}, imm64' does not exists.", #op_name, #op1_str);
                 }
@@ -763,6 +773,7 @@ fn binary_opw(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
 }
 
 fn binary_opb(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOperand) -> TokenStream {
+    let imm = local("imm");
     let op_rm = op_mr + 2;
     match (op1, op2) {
         // OP r/m8, imm8
@@ -787,9 +798,9 @@ fn binary_opb(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
         (op1, RmiOperand::Imm(i)) => {
             let op_al = op_mr + 4;
             quote! {
-                let imm = (#i) as i64;
-                if let Ok(imm) = i8::try_from(imm) {
-                    jit.enc_digit_imm_byte(&[0x80], #op_al, #op1, #digit, Imm::B(imm));
+                let #imm = (#i) as i64;
+                if let Ok(#imm) = i8::try_from(#imm) {
+                    jit.enc_digit_imm_byte(&[0x80], #op_al, #op1, #digit, Imm::B(#imm));
                 } else {
                     panic!("{} is out of 8bit.", #i);
                 }
@@ -869,6 +880,7 @@ fn shift_op(
     op2: RiOperand,
     inst_str: &str,
 ) -> TokenStream {
+    let imm = local("imm");
     match width {
         OperandSize::QWORD => match (op1, op2) {
             (op1, RiOperand::Imm(i)) => {
@@ -876,11 +888,11 @@ fn shift_op(
                 // Shl r/m64, imm8
                 // REX.W C1 /4 ib
                 quote! {
-                    let imm = (#i) as i64;
-                    if imm == 1 {
+                    let #imm = (#i) as i64;
+                    if #imm == 1 {
                         jit.enc_rexw_digit(&[0xd1], #op1, #digit, Imm::None);
-                    } else if let Ok(imm) = i8::try_from(imm) {
-                        jit.enc_rexw_digit(&[0xc1], #op1, #digit, Imm::B(imm));
+                    } else if let Ok(#imm) = i8::try_from(#imm) {
+                        jit.enc_rexw_digit(&[0xc1], #op1, #digit, Imm::B(#imm));
                     } else {
                         panic!("'{} {}, imm' imm should be 8 bit.", #inst_str, #op1_str);
                     }
@@ -904,11 +916,11 @@ fn shift_op(
                 // Shl r/m32, imm8
                 // REX C1 /4 ib
                 quote! {
-                    let imm = (#i) as i64;
-                    if imm == 1 {
+                    let #imm = (#i) as i64;
+                    if #imm == 1 {
                         jit.enc_digit(&[0xd1], #op1, #digit);
-                    } else if let Ok(imm) = i8::try_from(imm) {
-                        jit.enc_digit_imm(&[0xc1], #op1, #digit, Imm::B(imm));
+                    } else if let Ok(#imm) = i8::try_from(#imm) {
+                        jit.enc_digit_imm(&[0xc1], #op1, #digit, Imm::B(#imm));
                     } else {
                         panic!("'{} {}, imm' imm should be 8 bit.", #inst_str, #op1_str);
                     }
-- 
2.43.0


From ef7a7925d68d12a688f8bd51173a132927735bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:51 +0000
Subject: [PATCH 04/15] fix: evaluate the register expressions of xchgq and
 test only once

---
 monoasm_macro/src/asm.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 3f019aa..2fd8b91 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -39,19 +39,23 @@ pub fn compile(inst: Inst) -> TokenStream {
 
         Inst::Xchg(size, op1, op2) => match size {
             OperandSize::QWORD => match (&op1, &op2) {
-                (RmOperand::Reg(r1), RmOperand::Reg(r2)) => quote! {
-                    if #r1 == Reg::from(0) {
-                        if #r2 == Reg::from(0) {
-                            jit.emitb(0x90);
+                (RmOperand::Reg(op1), RmOperand::Reg(op2)) => {
+                    let (r1, r2) = (local("r1"), local("r2"));
+                    quote! {
+                        let (#r1, #r2) = (#op1, #op2);
+                        if #r1 == Reg::from(0) {
+                            if #r2 == Reg::from(0) {
+                                jit.emitb(0x90);
+                            } else {
+                                jit.enc_rexw_o(0x90, #r2);
+                            }
+                        } else if #r2 == Reg::from(0) {
+                            jit.enc_rexw_o(0x90, #r1);
                         } else {
-                            jit.enc_rexw_o(0x90, #r2);
+                            jit.enc_rexw_mr(&[0x87], #r2, Rm::reg(#r1));
                         }
-                    } else if #r2 == Reg::from(0) {
-                        jit.enc_rexw_o(0x90, #r1);
-                    } else {
-                        jit.enc_rexw_mr(&[0x87], #r2, #op1);
                     }
-                },
+                }
                 (op1, RmOperand::Reg(op2)) => quote! {
                     jit.enc_rexw_mr(&[0x87], #op2, #op1);
                 },
@@ -69,15 +73,17 @@ pub fn compile(inst: Inst) -> TokenStream {
             RiOperand::Imm(i) => {
                 let op1_str = format!("{}", op1);
                 match &op1 {
-                    RmOperand::Reg(reg) => {
+                    RmOperand::Reg(op1) => {
+                        let reg = local("reg");
                         quote! {
+                            let #reg = #op1;
                             let #imm = (#i) as i64;
                             if let Ok(#imm) = i32::try_from(#imm)  {
                                 if #reg.is_rax() {
                                     jit.emit(&[0x48, 0xa9]);
                                     jit.emitl(#imm as u32);
                                 } else {
-                                    jit.enc_rexw_mi(0xf7, #op1, Imm::L(#imm));
+                                    jit.enc_rexw_mi(0xf7, Rm::reg(#reg), Imm::L(#imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -102,15 +108,17 @@ pub fn compile(inst: Inst) -> TokenStream {
             RiOperand::Imm(i) => {
                 let op1_str = format!("{}", op1);
                 match &op1 {
-                    RmOperand::Reg(reg) => {
+                    RmOperand::Reg(op1) => {
+                        let reg = local("reg");
                         quote! {
+                            let #reg = #op1;
                             let #imm = (#i) as i64;
                             if let Ok(#imm) = i8::try_from(#imm)  {
                                 if #reg.is_rax() {
                                     jit.emit(&[0xa8]);
                                     jit.emitb(#imm as u8);
                                 } else {
-                                    jit.enc_mi_byte(0xf6, #op1, Imm::B(#imm));
+                                    jit.enc_mi_byte(0xf6, Rm::reg(#reg), Imm::B(#imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
-- 
2.43.0


From ae4b951ade9e15ab8df60269def9d765b1593751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:51 +0000
Subject: [PATCH 05/15] fix: displacement expressions are range-checked instead
 of silently truncated, and may be compound

---
 monoasm_macro/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index 073c872..d24dd05 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -457,7 +457,7 @@ impl ToTokens for Disp {
                 Disp::from_disp(#disp)
             ),
             Disp::Expr(ts) => quote!(
-                Disp::from_disp(#ts)
+                Disp::from_disp(i32::try_from(#ts).expect("displacement out of range."))
             ),
             Disp::Label(label) => quote!(
                 Disp::from_label(#label)
@@ -484,7 +484,7 @@ impl Parse for Disp {
             let content;
             syn::parenthesized!(content in input);
             let expr = content.parse::<Expr>()?;
-            let expr = quote!(#expr as i32);
+            let expr = quote!((#expr) as i64);
             Ok(Disp::Expr(expr))
         } else if input.peek(LitInt) {
             // e.g. "[rax + 4]"
-- 
2.43.0


From ea4618b696744778b1fdf370dc9aba28dbf50d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:51 +0000
Subject: [PATCH 06/15] fix: call with an explicit displacement accepts
 compound expressions

---
 monoasm_macro/src/asm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 2fd8b91..b9890a8 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -300,11 +300,12 @@ pub fn compile(inst: Inst) -> TokenStream {
             }
             Dest::Disp(disp) => {
                 quote! {
-                    if let Ok(#imm) = i32::try_from(#disp as i64) {
+                    let #imm = (#disp) as i64;
+                    if let Ok(#imm) = i32::try_from(#imm) {
                         jit.emitb(0xe8);
                         jit.emitl(#imm as u32);
                     } else {
-                        panic!("'CALL ({})' out of range.", #disp);
+                        panic!("'CALL ({})' out of range.", #imm);
                     }
                 }
             }
-- 
2.43.0


From ea48aa643d31f9ab8e9000715cebcd75bbd17228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:31 +0000
Subject: [PATCH 07/15] fix: accept the displacement literal -2147483648 ([reg
 - 2147483648])

---
 monoasm_macro/src/parse.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index d24dd05..8d62276 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -435,7 +435,7 @@ pub fn is_single(input: ParseStream) -> bool {
 ///----------------------------------------------------------------------
 #[derive(Clone, Debug)]
 pub enum Disp {
-    Imm(i32),
+    Imm(i64),
     Expr(TokenStream),
     Label(Ident),
 }
@@ -453,9 +453,10 @@ impl Disp {
 impl ToTokens for Disp {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         let ts = match self {
-            Disp::Imm(disp) => quote!(
-                Disp::from_disp(#disp)
-            ),
+            Disp::Imm(disp) => {
+                let disp = i32::try_from(*disp).expect("displacement out of range.");
+                quote!( Disp::from_disp(#disp) )
+            }
             Disp::Expr(ts) => quote!(
                 Disp::from_disp(i32::try_from(#ts).expect("displacement out of range."))
             ),
@@ -488,7 +489,7 @@ impl Parse for Disp {
             Ok(Disp::Expr(expr))
         } else if input.peek(LitInt) {
             // e.g. "[rax + 4]"
-            let disp: i32 = input.parse::<LitInt>()?.base10_parse()?;
+            let disp: i64 = input.parse::<LitInt>()?.base10_parse()?;
             Ok(Disp::Imm(disp))
         } else if input.peek(Ident) {
             let label = input.parse::<Ident>().unwrap();
-- 
2.43.0


From dec2c19dcb892e22a668ab9a52f584cd61e7ecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:41 +0000
Subject: [PATCH 08/15] fix: reject register numbers that do not exist instead
 of wrapping them

---
 monoasm/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index f36aeab..a0ca12b 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -47,6 +47,8 @@ pub struct Reg(u8);
 
 impl Reg {
     pub fn from(num: u64) -> Self {
+        // 16 stands for rip.
+        assert!(num <= 16, "invalid register number: {num}");
         Reg(num as u8)
     }
 
-- 
2.43.0


From 52a771046b3e5aba7294a8f37b536f006dba119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:41 +0000
Subject: [PATCH 09/15] fix: reject rsp as an index register instead of
 silently dropping it

---
 monoasm/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index a0ca12b..2518067 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -228,6 +228,9 @@ impl Rm {
     }
 
     pub fn ind(base: Reg, disp: Disp, scale: Scale) -> Self {
+        if let Scale::S1(_, index) = scale {
+            assert!(index != Reg::from(4), "rsp can not be used as an index.");
+        }
         let mode = Mode::Ind(scale, disp);
         Self { base, mode }
     }
-- 
2.43.0


From e8c142416210a146bd567c6f15abf20b48671450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:41 +0000
Subject: [PATCH 10/15] fix: reject a label displacement on a base other than
 rip

---
 monoasm/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index 2518067..11e7a4a 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -231,6 +231,9 @@ impl Rm {
         if let Scale::S1(_, index) = scale {
             assert!(index != Reg::from(4), "rsp can not be used as an index.");
         }
+        if let Disp::Label(_) = disp {
+            assert!(base.is_rip(), "a label needs rip as the base register.");
+        }
         let mode = Mode::Ind(scale, disp);
         Self { base, mode }
     }
-- 
2.43.0


From 4340f8f361b85435cdc81224284cc39d9b00fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:41 +0000
Subject: [PATCH 11/15] fix: reject subtracting a label instead of adding it

---
 monoasm_macro/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index 8d62276..401963e 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -445,7 +445,7 @@ impl Disp {
         match self {
             Disp::Imm(disp) => Disp::Imm(-disp),
             Disp::Expr(ts) => Disp::Expr(quote!(-(#ts))),
-            disp => disp,
+            Disp::Label(label) => panic!("a label can not be subtracted: - {label}"),
         }
     }
 }
-- 
2.43.0


From faf95713ef10bd3afe243ce25749a3cfbafe0a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:30 +0000
Subject: [PATCH 12/15] fix: include() answered for the wrong pages while page
 1 is selected

---
 monoasm/src/jit_memory.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index 4b08c86..c42253a 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -272,7 +272,9 @@ impl JitMemory {
     }
 
     pub fn include(&self, ptr: *mut u8) -> bool {
-        self.contents() <= ptr && ptr < unsafe { self.contents().add(PAGE_SIZE * 2) }
+        // The code pages are contiguous and start with page 0, whichever is selected.
+        let top = self[Page(0)].contents();
+        top <= ptr && ptr < unsafe { top.add(PAGE_SIZE * 2) }
     }
 
     /// Resolve all relocations and return the top addresss of generated machine code as a function pointer.
-- 
2.43.0


From d258457deb3d498798ae9b3901bf3058b64a89cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:47 +0000
Subject: [PATCH 13/15] fix: a rejected 8-bit immediate evaluated its
 expression a second time

---
 monoasm_macro/src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index b9890a8..d05c92f 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -811,7 +811,7 @@ fn binary_opb(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
                 if let Ok(#imm) = i8::try_from(#imm) {
                     jit.enc_digit_imm_byte(&[0x80], #op_al, #op1, #digit, Imm::B(#imm));
                 } else {
-                    panic!("{} is out of 8bit.", #i);
+                    panic!("{} is out of 8bit.", #imm);
                 }
             }
         }
-- 
2.43.0


From a78348c65e2ce8514f65da9de99ea590ca7f2886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:09 +0000
Subject: [PATCH 14/15] fix: dq of a float literal without a decimal point
 emitted an integer

`dq 1f64;` is a LitInt with suffix f64 for syn; it was assembled as the
integer 1 instead of the double 1.0.
---
 monoasm_macro/src/inst.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/monoasm_macro/src/inst.rs b/monoasm_macro/src/inst.rs
index c25690e..b2cef53 100644
--- a/monoasm_macro/src/inst.rs
+++ b/monoasm_macro/src/inst.rs
@@ -457,9 +457,14 @@ impl Parse for Inst {
                         input.parse::<Token![;]>()?;
                         Ok(Inst::F64(f))
                     } else if input.peek(LitInt) {
-                        let i = input.parse::<LitInt>()?.base10_parse()?;
+                        let lit = input.parse::<LitInt>()?;
                         input.parse::<Token![;]>()?;
-                        Ok(Inst::I64(i))
+                        // A float without a decimal point ("1f64") is a LitInt for syn.
+                        if lit.suffix().starts_with('f') {
+                            Ok(Inst::F64(lit.base10_parse()?))
+                        } else {
+                            Ok(Inst::I64(lit.base10_parse()?))
+                        }
                     } else {
                         Err(input.error("unimplemented literal."))
                     }
-- 
2.43.0


From e07e447905497c66e1329be056c6eddc05bc948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:08 +0000
Subject: [PATCH 15/15] fix: a reference refused for lack of room made every
 later finalization panic and lose the labels

---
 monoasm/src/jit_memory.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index c42253a..ca9c34d 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -413,6 +413,8 @@ impl JitMemory {
     pub fn save_reloc(&mut self, dest: DestLabel, offset: u8) {
         let page = self.page;
         let pos = self.counter;
+        // A reference that is never emitted must not wait for the finalization.
+        self.check_room(page, 4);
         self.labels[dest]
             .target
             .push(TargetType::Rel { page, offset, pos });
@@ -421,9 +423,17 @@ impl JitMemory {
     /// Save relocaton slot for `DestLabel`.
     fn save_absolute_reloc(&mut self, page: Page, dest: DestLabel) {
         let pos = self[page].counter;
+        self.check_room(page, 8);
         self.labels[dest].target.push(TargetType::Abs { page, pos });
     }
 
+    /// Panic if `size` bytes do not fit `page` any more.
+    fn check_room(&self, page: Page, size: usize) {
+        if self[page].counter.0 + size > PAGE_SIZE {
+            panic!("Page size overflow")
+        }
+    }
+
     /// Resolve and fill all relocations.
     fn fill_relocs(&mut self) {
         let mut reloc = std::mem::take(&mut self.labels);
-- 
2.43.0

