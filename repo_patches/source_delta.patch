From f99691a6505909e837300c804e699002837be50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:25 +0000
Subject: [PATCH 01/24] fix: decode fence.i and stop printing fence as fence.i

The Zifencei extension's only instruction, fence.i (funct3 001), was
rejected with UnknownExtension, while the plain fence (funct3 000) was
printed as "fence.i".
---
 src/decode/inst_32.rs                 |  2 +-
 src/decode/zifencei_extension.rs      | 15 ++++++++++-----
 src/instruction.rs                    |  2 +-
 src/instruction/zifencei_extension.rs |  6 ++++--
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index c176267..44ffe77 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -135,7 +135,7 @@ impl DecodeUtil for u32 {
 
         match opmap {
             0b000_1111 => match funct3 {
-                0b000 => Ok(Extensions::Zifencei),
+                0b000 | 0b001 => Ok(Extensions::Zifencei),
                 0b010 => Ok(Extensions::Zicboz),
                 _ => Err(DecodingError::UnknownExtension),
             },
diff --git a/src/decode/zifencei_extension.rs b/src/decode/zifencei_extension.rs
index 91807bb..db5a3a3 100644
--- a/src/decode/zifencei_extension.rs
+++ b/src/decode/zifencei_extension.rs
@@ -4,9 +4,14 @@ pub mod bit_32 {
 
     pub fn parse_opcode(inst: u32) -> Result<ZifenceiOpcode, DecodingError> {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
+        let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
 
         match opmap {
-            0b000_1111 => Ok(ZifenceiOpcode::FENCE),
+            0b000_1111 => match funct3 {
+                0b000 => Ok(ZifenceiOpcode::FENCE),
+                0b001 => Ok(ZifenceiOpcode::FENCE_I),
+                _ => Err(DecodingError::InvalidFunct3),
+            },
             _ => Err(DecodingError::InvalidOpcode),
         }
     }
@@ -16,7 +21,7 @@ pub mod bit_32 {
         let rd: usize = inst.slice(11, 7) as usize;
 
         match opkind {
-            ZifenceiOpcode::FENCE => Some(rd),
+            ZifenceiOpcode::FENCE | ZifenceiOpcode::FENCE_I => Some(rd),
         }
     }
 
@@ -25,14 +30,14 @@ pub mod bit_32 {
         let rs1: usize = inst.slice(19, 15) as usize;
 
         match opkind {
-            ZifenceiOpcode::FENCE => Some(rs1),
+            ZifenceiOpcode::FENCE | ZifenceiOpcode::FENCE_I => Some(rs1),
         }
     }
 
     #[allow(clippy::unnecessary_wraps)]
     pub fn parse_rs2(_inst: u32, opkind: &ZifenceiOpcode) -> Option<usize> {
         match opkind {
-            ZifenceiOpcode::FENCE => None,
+            ZifenceiOpcode::FENCE | ZifenceiOpcode::FENCE_I => None,
         }
     }
 
@@ -40,7 +45,7 @@ pub mod bit_32 {
     pub fn parse_imm(inst: u32, opkind: &ZifenceiOpcode) -> Option<i32> {
         let fm_pred_succ: u32 = inst.slice(31, 20);
         match opkind {
-            ZifenceiOpcode::FENCE => Some(fm_pred_succ as i32),
+            ZifenceiOpcode::FENCE | ZifenceiOpcode::FENCE_I => Some(fm_pred_succ as i32),
         }
     }
 }
diff --git a/src/instruction.rs b/src/instruction.rs
index e96591b..95b2491 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -213,7 +213,7 @@ impl Display for Instruction {
             }
             InstFormat::NoOperand => match self.opc {
                 OpcodeKind::BaseI(BaseIOpcode::ECALL | BaseIOpcode::EBREAK)
-                | OpcodeKind::Zifencei(ZifenceiOpcode::FENCE)
+                | OpcodeKind::Zifencei(ZifenceiOpcode::FENCE | ZifenceiOpcode::FENCE_I)
                 | OpcodeKind::C(COpcode::NOP | COpcode::EBREAK)
                 | OpcodeKind::Priv(
                     PrivOpcode::MRET | PrivOpcode::SRET | PrivOpcode::WFI | PrivOpcode::SFENCE_VMA,
diff --git a/src/instruction/zifencei_extension.rs b/src/instruction/zifencei_extension.rs
index cba0e63..5da66ed 100644
--- a/src/instruction/zifencei_extension.rs
+++ b/src/instruction/zifencei_extension.rs
@@ -8,12 +8,14 @@ use core::fmt::{self, Display, Formatter};
 #[derive(Debug, PartialEq)]
 pub enum ZifenceiOpcode {
     FENCE,
+    FENCE_I,
 }
 
 impl Display for ZifenceiOpcode {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
-            ZifenceiOpcode::FENCE => write!(f, "fence.i"),
+            ZifenceiOpcode::FENCE => write!(f, "fence"),
+            ZifenceiOpcode::FENCE_I => write!(f, "fence.i"),
         }
     }
 }
@@ -21,7 +23,7 @@ impl Display for ZifenceiOpcode {
 impl Opcode for ZifenceiOpcode {
     fn get_format(&self) -> InstFormat {
         match self {
-            ZifenceiOpcode::FENCE => InstFormat::NoOperand,
+            ZifenceiOpcode::FENCE | ZifenceiOpcode::FENCE_I => InstFormat::NoOperand,
         }
     }
 }
-- 
2.43.0


From 23781b4e7a561efc7277e718cdd7495c84065804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:14 +0000
Subject: [PATCH 02/24] fix: print mulhsu without a trailing comma

---
 src/instruction/m_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction/m_extension.rs b/src/instruction/m_extension.rs
index 97d6eb3..8589422 100644
--- a/src/instruction/m_extension.rs
+++ b/src/instruction/m_extension.rs
@@ -29,7 +29,7 @@ impl Display for MOpcode {
         match self {
             MOpcode::MUL => write!(f, "mul"),
             MOpcode::MULH => write!(f, "mulh"),
-            MOpcode::MULHSU => write!(f, "mulhsu,"),
+            MOpcode::MULHSU => write!(f, "mulhsu"),
             MOpcode::MULHU => write!(f, "mulhu"),
             MOpcode::DIV => write!(f, "div"),
             MOpcode::DIVU => write!(f, "divu"),
-- 
2.43.0


From a2b9f6337f3c5ea367328f0b016fe486b275ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:15 +0000
Subject: [PATCH 03/24] fix: print the register name of CB format instructions

---
 src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 95b2491..17f205c 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -178,7 +178,7 @@ impl Display for Instruction {
                     f,
                     "{} {}, {}",
                     self.opc,
-                    self.rs1.unwrap(),
+                    reg2str(self.rs1.unwrap()),
                     self.imm.unwrap(),
                 )
             }
-- 
2.43.0


From 64412e7af6d5f51fd3505efddc44f6e1bfd0d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:16 +0000
Subject: [PATCH 04/24] fix: print stores as rs2, imm(rs1) and branches as rs1,
 rs2, imm

---
 src/instruction.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 17f205c..68efc43 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -91,13 +91,21 @@ impl Display for Instruction {
                 reg2str(self.rs1.unwrap()),
                 self.imm.unwrap()
             ),
-            InstFormat::CsFormat | InstFormat::SFormat | InstFormat::BFormat => write!(
+            InstFormat::CsFormat | InstFormat::SFormat => write!(
                 f,
                 "{} {}, {}({})",
                 self.opc,
-                reg2str(self.rs1.unwrap()),
+                reg2str(self.rs2.unwrap()),
                 self.imm.unwrap(),
+                reg2str(self.rs1.unwrap()),
+            ),
+            InstFormat::BFormat => write!(
+                f,
+                "{} {}, {}, {}",
+                self.opc,
+                reg2str(self.rs1.unwrap()),
                 reg2str(self.rs2.unwrap()),
+                self.imm.unwrap(),
             ),
             InstFormat::CiwFormat => {
                 write!(
-- 
2.43.0


From 105a8bfcec6906a50de3abb2bc784d8f05970986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:16 +0000
Subject: [PATCH 05/24] fix: print the shift amount of immediate shifts

---
 src/instruction.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 68efc43..485a294 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -77,10 +77,11 @@ impl Display for Instruction {
             InstFormat::RShamtFormat => {
                 write!(
                     f,
-                    "{} {}, {}",
+                    "{} {}, {}, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     reg2str(self.rs1.unwrap()),
+                    self.imm.unwrap()
                 )
             }
             InstFormat::ClFormat | InstFormat::ALrFormat | InstFormat::IFormat => write!(
@@ -283,7 +284,7 @@ pub enum InstFormat {
 
     /// Regular format with shamt
     /// ```ignore
-    /// srai rd, rs1
+    /// srai rd, rs1, shamt
     /// ```
     RShamtFormat,
 
-- 
2.43.0


From 2ba70a07bfa532324102b7447de8963fe5c2f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:17 +0000
Subject: [PATCH 06/24] fix: print the c.addi4spn immediate with its 0x prefix

---
 src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 485a294..3ee4012 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -111,7 +111,7 @@ impl Display for Instruction {
             InstFormat::CiwFormat => {
                 write!(
                     f,
-                    "{} {}, sp, {:x}",
+                    "{} {}, sp, {:#x}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     self.imm.unwrap()
-- 
2.43.0


From 1d2af2aa4f0d15a258aac3dd337f42eb46f2d7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:34 +0000
Subject: [PATCH 07/24] fix: give sspush and sspopchk the format of the
 register they use

---
 src/instruction.rs                   | 4 ++--
 src/instruction/zicfiss_extension.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 3ee4012..9632d97 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -426,13 +426,13 @@ pub enum InstFormat {
 
     /// Only rs1 name
     /// ```ignore
-    /// sspush ra
+    /// sspopchk t0
     /// ```
     OnlyRs1,
 
     /// Only rs2 name
     /// ```ignore
-    /// sspopchk t0
+    /// sspush ra
     /// ```
     OnlyRs2,
 }
diff --git a/src/instruction/zicfiss_extension.rs b/src/instruction/zicfiss_extension.rs
index b3ccb51..c3ce341 100644
--- a/src/instruction/zicfiss_extension.rs
+++ b/src/instruction/zicfiss_extension.rs
@@ -40,8 +40,8 @@ impl Display for ZicfissOpcode {
 impl Opcode for ZicfissOpcode {
     fn get_format(&self) -> InstFormat {
         match self {
-            ZicfissOpcode::SSPUSH => InstFormat::OnlyRs1,
-            ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs2,
+            ZicfissOpcode::SSPUSH => InstFormat::OnlyRs2,
+            ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs1,
             ZicfissOpcode::SSRDP => InstFormat::OnlyRd,
             ZicfissOpcode::SSAMOSWAP_W | ZicfissOpcode::SSAMOSWAP_D => InstFormat::AFormat,
             ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK => InstFormat::NoOperand,
-- 
2.43.0


From 320c4c06fd376b9099ca39533ba1f8796ad9ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:35 +0000
Subject: [PATCH 08/24] fix: format compressed shadow stack instructions
 instead of panicking

---
 src/instruction.rs                   | 1 +
 src/instruction/zicfiss_extension.rs | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 9632d97..865154d 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -421,6 +421,7 @@ pub enum InstFormat {
     /// ```ignore
     /// rdtime rd
     /// ssrdp rd
+    /// c.sspush ra
     /// ```
     OnlyRd,
 
diff --git a/src/instruction/zicfiss_extension.rs b/src/instruction/zicfiss_extension.rs
index c3ce341..1519a06 100644
--- a/src/instruction/zicfiss_extension.rs
+++ b/src/instruction/zicfiss_extension.rs
@@ -42,9 +42,10 @@ impl Opcode for ZicfissOpcode {
         match self {
             ZicfissOpcode::SSPUSH => InstFormat::OnlyRs2,
             ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs1,
-            ZicfissOpcode::SSRDP => InstFormat::OnlyRd,
+            ZicfissOpcode::SSRDP | ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK => {
+                InstFormat::OnlyRd
+            }
             ZicfissOpcode::SSAMOSWAP_W | ZicfissOpcode::SSAMOSWAP_D => InstFormat::AFormat,
-            ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK => InstFormat::NoOperand,
         }
     }
 }
-- 
2.43.0


From 6b4401193c371b43314618ade2aa376f44c153af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:35 +0000
Subject: [PATCH 09/24] fix: format sfence.vma, which has no rd, instead of
 panicking

---
 src/instruction.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 865154d..f81af56 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -47,16 +47,23 @@ impl Display for Instruction {
     #[allow(clippy::too_many_lines)]
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self.inst_format {
-            InstFormat::RFormat | InstFormat::MFormat => {
-                write!(
+            InstFormat::RFormat | InstFormat::MFormat => match self.opc {
+                OpcodeKind::Priv(PrivOpcode::SFENCE_VMA) => write!(
+                    f,
+                    "{} {}, {}",
+                    self.opc,
+                    reg2str(self.rs1.unwrap()),
+                    reg2str(self.rs2.unwrap())
+                ),
+                _ => write!(
                     f,
                     "{} {}, {}, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     reg2str(self.rs1.unwrap()),
                     reg2str(self.rs2.unwrap())
-                )
-            }
+                ),
+            },
             InstFormat::AFormat => match self.opc {
                 OpcodeKind::A(AOpcode::LR_W | AOpcode::LR_D) => write!(
                     f,
-- 
2.43.0


From 868001c91e3754ec914a58b3835e097528eeedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:36 +0000
Subject: [PATCH 10/24] fix: give lr.d the load-reserved format and print that
 as rd, rs1

---
 src/instruction.rs             | 22 ++++++++++++----------
 src/instruction/a_extension.rs |  3 +--
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index f81af56..4633709 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -64,23 +64,25 @@ impl Display for Instruction {
                     reg2str(self.rs2.unwrap())
                 ),
             },
-            InstFormat::AFormat => match self.opc {
-                OpcodeKind::A(AOpcode::LR_W | AOpcode::LR_D) => write!(
+            InstFormat::AFormat => {
+                write!(
                     f,
-                    "{} {}, {}",
+                    "{} {}, {}, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     reg2str(self.rs1.unwrap()),
-                ),
-                _ => write!(
+                    reg2str(self.rs2.unwrap())
+                )
+            }
+            InstFormat::ALrFormat => {
+                write!(
                     f,
-                    "{} {}, {}, {}",
+                    "{} {}, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     reg2str(self.rs1.unwrap()),
-                    reg2str(self.rs2.unwrap())
-                ),
-            },
+                )
+            }
             InstFormat::RShamtFormat => {
                 write!(
                     f,
@@ -91,7 +93,7 @@ impl Display for Instruction {
                     self.imm.unwrap()
                 )
             }
-            InstFormat::ClFormat | InstFormat::ALrFormat | InstFormat::IFormat => write!(
+            InstFormat::ClFormat | InstFormat::IFormat => write!(
                 f,
                 "{} {}, {}, {}",
                 self.opc,
diff --git a/src/instruction/a_extension.rs b/src/instruction/a_extension.rs
index 0cb6e43..0ef3402 100644
--- a/src/instruction/a_extension.rs
+++ b/src/instruction/a_extension.rs
@@ -65,7 +65,7 @@ impl Display for AOpcode {
 impl Opcode for AOpcode {
     fn get_format(&self) -> InstFormat {
         match self {
-            AOpcode::LR_W => InstFormat::ALrFormat,
+            AOpcode::LR_W | AOpcode::LR_D => InstFormat::ALrFormat,
             AOpcode::SC_W
             | AOpcode::AMOSWAP_W
             | AOpcode::AMOADD_W
@@ -76,7 +76,6 @@ impl Opcode for AOpcode {
             | AOpcode::AMOMAX_W
             | AOpcode::AMOMINU_W
             | AOpcode::AMOMAXU_W
-            | AOpcode::LR_D
             | AOpcode::SC_D
             | AOpcode::AMOSWAP_D
             | AOpcode::AMOADD_D
-- 
2.43.0


From e1c5242693681efbc27eb76f70f31322301224c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:36 +0000
Subject: [PATCH 11/24] fix: reject unassigned funct7 values of sll, slt, sltu,
 xor, or and and

---
 src/decode/base_i.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index 6be5892..aa7899b 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -79,17 +79,35 @@ pub mod bit_32 {
                     0b010_0000 => Ok(BaseIOpcode::SUB),
                     _ => Err(DecodingError::InvalidFunct7),
                 },
-                0b001 => Ok(BaseIOpcode::SLL),
-                0b010 => Ok(BaseIOpcode::SLT),
-                0b011 => Ok(BaseIOpcode::SLTU),
-                0b100 => Ok(BaseIOpcode::XOR),
+                0b001 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::SLL),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
+                0b010 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::SLT),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
+                0b011 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::SLTU),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
+                0b100 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::XOR),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
                 0b101 => match funct7 {
                     0b000_0000 => Ok(BaseIOpcode::SRL),
                     0b010_0000 => Ok(BaseIOpcode::SRA),
                     _ => Err(DecodingError::InvalidFunct7),
                 },
-                0b110 => Ok(BaseIOpcode::OR),
-                0b111 => Ok(BaseIOpcode::AND),
+                0b110 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::OR),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
+                0b111 => match funct7 {
+                    0b000_0000 => Ok(BaseIOpcode::AND),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
                 _ => Err(DecodingError::InvalidFunct3),
             },
             0b111_0011 => match funct3 {
-- 
2.43.0


From cdb18f3387c32c55dcc2ff29b48d5165de97f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:37 +0000
Subject: [PATCH 12/24] fix: reject unassigned funct7 values of slliw and sllw

---
 src/decode/base_i.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index aa7899b..a136a7b 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -123,7 +123,10 @@ pub mod bit_32 {
             },
             0b001_1011 => match funct3 {
                 0b000 => only_rv64(BaseIOpcode::ADDIW, isa),
-                0b001 => only_rv64(BaseIOpcode::SLLIW, isa),
+                0b001 => match funct7 {
+                    0b000_0000 => only_rv64(BaseIOpcode::SLLIW, isa),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
                 0b101 => match funct7 {
                     0b000_0000 => only_rv64(BaseIOpcode::SRLIW, isa),
                     0b010_0000 => only_rv64(BaseIOpcode::SRAIW, isa),
@@ -137,7 +140,10 @@ pub mod bit_32 {
                     0b010_0000 => only_rv64(BaseIOpcode::SUBW, isa),
                     _ => Err(DecodingError::InvalidFunct7),
                 },
-                0b001 => only_rv64(BaseIOpcode::SLLW, isa),
+                0b001 => match funct7 {
+                    0b000_0000 => only_rv64(BaseIOpcode::SLLW, isa),
+                    _ => Err(DecodingError::InvalidFunct7),
+                },
                 0b101 => match funct7 {
                     0b000_0000 => only_rv64(BaseIOpcode::SRLW, isa),
                     0b010_0000 => only_rv64(BaseIOpcode::SRAW, isa),
-- 
2.43.0


From 95ec9a9dd1e5d2b39b4fd81376caaac4d2dcf58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:38 +0000
Subject: [PATCH 13/24] fix: reject jalr words with a non-zero funct3

---
 src/decode/base_i.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index a136a7b..90bf6e1 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -15,7 +15,10 @@ pub mod bit_32 {
             0b011_0111 => Ok(BaseIOpcode::LUI),
             0b001_0111 => Ok(BaseIOpcode::AUIPC),
             0b110_1111 => Ok(BaseIOpcode::JAL),
-            0b110_0111 => Ok(BaseIOpcode::JALR),
+            0b110_0111 => match funct3 {
+                0b000 => Ok(BaseIOpcode::JALR),
+                _ => Err(DecodingError::InvalidFunct3),
+            },
             0b110_0011 => match funct3 {
                 0b000 => Ok(BaseIOpcode::BEQ),
                 0b001 => Ok(BaseIOpcode::BNE),
-- 
2.43.0


From ae03c1fa763854eb9d6a4d489c8587d8ed924c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:39 +0000
Subject: [PATCH 14/24] fix: reject ecall and ebreak words with a non-zero rd
 or rs1

---
 src/decode/base_i.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index 90bf6e1..c8a3cc4 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -6,7 +6,9 @@ pub mod bit_32 {
     #[allow(clippy::too_many_lines)]
     pub fn parse_opcode(inst: u32, isa: Isa) -> Result<BaseIOpcode, DecodingError> {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
+        let rd: u8 = u8::try_from(inst.slice(11, 7)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
+        let rs1: u8 = u8::try_from(inst.slice(19, 15)).unwrap();
         let funct5: u8 = u8::try_from(inst.slice(24, 20)).unwrap();
         let funct6: u8 = u8::try_from(inst.slice(31, 26)).unwrap();
         let funct7: u8 = u8::try_from(inst.slice(31, 25)).unwrap();
@@ -116,6 +118,9 @@ pub mod bit_32 {
             0b111_0011 => match funct3 {
                 0b000 => match funct7 {
                     0b000_0000 => match funct5 {
+                        0b00000 | 0b00001 if rd != 0 || rs1 != 0 => {
+                            Err(DecodingError::InvalidOpcode)
+                        }
                         0b00000 => Ok(BaseIOpcode::ECALL),
                         0b00001 => Ok(BaseIOpcode::EBREAK),
                         _ => Err(DecodingError::InvalidFunct5),
-- 
2.43.0


From 12816bed555e0724854ac66ac3bd381704f09151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:39 +0000
Subject: [PATCH 15/24] fix: reject sfence.vma words with a non-zero rd

---
 src/decode/priv_extension.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decode/priv_extension.rs b/src/decode/priv_extension.rs
index 5d18af3..e2b7d64 100644
--- a/src/decode/priv_extension.rs
+++ b/src/decode/priv_extension.rs
@@ -4,6 +4,7 @@ pub mod bit_32 {
 
     pub fn parse_opcode(inst: u32) -> Result<PrivOpcode, DecodingError> {
         let _opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
+        let rd: u8 = u8::try_from(inst.slice(11, 7)).unwrap();
         let _funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
         let funct7: u8 = u8::try_from(inst.slice(31, 25)).unwrap();
 
@@ -12,7 +13,10 @@ pub mod bit_32 {
             0b0011_0000_0010_0000_0000_0000_0111_0011 => Ok(PrivOpcode::MRET),
             0b0001_0000_0101_0000_0000_0000_0111_0011 => Ok(PrivOpcode::WFI),
             _ => match funct7 {
-                0b000_1001 => Ok(PrivOpcode::SFENCE_VMA),
+                0b000_1001 => match rd {
+                    0b0_0000 => Ok(PrivOpcode::SFENCE_VMA),
+                    _ => Err(DecodingError::InvalidOpcode),
+                },
                 _ => Err(DecodingError::InvalidFunct7),
             },
         }
-- 
2.43.0


From ed979d5326cf2255c5921eb97c90f3f01ea74807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:40 +0000
Subject: [PATCH 16/24] fix: reject load-reserved words with a non-zero rs2

---
 src/decode/a_extension.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/decode/a_extension.rs b/src/decode/a_extension.rs
index 63468f1..3ae20f5 100644
--- a/src/decode/a_extension.rs
+++ b/src/decode/a_extension.rs
@@ -6,12 +6,16 @@ pub mod bit_32 {
     pub fn parse_opcode(inst: u32, isa: Isa) -> Result<AOpcode, DecodingError> {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
+        let rs2: u8 = u8::try_from(inst.slice(24, 20)).unwrap();
         let funct7: u8 = u8::try_from(inst.slice(31, 27)).unwrap();
 
         match opmap {
             0b010_1111 => match funct3 {
                 0b010 => match funct7 {
-                    0b00010 => Ok(AOpcode::LR_W),
+                    0b00010 => match rs2 {
+                        0b0_0000 => Ok(AOpcode::LR_W),
+                        _ => Err(DecodingError::InvalidOpcode),
+                    },
                     0b00011 => Ok(AOpcode::SC_W),
                     0b00001 => Ok(AOpcode::AMOSWAP_W),
                     0b00000 => Ok(AOpcode::AMOADD_W),
@@ -25,7 +29,10 @@ pub mod bit_32 {
                     _ => Err(DecodingError::InvalidFunct7),
                 },
                 0b011 => match funct7 {
-                    0b00010 => only_rv64(AOpcode::LR_D, isa),
+                    0b00010 => match rs2 {
+                        0b0_0000 => only_rv64(AOpcode::LR_D, isa),
+                        _ => Err(DecodingError::InvalidOpcode),
+                    },
                     0b00011 => only_rv64(AOpcode::SC_D, isa),
                     0b00001 => only_rv64(AOpcode::AMOSWAP_D, isa),
                     0b00000 => only_rv64(AOpcode::AMOADD_D, isa),
-- 
2.43.0


From 54db2c452e4e4f4dd9fa4eed730198d1c11be599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:41 +0000
Subject: [PATCH 17/24] fix: reject shadow stack words whose fixed register
 fields do not match

---
 src/decode/zicfiss_extension.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/decode/zicfiss_extension.rs b/src/decode/zicfiss_extension.rs
index fab2de4..b206151 100644
--- a/src/decode/zicfiss_extension.rs
+++ b/src/decode/zicfiss_extension.rs
@@ -4,6 +4,7 @@ pub mod bit_32 {
 
     pub fn parse_opcode(inst: u32) -> Result<ZicfissOpcode, DecodingError> {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
+        let rd: u8 = u8::try_from(inst.slice(11, 7)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
         let rs1: u8 = u8::try_from(inst.slice(19, 15)).unwrap();
         let funct7_rs2: u16 = u16::try_from(inst.slice(31, 20)).unwrap();
@@ -11,10 +12,14 @@ pub mod bit_32 {
         match opmap {
             0b111_0011 => match funct3 {
                 0b100 => match funct7_rs2 {
-                    0b1100_1110_0001 | 0b1100_1110_0101 => Ok(ZicfissOpcode::SSPUSH),
-                    0b1100_1101_1100 => match rs1 {
-                        0b0_0000 => Ok(ZicfissOpcode::SSRDP),
-                        _ => Ok(ZicfissOpcode::SSPOPCHK),
+                    0b1100_1110_0001 | 0b1100_1110_0101 => match (rd, rs1) {
+                        (0b0_0000, 0b0_0000) => Ok(ZicfissOpcode::SSPUSH),
+                        _ => Err(DecodingError::InvalidOpcode),
+                    },
+                    0b1100_1101_1100 => match (rd, rs1) {
+                        (0b0_0001..=0b1_1111, 0b0_0000) => Ok(ZicfissOpcode::SSRDP),
+                        (0b0_0000, 0b0_0001 | 0b0_0101) => Ok(ZicfissOpcode::SSPOPCHK),
+                        _ => Err(DecodingError::InvalidOpcode),
                     },
                     _ => Err(DecodingError::InvalidOpcode),
                 },
-- 
2.43.0


From ac9e80aef8b3bc2699229172ab9e586f5c975823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:41 +0000
Subject: [PATCH 18/24] fix: report ssamoswap.d as an RV64 instruction on RV32

---
 src/decode/inst_32.rs           | 2 +-
 src/decode/zicfiss_extension.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index 44ffe77..a060644 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -43,7 +43,7 @@ impl Decode for u32 {
                 self,
             )?)),
             Ok(Extensions::Zicfiss) => Ok(OpcodeKind::Zicfiss(
-                zicfiss_extension::bit_32::parse_opcode(self)?,
+                zicfiss_extension::bit_32::parse_opcode(self, isa)?,
             )),
             Ok(Extensions::Zicntr) => Ok(OpcodeKind::Zicntr(
                 zicntr_extension::bit_32::parse_opcode(self)?,
diff --git a/src/decode/zicfiss_extension.rs b/src/decode/zicfiss_extension.rs
index b206151..a432ac7 100644
--- a/src/decode/zicfiss_extension.rs
+++ b/src/decode/zicfiss_extension.rs
@@ -1,8 +1,9 @@
 pub mod bit_32 {
-    use super::super::{DecodeUtil, DecodingError};
+    use super::super::{only_rv64, DecodeUtil, DecodingError};
     use crate::instruction::zicfiss_extension::ZicfissOpcode;
+    use crate::Isa;
 
-    pub fn parse_opcode(inst: u32) -> Result<ZicfissOpcode, DecodingError> {
+    pub fn parse_opcode(inst: u32, isa: Isa) -> Result<ZicfissOpcode, DecodingError> {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
         let rd: u8 = u8::try_from(inst.slice(11, 7)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
@@ -27,7 +28,7 @@ pub mod bit_32 {
             },
             0b010_1111 => match funct3 {
                 0b010 => Ok(ZicfissOpcode::SSAMOSWAP_W),
-                0b011 => Ok(ZicfissOpcode::SSAMOSWAP_D),
+                0b011 => only_rv64(ZicfissOpcode::SSAMOSWAP_D, isa),
                 _ => Err(DecodingError::InvalidFunct3),
             },
             _ => Err(DecodingError::InvalidOpcode),
-- 
2.43.0


From d6c67d61f0f1a9aeecc5c0e92b79bbf21b281e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:42 +0000
Subject: [PATCH 19/24] fix: decode csrrs of a counter with a non-zero rs1 as
 csrrs

---
 src/decode/inst_32.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index a060644..eb8e643 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -129,6 +129,7 @@ impl DecodeUtil for u32 {
     fn parse_extension(self) -> Result<Extensions, DecodingError> {
         let opmap: u8 = u8::try_from(self.slice(6, 0)).unwrap();
         let funct3: u8 = u8::try_from(self.slice(14, 12)).unwrap();
+        let rs1: u8 = u8::try_from(self.slice(19, 15)).unwrap();
         let funct5: u8 = u8::try_from(self.slice(31, 27)).unwrap();
         let funct7: u8 = u8::try_from(self.slice(31, 25)).unwrap();
         let csr: u16 = u16::try_from(self.slice(31, 20)).unwrap();
@@ -161,7 +162,7 @@ impl DecodeUtil for u32 {
                 },
                 0b010 => match csr {
                     // csrrs rd, (cycle|time|instret), zero
-                    0xc00..=0xc02 | 0xc80..=0xc82 => Ok(Extensions::Zicntr),
+                    0xc00..=0xc02 | 0xc80..=0xc82 if rs1 == 0 => Ok(Extensions::Zicntr),
                     _ => Ok(Extensions::Zicsr),
                 },
                 0b100 => Ok(Extensions::Zicfiss),
-- 
2.43.0


From ee111fc493eaa1af2a80b00e7ddecea869900da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:43 +0000
Subject: [PATCH 20/24] fix: decode c.add hints with rd zero as c.add, not
 c.ebreak

---
 src/decode/c_extension.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index 5b59a6b..9372898 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -76,12 +76,12 @@ pub mod bit_16 {
                     0b0 => Ok(COpcode::JR),
                     _ => Ok(COpcode::MV),
                 },
-                0b1 => match mi_flag {
-                    0b0 => Ok(COpcode::EBREAK),
-                    _ => match lo_flag {
-                        0b0 => Ok(COpcode::JALR),
-                        _ => Ok(COpcode::ADD),
+                0b1 => match lo_flag {
+                    0b0 => match mi_flag {
+                        0b0 => Ok(COpcode::EBREAK),
+                        _ => Ok(COpcode::JALR),
                     },
+                    _ => Ok(COpcode::ADD),
                 },
                 _ => Err(DecodingError::InvalidOpcode),
             },
-- 
2.43.0


From 55d0ddca5af2b27076ec4b00409e0eff8e9a1ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:44 +0000
Subject: [PATCH 21/24] fix: reject compressed shifts by 32 or more on RV32

---
 src/decode/c_extension.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index 9372898..ceffbed 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -3,6 +3,14 @@ pub mod bit_16 {
     use crate::instruction::c_extension::COpcode;
     use crate::Isa;
 
+    /// Return Err if the highest bit of shamt is set on Rv32.
+    fn shamt_in_range(opcode: COpcode, shamt_5: u8, isa: Isa) -> Result<COpcode, DecodingError> {
+        match (isa, shamt_5) {
+            (Isa::Rv32, 0b1) => Err(DecodingError::InvalidOpcode),
+            _ => Ok(opcode),
+        }
+    }
+
     fn quadrant0(_inst: u16, opmap: u8, isa: Isa) -> Result<COpcode, DecodingError> {
         match opmap {
             0b000 => Ok(COpcode::ADDI4SPN),
@@ -35,8 +43,8 @@ pub mod bit_16 {
                 _ => Ok(COpcode::LUI),
             },
             0b100 => match sr_flag {
-                0b00 => Ok(COpcode::SRLI),
-                0b01 => Ok(COpcode::SRAI),
+                0b00 => shamt_in_range(COpcode::SRLI, bit_12, isa),
+                0b01 => shamt_in_range(COpcode::SRAI, bit_12, isa),
                 0b10 => Ok(COpcode::ANDI),
                 0b11 => match bit_12 {
                     0b0 => match lo_flag {
@@ -68,7 +76,7 @@ pub mod bit_16 {
         let hi_flag: u8 = u8::try_from(inst.slice(12, 12)).unwrap();
 
         match opmap {
-            0b000 => Ok(COpcode::SLLI),
+            0b000 => shamt_in_range(COpcode::SLLI, hi_flag, isa),
             0b010 => Ok(COpcode::LWSP),
             0b011 => only_rv64(COpcode::LDSP, isa),
             0b100 => match hi_flag {
-- 
2.43.0


From dcc535854ded653518ff5b69696e75731936afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:44 +0000
Subject: [PATCH 22/24] fix: return an error for machine words wider than their
 instruction

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 931c6c4..72beafd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,11 +77,11 @@ impl TryFrom<usize> for Instruction {
     fn try_from(inst: usize) -> Result<Self, Self::Error> {
         if inst & 0b11 == 0b11 {
             u32::try_from(inst)
-                .expect("Truncation of usize to u32 failed.")
+                .map_err(|_| DecodingError::Not32BitInst)?
                 .decode(Isa::Rv64)
         } else {
             u16::try_from(inst)
-                .expect("Truncation of usize to u16 failed.")
+                .map_err(|_| DecodingError::Not16BitInst)?
                 .decode(Isa::Rv64)
         }
     }
-- 
2.43.0


From 489d96d333d44209615640951e75abb4586e81da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:45 +0000
Subject: [PATCH 23/24] fix: answer shadow stack opcodes of the other length
 with an error, not a panic

---
 src/decode/inst_16.rs | 18 +++++++++++++-----
 src/decode/inst_32.rs | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/decode/inst_16.rs b/src/decode/inst_16.rs
index e49bc0e..5efc7fd 100644
--- a/src/decode/inst_16.rs
+++ b/src/decode/inst_16.rs
@@ -1,7 +1,7 @@
 use super::{c_extension, zicfiss_extension};
 use super::{Decode, DecodeUtil, DecodingError};
 
-use crate::instruction::{InstFormat, Instruction, OpcodeKind};
+use crate::instruction::{zicfiss_extension::ZicfissOpcode, InstFormat, Instruction, OpcodeKind};
 use crate::{Extensions, Isa};
 
 impl Decode for u16 {
@@ -43,7 +43,9 @@ impl Decode for u16 {
     fn parse_rd(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rd(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rd(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rd(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -51,7 +53,9 @@ impl Decode for u16 {
     fn parse_rs1(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rs1(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rs1(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rs1(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -59,7 +63,9 @@ impl Decode for u16 {
     fn parse_rs2(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rs2(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rs2(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rs2(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -67,7 +73,9 @@ impl Decode for u16 {
     fn parse_imm(self, opkind: &OpcodeKind, _isa: Isa) -> Result<Option<i32>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_imm(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_imm(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_imm(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index eb8e643..08668bc 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -3,7 +3,7 @@ use super::{
     zicntr_extension, zicsr_extension, zifencei_extension,
 };
 use super::{Decode, DecodeUtil, DecodingError};
-use crate::instruction::{InstFormat, Instruction, OpcodeKind};
+use crate::instruction::{zicfiss_extension::ZicfissOpcode, InstFormat, Instruction, OpcodeKind};
 use crate::{Extensions, Isa};
 
 #[allow(non_snake_case)]
@@ -66,6 +66,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rd(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rd(self, opc)),
@@ -81,6 +84,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rs1(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rs1(self, opc)),
@@ -96,6 +102,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rs2(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rs2(self, opc)),
@@ -111,6 +120,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_imm(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_imm(self, opc)),
-- 
2.43.0


From b90cb47255134cd1c4231ed7b1b500029d3f37d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:46 +0000
Subject: [PATCH 24/24] fix: decode the RV32-only high-half counter reads as
 csrrs on RV64

---
 src/decode/inst_32.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index 08668bc..8ebda69 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -3,7 +3,10 @@ use super::{
     zicntr_extension, zicsr_extension, zifencei_extension,
 };
 use super::{Decode, DecodeUtil, DecodingError};
-use crate::instruction::{zicfiss_extension::ZicfissOpcode, InstFormat, Instruction, OpcodeKind};
+use crate::instruction::{
+    zicfiss_extension::ZicfissOpcode, zicntr_extension::ZicntrOpcode, InstFormat, Instruction,
+    OpcodeKind,
+};
 use crate::{Extensions, Isa};
 
 #[allow(non_snake_case)]
@@ -45,9 +48,20 @@ impl Decode for u32 {
             Ok(Extensions::Zicfiss) => Ok(OpcodeKind::Zicfiss(
                 zicfiss_extension::bit_32::parse_opcode(self, isa)?,
             )),
-            Ok(Extensions::Zicntr) => Ok(OpcodeKind::Zicntr(
-                zicntr_extension::bit_32::parse_opcode(self)?,
-            )),
+            Ok(Extensions::Zicntr) => {
+                match (zicntr_extension::bit_32::parse_opcode(self)?, isa) {
+                    // the high halves of the counters exist only in Rv32.
+                    (
+                        ZicntrOpcode::RDCYCLE_H
+                        | ZicntrOpcode::RDTIME_H
+                        | ZicntrOpcode::RDINSTRET_H,
+                        Isa::Rv64,
+                    ) => Ok(OpcodeKind::Zicsr(zicsr_extension::bit_32::parse_opcode(
+                        self,
+                    )?)),
+                    (opc, _) => Ok(OpcodeKind::Zicntr(opc)),
+                }
+            }
             Ok(Extensions::Zicboz) => Ok(OpcodeKind::Zicboz(
                 zicboz_extension::bit_32::parse_opcode(self)?,
             )),
-- 
2.43.0

