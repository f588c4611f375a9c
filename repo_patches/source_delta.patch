From adfb6f189d94c426f8f868b42ffff2b110fc3ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:07 +0000
Subject: [PATCH 01/22] fix: return an error for oversized values in
 Instruction::try_from

A usize that does not fit the instruction length given by its low two
bits made the conversion panic. Report it as a decoding error.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 931c6c4..72beafd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,11 +77,11 @@ impl TryFrom<usize> for Instruction {
     fn try_from(inst: usize) -> Result<Self, Self::Error> {
         if inst & 0b11 == 0b11 {
             u32::try_from(inst)
-                .expect("Truncation of usize to u32 failed.")
+                .map_err(|_| DecodingError::Not32BitInst)?
                 .decode(Isa::Rv64)
         } else {
             u16::try_from(inst)
-                .expect("Truncation of usize to u16 failed.")
+                .map_err(|_| DecodingError::Not16BitInst)?
                 .decode(Isa::Rv64)
         }
     }
-- 
2.43.0


From ef55f2a10c125b87d90bc807da23de35d47ce3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:07 +0000
Subject: [PATCH 02/22] fix: reject Zicfiss opcodes of the other length in the
 field parsers

parse_rd, parse_rs1, parse_rs2 and parse_imm panicked when given a
compressed shadow stack opcode on u32 or a 32-bit one on u16. Other
extensions already return Not32BitInst or Not16BitInst there.
---
 src/decode/inst_16.rs | 18 +++++++++++++-----
 src/decode/inst_32.rs | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/decode/inst_16.rs b/src/decode/inst_16.rs
index e49bc0e..5efc7fd 100644
--- a/src/decode/inst_16.rs
+++ b/src/decode/inst_16.rs
@@ -1,7 +1,7 @@
 use super::{c_extension, zicfiss_extension};
 use super::{Decode, DecodeUtil, DecodingError};
 
-use crate::instruction::{InstFormat, Instruction, OpcodeKind};
+use crate::instruction::{zicfiss_extension::ZicfissOpcode, InstFormat, Instruction, OpcodeKind};
 use crate::{Extensions, Isa};
 
 impl Decode for u16 {
@@ -43,7 +43,9 @@ impl Decode for u16 {
     fn parse_rd(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rd(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rd(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rd(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -51,7 +53,9 @@ impl Decode for u16 {
     fn parse_rs1(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rs1(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rs1(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rs1(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -59,7 +63,9 @@ impl Decode for u16 {
     fn parse_rs2(self, opkind: &OpcodeKind) -> Result<Option<usize>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_rs2(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_rs2(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_rs2(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
@@ -67,7 +73,9 @@ impl Decode for u16 {
     fn parse_imm(self, opkind: &OpcodeKind, _isa: Isa) -> Result<Option<i32>, DecodingError> {
         match opkind {
             OpcodeKind::C(opc) => Ok(c_extension::bit_16::parse_imm(self, opc)),
-            OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_16::parse_imm(self, opc)),
+            OpcodeKind::Zicfiss(opc @ (ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)) => {
+                Ok(zicfiss_extension::bit_16::parse_imm(self, opc))
+            }
             _ => Err(DecodingError::Not16BitInst),
         }
     }
diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index c176267..11486ac 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -3,7 +3,7 @@ use super::{
     zicntr_extension, zicsr_extension, zifencei_extension,
 };
 use super::{Decode, DecodeUtil, DecodingError};
-use crate::instruction::{InstFormat, Instruction, OpcodeKind};
+use crate::instruction::{zicfiss_extension::ZicfissOpcode, InstFormat, Instruction, OpcodeKind};
 use crate::{Extensions, Isa};
 
 #[allow(non_snake_case)]
@@ -66,6 +66,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rd(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rd(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rd(self, opc)),
@@ -81,6 +84,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rs1(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rs1(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rs1(self, opc)),
@@ -96,6 +102,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_rs2(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_rs2(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_rs2(self, opc)),
@@ -111,6 +120,9 @@ impl Decode for u32 {
             OpcodeKind::A(opc) => Ok(a_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zifencei(opc) => Ok(zifencei_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicsr(opc) => Ok(zicsr_extension::bit_32::parse_imm(self, opc)),
+            OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK) => {
+                Err(DecodingError::Not32BitInst)
+            }
             OpcodeKind::Zicfiss(opc) => Ok(zicfiss_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicntr(opc) => Ok(zicntr_extension::bit_32::parse_imm(self, opc)),
             OpcodeKind::Zicboz(opc) => Ok(zicboz_extension::bit_32::parse_imm(self, opc)),
-- 
2.43.0


From da92bae4c7e6ffbf411e97cf51d3324059a30c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:08 +0000
Subject: [PATCH 03/22] fix: reject JALR encodings with a nonzero funct3

---
 src/decode/base_i.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index 6be5892..af95b36 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -15,6 +15,7 @@ pub mod bit_32 {
             0b011_0111 => Ok(BaseIOpcode::LUI),
             0b001_0111 => Ok(BaseIOpcode::AUIPC),
             0b110_1111 => Ok(BaseIOpcode::JAL),
+            0b110_0111 if funct3 != 0b000 => Err(DecodingError::InvalidFunct3),
             0b110_0111 => Ok(BaseIOpcode::JALR),
             0b110_0011 => match funct3 {
                 0b000 => Ok(BaseIOpcode::BEQ),
-- 
2.43.0


From 668e91b7773c4a33583a9fbaa9cc7266093fd5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:08 +0000
Subject: [PATCH 04/22] fix: check funct7 of every register-register and SLLIW
 encoding

SLL, SLT, SLTU, XOR, OR, AND, SLLW and SLLIW were returned for any
funct7 value.
---
 src/decode/base_i.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index af95b36..1d9c1b6 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -74,6 +74,10 @@ pub mod bit_32 {
                 0b111 => Ok(BaseIOpcode::ANDI),
                 _ => Err(DecodingError::InvalidFunct3),
             },
+            // only add/sub and srl/sra have an alternative funct7 value.
+            0b011_0011 if funct7 != 0 && !matches!(funct3, 0b000 | 0b101) => {
+                Err(DecodingError::InvalidFunct7)
+            }
             0b011_0011 => match funct3 {
                 0b000 => match funct7 {
                     0b000_0000 => Ok(BaseIOpcode::ADD),
@@ -106,6 +110,7 @@ pub mod bit_32 {
             },
             0b001_1011 => match funct3 {
                 0b000 => only_rv64(BaseIOpcode::ADDIW, isa),
+                0b001 if funct7 != 0 => Err(DecodingError::InvalidFunct7),
                 0b001 => only_rv64(BaseIOpcode::SLLIW, isa),
                 0b101 => match funct7 {
                     0b000_0000 => only_rv64(BaseIOpcode::SRLIW, isa),
@@ -120,6 +125,7 @@ pub mod bit_32 {
                     0b010_0000 => only_rv64(BaseIOpcode::SUBW, isa),
                     _ => Err(DecodingError::InvalidFunct7),
                 },
+                0b001 if funct7 != 0 => Err(DecodingError::InvalidFunct7),
                 0b001 => only_rv64(BaseIOpcode::SLLW, isa),
                 0b101 => match funct7 {
                     0b000_0000 => only_rv64(BaseIOpcode::SRLW, isa),
-- 
2.43.0


From cecb1e5be53b381e0bffd6304febd7a421aa3db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:09 +0000
Subject: [PATCH 05/22] fix: reject ECALL, EBREAK and SFENCE.VMA with nonzero
 fixed fields

The rd field of these instructions has to be zero, and ECALL and EBREAK
need a zero rs1 field as well.
---
 src/decode/base_i.rs         | 4 ++++
 src/decode/priv_extension.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/decode/base_i.rs b/src/decode/base_i.rs
index 1d9c1b6..17ad6c4 100644
--- a/src/decode/base_i.rs
+++ b/src/decode/base_i.rs
@@ -99,6 +99,10 @@ pub mod bit_32 {
             },
             0b111_0011 => match funct3 {
                 0b000 => match funct7 {
+                    // rd and rs1 have to be zero.
+                    0b000_0000 if inst.slice(11, 7) != 0 || inst.slice(19, 15) != 0 => {
+                        Err(DecodingError::IllegalInstruction)
+                    }
                     0b000_0000 => match funct5 {
                         0b00000 => Ok(BaseIOpcode::ECALL),
                         0b00001 => Ok(BaseIOpcode::EBREAK),
diff --git a/src/decode/priv_extension.rs b/src/decode/priv_extension.rs
index 5d18af3..01f084b 100644
--- a/src/decode/priv_extension.rs
+++ b/src/decode/priv_extension.rs
@@ -11,6 +11,8 @@ pub mod bit_32 {
             0b0001_0000_0010_0000_0000_0000_0111_0011 => Ok(PrivOpcode::SRET),
             0b0011_0000_0010_0000_0000_0000_0111_0011 => Ok(PrivOpcode::MRET),
             0b0001_0000_0101_0000_0000_0000_0111_0011 => Ok(PrivOpcode::WFI),
+            // rd has to be zero.
+            _ if inst.slice(11, 7) != 0 => Err(DecodingError::IllegalInstruction),
             _ => match funct7 {
                 0b000_1001 => Ok(PrivOpcode::SFENCE_VMA),
                 _ => Err(DecodingError::InvalidFunct7),
-- 
2.43.0


From 85f53c62a9e9b3f992e19bd65b3d5bc4d84b014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:09 +0000
Subject: [PATCH 06/22] fix: reject LR.W and LR.D with a nonzero rs2 field

---
 src/decode/a_extension.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decode/a_extension.rs b/src/decode/a_extension.rs
index 63468f1..0f1f9b2 100644
--- a/src/decode/a_extension.rs
+++ b/src/decode/a_extension.rs
@@ -9,6 +9,10 @@ pub mod bit_32 {
         let funct7: u8 = u8::try_from(inst.slice(31, 27)).unwrap();
 
         match opmap {
+            // rs2 of lr.w and lr.d has to be zero.
+            0b010_1111 if funct7 == 0b00010 && inst.slice(24, 20) != 0 => {
+                Err(DecodingError::IllegalInstruction)
+            }
             0b010_1111 => match funct3 {
                 0b010 => match funct7 {
                     0b00010 => Ok(AOpcode::LR_W),
-- 
2.43.0


From 625aa55ce5c9156b9b17c282d75d68ac3ffcae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:10 +0000
Subject: [PATCH 07/22] fix: only accept the defined shadow stack encodings

SSPUSH and SSPOPCHK need a zero rd field and only take ra or t0, and
SSRDP needs a nonzero rd. Everything else in that space is a
may-be-operation encoding.
---
 src/decode/zicfiss_extension.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decode/zicfiss_extension.rs b/src/decode/zicfiss_extension.rs
index fab2de4..520d87c 100644
--- a/src/decode/zicfiss_extension.rs
+++ b/src/decode/zicfiss_extension.rs
@@ -5,15 +5,22 @@ pub mod bit_32 {
     pub fn parse_opcode(inst: u32) -> Result<ZicfissOpcode, DecodingError> {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
+        let rd: u8 = u8::try_from(inst.slice(11, 7)).unwrap();
         let rs1: u8 = u8::try_from(inst.slice(19, 15)).unwrap();
         let funct7_rs2: u16 = u16::try_from(inst.slice(31, 20)).unwrap();
 
         match opmap {
             0b111_0011 => match funct3 {
                 0b100 => match funct7_rs2 {
+                    0b1100_1110_0001 | 0b1100_1110_0101 if rd != 0 || rs1 != 0 => {
+                        Err(DecodingError::InvalidOpcode)
+                    }
                     0b1100_1110_0001 | 0b1100_1110_0101 => Ok(ZicfissOpcode::SSPUSH),
                     0b1100_1101_1100 => match rs1 {
+                        0b0_0000 if rd == 0 => Err(DecodingError::InvalidOpcode),
                         0b0_0000 => Ok(ZicfissOpcode::SSRDP),
+                        // sspopchk only takes ra or t0.
+                        _ if rd != 0 || !matches!(rs1, 1 | 5) => Err(DecodingError::InvalidOpcode),
                         _ => Ok(ZicfissOpcode::SSPOPCHK),
                     },
                     _ => Err(DecodingError::InvalidOpcode),
-- 
2.43.0


From 04a0611ecde81afeb44a60189834f2d4e6adb02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:11 +0000
Subject: [PATCH 08/22] fix: return OnlyRv64Inst for SSAMOSWAP.D on Rv32

---
 src/decode/inst_32.rs           | 2 +-
 src/decode/zicfiss_extension.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index 11486ac..3fe2c8d 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -43,7 +43,7 @@ impl Decode for u32 {
                 self,
             )?)),
             Ok(Extensions::Zicfiss) => Ok(OpcodeKind::Zicfiss(
-                zicfiss_extension::bit_32::parse_opcode(self)?,
+                zicfiss_extension::bit_32::parse_opcode(self, isa)?,
             )),
             Ok(Extensions::Zicntr) => Ok(OpcodeKind::Zicntr(
                 zicntr_extension::bit_32::parse_opcode(self)?,
diff --git a/src/decode/zicfiss_extension.rs b/src/decode/zicfiss_extension.rs
index 520d87c..3fca246 100644
--- a/src/decode/zicfiss_extension.rs
+++ b/src/decode/zicfiss_extension.rs
@@ -1,8 +1,9 @@
 pub mod bit_32 {
-    use super::super::{DecodeUtil, DecodingError};
+    use super::super::{only_rv64, DecodeUtil, DecodingError};
     use crate::instruction::zicfiss_extension::ZicfissOpcode;
+    use crate::Isa;
 
-    pub fn parse_opcode(inst: u32) -> Result<ZicfissOpcode, DecodingError> {
+    pub fn parse_opcode(inst: u32, isa: Isa) -> Result<ZicfissOpcode, DecodingError> {
         let opmap: u8 = u8::try_from(inst.slice(6, 0)).unwrap();
         let funct3: u8 = u8::try_from(inst.slice(14, 12)).unwrap();
         let rd: u8 = u8::try_from(inst.slice(11, 7)).unwrap();
@@ -29,7 +30,7 @@ pub mod bit_32 {
             },
             0b010_1111 => match funct3 {
                 0b010 => Ok(ZicfissOpcode::SSAMOSWAP_W),
-                0b011 => Ok(ZicfissOpcode::SSAMOSWAP_D),
+                0b011 => only_rv64(ZicfissOpcode::SSAMOSWAP_D, isa),
                 _ => Err(DecodingError::InvalidFunct3),
             },
             _ => Err(DecodingError::InvalidOpcode),
-- 
2.43.0


From 0f63a551b6e2182ac34f938747a2007b4d183c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:11 +0000
Subject: [PATCH 09/22] fix: decode counter accesses that are not RDCYCLE etc.
 as CSRRS

CSRRS of a counter with a nonzero rs1 lost its source register because
it was decoded as the operand-less counter read. The upper half reads
only exist on Rv32.
---
 src/decode/inst_32.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/decode/inst_32.rs b/src/decode/inst_32.rs
index 3fe2c8d..cc74a37 100644
--- a/src/decode/inst_32.rs
+++ b/src/decode/inst_32.rs
@@ -45,6 +45,12 @@ impl Decode for u32 {
             Ok(Extensions::Zicfiss) => Ok(OpcodeKind::Zicfiss(
                 zicfiss_extension::bit_32::parse_opcode(self, isa)?,
             )),
+            // the upper half counters do not exist on Rv64.
+            Ok(Extensions::Zicntr) if matches!(isa, Isa::Rv64) && self.slice(31, 20) >= 0xc80 => {
+                Ok(OpcodeKind::Zicsr(zicsr_extension::bit_32::parse_opcode(
+                    self,
+                )?))
+            }
             Ok(Extensions::Zicntr) => Ok(OpcodeKind::Zicntr(
                 zicntr_extension::bit_32::parse_opcode(self)?,
             )),
@@ -173,7 +179,9 @@ impl DecodeUtil for u32 {
                 },
                 0b010 => match csr {
                     // csrrs rd, (cycle|time|instret), zero
-                    0xc00..=0xc02 | 0xc80..=0xc82 => Ok(Extensions::Zicntr),
+                    0xc00..=0xc02 | 0xc80..=0xc82 if self.slice(19, 15) == 0 => {
+                        Ok(Extensions::Zicntr)
+                    }
                     _ => Ok(Extensions::Zicsr),
                 },
                 0b100 => Ok(Extensions::Zicfiss),
-- 
2.43.0


From 8b59788b4da681c2495170e5b465ebd6bd0f2e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:12 +0000
Subject: [PATCH 10/22] fix: return the same error for the zero halfword from
 parse_opcode

decode reports it as IllegalInstruction.
---
 src/decode/c_extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index 5b59a6b..5e3dceb 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -96,7 +96,7 @@ pub mod bit_16 {
         let quadrant: u8 = u8::try_from(inst.slice(1, 0)).unwrap();
 
         if inst == 0b0000_0000_0000_0000 {
-            return Err(DecodingError::InvalidOpcode);
+            return Err(DecodingError::IllegalInstruction);
         }
 
         match quadrant {
-- 
2.43.0


From ba9ad5833c20a170b0e8de60e5a4cfdc774c99a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:12 +0000
Subject: [PATCH 11/22] fix: reject reserved compressed encodings

C.ADDI4SPN and C.ADDI16SP with a zero immediate, C.ADDIW, C.LWSP and
C.LDSP with rd=0 and C.JR with rs1=0 are reserved.
---
 src/decode/c_extension.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index 5e3dceb..7d8f064 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -3,8 +3,9 @@ pub mod bit_16 {
     use crate::instruction::c_extension::COpcode;
     use crate::Isa;
 
-    fn quadrant0(_inst: u16, opmap: u8, isa: Isa) -> Result<COpcode, DecodingError> {
+    fn quadrant0(inst: u16, opmap: u8, isa: Isa) -> Result<COpcode, DecodingError> {
         match opmap {
+            0b000 if inst.slice(12, 5) == 0 => Err(DecodingError::IllegalInstruction),
             0b000 => Ok(COpcode::ADDI4SPN),
             0b010 => Ok(COpcode::LW),
             0b011 => only_rv64(COpcode::LD, isa),
@@ -27,10 +28,14 @@ pub mod bit_16 {
             },
             0b001 => match isa {
                 Isa::Rv32 => Ok(COpcode::JAL),
+                Isa::Rv64 if mi_flag == 0 => Err(DecodingError::IllegalInstruction),
                 Isa::Rv64 => Ok(COpcode::ADDIW),
             },
             0b010 => Ok(COpcode::LI),
             0b011 => match mi_flag {
+                0b00010 if bit_12 == 0 && inst.slice(6, 2) == 0 => {
+                    Err(DecodingError::IllegalInstruction)
+                }
                 0b00010 => Ok(COpcode::ADDI16SP),
                 _ => Ok(COpcode::LUI),
             },
@@ -69,10 +74,12 @@ pub mod bit_16 {
 
         match opmap {
             0b000 => Ok(COpcode::SLLI),
+            0b010 | 0b011 if mi_flag == 0 => Err(DecodingError::IllegalInstruction),
             0b010 => Ok(COpcode::LWSP),
             0b011 => only_rv64(COpcode::LDSP, isa),
             0b100 => match hi_flag {
                 0b0 => match lo_flag {
+                    0b0 if mi_flag == 0 => Err(DecodingError::IllegalInstruction),
                     0b0 => Ok(COpcode::JR),
                     _ => Ok(COpcode::MV),
                 },
-- 
2.43.0


From 81b4f9b11c3f8601dc5833b2a102c022c79c5a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:13 +0000
Subject: [PATCH 12/22] fix: reject compressed shifts by 32 or more on Rv32

---
 src/decode/c_extension.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index 7d8f064..0cf8aad 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -40,6 +40,9 @@ pub mod bit_16 {
                 _ => Ok(COpcode::LUI),
             },
             0b100 => match sr_flag {
+                0b00 | 0b01 if bit_12 == 1 && matches!(isa, Isa::Rv32) => {
+                    Err(DecodingError::OnlyRv64Inst)
+                }
                 0b00 => Ok(COpcode::SRLI),
                 0b01 => Ok(COpcode::SRAI),
                 0b10 => Ok(COpcode::ANDI),
@@ -73,6 +76,7 @@ pub mod bit_16 {
         let hi_flag: u8 = u8::try_from(inst.slice(12, 12)).unwrap();
 
         match opmap {
+            0b000 if hi_flag == 1 => only_rv64(COpcode::SLLI, isa),
             0b000 => Ok(COpcode::SLLI),
             0b010 | 0b011 if mi_flag == 0 => Err(DecodingError::IllegalInstruction),
             0b010 => Ok(COpcode::LWSP),
-- 
2.43.0


From 57f4035bd95ff23161010ce15ef0fc2a1118c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:14 +0000
Subject: [PATCH 13/22] fix: decode C.ADD hints with rd=0 as C.ADD instead of
 C.EBREAK

---
 src/decode/c_extension.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode/c_extension.rs b/src/decode/c_extension.rs
index 0cf8aad..77c1643 100644
--- a/src/decode/c_extension.rs
+++ b/src/decode/c_extension.rs
@@ -88,7 +88,8 @@ pub mod bit_16 {
                     _ => Ok(COpcode::MV),
                 },
                 0b1 => match mi_flag {
-                    0b0 => Ok(COpcode::EBREAK),
+                    // c.add with rd=0 is a hint.
+                    0b0 if lo_flag == 0 => Ok(COpcode::EBREAK),
                     _ => match lo_flag {
                         0b0 => Ok(COpcode::JALR),
                         _ => Ok(COpcode::ADD),
-- 
2.43.0


From 273f2bedf3befcb1a1b2d30e51d3fcb116b5fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:14 +0000
Subject: [PATCH 14/22] fix: give LR.D the same format as LR.W

---
 src/instruction/a_extension.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/instruction/a_extension.rs b/src/instruction/a_extension.rs
index 0cb6e43..0ef3402 100644
--- a/src/instruction/a_extension.rs
+++ b/src/instruction/a_extension.rs
@@ -65,7 +65,7 @@ impl Display for AOpcode {
 impl Opcode for AOpcode {
     fn get_format(&self) -> InstFormat {
         match self {
-            AOpcode::LR_W => InstFormat::ALrFormat,
+            AOpcode::LR_W | AOpcode::LR_D => InstFormat::ALrFormat,
             AOpcode::SC_W
             | AOpcode::AMOSWAP_W
             | AOpcode::AMOADD_W
@@ -76,7 +76,6 @@ impl Opcode for AOpcode {
             | AOpcode::AMOMAX_W
             | AOpcode::AMOMINU_W
             | AOpcode::AMOMAXU_W
-            | AOpcode::LR_D
             | AOpcode::SC_D
             | AOpcode::AMOSWAP_D
             | AOpcode::AMOADD_D
-- 
2.43.0


From e3bd0e772383bf1f97246420c4caeb930758c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:15 +0000
Subject: [PATCH 15/22] fix: swap the formats of SSPUSH and SSPOPCHK

SSPUSH takes its register in rs2 and SSPOPCHK in rs1. Printing a decoded
SSPOPCHK panicked and SSPUSH printed the wrong register.
---
 src/instruction.rs                   | 4 ++--
 src/instruction/zicfiss_extension.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index e96591b..3b5a329 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -417,13 +417,13 @@ pub enum InstFormat {
 
     /// Only rs1 name
     /// ```ignore
-    /// sspush ra
+    /// sspopchk t0
     /// ```
     OnlyRs1,
 
     /// Only rs2 name
     /// ```ignore
-    /// sspopchk t0
+    /// sspush ra
     /// ```
     OnlyRs2,
 }
diff --git a/src/instruction/zicfiss_extension.rs b/src/instruction/zicfiss_extension.rs
index b3ccb51..c3ce341 100644
--- a/src/instruction/zicfiss_extension.rs
+++ b/src/instruction/zicfiss_extension.rs
@@ -40,8 +40,8 @@ impl Display for ZicfissOpcode {
 impl Opcode for ZicfissOpcode {
     fn get_format(&self) -> InstFormat {
         match self {
-            ZicfissOpcode::SSPUSH => InstFormat::OnlyRs1,
-            ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs2,
+            ZicfissOpcode::SSPUSH => InstFormat::OnlyRs2,
+            ZicfissOpcode::SSPOPCHK => InstFormat::OnlyRs1,
             ZicfissOpcode::SSRDP => InstFormat::OnlyRd,
             ZicfissOpcode::SSAMOSWAP_W | ZicfissOpcode::SSAMOSWAP_D => InstFormat::AFormat,
             ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK => InstFormat::NoOperand,
-- 
2.43.0


From d4ca767448fcd055829307434815a465ce273f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:51 +0000
Subject: [PATCH 16/22] fix: correct the mnemonics of MULHSU and FENCE

MULHSU had a trailing comma and the FENCE opcode printed as fence.i.
---
 src/instruction/m_extension.rs        | 2 +-
 src/instruction/zifencei_extension.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instruction/m_extension.rs b/src/instruction/m_extension.rs
index 97d6eb3..8589422 100644
--- a/src/instruction/m_extension.rs
+++ b/src/instruction/m_extension.rs
@@ -29,7 +29,7 @@ impl Display for MOpcode {
         match self {
             MOpcode::MUL => write!(f, "mul"),
             MOpcode::MULH => write!(f, "mulh"),
-            MOpcode::MULHSU => write!(f, "mulhsu,"),
+            MOpcode::MULHSU => write!(f, "mulhsu"),
             MOpcode::MULHU => write!(f, "mulhu"),
             MOpcode::DIV => write!(f, "div"),
             MOpcode::DIVU => write!(f, "divu"),
diff --git a/src/instruction/zifencei_extension.rs b/src/instruction/zifencei_extension.rs
index cba0e63..47f2e60 100644
--- a/src/instruction/zifencei_extension.rs
+++ b/src/instruction/zifencei_extension.rs
@@ -13,7 +13,7 @@ pub enum ZifenceiOpcode {
 impl Display for ZifenceiOpcode {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
-            ZifenceiOpcode::FENCE => write!(f, "fence.i"),
+            ZifenceiOpcode::FENCE => write!(f, "fence"),
         }
     }
 }
-- 
2.43.0


From 0c7c7defef5dbe81acb57ff737048f054c8542e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:51 +0000
Subject: [PATCH 17/22] fix: print SFENCE.VMA, C.SSPUSH and C.SSPOPCHK without
 panicking

---
 src/instruction.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/instruction.rs b/src/instruction.rs
index 3b5a329..ebf9f81 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -47,6 +47,15 @@ impl Display for Instruction {
     #[allow(clippy::too_many_lines)]
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self.inst_format {
+            InstFormat::RFormat if matches!(self.opc, OpcodeKind::Priv(PrivOpcode::SFENCE_VMA)) => {
+                write!(
+                    f,
+                    "{} {}, {}",
+                    self.opc,
+                    reg2str(self.rs1.unwrap()),
+                    reg2str(self.rs2.unwrap())
+                )
+            }
             InstFormat::RFormat | InstFormat::MFormat => {
                 write!(
                     f,
@@ -215,6 +224,7 @@ impl Display for Instruction {
                 OpcodeKind::BaseI(BaseIOpcode::ECALL | BaseIOpcode::EBREAK)
                 | OpcodeKind::Zifencei(ZifenceiOpcode::FENCE)
                 | OpcodeKind::C(COpcode::NOP | COpcode::EBREAK)
+                | OpcodeKind::Zicfiss(ZicfissOpcode::C_SSPUSH | ZicfissOpcode::C_SSPOPCHK)
                 | OpcodeKind::Priv(
                     PrivOpcode::MRET | PrivOpcode::SRET | PrivOpcode::WFI | PrivOpcode::SFENCE_VMA,
                 ) => write!(f, "{}", self.opc),
-- 
2.43.0


From 67e1662f5afcc1f0cea42ddad034396fc1831b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:52 +0000
Subject: [PATCH 18/22] fix: print the shift amount of immediate shifts

---
 src/instruction.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index ebf9f81..3f59155 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -86,10 +86,11 @@ impl Display for Instruction {
             InstFormat::RShamtFormat => {
                 write!(
                     f,
-                    "{} {}, {}",
+                    "{} {}, {}, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     reg2str(self.rs1.unwrap()),
+                    self.imm.unwrap()
                 )
             }
             InstFormat::ClFormat | InstFormat::ALrFormat | InstFormat::IFormat => write!(
@@ -285,7 +286,7 @@ pub enum InstFormat {
 
     /// Regular format with shamt
     /// ```ignore
-    /// srai rd, rs1
+    /// srai rd, rs1, shamt
     /// ```
     RShamtFormat,
 
-- 
2.43.0


From 3ee061ea4907d8f4ef87f3ad62f3370b678c9fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:52 +0000
Subject: [PATCH 19/22] fix: print the operands of stores and branches in
 assembly order

Stores swapped the base and source registers, and branches were printed
like stores. The InstFormat documentation already shows this order.
---
 src/instruction.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 3f59155..29f797b 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -101,13 +101,21 @@ impl Display for Instruction {
                 reg2str(self.rs1.unwrap()),
                 self.imm.unwrap()
             ),
-            InstFormat::CsFormat | InstFormat::SFormat | InstFormat::BFormat => write!(
+            InstFormat::CsFormat | InstFormat::SFormat => write!(
                 f,
                 "{} {}, {}({})",
                 self.opc,
-                reg2str(self.rs1.unwrap()),
+                reg2str(self.rs2.unwrap()),
                 self.imm.unwrap(),
+                reg2str(self.rs1.unwrap()),
+            ),
+            InstFormat::BFormat => write!(
+                f,
+                "{} {}, {}, {}",
+                self.opc,
+                reg2str(self.rs1.unwrap()),
                 reg2str(self.rs2.unwrap()),
+                self.imm.unwrap(),
             ),
             InstFormat::CiwFormat => {
                 write!(
-- 
2.43.0


From 01236cd3a989173fc07287eddc43626cc4df532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:53 +0000
Subject: [PATCH 20/22] fix: print the memory operand of loads and LR as
 imm(rs1)

Loads were printed like ADDI, and LR.W with its ordering bits as an
immediate.
---
 src/instruction.rs | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 29f797b..4575127 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -93,7 +93,46 @@ impl Display for Instruction {
                     self.imm.unwrap()
                 )
             }
-            InstFormat::ClFormat | InstFormat::ALrFormat | InstFormat::IFormat => write!(
+            InstFormat::ALrFormat => write!(
+                f,
+                "{} {}, ({})",
+                self.opc,
+                reg2str(self.rd.unwrap()),
+                reg2str(self.rs1.unwrap()),
+            ),
+            InstFormat::ClFormat => write!(
+                f,
+                "{} {}, {}({})",
+                self.opc,
+                reg2str(self.rd.unwrap()),
+                self.imm.unwrap(),
+                reg2str(self.rs1.unwrap()),
+            ),
+            InstFormat::IFormat
+                if matches!(
+                    self.opc,
+                    OpcodeKind::BaseI(
+                        BaseIOpcode::LB
+                            | BaseIOpcode::LH
+                            | BaseIOpcode::LW
+                            | BaseIOpcode::LD
+                            | BaseIOpcode::LBU
+                            | BaseIOpcode::LHU
+                            | BaseIOpcode::LWU
+                            | BaseIOpcode::JALR
+                    )
+                ) =>
+            {
+                write!(
+                    f,
+                    "{} {}, {}({})",
+                    self.opc,
+                    reg2str(self.rd.unwrap()),
+                    self.imm.unwrap(),
+                    reg2str(self.rs1.unwrap()),
+                )
+            }
+            InstFormat::IFormat => write!(
                 f,
                 "{} {}, {}, {}",
                 self.opc,
-- 
2.43.0


From a251d1ba81846dc65e5d155e95ce5ffb7c44b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:53 +0000
Subject: [PATCH 21/22] fix: print the operands of atomics in assembly order

---
 src/instruction.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 4575127..91cdf72 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -66,23 +66,16 @@ impl Display for Instruction {
                     reg2str(self.rs2.unwrap())
                 )
             }
-            InstFormat::AFormat => match self.opc {
-                OpcodeKind::A(AOpcode::LR_W | AOpcode::LR_D) => write!(
-                    f,
-                    "{} {}, {}",
-                    self.opc,
-                    reg2str(self.rd.unwrap()),
-                    reg2str(self.rs1.unwrap()),
-                ),
-                _ => write!(
+            InstFormat::AFormat => {
+                write!(
                     f,
-                    "{} {}, {}, {}",
+                    "{} {}, {}, ({})",
                     self.opc,
                     reg2str(self.rd.unwrap()),
-                    reg2str(self.rs1.unwrap()),
-                    reg2str(self.rs2.unwrap())
-                ),
-            },
+                    reg2str(self.rs2.unwrap()),
+                    reg2str(self.rs1.unwrap())
+                )
+            }
             InstFormat::RShamtFormat => {
                 write!(
                     f,
-- 
2.43.0


From 71c32206c917438f0cac3c240737694621525cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:54 +0000
Subject: [PATCH 22/22] fix: print the operands of compressed instructions in
 assembly syntax

The CB format printed a register number instead of its name and left out
the destination of the shifts. C.LI and C.LUI repeated their destination,
C.LWSP and C.LDSP did too and left out sp. C.ADDI4SPN printed its
immediate in hexadecimal without a prefix.
---
 src/instruction.rs | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/instruction.rs b/src/instruction.rs
index 91cdf72..05444cb 100644
--- a/src/instruction.rs
+++ b/src/instruction.rs
@@ -152,7 +152,7 @@ impl Display for Instruction {
             InstFormat::CiwFormat => {
                 write!(
                     f,
-                    "{} {}, sp, {:x}",
+                    "{} {}, sp, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     self.imm.unwrap()
@@ -179,16 +179,30 @@ impl Display for Instruction {
             InstFormat::CjFormat => {
                 write!(f, "{} {}", self.opc, self.imm.unwrap())
             }
-            InstFormat::CiFormat => {
-                write!(
+            InstFormat::CiFormat => match self.opc {
+                OpcodeKind::C(COpcode::LI | COpcode::LUI) => write!(
+                    f,
+                    "{} {}, {}",
+                    self.opc,
+                    reg2str(self.rd.unwrap()),
+                    self.imm.unwrap()
+                ),
+                OpcodeKind::C(COpcode::LWSP | COpcode::LDSP) => write!(
+                    f,
+                    "{} {}, {}(sp)",
+                    self.opc,
+                    reg2str(self.rd.unwrap()),
+                    self.imm.unwrap()
+                ),
+                _ => write!(
                     f,
                     "{} {}, {}, {}",
                     self.opc,
                     reg2str(self.rd.unwrap()),
                     reg2str(self.rd.unwrap()),
                     self.imm.unwrap()
-                )
-            }
+                ),
+            },
             InstFormat::CrFormat => match self.opc {
                 OpcodeKind::C(COpcode::JR) => {
                     write!(f, "{} zero, 0({})", self.opc, reg2str(self.rs1.unwrap()),)
@@ -223,15 +237,23 @@ impl Display for Instruction {
                     reg2str(self.rs2.unwrap())
                 )
             }
-            InstFormat::CbFormat => {
-                write!(
+            InstFormat::CbFormat => match self.opc {
+                OpcodeKind::C(COpcode::SRLI | COpcode::SRAI | COpcode::ANDI) => write!(
+                    f,
+                    "{} {}, {}, {}",
+                    self.opc,
+                    reg2str(self.rd.unwrap()),
+                    reg2str(self.rd.unwrap()),
+                    self.imm.unwrap(),
+                ),
+                _ => write!(
                     f,
                     "{} {}, {}",
                     self.opc,
-                    self.rs1.unwrap(),
+                    reg2str(self.rs1.unwrap()),
                     self.imm.unwrap(),
-                )
-            }
+                ),
+            },
             InstFormat::CsrFormat => {
                 write!(
                     f,
-- 
2.43.0

