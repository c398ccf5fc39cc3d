From 024a13dfd18b3cbd07a5ddfa2cb54b3276eb1e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:48 +0000
Subject: [PATCH 01/44] fix: reading the signed value of, or inverting, a
 bitstring must not change it

---
 cmdis/bitstring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index ec8b7f9..d790986 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -77,7 +77,7 @@ class bitstring(object):
         w1 = self._width - 1
         s = (self._value >> w1) & 1
         if s:
-            v = -(self.invert().value & ((1 << w1) - 1)) - 1
+            v = -(self.inverted.value & ((1 << w1) - 1)) - 1
         else:
             v = self._value & ((1 << w1) - 1)
         return v
@@ -510,7 +510,7 @@ class bitstring(object):
         return self
 
     def __invert__(self):
-        return self.invert()
+        return self.inverted
 
     def __hex__(self):
         return "%d'h%0*x" % (self._width, (self._width + 3) // 4, self._value)
-- 
2.43.0


From bae3a2658f64ebb71b582a2c13c12f0b11c1b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:48 +0000
Subject: [PATCH 02/44] fix: truth value of a bitstring is its value under
 Python 3 too

---
 cmdis/bitstring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index d790986..7dada25 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -185,6 +185,9 @@ class bitstring(object):
     def __ge__(self, other):
         return not self.__lt__(other)
 
+    def __bool__(self):
+        return self._value != 0
+
     def __nonzero__(self):
         return self._value != 0
 
-- 
2.43.0


From 1fe006fab450b77874cfd982d77daff6fed21ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:09 +0000
Subject: [PATCH 03/44] fix: undefined words under a decoder tree node raise
 UndefinedInstructionError

Looking up a missing key in the defaultdict inserted an empty list, which
was then used as a tree node (AttributeError).
---
 cmdis/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index e8c9a0b..4329047 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -171,7 +171,7 @@ class DecoderTree(object):
         for k, subdecoders in children.items():
             children[k] = self._build_tree(subdecoders)
 
-        return DecoderTreeNode(mask=commonMask, children=children)
+        return DecoderTreeNode(mask=commonMask, children=dict(children))
 
     def dump(self, t=None, depth=0):
         if t is None:
-- 
2.43.0


From c722e0e8ec44b491e8273203d3df9293f62ad30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:09 +0000
Subject: [PATCH 04/44] fix: too little data for a halfword is an undefined
 instruction, not an assertion

---
 cmdis/decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 4329047..024c35c 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -112,7 +112,8 @@ class DecoderTree(object):
     def decode(self, data, dataAddress=0):
         # Figure out if this is a 16-bit or 32-bit instruction and select the
         # appropriate decoder tree.
-        assert len(data) >= 2
+        if len(data) < 2:
+            raise UndefinedInstructionError()
         hw1 = bytes_to_le16(data)
         is32bit = hw1 & self._32bitMask in self._32bitPrefixes
         if is32bit:
-- 
2.43.0


From f649b4a4307c7577413f08aeca85e7f152d9def0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:09 +0000
Subject: [PATCH 05/44] fix: push.w (T2) decoding raised NameError

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2c6a65f..2189201 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -795,7 +795,7 @@ def push_t1(i, M, reglist):
 
 @instr("push.w", Push, "11101 00 100 1 0 1101", "0 M 0 reglist(13)")
 def push_t2(i, M, reglist):
-    i.registers = bit0 % M % bit0 % reglsit
+    i.registers = bit0 % M % bit0 % reglist
     i.unaligned_allowed = False
     if i.registers.bit_count() == 0:
         raise UnpredictableError()
-- 
2.43.0


From 19de76165fd0bdac7751e8bfa0566f4220f523b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:09 +0000
Subject: [PATCH 06/44] fix: register compares use Rm, not Rn, as the second
 operand

---
 cmdis/instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2189201..de242ee 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -477,14 +477,14 @@ def cmp1(i, Rn, imm8):
 @instr("cmn", Compare, "010000 1011 Rm(3) Rn(3)", negate=False)
 def cmp3(i, Rm, Rn):
     i.n = Rn.unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
 @instr("cmp", Compare, "010001 01 N Rm(4) Rn(3)")
 def cmp4(i, N, Rm, Rn):
     i.n = (N % Rn).unsigned
-    i.m = Rn.unsigned
+    i.m = Rm.unsigned
     i.operands = [RegisterOperand(i.n), RegisterOperand(i.m)]
 
 # TODO test
-- 
2.43.0


From 66fea3f5d70354bdc139e2b9c27664bf17939ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:09 +0000
Subject: [PATCH 07/44] fix: mvn.w execution raised NameError

---
 cmdis/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index de242ee..c805948 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -426,7 +426,7 @@ def mvn(i, Rm, Rd):
 
 class ShiftedMoveNegate(DataProcessing):
     def _eval(self, cpu):
-        shifted, carry = Shift_C(cpu.r[i.m], i.shift_t, i.shift_n, cpu.apsr.c)
+        shifted, carry = Shift_C(cpu.r[self.m], self.shift_t, self.shift_n, cpu.apsr.c)
         result = ~shifted
         cpu.r[self.d] = result
         self._set_flags(cpu, result, carry, None)
-- 
2.43.0


From 101bd364c9e2367a5dc11c81f5ff4625461373a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:09 +0000
Subject: [PATCH 08/44] fix: ASR by zero raised NameError

---
 cmdis/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/helpers.py b/cmdis/helpers.py
index 30c1278..1809071 100644
--- a/cmdis/helpers.py
+++ b/cmdis/helpers.py
@@ -76,7 +76,7 @@ def ASR_C(x, shift):
 def ASR(x, shift):
     assert shift >= 0
     if shift == 0:
-        result = c
+        result = x
     else:
         result, _ = ASR_C(x, shift)
     return result
-- 
2.43.0


From 75a31bacd92b1a672a194ddd418ff513ca076c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 09/44] fix: movs.w with a rotated immediate sets C from the
 expanded immediate

---
 cmdis/instructions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index c805948..f84b804 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -356,6 +356,7 @@ class Move(DataProcessing):
     def __init__(self, mnemonic, word, is32bit):
         super(Move, self).__init__(mnemonic, word, is32bit)
         self.negate = False
+        self.carry = None
 
     def _eval(self, cpu):
         if hasattr(self, 'm'):
@@ -367,7 +368,7 @@ class Move(DataProcessing):
         if self.negate:
             result = ~result
         cpu.r[self.d] = result
-        self._set_flags(cpu, result, cpu.apsr.c, None)
+        self._set_flags(cpu, result, self.carry, None)
         cpu.pc += self.size
 
 @instr("mov", Move, "010001 10 D Rm(4) Rd(3)")
@@ -405,7 +406,8 @@ def mov2(i, im, S, imm3, Rd, imm8):
     i._mnemonic += "s.w" if S else ".w"
     i.d = Rd.unsigned
     i.setflags = (SetFlags.Never, SetFlags.Always)[S.unsigned]
-    i.imm32, i.carry = ThumbExpandImm_C(im % imm3 % imm8, bit0) # TODO deal with carry_in
+    # The carry is None, that is left unchanged, if the immediate is not rotated.
+    i.imm32, i.carry = ThumbExpandImm_C(im % imm3 % imm8, None)
     i.operands = [RegisterOperand(i.d), ImmediateOperand(i.imm32.unsigned)]
 
 # TODO test
-- 
2.43.0


From 333c2d09ffdcb95c74cd36b74aabb498e4b8149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:33 +0000
Subject: [PATCH 10/44] fix: blx lr branches to the value LR had before the
 instruction

---
 cmdis/instructions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index f84b804..9d6ae61 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -561,17 +561,18 @@ class Branch(Instruction):
         # TODO deal with pc + 4
         if self.cond.expr(cpu.apsr):
             next_instr = cpu.pc_for_instr + self.pc_delta
-            if self.with_link:
-                cpu.lr = next_instr | 1
-
             if hasattr(self, 'm'):
                 # Branch to register
                 target = bitstring(cpu.r[self.m])
                 target[0] = 0 # clear T bit
-                cpu.pc = target
             else:
                 # Branch to immediate offset
-                cpu.pc = next_instr + self.imm32
+                target = next_instr + self.imm32
+
+            # The target must be read first, it may be in LR.
+            if self.with_link:
+                cpu.lr = next_instr | 1
+            cpu.pc = target
         else:
             cpu.pc += self.size
 
-- 
2.43.0


From cd28745f75cd3f3d82b5f26963de6e9139209ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 11/44] fix: mrs of the APSR raised TypeError

---
 cmdis/instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 9d6ae61..2d27f51 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -941,9 +941,9 @@ class MoveFromSpecial(Instruction):
                 r[24:27] = '000' # EPSR reads as zero
                 r[10:16] = '000000'
             if self.SYSm[2] == '0':
-                r[27:32] = cpu.apsr[27:32]
+                r[27:32] = cpu.xpsr[27:32]
                 if cpu.has_dsp_ext:
-                    r[16:20] = cpu.apsr[16:20]
+                    r[16:20] = cpu.xpsr[16:20]
         elif self.SYSm[3:8] == '00001': # SP access
             if cpu.is_privileged:
                 if self.SYSm[0:3] == '000':
-- 
2.43.0


From c7141854368b3ef5739d0a9b55c1fc22d3e9be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 12/44] fix: the IPSR is the low 9 bits of the xPSR

---
 cmdis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index d83504b..bab1a17 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -212,7 +212,7 @@ class CpuModel(object):
 
     @property
     def ipsr(self):
-        return self.xpsr[0:6]
+        return self.xpsr[0:9]
 
     @property
     def r(self):
-- 
2.43.0


From 177595d38dc01b7a9fb961b092e29de5f4cab2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 13/44] fix: msr with mask '11' is printed with its _nzcvqg
 suffix

The mask '11' compares equal to -1, the marker for no mask.
---
 cmdis/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index b509696..250e706 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -148,7 +148,7 @@ class CpsOperand(Operand):
         return result
 
 class SpecialRegisterOperand(Operand):
-    def __init__(self, spec, mask=-1):
+    def __init__(self, spec, mask=None):
         self._spec = spec
         self._mask = mask
 
@@ -171,7 +171,7 @@ class SpecialRegisterOperand(Operand):
                 result = "EPSR"
             elif lower == '111':
                 result = "IEPSR"
-            if lower < 4 and self._mask != -1:
+            if lower < 4 and self._mask is not None:
                 if self._mask == '10':
                     result += '_nzcvq'
                 elif self._mask == '01':
-- 
2.43.0


From 2307a9782d2ff0aefbec71c41a4efb2111cb56f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 14/44] fix: printed label addresses are the ones the
 instruction computes

adr uses the word-aligned PC, the subtracting adr.w has a negative offset,
and addresses wrap at 32 bits.
---
 cmdis/formatter.py    | 12 +++++++++---
 cmdis/instructions.py |  5 +++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/cmdis/formatter.py b/cmdis/formatter.py
index 250e706..2822403 100755
--- a/cmdis/formatter.py
+++ b/cmdis/formatter.py
@@ -80,15 +80,21 @@ class ImmediateOperand(Operand):
         return "#%d" % self._imm
 
 class LabelOperand(Operand):
-    def __init__(self, offset):
+    def __init__(self, offset, align=False):
         self._offset = offset
+        self._align = align
 
     def format(self, formatter):
+        address = formatter.instruction.address
+        base = address + 4
+        if self._align:
+            base &= ~3
+
         # Add a comment with the absolute address of the label.
-        comment = "0x%x" % (formatter.instruction.address + 4 + self._offset)
+        comment = "0x%x" % ((base + self._offset) & 0xffffffff)
         formatter.add_comment(comment)
 
-        return ".%+d" % (self._offset + 4)
+        return ".%+d" % (base + self._offset - address)
 
 class ShiftRotateOperand(Operand):
     OP_NAMES = ["None",
diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 2d27f51..b33c65f 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -267,14 +267,15 @@ def adr_t1(i, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (imm8 % '00').zero_extend(32)
     i.add = True
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned, align=True)]
 
 @instr("adr.w", AddressToRegister, "11110 im 10101 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=False)
 @instr("adr.w", AddressToRegister, "11110 im 10000 0 1111", "0 imm3(3) Rd(4) imm8(8)", add=True)
 def adr_t2(i, im, imm3, Rd, imm8):
     i.d = Rd.unsigned
     i.imm32 = (im % imm3 % imm8).zero_extend(32)
-    i.operands = [RegisterOperand(i.d), LabelOperand(i.imm32.unsigned)]
+    i.operands = [RegisterOperand(i.d), LabelOperand(
+        i.imm32.unsigned if i.add else -i.imm32.unsigned, align=True)]
 
 # ------------------------------ Sign/unsigned extend instructions ------------------------------
 
-- 
2.43.0


From c3ad9902019766bec12a88db22f7a0a2f4ae56f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 15/44] fix: bitstring(1 << 32) is 64 bits wide, not a 32-bit
 zero

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 7dada25..12ab908 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -33,7 +33,7 @@ class bitstring(object):
             self._value = val._value
         elif isinstance(val, six.integer_types):
             # Integer.
-            self._width = 64 if (val > (1 << 32)) else 32
+            self._width = 64 if (val >= (1 << 32)) else 32
             self._value = val
         elif isinstance(val, six.string_types):
             # String.
-- 
2.43.0


From 4ca8080893b27ca883ce3e738ed5179300041337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 16/44] fix: bitstring from a bytearray takes its bytes, not
 its items as bits; empty sequences work

---
 cmdis/bitstring.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 12ab908..854f0df 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -39,17 +39,17 @@ class bitstring(object):
             # String.
             self._width = len(val)
             self._value = int(val, base=2)
-        elif isinstance(val, collections.Sequence):
-            # Iterable.
-            # TODO support iterables of '0','1' as well as ints
-            self._width = len(val)
-            self._value = functools.reduce(lambda x,y:(x << 1) | y, val)
         elif isinstance(val, bytearray):
-            # Little endian byte array.
+            # Little endian byte array. (A bytearray is a Sequence, too.)
             self._width = len(val) * 8
             self._value = 0
             for i,b in enumerate(val):
                 self._value |= b << (i * 8)
+        elif isinstance(val, collections.Sequence):
+            # Iterable.
+            # TODO support iterables of '0','1' as well as ints
+            self._width = len(val)
+            self._value = functools.reduce(lambda x,y:(x << 1) | y, val, 0)
         else:
             raise TypeError("value type is not supported")
 
-- 
2.43.0


From daff1686a688eb49de535aff9f4a2708fc28e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 17/44] fix: empty text makes an empty bitstring, as in
 zeros(0)

---
 cmdis/bitstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 854f0df..fb066d2 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -38,7 +38,7 @@ class bitstring(object):
         elif isinstance(val, six.string_types):
             # String.
             self._width = len(val)
-            self._value = int(val, base=2)
+            self._value = int(val, base=2) if val else 0
         elif isinstance(val, bytearray):
             # Little endian byte array. (A bytearray is a Sequence, too.)
             self._width = len(val) * 8
-- 
2.43.0


From 3b8e0d62a6af8fbc8fcf98adea9a7c66a8794c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 18/44] fix: a bitstring differs from, and is not ordered with,
 an object of another type

---
 cmdis/bitstring.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index fb066d2..44cfcdf 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -160,7 +160,8 @@ class bitstring(object):
                 if isinstance(other, bitstring) else NotImplemented
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        result = self.__eq__(other)
+        return result if result is NotImplemented else not result
 
     def __lt__(self, other):
         if isinstance(other, six.integer_types):
@@ -177,13 +178,16 @@ class bitstring(object):
                 if isinstance(other, bitstring) else NotImplemented
 
     def __le__(self, other):
-        return self.__eq__(other) or self.__lt__(other)
+        result = self.__eq__(other)
+        return self.__lt__(other) if (result is NotImplemented or not result) else result
 
     def __gt__(self, other):
-        return not self.__le__(other)
+        result = self.__le__(other)
+        return result if result is NotImplemented else not result
 
     def __ge__(self, other):
-        return not self.__lt__(other)
+        result = self.__lt__(other)
+        return result if result is NotImplemented else not result
 
     def __bool__(self):
         return self._value != 0
-- 
2.43.0


From fcf048d8d635a619263dabe565aa5abaf54a11e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 19/44] fix: bitstring arithmetic with an unsupported type is a
 TypeError, not a no-op

---
 cmdis/bitstring.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 44cfcdf..6756a05 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -332,29 +332,19 @@ class bitstring(object):
         return self
 
     def __add__(self, other):
-        b = bitstring(self)
-        b.__iadd__(other)
-        return b
+        return bitstring(self).__iadd__(other)
 
     def __sub__(self, other):
-        b = bitstring(self)
-        b.__isub__(other)
-        return b
+        return bitstring(self).__isub__(other)
 
     def __mul__(self, other):
-        b = bitstring(self)
-        b.__imul__(other)
-        return b
+        return bitstring(self).__imul__(other)
 
     def __floordiv__(self, other):
-        b = bitstring(self)
-        b.__ifloordiv__(other)
-        return b
+        return bitstring(self).__ifloordiv__(other)
 
     def __mod__(self, other):
-        b = bitstring(self)
-        b.__imod__(other)
-        return b
+        return bitstring(self).__imod__(other)
 
     def __lshift__(self, other):
         if isinstance(other, six.integer_types):
-- 
2.43.0


From 7068ec1557ee4117f81f38275380cdd4a8e7a447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 20/44] fix: extending a bitstring to its own width makes a
 copy, like any other extension

---
 cmdis/bitstring.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index 6756a05..e1ea9d3 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -313,7 +313,7 @@ class bitstring(object):
         if width < self._width:
             raise ValueError("new width is smaller than current")
         elif width == self._width:
-            return self
+            return bitstring(self)
         w1 = self._width - 1
         s = (self._value >> w1) & 1
         d = width - self._width
@@ -323,8 +323,6 @@ class bitstring(object):
     def zero_extend(self, width):
         if width < self._width:
             raise ValueError("new width is smaller than current")
-        elif width == self._width:
-            return self
         return bitstring(self, width)
 
     def invert(self):
-- 
2.43.0


From d9dd1de22baf7ecc2931830160fafa409a40406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 21/44] fix: bfx and bfi of a field that ends at bit 0

---
 cmdis/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index 941a8eb..de6c8cc 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -139,13 +139,13 @@ def invert32(value):
 
 ## @brief Extract a value from a bitfield.
 def bfx(value, msb, lsb=None):
-    lsb = lsb or msb
+    lsb = msb if lsb is None else lsb
     mask = bitmask((msb, lsb))
     return (value & mask) >> lsb
 
 ## @brief Change a bitfield value.
 def bfi(value, field, msb, lsb=None):
-    lsb = lsb or msb
+    lsb = msb if lsb is None else lsb
     mask = bitmask((msb, lsb))
     value &= ~mask
     value |= (field << lsb) & mask
-- 
2.43.0


From c2450b3403b204d4c9b0499c4031656c03c7a0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 22/44] fix: byteListToU32leList under Python 3

---
 cmdis/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index de6c8cc..66df0ad 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -49,7 +49,7 @@ def le32_to_bytes(value, offset=0):
 def byteListToU32leList(data):
     """Convert a list of bytes to a list of 32-bit integers (little endian)"""
     res = []
-    for i in range(len(data) / 4):
+    for i in range(len(data) // 4):
         res.append(data[i * 4 + 0] |
                    data[i * 4 + 1] << 8 |
                    data[i * 4 + 2] << 16 |
-- 
2.43.0


From e185fe5324e25792846f6d981b523b074ede005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 23/44] fix: float conversions raised NameError

---
 cmdis/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/utilities.py b/cmdis/utilities.py
index 66df0ad..63fadd2 100644
--- a/cmdis/utilities.py
+++ b/cmdis/utilities.py
@@ -14,6 +14,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import struct
+
 ## @brief Compute the hamming weight, or number of 1s, of the argument.
 def hamming_weight(v):
     weight = 0
-- 
2.43.0


From ae9903e22b8b010b97cc9610998c673dc4034a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 24/44] fix: float registers can be read through cpu.s;
 negative register indices are out of range

---
 cmdis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index bab1a17..50d27ef 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -31,13 +31,13 @@ class RegistersInterface(object):
 
     def __getitem__(self, key):
         index = self._first + key
-        if self._first + index > self._last:
+        if not (self._first <= index <= self._last):
             raise KeyError("out of range register index %d" % key)
-        return self._cpu.read_register(self._first + index)
+        return self._cpu.read_register(index)
 
     def __setitem__(self, key, value):
         index = self._first + key
-        if index > self._last:
+        if not (self._first <= index <= self._last):
             raise KeyError("out of range register index %d" % key)
         self._cpu.write_register(index, value)
 
-- 
2.43.0


From 57c5f21ca65ca1e15264216f98700fad4ff4b8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 25/44] fix: registers are 32 bits wide

---
 cmdis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/model.py b/cmdis/model.py
index 50d27ef..fef10b4 100644
--- a/cmdis/model.py
+++ b/cmdis/model.py
@@ -225,14 +225,14 @@ class CpuModel(object):
     def read_register(self, reg):
         reg = register_name_to_index(reg)
         if self._delegate is not None:
-            return bitstring(self._delegate.read_register(reg))
+            return bitstring(self._delegate.read_register(reg), 32)
 
     def write_register(self, reg, value):
         reg = register_name_to_index(reg)
         if isinstance(value, bitstring):
             value = value.unsigned
         if self._delegate is not None:
-            self._delegate.write_register(reg, value)
+            self._delegate.write_register(reg, value & 0xffffffff)
 
     def read_memory(self, addr, size=32):
         if isinstance(addr, bitstring):
-- 
2.43.0


From 49a4d121f767b9af0dfeec75d366200edaf45c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 26/44] fix: CONTROL.SPSEL selects the stack pointer

The selection was computed from CONTROL's register number.
---
 cmdis/mock_cpu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 6f48260..8bee031 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -48,7 +48,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         self._regs[reg] = value
 
         # Mirror SP writes to PSP/MSP and vice versa.
-        spsel = (CORE_REGISTER['control'] & 2) >> 1
+        spsel = (self._regs[CORE_REGISTER['control']] & 2) >> 1
         if reg == CORE_REGISTER['sp']:
             if spsel:
                 self._regs[CORE_REGISTER['psp']] = value
@@ -57,6 +57,9 @@ class MockCpuModelDelegate(CpuModelDelegate):
         elif (reg == CORE_REGISTER['msp'] and spsel == 0) or \
                 (reg == CORE_REGISTER['psp'] and spsel == 1):
             self._regs[CORE_REGISTER['sp']] = value
+        elif reg == CORE_REGISTER['control']:
+            # The SP register is the stack pointer that is now selected.
+            self._regs[CORE_REGISTER['sp']] = self._regs[CORE_REGISTER['psp' if spsel else 'msp']]
 
     def _find_mem(self, addr):
         for m in self._mem:
-- 
2.43.0


From 37e9b32ea46f21b459b725f1dd1f63f00fe87bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 27/44] fix: an access that leaves a memory region neither
 fails nor grows the region

---
 cmdis/mock_cpu.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index 8bee031..a253b80 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -61,14 +61,14 @@ class MockCpuModelDelegate(CpuModelDelegate):
             # The SP register is the stack pointer that is now selected.
             self._regs[CORE_REGISTER['sp']] = self._regs[CORE_REGISTER['psp' if spsel else 'msp']]
 
-    def _find_mem(self, addr):
+    def _find_mem(self, addr, length=1):
         for m in self._mem:
-            if m.start <= addr <= m.end:
+            if m.start <= addr and addr + length - 1 <= m.end:
                 return m, addr - m.start
         return None, 0
 
     def read_memory(self, addr, size=32):
-        mem, offset = self._find_mem(addr)
+        mem, offset = self._find_mem(addr, size // 8)
         if mem:
             if size == 8:
                 return mem.data[offset:offset+1]
@@ -79,7 +79,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         return 0
 
     def write_memory(self, addr, value, size=32):
-        mem, offset = self._find_mem(addr)
+        mem, offset = self._find_mem(addr, size // 8)
         if mem:
             if size == 8:
                 mem.data[offset:offset+1] = [value]
-- 
2.43.0


From fce1a2842ce0c41dfd82739491aa1727a80824a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 28/44] fix: a block write is clipped at the end of the memory
 region, like a block read

---
 cmdis/mock_cpu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index a253b80..a4ed419 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -91,7 +91,8 @@ class MockCpuModelDelegate(CpuModelDelegate):
     def write_memory_block(self, addr, data):
         mem, offset = self._find_mem(addr)
         if mem:
-            mem.data[offset:offset+len(data)] = data
+            length = min(len(data), len(mem.data) - offset)
+            mem.data[offset:offset+length] = data[:length]
 
     def read_memory_block(self, addr, length):
         mem, offset = self._find_mem(addr)
-- 
2.43.0


From e829f0984cfb9bb5be487ee3892435576313f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 29/44] fix: a byte read returns an integer, like other sizes

---
 cmdis/mock_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index a4ed419..f351103 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -71,7 +71,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         mem, offset = self._find_mem(addr, size // 8)
         if mem:
             if size == 8:
-                return mem.data[offset:offset+1]
+                return mem.data[offset]
             elif size == 16:
                 return bytes_to_le16(mem.data[offset:offset+2])
             elif size == 32:
-- 
2.43.0


From 8d71aa2f78c35e060c3130f3b817ee87ff71c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:39 +0000
Subject: [PATCH 30/44] fix: a byte write stores the low byte, like other sizes

---
 cmdis/mock_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/mock_cpu.py b/cmdis/mock_cpu.py
index f351103..d3e0b76 100644
--- a/cmdis/mock_cpu.py
+++ b/cmdis/mock_cpu.py
@@ -82,7 +82,7 @@ class MockCpuModelDelegate(CpuModelDelegate):
         mem, offset = self._find_mem(addr, size // 8)
         if mem:
             if size == 8:
-                mem.data[offset:offset+1] = [value]
+                mem.data[offset] = value & 0xff
             elif size == 16:
                 mem.data[offset:offset+2] = le16_to_bytes(value)
             elif size == 32:
-- 
2.43.0


From fee11dd1126470ba6eb34c1e2fbd94959d3deea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:05 +0000
Subject: [PATCH 31/44] fix: mov pc branches to the moved address

The PC was advanced past the address, by the size of the mov.
---
 cmdis/instructions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index b33c65f..a9de1e8 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -368,6 +368,9 @@ class Move(DataProcessing):
             result = self.imm32
         if self.negate:
             result = ~result
+        if self.d == 15: # pc
+            cpu.pc = result & ~1 # branch, clear T bit
+            return
         cpu.r[self.d] = result
         self._set_flags(cpu, result, self.carry, None)
         cpu.pc += self.size
-- 
2.43.0


From 32533c8610b302e59f5cf619706394cd903b69e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:05 +0000
Subject: [PATCH 32/44] fix: ldr.w pc branches to the loaded address

The PC was advanced past the address, by the size of the ldr.w.
---
 cmdis/instructions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index a9de1e8..086a6c8 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -637,6 +637,9 @@ class Load(Instruction):
             data = data.sign_extend(32)
         else:
             data = data.zero_extend(32)
+        if self.t == 15: # pc
+            cpu.pc = data
+            return
         cpu.r[self.t] = data
         cpu.pc += self.size
 
-- 
2.43.0


From 56840cd8b8389f07a800a8a0ab7432f72435ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:05 +0000
Subject: [PATCH 33/44] fix: memory hints (pld, pli) are not loads into the PC

---
 cmdis/instructions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/instructions.py b/cmdis/instructions.py
index 086a6c8..3ef2214 100644
--- a/cmdis/instructions.py
+++ b/cmdis/instructions.py
@@ -692,6 +692,8 @@ def ldr_str_reg_t2(i, Rn, Rt, imm2, Rm):
     i.m = Rm.unsigned
     if i.n == 15:
         raise DecodeError()
+    if i.t == 15 and isinstance(i, Load) and i.memsize != 32:
+        raise DecodeError() # memory hints, i.e. pld and pli
     i.index = True
     i.add = True
     i.wback = False
-- 
2.43.0


From 7c19796142e028c58c17e41da7cc65ab73e52fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:05 +0000
Subject: [PATCH 34/44] fix: hex dumps of halfwords and words show the address
 of each line

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 6007024..da9c811 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -140,7 +140,7 @@ def hex_width(value, width):
 def dumpHexData(data, startAddress=0, width=8):
     i = 0
     while i < len(data):
-        print "%08x: " % (startAddress + i),
+        print "%08x: " % (startAddress + i * (width // 8)),
 
         while i < len(data):
             d = data[i]
-- 
2.43.0


From 935e8b36459878876f44f50775275f5cd61c7fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:05 +0000
Subject: [PATCH 35/44] fix: write16 and write32 accept values above 255

---
 cmdis/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index da9c811..d238c84 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -484,10 +484,10 @@ class SimTool(object):
             print "Error: no data for write"
             return 1
         else:
-            data = bytearray(self.convert_value(d) for d in args[1:])
+            data = [self.convert_value(d) for d in args[1:]]
 
         if width == 8:
-            pass
+            data = bytearray(data)
         elif width == 16:
             data = bytearray(cmdis.utilities.u16leListToByteList(data))
         elif width == 32:
-- 
2.43.0


From ff55df4b782b52b1c6da4bf3e51cd4ed02646f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:05 +0000
Subject: [PATCH 36/44] fix: the reset command raised TypeError

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index d238c84..23be62b 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -411,7 +411,7 @@ class SimTool(object):
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-    def handle_reset(self, args, other):
+    def handle_reset(self, args):
         self.reset_sim()
 
     @cmdoptions([make_option('-c', "--center", action="store_true")])
-- 
2.43.0


From 6c5fd4ce0fc7d583feac51936567090dc8cfb15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:05 +0000
Subject: [PATCH 37/44] fix: starting without a file under Python 3

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 23be62b..6a3361e 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -358,7 +358,7 @@ class SimTool(object):
                 finally:
                     self.args.binary_file.close()
             else:
-                self.binary_data = ''
+                self.binary_data = b''
 
             # Set logging level
             self.configure_logging()
-- 
2.43.0


From 0a254517c57413d0da4b29ca5ca8be108efd9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:05 +0000
Subject: [PATCH 38/44] fix: disassembling an undefined first instruction
 raised IndexError

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 6a3361e..cb89ac5 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -623,7 +623,7 @@ class SimTool(object):
 #                 text += "{addr:#010x}:{pc_marker} {bytes:<10}{mnemonic:<8}{args}\n".format(addr=i.address, pc_marker=pc_marker, bytes=hexBytes, mnemonic=i.mnemonic, args=i.op_str)
         except cmdis.decoder.UndefinedInstructionError:
             print "Undefined instruction"
-        if text[-1] == '\n':
+        if text.endswith('\n'):
             text = text[:-1]
         print text
 
-- 
2.43.0


From 018d889fb2ea3a640d6570fcefd0391cdd0466b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:05 +0000
Subject: [PATCH 39/44] fix: step depends only on the instruction at the PC,
 not on what follows it

---
 cmdis/__main__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index cb89ac5..0baec8d 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -503,15 +503,13 @@ class SimTool(object):
 
         try:
             code = self.cpu.read_memory_block(pc, 4)
-            ilist = [i for i in dis.disasm(code, pc)]
 
-            if not len(ilist):
+            # Only decode the first instruction, what follows it may not be one.
+            i = next(dis.disasm(code, pc), None)
+            if i is None:
                 print "No instructions found!"
                 return
 
-            # Only use the first instruction.
-            i = ilist[0]
-
             print "{addr:#010x}:  {instr}".format(addr=i.address, instr=fmt.format(i))
 
             i.execute(self.cpu)
-- 
2.43.0


From 1a6af1016811096a7eebbe2fb04f24f072627fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:03 +0000
Subject: [PATCH 40/44] fix: keep the character following a fixed value in
 instruction specs

---
 cmdis/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/decoder.py b/cmdis/decoder.py
index 024c35c..c0ca42d 100644
--- a/cmdis/decoder.py
+++ b/cmdis/decoder.py
@@ -378,10 +378,12 @@ def parse_spec(spec):
             if c in ('0', '1'):
                 bits += c
             else:
+                # Switch to default state and back up.
                 result.append((ident, bitstring(bits)))
                 bits = ''
                 ident = ''
                 state = 0
+                i -= 1
 
         i += 1
 
-- 
2.43.0


From ce55b65def04a6cb49fa01e4a540d8865e9b645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:41 +0000
Subject: [PATCH 41/44] fix: assigning an integer to a bit string slice of more
 than 64 bits

The integer was made a bit string of its default width of 32 or 64 bits
first, which lost the bits above that.
---
 cmdis/bitstring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/bitstring.py b/cmdis/bitstring.py
index e1ea9d3..1945a39 100644
--- a/cmdis/bitstring.py
+++ b/cmdis/bitstring.py
@@ -266,7 +266,8 @@ class bitstring(object):
             if step != 1:
                 raise ValueError("cannot set slice with step != 1")
             if isinstance(value, six.integer_types):
-                value = bitstring(value)
+                # Don't let the default width of integers cut off bits of a wider slice.
+                value = bitstring(value, max(stop - start, 0))
             elif isinstance(value, six.string_types):
                 value = bitstring(value)
             elif not isinstance(value, bitstring):
-- 
2.43.0


From dceb15fe949b7c8816e643bc0d01bf7e916b31b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:17 +0000
Subject: [PATCH 42/44] fix: an empty console line repeats the whole previous
 line

---
 cmdis/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 0baec8d..9344a46 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -195,7 +195,7 @@ class SimConsole(object):
                         self.process_command_line(line)
                         self.last_command = line
                     elif self.last_command:
-                        self.process_command(self.last_command)
+                        self.process_command_line(self.last_command)
                 except KeyboardInterrupt:
                     print
         except EOFError:
-- 
2.43.0


From 01e10ffaa73ef43497b7a49380d334df61d5c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:17 +0000
Subject: [PATCH 43/44] fix: empty commands in a console line are ignored

---
 cmdis/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index 9344a46..cc11a2d 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -206,7 +206,8 @@ class SimConsole(object):
 
     def process_command_line(self, line):
         for cmd in line.split(';'):
-            self.process_command(cmd)
+            if cmd.strip():
+                self.process_command(cmd)
 
     def process_command(self, cmd):
         try:
-- 
2.43.0


From 126c11cd8305fe8c21458fd3c8c9d26781747e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:17 +0000
Subject: [PATCH 44/44] fix: wreg refuses an unknown register

---
 cmdis/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdis/__main__.py b/cmdis/__main__.py
index cc11a2d..29e6667 100644
--- a/cmdis/__main__.py
+++ b/cmdis/__main__.py
@@ -409,6 +409,8 @@ class SimTool(object):
             raise ToolError("No value specified")
 
         reg = args[0].lower()
+        if reg not in cmdis.registers.CORE_REGISTER:
+            raise ToolError("invalid register '%s'" % (reg))
         value = self.convert_value(args[1])
         self.cpu.write_register(reg, value)
 
-- 
2.43.0

