From 0574b39ff567835d1febc2a469b725c7166edafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 01/37] fix: reject opcodes outside every range in the
 multi-range validator

---
 peak/assembler/assembler_util.py  | 2 +-
 peak/assembler2/assembler_util.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 779cb9f..707d467 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -118,6 +118,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(opcodes, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 779cb9f..707d467 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -118,6 +118,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(opcodes, is_valid)
-- 
2.43.0


From 1d7c6b44c1da20edace9a34ce3c99395487105e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 02/37] fix: key the validator cache on width as well as
 opcodes

---
 peak/assembler/assembler_util.py  | 10 ++++++----
 peak/assembler2/assembler_util.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 707d467..342a4f8 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -20,8 +20,10 @@ def _gen_is_valid(
     Generates an is_valid function from a set of opcodes.
     '''
     opcodes = tuple(sorted(opcodes))
+    # the implicit bounds depend on width so it must be part of the key
+    key = opcodes, width
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[key]
     except KeyError:
         pass
 
@@ -36,7 +38,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +48,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +122,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(0))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault(key, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 707d467..342a4f8 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -20,8 +20,10 @@ def _gen_is_valid(
     Generates an is_valid function from a set of opcodes.
     '''
     opcodes = tuple(sorted(opcodes))
+    # the implicit bounds depend on width so it must be part of the key
+    key = opcodes, width
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[key]
     except KeyError:
         pass
 
@@ -36,7 +38,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +48,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +122,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(0))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault(key, is_valid)
-- 
2.43.0


From a944f2bf03d348a921b679e12fbb18f033cbbf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 03/37] fix: look up the tag value in Assembler.disassemble_tag

---
 peak/assembler/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 088d2ee..9ea599c 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -74,8 +74,8 @@ class Assembler(AbstractAssembler):
         if not _issubclass(self.isa, Sum):
             raise TypeError('can only disassemble tag for Sum')
         if not self.is_valid_tag(tag):
-            raise ValueError(f'invalid tag: {opcode}')
-        return self._tag_dsm(tag)
+            raise ValueError(f'invalid tag: {tag}')
+        return self._tag_dsm(tag.as_uint())
 
     def is_valid_tag(self, tag: AbstractBitVector) -> AbstractBit:
         if not _issubclass(self.isa, Sum):
-- 
2.43.0


From 7fe2f17a1aa8c5599ed6222d91bcb101ee7e8aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 04/37] fix: store keyword inputs of a black box in interface
 order

---
 peak/black_box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index c67f0f7..a2d33f7 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -54,7 +54,7 @@ class BlackBox:
             else:
                 if kwargs.keys() != input_t.field_dict.keys():
                     raise ValueError(f"{self} need to call with input_t {list(input_t.field_dict.items())}")
-                self._input_vals = tuple(kwargs.values())
+                self._input_vals = tuple(kwargs[k] for k in input_t.field_dict)
             return self._output_vals
         if hasattr(old_call, "_input_t"):
             assert hasattr(old_call, "_output_t")
-- 
2.43.0


From d1d85b6c517dbc0bee1ba704592ad2aadb3841a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 05/37] fix: do not equate a family with an instance of its
 subclass

---
 peak/family.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peak/family.py b/peak/family.py
index 692ba2e..2851eff 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -35,7 +35,7 @@ class AbstractFamily(metaclass=ABCMeta):
             logger.debug('\n'.join(msg))
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(self) is type(other):
             return True
         else:
             return NotImplemented
@@ -113,7 +113,7 @@ class _AsmFamily(AbstractFamily):
         return self.get_adt_t(adt_t).from_fields
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(self) is type(other):
             return (self._assembler == other._assembler
                     and self._aadt_t == other._aadt_t
                     and self._asm_extras == other._asm_extras)
@@ -146,7 +146,7 @@ class _RewriterFamily(AbstractFamily):
         return _compose(deco, s_deco)
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(self) is type(other):
             return self._passes == other._passes
         else:
             return NotImplemented
-- 
2.43.0


From f5846015064d2efe2bcfd2fa0bcd78ed579b7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 06/37] fix: use the hwtypes names of the rounding modes in the
 float library

---
 peak/float.py | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index e6b74a7..6548a01 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -136,19 +136,19 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)(in1_rtz)
                         out = out_rtz.reinterpret_as_bv()
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                        in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup.reinterpret_as_bv()
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
                         out = out_rmm.reinterpret_as_bv()
                     return out
@@ -174,19 +174,19 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)(in1_rtz)
                         out = out_rtz
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                        in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
                         out = out_rmm
                     return out
@@ -210,16 +210,16 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)()
                         out = out_rtz.reinterpret_as_bv()
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
                         out_rdn = getattr(in0_rdn, op_name)()
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
                         out_rup = getattr(in0_rup, op_name)()
                         out = out_rup.reinterpret_as_bv()
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         out_rmm = getattr(in0_rmm, op_name)()
                         out = out_rmm.reinterpret_as_bv()
                     return out
@@ -255,22 +255,22 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                     out_rtz = in0_rtz.fp_fma(in1_rtz, in2_rtz)
                     out = out_rtz.reinterpret_as_bv()
                 elif rm == RoundingMode.RDN:
-                    in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                    in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
-                    in2_rdn = cast(RoundingMode_hwtypes.RDN, in2)
+                    in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                    in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
+                    in2_rdn = cast(RoundingMode_hwtypes.RTN, in2)
                     out_rdn = in0_rdn.fp_fma(in1_rdn, in2_rdn)
                     out = out_rdn.reinterpret_as_bv()
                 elif rm == RoundingMode.RUP:
-                    in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                    in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
-                    in2_rup = cast(RoundingMode_hwtypes.RUP, in2)
+                    in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                    in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
+                    in2_rup = cast(RoundingMode_hwtypes.RTP, in2)
                     out_rup = in0_rup.fp_fma(in1_rup, in2_rup)
                     out = out_rup.reinterpret_as_bv()
                 else:
                     assert  rm == RoundingMode.RMM
-                    in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                    in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
-                    in2_rmm = cast(RoundingMode_hwtypes.RUP, in2)
+                    in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                    in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
+                    in2_rmm = cast(RoundingMode_hwtypes.RNA, in2)
                     out_rmm = in0_rmm.fp_fma(in1_rmm, in2_rmm)
                     out = out_rmm.reinterpret_as_bv()
                 return out
-- 
2.43.0


From 3017bb63aeaaf62efe9b629f91325256c29fcbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 07/37] fix: detect unbound Const inputs of a rewrite rule

---
 peak/mapper/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index bf6147e..4f0a111 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -220,7 +220,7 @@ class RewriteRule:
         arch_path_types = _create_path_to_adt(arch_fc.Py.input_t)
         self.ibinding = []
         for ir_path, arch_path in ibinding:
-            if ir_path is Unbound and isinstance(arch_path_types[arch_path], Const):
+            if ir_path is Unbound and issubclass(arch_path_types[arch_path], Const):
                 raise ValueError(f"Arch path {arch_path} needs to have a value")
             elif ir_path is not Unbound and not isinstance(ir_path, tuple):
                 #Build the python bitvector and verify it is valid
@@ -245,7 +245,7 @@ class RewriteRule:
         for ir_path, arch_path in self.ibinding:
             if isinstance(ir_path, tuple):
                 ir_paths.add(ir_path)
-            elif ir_path is Unbound and not isinstance(arch_path_types[arch_path], Const):
+            elif ir_path is Unbound and not issubclass(arch_path_types[arch_path], Const):
                 arch_paths.add(arch_path)
         return ir_paths, arch_paths
 
-- 
2.43.0


From 5ce60d87de4aaf7a99d39a6be06d9bbe167bc6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 08/37] fix: read tagged union members by name when building
 SMT forms of a value

---
 peak/mapper/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index fb6dffa..ca88ece 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -130,7 +130,7 @@ class SMTForms(AssembledADTRecursor):
             if value is None:
                 sub_value = None
             else:
-                sub_value = value[field].value
+                sub_value = getattr(value, field_name).value
 
             sub_forms, sub_varmap, _sub_value = self(sub_aadt_t, path=path + (field_name,), value=sub_value)
             _value = aadt_t.from_fields(tag_bv=tag, **{field_name: _sub_value})
-- 
2.43.0


From f36a7f2414dfde116338444b8aa10fd52673504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 09/37] fix: size a bitfield enum by its largest value

---
 peak/bitfield.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index 2ca967b..ed4cde3 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -25,7 +25,9 @@ def size(type):
     elif issubclass(type, AbstractBitVector):
         s = type.size
     elif issubclass(type, Enum):
-        return clog2(len(list(type.enumerate())))
+        values = [e._value_ for e in type.enumerate()]
+        # explicit values need not be contiguous
+        return max([clog2(len(values))] + [v.bit_length() for v in values if isinstance(v, int)])
     elif issubclass(type, Product):
         s = sum([size(getattr(type,key)) for key in type.field_dict])
     elif issubclass(type, Sum):
-- 
2.43.0


From 46eb2fad1587c7a4f37ff872aa1ca833f2a281ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 10/37] fix: raise on a mismatched constant field in
 auto_assembler

---
 peak/auto_assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/auto_assembler.py b/peak/auto_assembler.py
index d5a7b16..2637e44 100644
--- a/peak/auto_assembler.py
+++ b/peak/auto_assembler.py
@@ -157,11 +157,11 @@ def _bv_const(isa : AbstractBitVector):
     T = type(isa)
     def assembler(inst):
         if inst != isa:
-            return ValueError()
+            raise ValueError()
         return inst
     def disassembler(opcode):
         if opcode != isa:
-            return ValueError()
+            raise ValueError()
         return T(opcode)
     return assembler, disassembler, get_width(isa), None
 
-- 
2.43.0


From b3c4a2aad56aa7464437beed3973c2ee95c01279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 11/37] fix: encode signed fields by bit pattern in the
 assembler

---
 peak/assembler/assembler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 9ea599c..2557089 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -269,6 +269,9 @@ def _field(isa : tp.Type[AbstractBitVector]):
     layout = {}
 
     def assembler(inst):
+        if isinstance(inst, BitVector):
+            # int() of a signed vector may be negative
+            return inst.as_uint()
         return int(inst)
 
     def disassembler(opcode):
-- 
2.43.0


From b6be7e346fa9d25b2badb476ea1e28d78d47562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 12/37] fix: encode signed fields by bit pattern in assembler2

---
 peak/assembler2/assembler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 2d0ed00..c257620 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -369,6 +369,9 @@ def _field(isa : tp.Type[AbstractBitVector]):
         raise TypeError()
 
     def asm(inst: 'isa', bv_type: tp.Type[AbstractBitVector]) -> AbstractBitVector:
+        if isinstance(inst, BitVector):
+            # int() of a signed vector may be negative
+            inst = inst.as_uint()
         return bv_type[width](inst)
 
     def from_fields(v):
-- 
2.43.0


From cf04b38857b9b6695997b72685948daf3a9880f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 13/37] fix: encode signed fields by bit pattern in bitfield

---
 peak/bitfield.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index ed4cde3..33a889b 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -62,7 +62,13 @@ def encode(inst, reverse=False):
     bitfield = getattr(inst, 'bitfield', 0)
     if isinstance(inst, (AbstractBit, AbstractBitVector, Enum)):
         # depreciated
-        word = inst._value_ if isinstance(inst,Enum) else int(inst)
+        if isinstance(inst, Enum):
+            word = inst._value_
+        elif isinstance(inst, AbstractBitVector):
+            # int() of a signed vector may be negative
+            word = inst.as_uint()
+        else:
+            word = int(inst)
     else:
         typeinst = type(inst)
         if isinstance(inst,Product):
-- 
2.43.0


From b034f56800dee157fd80e9459d0636b3e134b32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 14/37] fix: do not enumerate the span of sparse opcodes

---
 peak/assembler/assembler_util.py  | 4 +++-
 peak/assembler2/assembler_util.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 342a4f8..7ddf367 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -30,7 +30,9 @@ def _gen_is_valid(
     min_op = opcodes[0]
     max_op = opcodes[-1]
 
-    is_range = opcodes == tuple(range(min_op, max_op + 1))
+    # check the length first, sparse opcodes may span a huge range
+    is_range = (len(opcodes) == max_op - min_op + 1
+                and opcodes == tuple(range(min_op, max_op + 1)))
     implicit_lb = (min_op == 0)
     implicit_ub = (max_op == ((1 <<  width) - 1))
 
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 342a4f8..7ddf367 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -30,7 +30,9 @@ def _gen_is_valid(
     min_op = opcodes[0]
     max_op = opcodes[-1]
 
-    is_range = opcodes == tuple(range(min_op, max_op + 1))
+    # check the length first, sparse opcodes may span a huge range
+    is_range = (len(opcodes) == max_op - min_op + 1
+                and opcodes == tuple(range(min_op, max_op + 1)))
     implicit_lb = (min_op == 0)
     implicit_ub = (max_op == ((1 <<  width) - 1))
 
-- 
2.43.0


From 5d00616ffae3e29c5d8796cdf49b31bb2a02c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 15/37] fix: fill unused bits with zero in assembler2
 from_fields

---
 peak/assembler2/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index c257620..5799956 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -86,7 +86,7 @@ def _create_from_layout(width, layout, field_bvs):
     assert T is not None
 
 
-    slots = [T[1]() for _ in range(width)]
+    slots = [T[1](0) for _ in range(width)]
     for field_name, (low, hi) in layout.items():
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
-- 
2.43.0


From d6284276d5b1c5a302fbea0b8f558c148cbac213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 16/37] fix: accept signed parts in from_fields

---
 peak/assembler/assembled_adt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 817d3f6..8af8aed 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -46,7 +46,10 @@ def _create_from_layout(width, layout, field_bvs, bv_type: AbstractBitVector, de
     for field_name, (low, hi) in layout.items():
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
-    bv = reduce(bv_type.concat, (_as_bv(s) for s in slots if s is not None))
+    bvs = (_as_bv(s) for s in slots if s is not None)
+    # signed and unsigned fields do not concatenate with other vectors
+    bvs = (v if type(v).unsized_t is bv_type else bv_type[v.size](v) for v in bvs)
+    bv = reduce(bv_type.concat, bvs)
     assert bv.size == width
     #Need to cast to bv_type since magma's concats do not return bv_type
     return bv_type[width](bv)
-- 
2.43.0


From ad32412d3be2cc369ba2ef7fde73854a2eef4340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 17/37] fix: accept signed parts in assembler2 from_fields

---
 peak/assembler2/assembler.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 5799956..f8f6db9 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -77,13 +77,13 @@ def _create_from_layout(width, layout, field_bvs):
             for r0, r1 in zip(ranges, ranges[1:])):
         raise ValueError('invalid layout')
 
-    T = None
-    for v in field_bvs.values():
-        if T is None:
-            T = type(v).unsized_t
-        else:
-            assert T == type(v).unsized_t
-    assert T is not None
+    Ts = {type(v).unsized_t for v in field_bvs.values()}
+    if len(Ts) == 1:
+        T, = Ts
+    else:
+        # signed and unsigned fields do not concatenate with other vectors
+        T = next(iter(field_bvs.values())).get_family().BitVector
+        field_bvs = {k: T[v.size](v) for k, v in field_bvs.items()}
 
 
     slots = [T[1](0) for _ in range(width)]
-- 
2.43.0


From 2ee687deca2108d3774a34683bc5302bf5aaf995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 18/37] fix: do not share registers between families with
 different options

---
 peak/family.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/family.py b/peak/family.py
index 2851eff..977e073 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -167,7 +167,7 @@ class _RegFamily(AbstractFamily):
 
     def gen_register(self, T, init, has_enable=True):
         cls = type(self)
-        key = (cls, T, init, has_enable)
+        key = (self, T, init, has_enable)
         try:
             return _REG_CACHE[key]
         except KeyError:
@@ -218,7 +218,7 @@ class _RegFamily(AbstractFamily):
 
     def gen_attr_register(self, T, init):
         cls = type(self)
-        key = (cls, T, init)
+        key = (self, T, init)
         try:
             return _ATTR_REG_CACHE[key]
         except KeyError:
-- 
2.43.0


From ae171cdf8c1f2990886265d3b120d7beed3a3066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 19/37] fix: treat attribute register classes as ordinary
 attribute values

---
 peak/peak.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/peak/peak.py b/peak/peak.py
index 8e05bdd..523cf29 100644
--- a/peak/peak.py
+++ b/peak/peak.py
@@ -45,12 +45,13 @@ class Peak(metaclass=PeakMeta):
         if _is_dunder(attr):
             return val
 
+        # looked up on the type, so that a register class is an ordinary value
         try:
-            getter = val._peak_
+            getter = type(val)._peak_
         except AttributeError:
             return val
 
-        return getter()
+        return getter(val)
 
     def __setattr__(self, attr, value):
         if _is_dunder(attr):
@@ -61,12 +62,12 @@ class Peak(metaclass=PeakMeta):
         except AttributeError:
             return super().__setattr__(attr, value)
 
-        setter = getattr(current, '_poke_', _null)
+        setter = getattr(type(current), '_poke_', _null)
 
         if setter is _null:
             return super().__setattr__(attr, value)
         else:
-            return setter(value)
+            return setter(current, value)
 
 
 class PeakNotImplementedError(NotImplementedError):
-- 
2.43.0


From e65c2da44f5390067c8c653aae8f35cead80b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 20/37] fix: cache family closures independently of keyword
 order

---
 peak/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/features.py b/peak/features.py
index 8e9562d..ab3da99 100644
--- a/peak/features.py
+++ b/peak/features.py
@@ -135,7 +135,7 @@ class family_closure:
         if not self.is_bound:
             self._bind(*args, **kwargs)
             return self
-        key = (tuple(args), tuple(kwargs.items()))
+        key = (tuple(args), frozenset(kwargs.items()))
         if key in self.cache:
             return self.cache[key]
         res = self.fc(*args, **kwargs)
-- 
2.43.0


From 28cf68bdfde20f94fbe8665fd9f5bf40d2ef7926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 21/37] fix: typecheck calls with no outputs or too few results

---
 peak/features.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/peak/features.py b/peak/features.py
index ab3da99..6d756ff 100644
--- a/peak/features.py
+++ b/peak/features.py
@@ -79,13 +79,16 @@ def typecheck(call_fn):
     if not hasattr(call_fn, "_output_t"):
         raise ValueError("Need to use gen_output_t for typechecking")
     output_t = call_fn._output_t
+    outputs = () if output_t is None else tuple(output_t.field_dict.items())
     @functools.wraps(call_fn)
     def call_wrapper(*args, **kwargs):
         results = call_fn(*args, **kwargs)
         single_output = not isinstance(results, tuple)
         if single_output:
             results = (results,)
-        for i, (oname, otype) in enumerate(output_t.field_dict.items()):
+        if len(results) < len(outputs):
+            raise TypeError(f"expected {len(outputs)} results, not {len(results)} in {call_fn}")
+        for i, (oname, otype) in enumerate(outputs):
             if not isinstance(results[i], otype):
                 raise TypeError(f"result type for output {oname} : {type(results[i])} did not match expected type {otype} in {call_fn}")
         if single_output:
-- 
2.43.0


From 2625145415363cad439aa3032c24fe4b160149d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 22/37] fix: allow IR instructions with fields called family or
 self

---
 peak/ir.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/peak/ir.py b/peak/ir.py
index 0a54c43..30f5f90 100644
--- a/peak/ir.py
+++ b/peak/ir.py
@@ -34,14 +34,16 @@ class IR:
                 idx +=1
         class_src = [f"@_family_closure"]
         class_src.append(f"def peak_fc(family):")
+        #Fields and classes may be called family or self
+        class_src.append(f"{tab*1}_family_ = family")
         for t, tname in t_to_tname.items():
             class_src.append(f"{tab*1}_{tname} = {tname}")
         class_src.append(f"{tab*1}class {cls_name}(Peak):")
         output_types = ", ".join([f"{field} = _{t_to_tname[t]}" for field, t in outputs.items()])
         input_types = ", ".join([f"{field} : _{t_to_tname[t]}" for field, t in inputs.items()])
-        fun_call = "family, " + ", ".join(inputs.keys())
+        fun_call = "_family_, " + ", ".join(inputs.keys())
         class_src.append(f"{tab*2}@name_outputs({output_types})")
-        class_src.append(f"{tab*2}def __call__(self, {input_types}):")
+        class_src.append(f"{tab*2}def __call__(_self_, {input_types}):")
         class_src.append(f"{tab*3}return _fun_({fun_call})")
         class_src.append(f"{tab*1}return {cls_name}")
         class_src = '\n'.join(class_src)
-- 
2.43.0


From 9f5e40d4d72b1f37db639dd884b297191b7d472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 23/37] fix: let the Python family construct a sum from a type
 and a value

Assembled families construct sums as constructor(T, value); the Python
family returned the bare adt, so the same program raised TypeError.
---
 peak/family.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/peak/family.py b/peak/family.py
index 977e073..319c84e 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -8,6 +8,7 @@ from ast_tools import SymbolTable
 import hwtypes
 from hwtypes.modifiers import strip_modifiers
 from hwtypes import Product
+from hwtypes.adt import Sum, TaggedUnion
 import magma as m
 
 from .assembler import Assembler
@@ -253,6 +254,18 @@ class _BBFamily(AbstractFamily):
         return _compose(deco, s_deco)
 
 
+def _construct_sum(adt_t, *args):
+    # accept (tag, value) like AssembledADT.from_fields
+    if len(args) == 2:
+        T, value = args
+        if T not in adt_t.fields:
+            raise TypeError(f'{T} is not in {adt_t}')
+        if not isinstance(value, T):
+            raise TypeError(f'Expected value of type {T}')
+        return adt_t(value)
+    return adt_t(*args)
+
+
 class PyFamily(_RegFamily):
     '''
     Pure python family
@@ -278,6 +291,8 @@ class PyFamily(_RegFamily):
         return adt_t
 
     def get_constructor(self, adt_t):
+        if issubclass(adt_t, Sum) and not issubclass(adt_t, TaggedUnion):
+            return ft.partial(_construct_sum, adt_t)
         return adt_t
 
     def assemble(self, locals, globals, **kwargs):
-- 
2.43.0


From aafd765253fca1e8427f6d756de993b787800057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 24/37] fix: simple formula: a constant needs to be valid only
 where it is chosen

---
 peak/mapper/mapper.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 4f0a111..918e677 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -565,11 +565,7 @@ class IRMapper(SMTMapper):
                 arch_in = archmapper.input_value
                 ir_in = self.input_value
 
-            #TODO these are wrong once the Exists intersect FOrall issue shows up
-            const_fields = [field for field, T in archmapper.peak_fc.Py.input_t.field_dict.items() if issubclass(T, Const)]
-            inputs = aadt_product_to_dict(arch_in)
-            const_valid_conditions = [is_valid(inputs[field]) for field in const_fields]
-            preconditions = [And(const_valid_conditions)]
+            preconditions = []
 
             #Alternative correct (but slower) precondition
             #preconditions = [is_valid(archmapper.input_value), is_valid(self.input_value)]
@@ -626,6 +622,14 @@ class IRMapper(SMTMapper):
                     fb_conditions[(fi, bi)] = conditions
 
 
+            # Each chosen constant needs to be valid (a constant bound to an ir const can have any value)
+            for path, T in archmapper.path_to_adt(input=True, strip=True).items():
+                name = ".".join(["A"] + [str(p) for p in path])
+                if name in exists_to_fbs and is_adt_type(T):
+                    e_conds = Or([(form_var.match_index(fi) & ib_var.match_index(bi)) for fi, bi in exists_to_fbs[name]])
+                    aadt = self.family.SMTFamily().get_adt_t(T)
+                    preconditions.append(Implies(e_conds, aadt._is_valid_(name_to_var[name])))
+
             pysmt_forall_vars = set(name_to_var[name].value for name in forall_to_fbs)
 
             # Check if there is any overlap between forall_vars and exist vars
-- 
2.43.0


From f2ff2d655b8ba591d4af900c31a2436e1d5e9d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 25/37] fix: simple formula: KeyError for outputs with nested
 fields

---
 peak/mapper/mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 918e677..2675d90 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -657,7 +657,8 @@ class IRMapper(SMTMapper):
                 input_dict = aadt_product_to_dict(input_value)
                 outputs = obj(**input_dict)
                 output = wrap_outputs(outputs, mapper.output_aadt_t)
-                output_dict = {(k,): v for k, v in aadt_product_to_dict(output).items()}
+                #path -> value for each leaf
+                _, output_dict, _ = SMTForms()(mapper.output_aadt_t, value=output)
                 bb_inputs = get_bb_inputs(obj)
                 return output_dict, bb_inputs
 
-- 
2.43.0


From d344f4adcff6a089a665fb3da4d600ada58b8ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 26/37] fix: simple formula: constants that may also be bound
 were read from the wrong variable

---
 peak/mapper/mapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 2675d90..58fcd6b 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -550,7 +550,8 @@ class IRMapper(SMTMapper):
         self.input_bindings = input_bindings
         self.output_bindings = output_bindings
 
-
+        #arch const path -> var of its constant (if it is not the arch input var)
+        self.const_vars = {}
 
         use_input_sub = True
         #--------------------------------------------
@@ -635,6 +636,7 @@ class IRMapper(SMTMapper):
             # Check if there is any overlap between forall_vars and exist vars
             overlap = forall_to_fbs.keys() & exists_to_fbs.keys()
             overlap_subs = []
+            arch_name_to_path = {".".join(["A"] + [str(p) for p in path]): path for path in arch_input_path_to_adt}
             for name in overlap:
                 var = name_to_var[name]
                 forall_fbs = forall_to_fbs[name]
@@ -646,6 +648,7 @@ class IRMapper(SMTMapper):
                 e_conds = Or([(form_var.match_index(fi) & ib_var.match_index(bi)) for fi,bi in exists_fbs]).to_hwtypes()
                 sub_var = e_conds.ite(var_e, var_a)
                 overlap_subs.append((var, sub_var))
+                self.const_vars[arch_name_to_path[name]] = var_e
                 pysmt_forall_vars.remove(var.value)
                 pysmt_forall_vars.add(var_a.value)
                 #Will need to do an input transformation
@@ -849,7 +852,7 @@ def rr_from_solver(solver, irmapper):
     bv_ibinding = []
     for ir_path, arch_path in ibinding:
         if (ir_path is Unbound) and (arch_path in am.const_paths or arch_path in am.path_constraints):
-            var = am.input_varmap[arch_path]
+            var = im.const_vars.get(arch_path, am.input_varmap[arch_path])
             bv_val = solved_to_bv(var, solver)
             ir_path = bv_val
         bv_ibinding.append((ir_path, arch_path))
-- 
2.43.0


From 1631e72edac59fd3e26502e9e3ea0d99d7759b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 27/37] fix: constraints on non-const paths gave rules with
 arbitrary values

---
 peak/mapper/mapper.py | 11 +++++++++--
 peak/mapper/utils.py  |  8 ++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 58fcd6b..90d3ebd 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -791,7 +791,7 @@ class IRMapper(SMTMapper):
                 if is_const:
                     continue
                 arch_var = archmapper.input_varmap[path]
-                formula = and_reduce((formula.substitute((arch_var, c)) for c in constraints))
+                formula = and_reduce((formula.substitute((arch_var, _constraint_bv(c))) for c in constraints))
 
             # Then deal with the const constraints.
             # This is saying only allow a set of values for the existential quantifier
@@ -839,6 +839,10 @@ def _input_aadt_t(fc, family):
     return input_aadt_t
 
 
+#returns the bv of a constraint
+def _constraint_bv(c):
+    return c._value_ if isinstance(c, AssembledADT) else c
+
 def rr_from_solver(solver, irmapper):
     im = irmapper
     am = irmapper.archmapper
@@ -851,7 +855,10 @@ def rr_from_solver(solver, irmapper):
     #extract, simplify, and convert constants to BV in the input binding
     bv_ibinding = []
     for ir_path, arch_path in ibinding:
-        if (ir_path is Unbound) and (arch_path in am.const_paths or arch_path in am.path_constraints):
+        if (ir_path is Unbound) and arch_path in am.path_constraints and arch_path not in am.const_paths:
+            #The rule holds for each of the allowed values of a non-const path
+            ir_path = _constraint_bv(am.path_constraints[arch_path][0])
+        elif (ir_path is Unbound) and arch_path in am.const_paths:
             var = im.const_vars.get(arch_path, am.input_varmap[arch_path])
             bv_val = solved_to_bv(var, solver)
             ir_path = bv_val
diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index ca88ece..76c5412 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -343,13 +343,13 @@ def rebind_value(val, _family):
     elif isinstance(val, family.PyFamily().Bit):
         return _family.Bit(val)
     elif isinstance(val, family.SMTFamily().BitVector):
-        if not val._value_.is_constant():
+        if not val.value.is_constant():
             raise ValueError("Cannot convert non-const SMT var to Py")
-        return _family.BitVector[val.size](val._value_.constant_value())
+        return _family.BitVector[val.size](val.value.constant_value())
     elif isinstance(val, family.SMTFamily().Bit):
-        if not val._value_.is_constant():
+        if not val.value.is_constant():
             raise ValueError("Cannot convert non-const SMT var to Py")
-        return _family.Bit(val._value_.constant_value())
+        return _family.Bit(val.value.constant_value())
     else:
         raise ValueError(f"Cannot rebind value: {val}")
 
-- 
2.43.0


From e72a22296e8a9ad25cb28fe842d30ce6c8a5b4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 28/37] fix: inputs of rules with a bit or bit vector variant
 of a sum could not be built in the SMT family

---
 peak/mapper/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index 76c5412..a2e055a 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -252,6 +252,11 @@ class SimplifyBinding(AssembledADTRecursor):
 
     @check_leaf(required=False)
     def sum(self, aadt_t, binding):
+        adt_t, assembler_t, bv_t = aadt_t.fields
+        #The paths have Py types, but the fields of adt_t might be of the family of bv_t
+        def rebind_field(field):
+            return field if field in adt_t.fields else rebind_type(field, bv_t.get_family())
+        binding = [(ir_path, (rebind_field(path[0]),) + path[1:]) for ir_path, path in binding]
         builder = aadt_t.from_fields
         return self.tagged_or_sum(aadt_t, binding, operator.getitem, builder)
 
@@ -357,7 +362,6 @@ def rebind_value(val, _family):
 def rebind_binding(binding, _family):
     ret_binding = []
     for ir_path, arch_path in binding:
-        arch_path = arch_path[:-1] + (rebind_type(arch_path[-1], _family),)
         if not (isinstance(ir_path, tuple) or ir_path is Unbound):
             ir_path = rebind_value(ir_path, _family)
         ret_binding.append((ir_path, arch_path))
-- 
2.43.0


From d4471d58eac1bd8b8b4f96c4ed904232d39d4370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 29/37] fix: simple formula: constraints on paths no binding
 uses made every rule pass

---
 peak/mapper/mapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 90d3ebd..e8fc4de 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -696,9 +696,11 @@ class IRMapper(SMTMapper):
             for path, constraints in archmapper.path_constraints.items():
                 is_const = issubclass(arch_input_path_to_adt[path], Const)
                 arch_var = archmapper.input_varmap[path]
+                arch_name = ".".join(["A"] + [str(p) for p in path])
                 if is_const:
                     exist_constraints.append(Or(arch_var == c for c in constraints))
-                else:
+                elif arch_name in forall_to_fbs:
+                    #otherwise no binding uses the path and arch_var is not universally quantified
                     forall_constraints.append(Or(arch_var == c for c in constraints))
             preconditions += exist_constraints
             preconditions.append(Or(fb_conds))
-- 
2.43.0


From 3fb8aad82b6c70b1878f379eb0e88c2699ac1947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:21 +0000
Subject: [PATCH 30/37] fix: rules using an IR input more than once could not
 be verified or built

---
 peak/mapper/mapper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index e8fc4de..666ec19 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -257,14 +257,13 @@ class RewriteRule:
             raise ValueError("arch_inputs are wrong")
 
         ibinding = rebind_binding(self.ibinding, family)
-        ir_binding = []
+        #An ir_path can be bound to multiple arch_paths
+        ir_binding = [(val, ir_path) for ir_path, val in ir_inputs.items()]
         arch_binding = []
         for ir_path, arch_path in ibinding:
             if isinstance(ir_path, tuple):
                 assert ir_path in ir_inputs
-                val = ir_inputs[ir_path]
-                ir_binding.append((val, ir_path))
-                arch_binding.append((val, arch_path))
+                arch_binding.append((ir_inputs[ir_path], arch_path))
             elif ir_path is Unbound:
                 assert arch_path in arch_inputs
                 arch_binding.append((arch_inputs[arch_path], arch_path))
-- 
2.43.0


From ea4b411dc7dc70365f8fd13ccdd9f82dac87b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:51 +0000
Subject: [PATCH 31/37] fix: keep a sum binding apart when its variant is
 unbound

---
 peak/mapper/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index a2e055a..0d465e3 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -280,7 +280,7 @@ class SimplifyBinding(AssembledADTRecursor):
         simplified_binding = self(sub_aadt_t, sub_binding)
 
         #Completely simplified if only one binding and ir_path is a value instead of a path
-        if len(simplified_binding)==1 and not isinstance(simplified_binding[0][0], tuple):
+        if len(simplified_binding)==1 and not (isinstance(simplified_binding[0][0], tuple) or simplified_binding[0][0] is Unbound):
             sub_value, arch_path = simplified_binding[0]
             assert arch_path == ()
             value = builder(sub_field, sub_value)
-- 
2.43.0


From 76beded743a8808587dbf2c55f300e365c762c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:51 +0000
Subject: [PATCH 32/37] fix: look up rule paths in the Python input type

---
 peak/mapper/mapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 666ec19..0ec176d 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -239,7 +239,7 @@ class RewriteRule:
 
     def get_input_paths(self):
         #Input paths are ir_paths, and arch_paths which are not const and do not have a value
-        arch_path_types = _create_path_to_adt(self.arch_fc(self.family.SMTFamily()).input_t)
+        arch_path_types = _create_path_to_adt(self.arch_fc.Py.input_t)
         ir_paths = set()
         arch_paths = set()
         for ir_path, arch_path in self.ibinding:
@@ -306,8 +306,8 @@ class RewriteRule:
 
         # create free variable for each ir_val
         # The types are all Py
-        ir_path_types = _create_path_to_adt(strip_modifiers(self.ir_fc(self.family.SMTFamily()).input_t))
-        arch_path_types = _create_path_to_adt(strip_modifiers(self.arch_fc(self.family.SMTFamily()).input_t))
+        ir_path_types = _create_path_to_adt(strip_modifiers(self.ir_fc.Py.input_t))
+        arch_path_types = _create_path_to_adt(strip_modifiers(self.arch_fc.Py.input_t))
         ir_paths, arch_paths = self.get_input_paths()
 
         ir_values = {path:_free_var_from_t(ir_path_types[path], self.family) for path in ir_paths}
-- 
2.43.0


From b1e9598523bc7efe0534627aa5f4744c237c9edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:51 +0000
Subject: [PATCH 33/37] fix: fused multiply-add with a fixed rounding mode

---
 peak/float.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/float.py b/peak/float.py
index 6548a01..55034eb 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -352,7 +352,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
         @family_closure
         def _fp_fma(family):
             rm_ = family.get_constructor(RoundingMode)(rm)
-            FMA = fp_fma_fc(family)
+            FMA = fp_fma(family)
             @family.assemble(locals(), globals())
             class _FMA(Peak):
                 def __init__(self):
-- 
2.43.0


From 22f10bdf709d21a7f8a556c280069afc5bc24e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:51 +0000
Subject: [PATCH 34/37] fix: convert rounding modes in the Python family

---
 peak/float.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index 55034eb..fb1e007 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -40,14 +40,20 @@ def RoudningMode_utils(family):
             RoundingMode_hwtypes.RNA: RoundingMode.RMM,
         }[rm]
 
+    #Python conditions are decided here, those of other families by their ite
+    def ite(cond, t, f):
+        if isinstance(cond, (bool, Bit)):
+            return t if cond else f
+        return cond.ite(t, f)
+
     def from_rm(rm: RoundingMode) -> BitVector[3]:
-        return (rm==RM.RNE).ite(
+        return ite(rm == RM.RNE,
             BV3(RM.RNE),
-            (rm==RM.RTZ).ite(
+            ite(rm == RM.RTZ,
                 BV3(RM.RTZ),
-                (rm == RM.RDN).ite(
+                ite(rm == RM.RDN,
                     BV3(RM.RDN),
-                    (rm == RM.RUP).ite(
+                    ite(rm == RM.RUP,
                         BV3(RM.RUP),
                         BV3(RM.RMM),
                     ),
@@ -56,13 +62,13 @@ def RoudningMode_utils(family):
         )
 
     def to_rm(rm: BitVector[3]) -> RoundingMode:
-        return (rm==BV3(RM.RNE)).ite(
+        return ite(rm == BV3(RM.RNE),
             RM_c(RM.RNE),
-            (rm==BV3(RM.RTZ)).ite(
+            ite(rm == BV3(RM.RTZ),
                 RM_c(RM.RTZ),
-                (rm == BV3(RM.RDN)).ite(
+                ite(rm == BV3(RM.RDN),
                     RM_c(RM.RDN),
-                    (rm == BV3(RM.RUP)).ite(
+                    ite(rm == BV3(RM.RUP),
                         RM_c(RM.RUP),
                         RM_c(RM.RMM),
                     ),
-- 
2.43.0


From 84ad91bd26a4df79a175a2ff3a9ab26595a2ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:51 +0000
Subject: [PATCH 35/37] fix: floating point predicates return a bit

---
 peak/float.py | 57 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index fb1e007..8db0cc9 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -232,10 +232,45 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
             return Op
         return fc
 
+    @lru_cache(None)
+    def gen_unary_bit(op_name):
+        @family_closure
+        def fc(family: TypeFamily):
+            cast = _get_cast(family)
+            @family.assemble(locals(), globals())
+            class Op(Peak, BlackBox):
+                def __call__(self, rm: RoundingMode, in0: Data) -> Bit:
+                    if rm == RoundingMode.RNE:
+                        in0_rne = cast(RoundingMode_hwtypes.RNE, in0)
+                        out_rne = getattr(in0_rne, op_name)()
+                        out = out_rne
+                    elif rm == RoundingMode.RTZ:
+                        in0_rtz = cast(RoundingMode_hwtypes.RTZ, in0)
+                        out_rtz = getattr(in0_rtz, op_name)()
+                        out = out_rtz
+                    elif rm == RoundingMode.RDN:
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        out_rdn = getattr(in0_rdn, op_name)()
+                        out = out_rdn
+                    elif rm == RoundingMode.RUP:
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        out_rup = getattr(in0_rup, op_name)()
+                        out = out_rup
+                    else:
+                        assert  rm == RoundingMode.RMM
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        out_rmm = getattr(in0_rmm, op_name)()
+                        out = out_rmm
+                    return out
+            return Op
+        return fc
+
     closures = {}
     for k, f in AbstractFPVector.__dict__.items():
         if k.startswith('fp_'):
-            if len(inspect.signature(f).parameters) == 1:
+            if k.startswith('fp_is_'):
+                closures[_format_name(k)] = gen_unary_bit(k)
+            elif len(inspect.signature(f).parameters) == 1:
                 closures[_format_name(k)] = gen_unary(k)
             elif k in ("fp_leq", "fp_lt", "fp_geq", "fp_gt", "fp_eq"):
                 closures[_format_name(k)] = gen_binary_bit(k)
@@ -310,6 +345,22 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
 
             return fc
 
+        def gen_const_rm_unary_bit(op_name):
+            @family_closure
+            def fc(family):
+                cast = _get_cast_const_rm(rm, family)
+
+                @family.assemble(locals(), globals())
+                class Op(Peak, BlackBox):
+                    def __call__(self, in_: Data) -> Bit:
+                        in_float = cast(in_)
+                        out_bit = getattr(in_float, op_name)()
+                        return out_bit
+
+                return Op
+
+            return fc
+
         def gen_const_rm_binary(op_name):
             @family_closure
             def fc(family):
@@ -348,7 +399,9 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
         closures_ = {}
         for k, f in AbstractFPVector.__dict__.items():
             if k.startswith('fp_'):
-                if len(inspect.signature(f).parameters) == 1:
+                if k.startswith('fp_is_'):
+                    closures_[_format_name(k)] = gen_const_rm_unary_bit(k)
+                elif len(inspect.signature(f).parameters) == 1:
                     closures_[_format_name(k)] = gen_const_rm_unary(k)
                 elif k in ("fp_leq", "fp_lt", "fp_geq", "fp_gt", "fp_eq"):
                     closures_[_format_name(k)] = gen_const_rm_binary_bit(k)
-- 
2.43.0


From 87c55dc545641ea077bc660dcd5d7c450755a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:07 +0000
Subject: [PATCH 36/37] fix: answers of the multi-instruction mapper are read
 while the solver is open

---
 peak/mapper/multi.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index d4b1451..2f2466b 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -275,12 +275,18 @@ def RR(solver, info):
     if solver is None:
         return None
 
+    #The solver is closed when get_info is called, so read the model now
+    bind_var = info.bind_var
+    bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
+    ivals = []
+    for i in range(info.N):
+        instrs = [info.block_info[i].arch_inputs[field] for field in info.arch_info.const_dict]
+        #Instructions which are not adts are already bits or bitvectors
+        ivals.append([solved_to_bv(getattr(instr, '_value_', instr), solver) for instr in instrs])
+
     def get_info():
         N = info.N
         block_info = info.block_info
-        arch_info = info.arch_info
-        bind_var = info.bind_var
-        bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
         print(bind_var.var.value, bind_val)
         binding_indices = info.valid_bindings[bind_val]
         for i in range(N):
@@ -288,8 +294,6 @@ def RR(solver, info):
             print(f"Instruction {i}")
             binding = block_info[i].bindings[binding_indices[i]]
             pretty_print_binding(binding)
-            instrs = [block_info[i].arch_inputs[field] for field in arch_info.const_dict]
-            ivals = [solved_to_bv(instr._value_,solver) for instr in instrs]
-            print(ivals)
+            print(ivals[i])
         return info
     return get_info
-- 
2.43.0


From 06c4414b968001d0fd003b31f09796eb2c069e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:07 +0000
Subject: [PATCH 37/37] fix: multi-instruction mapping of interfaces with
 structured inputs or outputs

---
 peak/mapper/multi.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index 2f2466b..119f9d5 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -86,7 +86,11 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
     #This contains the 'input binding' for a particular instruction. Indexed by instruction index
     block_info = []
 
-    pysmt_forall_vars = [v.value for v in ir_inputs.values()]
+    def pysmt_value(v):
+        #Adts hold their value as bits
+        return getattr(v, '_value_', v).value
+
+    pysmt_forall_vars = [pysmt_value(v) for v in ir_inputs.values()]
     valid_conds = []
 
 
@@ -140,8 +144,8 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
         free_arch_outputs = {field:_create_free_var(output_aadt[field], f"ArchOut_I{i}_{field}") for field in arch_info.output_t.field_dict}
         real_arch_outputs, bb_inputs, bb_outputs = run_peak(arch_obj, output_aadt, arch_inputs, bb_prefix=f"{i}.BB.{arch_info.cls.__name__}")
 
-        pysmt_forall_vars += [v.value for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
-        pysmt_forall_vars += [v.value for v in bb_outputs.values()]
+        pysmt_forall_vars += [pysmt_value(v) for field, v in arch_inputs.items() if field in arch_info.non_const_dict]
+        pysmt_forall_vars += [pysmt_value(v) for v in bb_outputs.values()]
 
 
         #Creating i'th binding
@@ -215,7 +219,7 @@ def Multi(arch_fc, ir_fc, N: int, family=peak_family, IVar: IndexVar = Binary, u
                 real = block_info[i].real_arch_outputs
                 fake = block_info[i].free_arch_outputs
                 for vr, vf in zip(real.values(), fake.values()):
-                    pysmt_forall_vars.append(vf.value)
+                    pysmt_forall_vars.append(pysmt_value(vf))
                     free_repl.append(vf==vr)
             free_repl = And(free_repl)
 
-- 
2.43.0

