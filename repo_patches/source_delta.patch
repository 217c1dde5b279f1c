From c6b9cb867e6e44c6dd4bf034d9f0e104c52a6b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 01/50] fix: accept branch displacements -128..127 instead of
 -127..128

---
 CMakePasm/source/expand.cc    | 2 +-
 CMakePasm/source/genoutput.cc | 2 +-
 CMakePasm/source/node.cc      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 7e8b5f0..b99691a 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -919,7 +919,7 @@ int expand_op_code_node(const parse_node_ptr p)
                 // make sure a branch is in range
                 const int op = op_value - (p->opcode.program_counter + 2);
 
-                if (op > 128 || op < -127)
+                if (op > 127 || op < -128)
                 {
                     // reverse the logic and insert a jmp
                     switch (p->opcode.instruction)
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 2fabd7d..b921c1f 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -224,7 +224,7 @@ int write_opcode_node(FILE* file, const parse_node_ptr p)
             // make sure a branch is in range
             op -= (p->opcode.program_counter + 2);
 
-            if (op > 128 || op < -127)
+            if (op > 127 || op < -128)
             {
                 error(error_value_out_of_range);
                 return 0;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 64ed315..8e68a3a 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1751,7 +1751,7 @@ int generate_list_node(const parse_node_ptr p)
         if (p->opcode.mode == r)
         {
             op -= (p->opcode.program_counter + 2);
-            if (op > 128 || op < -127)
+            if (op > 127 || op < -128)
             {
                 // This error is reported in generate_output
                 fprintf(console, "%s\n", current_buffer);
-- 
2.43.0


From 8746f5d2e43ee50c4f9be4bec961915b4b7bb486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 02/50] fix: far branch trampoline reverses bvc/bvs, emits bra
 as a plain jmp and restores the node it rewrites

---
 CMakePasm/source/expand.cc | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index b99691a..f71494c 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -802,6 +802,7 @@ int expand_op_code_node(const parse_node_ptr p)
     int mode_check = p->opcode.mode;
     const int save_mode = p->opcode.mode;
     const int save_op_code = p->opcode.opcode;
+    const int save_instruction = p->opcode.instruction;
     int op_bytes;
 
     if (program_counter_assigned > 0)
@@ -950,6 +951,14 @@ int expand_op_code_node(const parse_node_ptr p)
                     case _bpl:
                         p->opcode.instruction = _bmi;
                         break;
+
+                    case _bvc:
+                        p->opcode.instruction = _bvs;
+                        break;
+
+                    case _bvs:
+                        p->opcode.instruction = _bvc;
+                        break;
                     }
                     code2 = get_op_code(p->opcode.instruction, r);
                     if (code2 != -1)
@@ -963,14 +972,19 @@ int expand_op_code_node(const parse_node_ptr p)
                             exit(-1);
                         }
 
-                        p->opcode.opcode = code2;
-                        if (final_pass)
+                        // an unconditional branch only needs the jmp
+                        if (save_instruction != _bra)
                         {
-                            p->op[index] = constant_node(program_counter + 5, 0);
-                            generate_list_node(p);
-                            generate_output(output_file, p);
+                            p->opcode.opcode = code2;
+                            if (final_pass)
+                            {
+                                p->op[index] = constant_node(program_counter + 5, 0);
+                                generate_list_node(p);
+                                generate_output(output_file, p);
+                                p->op[index] = target;
+                            }
+                            program_counter += get_op_code_byte_count(p) + 1;
                         }
-                        program_counter += get_op_code_byte_count(p) + 1;
                         if (final_pass)
                         {
                             jmp->opcode.program_counter = program_counter;
@@ -980,6 +994,7 @@ int expand_op_code_node(const parse_node_ptr p)
                             warn(error_branch_out_of_range);
                         }
                         program_counter += get_op_code_byte_count(jmp) + 1;
+                        p->opcode.instruction = save_instruction;
                         p->opcode.opcode = save_op_code;
                         p->opcode.mode = save_mode;
 
-- 
2.43.0


From 299709746700a9fab96e019d3559516869104c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 03/50] fix: a register loop counting up to 255 runs its body
 for 255

---
 CMakePasm/source/expand.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index f71494c..8ded003 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -636,7 +636,8 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
     expand_node(loop_next);
 
     // check to see if we need a compare
-    if (end != 0)
+    // counting up to 255 ends when the register wraps to 0
+    if (end != 0 && !(increment_flag > 0 && end == 255))
     {
         parse_node_ptr cmp_node;
         if (increment_flag > 0 && end < 255)
-- 
2.43.0


From 7dbee4af9772f7abd7fcab4e554f98db4a9bdf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 04/50] fix: report failure when the final pass finds errors

---
 CMakePasm/source/pass.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 4dbbc92..d4202ac 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -299,6 +299,13 @@ int assemble(void)
 
     delete_list_table();
 
+    // errors can still be found in the final pass
+    if (error_count > 0)
+    {
+        fprintf(console_error, "%d error(s)\n", error_count);
+        return -1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From c5732f3d79f6e867202062afde026aa56a16335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 05/50] fix: -d accepts decimal values of more than two digits

---
 CMakePasm/source/parseargs.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index f18b837..61389e5 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -311,16 +311,13 @@ int parse_arguments(const int argc, char* argv[])
             {
                 sym_val = (int)strtol(val + 1, NULL, 2);
             }
-            else if (strlen(val) > 2)
+            else if (val[0] == '0' && val[1] == 'x')
             {
-                if (val[0] == '0' && val[1] == 'x')
-                {
-                    sym_val = (int)strtol(val + 2, NULL, 16);
-                }
-                else if (val[0] == '0' && val[1] == 'b')
-                {
-                    sym_val = (int)strtol(val + 2, NULL, 2);
-                }
+                sym_val = (int)strtol(val + 2, NULL, 16);
+            }
+            else if (val[0] == '0' && val[1] == 'b')
+            {
+                sym_val = (int)strtol(val + 2, NULL, 2);
             }
             else
             {
-- 
2.43.0


From 83534f5c931fc46297cbd15d6c97781a64eb9879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 06/50] fix: .fill and .ds with a count of 0 reserve no space

---
 CMakePasm/source/expand.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 8ded003..4b27dfd 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -405,7 +405,7 @@ int expand_operator_fill_node(const parse_node_ptr p)
     }
     else
     {
-        program_counter += count > 0 ? count : 1;
+        program_counter += count;
     }
     return byt;
 }
@@ -1652,7 +1652,7 @@ int expand_operator_ds_node(const parse_node_ptr p)
 
 //    if (final_pass)
     {
-        program_counter += count > 0 ? count : 1;
+        program_counter += count;
     }
     
     return op;
-- 
2.43.0


From 154570670283d6716c48f94d96f23663113ff5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 07/50] fix: .str values advance the program counter by the
 bytes written

---
 CMakePasm/source/expand.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4b27dfd..0435f9d 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1275,9 +1275,9 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             }
             else
             {
+                // same size as written by generate_output
                 const int op = expand_node(pp);
-                const int hi = (op & 0xFF00) >> 8;
-                if (hi != 0)
+                if ((op & ~0xFF) != 0)
                     program_counter++;
                 program_counter++;
             }
-- 
2.43.0


From fa3f0a19d0e122dbe7eb6e8c000b2871cdf64eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 08/50] fix: space reserved by .ds between emitted bytes is
 filled in the output

---
 CMakePasm/source/expand.cc    | 12 ++++++++----
 CMakePasm/source/genoutput.cc | 16 ++++++++++++----
 CMakePasm/source/genoutput.h  |  1 +
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 0435f9d..6baa8d2 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -40,7 +40,6 @@ enum
 static int program_counter_assigned = 0;
 static int code_generated = 0;
 int max_macro_param = 0;
-extern int origin;
 
 // for 6502 and 65C02
 int max_address = 0xFFFF;
@@ -683,6 +682,8 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
 //
 int expand_data_node(const parse_node_ptr p)
 {
+    if (!origin_specified)
+        set_output_origin(program_counter);
     origin_specified = true;
 
     expansion_type = data_bytes;
@@ -806,8 +807,11 @@ int expand_op_code_node(const parse_node_ptr p)
     const int save_instruction = p->opcode.instruction;
     int op_bytes;
 
-    if (program_counter_assigned > 0)
+    if (program_counter_assigned > 0 && !origin_specified)
+    {
+        set_output_origin(program_counter);
         origin_specified = true;
+    }
 
     p->opcode.program_counter = program_counter;
  
@@ -1100,7 +1104,7 @@ int expand_operator_program_counter_assign_node(const parse_node_ptr p)
     origin_specified = true;
 
     program_counter = op;
-    origin = op;
+    set_output_origin(op);
     return 0;
 }
 
@@ -1120,7 +1124,7 @@ int expand_operator_org_node(const parse_node_ptr p)
     }
     const int op = expand_node(p->op[0]);
     program_counter = op;
-    origin = op;
+    set_output_origin(op);
     origin_specified = true;
     org_origin_specified = true;
     return 0;
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index b921c1f..88ccae7 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -35,6 +35,15 @@ void generate_output_reset(void)
     origin_specified = 0;
 }
 
+/**
+ * \brief set the address the bytes written next are assembled for
+ * \param address address to assemble for
+ */
+void set_output_origin(const int address)
+{
+    origin = address - (total_bytes_written - byte_delta);
+}
+
 int write_data(FILE* file, const int data)
 {
     if (data_size == 1)
@@ -274,11 +283,10 @@ int generate_output(FILE* file, const parse_node_ptr p)
         }
     }
 
-    const int delta = program_counter - (origin + total_bytes_written);
-    if (delta > 0)
+    // fill space reserved by .ds since the last bytes were written
+    if (write_program_counter_pad(file, program_counter - origin) < 0)
     {
-        error(error_value_out_of_range);
-        exit(-1);        
+        return 0;
     }
 
     if (p == NULL)
diff --git a/CMakePasm/source/genoutput.h b/CMakePasm/source/genoutput.h
index d03c6ef..f47792a 100644
--- a/CMakePasm/source/genoutput.h
+++ b/CMakePasm/source/genoutput.h
@@ -2,6 +2,7 @@
 
 #include "node.h"
 
+extern void set_output_origin(int address);
 extern int generate_output(FILE* file, parse_node_ptr p);
 extern int get_op_code_byte_count(parse_node_ptr p);
 extern void generate_output_reset(void);
-- 
2.43.0


From 3df411adaf5da8534a9299474b6c01b51a75871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 09/50] fix: +/- label lookups never return an index outside
 the table

---
 CMakePasm/source/sym.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 2e16c48..e2debdb 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -345,7 +345,7 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     if (found_index >= 0)
     {
         found_index = found_index + 1 - depth;
-        if (found_index >= 0 || found_index < minus_symbol_table_index)
+        if (found_index >= 0 && found_index < minus_symbol_table_index)
             return found_index;
     }
     return -1;
@@ -369,7 +369,7 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     if (found_index >= 0)
     {
         found_index = found_index -1 + depth;
-        if (found_index >= 0 || found_index < plus_symbol_table_index)
+        if (found_index >= 0 && found_index < plus_symbol_table_index)
             return found_index;
     }
     return -1;
-- 
2.43.0


From 412224596f10d0c28fe49e7d238f795347a5c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 10/50] fix: .endif of a false .ifdef nested in a true block
 ends the skipping; a stray .else is a syntax error

---
 CMakePasm/source/pasm.l | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 2791320..43ffc88 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -207,8 +207,9 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 <IF_DEF>".ENDIF"            {
                                 P_TOK("ENDIF")
                                 SV_TOK
-                                ifdef_stack->pop(ifdef_stack->instance); 
-                                if (ifdef_stack->instance->index < 0)
+                                // skipping ends with the .endif of the .ifdef that started it
+                                int last_if = * (int*) ifdef_stack->pop(ifdef_stack->instance);
+                                if (last_if == 0)
                                 {
                                     if (final_pass)
                                     {
@@ -237,6 +238,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 ".ELSE"                     {
                                 P_TOK("ELSE")
                                 SV_TOK
+                                if (ifdef_stack->instance->index < 0) return ELSE;
+
                                 int last_if = * (int*) ifdef_stack->top(ifdef_stack->instance);
                                 if (last_if != 0)
                                 {
-- 
2.43.0


From e22f9f075b05c45e0f43ad178c4ee5c8b171e6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 11/50] fix: list both bytes of a .str word and do not print a
 freed buffer

---
 CMakePasm/source/node.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 8e68a3a..0191b6a 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1680,12 +1680,15 @@ int generate_list_node(const parse_node_ptr p)
         {
             hi = 0;
         }
+        // a .str value is written as a byte or a word
+        const int size = data_size == 0 ? ((op & ~0xFF) != 0 ? 2 : 1) : data_size;
+
         // check for overflow
-        if (hi != 0 && data_size < 2)
+        if (hi != 0 && size < 2)
         {
-            FREE(current_buffer);
             // This error is reported in generate_output
             fprintf(console, "%s\n", current_buffer);
+            FREE(current_buffer);
             return 0;
         }
 
@@ -1704,7 +1707,7 @@ int generate_list_node(const parse_node_ptr p)
         current_ptr += strlen(current_ptr);
 
         // output hi byte
-        if (data_size > 1)
+        if (size > 1)
         {
             sprintf(current_ptr, " $%02X", hi);
             current_ptr += strlen(current_ptr);
@@ -1718,7 +1721,7 @@ int generate_list_node(const parse_node_ptr p)
         current_ptr += strlen(current_ptr);
         sprintf(current_ptr, "$%02X", lo);
         current_ptr += strlen(current_ptr);
-        if (data_size > 1 || (data_size == 0 && hi != 0))
+        if (size > 1)
         {
             sprintf(current_ptr, ", $%02X", hi);
             // ReSharper disable once CppAssignedValueIsNeverUsed
-- 
2.43.0


From 83c77d8a87f61784c3305387879b44faeccfc305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 12/50] fix: list the pad byte of a .word string on its own row

---
 CMakePasm/source/node.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 0191b6a..4f541bd 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1622,6 +1622,15 @@ int generate_list_node(const parse_node_ptr p)
         // if using a string with WORD then pad to a word boundary
         if (data_size == 2 && p->str.len % 2)
         {
+            // start a new row when the last one is full
+            if (col == 0)
+            {
+                string_start = str;
+                current_ptr = current_buffer;
+                op = (program_counter + bytes) & 0xFFFF;
+                sprintf(current_ptr, "$%02X%02X:", ((op) >> 8), op & 0xFF);
+                current_ptr += strlen(current_ptr);
+            }
             col++;
             sprintf(current_ptr, " $%02X", *str & 0xFF);
             current_ptr += strlen(current_ptr);
-- 
2.43.0


From 6f6afbfa73eaa91fef1dcd5696c17086827fe4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:14 +0000
Subject: [PATCH 13/50] fix: dict_delete frees the element of a string key

---
 CMakePasm/source/dictionary.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/dictionary.cc b/CMakePasm/source/dictionary.cc
index a49689e..3fa4266 100644
--- a/CMakePasm/source/dictionary.cc
+++ b/CMakePasm/source/dictionary.cc
@@ -270,6 +270,7 @@ void dict_delete(const dictionary_ptr d, const void* key)
                 // ReSharper disable once CppPointerConversionDropsQualifiers
                 FREE(p);  // NOLINT(clang-diagnostic-incompatible-pointer-types-discards-qualifiers)
                 FREE(e->value);
+                FREE(e);
                 (d->number_elements)--;
                 return;
             }
-- 
2.43.0


From 73914cbe9d36e37b1450e0546cf88ccaec0d95a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 14/50] fix: macro arguments are evaluated before any parameter
 is set

---
 CMakePasm/source/expand.cc | 51 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 6baa8d2..19e0df7 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -182,6 +182,12 @@ int end_expansion = 0;
 //
 int macro_parameter_index = 0;
 
+//
+// values of the parameters of the macro being called
+//
+static int* macro_parameter_values = nullptr;
+static int macro_parameter_values_size = 0;
+
 //
 // flag to unroll loops
 // always true for now
@@ -1130,6 +1136,44 @@ int expand_operator_org_node(const parse_node_ptr p)
     return 0;
 }
 
+/// <summary>
+/// Remember the value of a macro parameter
+/// </summary>
+/// <param name="index">The number of the parameter.</param>
+/// <param name="value">The value of the parameter.</param>
+static void save_macro_parameter_value(const int index, const int value)
+{
+    if (index >= macro_parameter_values_size)
+    {
+        const int size = index + 10;
+        int* tmp = static_cast<int*>(REALLOC(macro_parameter_values, size * sizeof(int)));
+        if (tmp == nullptr)
+        {
+            error(error_out_of_memory);
+            exit(-1);
+        }
+        macro_parameter_values = tmp;
+        macro_parameter_values_size = size;
+    }
+    macro_parameter_values[index] = value;
+}
+
+/// <summary>
+/// Set the macro parameters to the remembered values
+/// </summary>
+static void set_macro_parameters(void)
+{
+    char sym_name[max_macro_param_name_len] = { 0 };
+
+    for (int index = 1; index <= macro_parameter_index; index++)
+    {
+        sprintf(sym_name, "\\%d", index);
+        const symbol_table_ptr symbol_ptr = add_symbol(sym_name);
+        set_symbol_value(symbol_ptr, macro_parameter_values[index]);
+        symbol_ptr->is_initialized = true;
+    }
+}
+
 /// <summary>
 /// Operator Expression List
 /// </summary>
@@ -1214,8 +1258,9 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             symbol_ptr = add_symbol(sym_name);
             if (symbol_ptr != nullptr)
             {
-                set_symbol_value(symbol_ptr, expand_node(pp));
-                symbol_ptr->is_initialized = true;
+                // parameters can refer to the parameters of the calling macro
+                // so they are set when all of them have been evaluated
+                save_macro_parameter_value(macro_parameter_index, expand_node(pp));
             }
             else
             {
@@ -1418,6 +1463,8 @@ int expand_macro_expansion_node(const parse_node_ptr p)
     if (p->macro.macro_params != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro_params));
 
+    set_macro_parameters();
+
     char* temp = last_label;
     sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
     last_label = (char*) STRDUP(internal_buffer);
-- 
2.43.0


From 0f2d70346fb530a13a49c4d90b553387f3ecd81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 15/50] fix: sanitize_string does not read past a string ending
 in a backslash

---
 CMakePasm/source/str.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/str.cc b/CMakePasm/source/str.cc
index 5688386..9a7c8f5 100644
--- a/CMakePasm/source/str.cc
+++ b/CMakePasm/source/str.cc
@@ -99,7 +99,10 @@ char* sanitize_string(char* str)
                 break;
             }
             *tmp_str++ = static_cast<char>(esc_char);
-            str++;
+
+            // do not skip the end of the string
+            if (*str)
+                str++;
         }
         else if (*str)
         {
-- 
2.43.0


From 9cc2b8e21c4bff33cb07d42a005109cf618933da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 16/50] fix: .load of a missing file is an error, not a crash

---
 CMakePasm/source/expand.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 19e0df7..036f5e7 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -425,6 +425,7 @@ int expand_operator_load_node(const parse_node_ptr p)
     if (fd == nullptr)
     {
         error(error_cant_open_include_file);
+        return 0;
     }
 
     fseek(fd, 0, SEEK_END);
-- 
2.43.0


From 6af751712174beb9164fa82dffeed43e3f69316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 17/50] fix: the macro table stores and returns whole entries

---
 CMakePasm/source/expand.cc | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 036f5e7..fda4e33 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1382,19 +1382,15 @@ macro_dict_entry* create_macro_entry(const char* name)
 {
     // ReSharper disable once CppTooWideScope
     if (macro_dict == nullptr)
-        macro_dict = dict_create(sizeof(macro_dict_entry*), 0);
+        macro_dict = dict_create(sizeof(struct macro_dict_entry), 0);
 
     auto* macro_dict_entry = static_cast<struct macro_dict_entry*>(dict_search(macro_dict, name));
     if (macro_dict_entry == nullptr)
     {
-        macro_dict_entry = static_cast<struct macro_dict_entry*>(MALLOC(sizeof(struct macro_dict_entry)));
-        if (macro_dict_entry == nullptr)
-        {
-            error(error_out_of_memory);
-            exit(-1);
-        }
-        macro_dict_entry->times_executed = 0;
-        dict_insert(&macro_dict, const_cast<char*>(name), macro_dict_entry);
+        // the dictionary holds its own copy of the entry
+        struct macro_dict_entry new_entry = { 0 };
+        macro_dict_entry = static_cast<struct macro_dict_entry*>(
+            dict_insert(&macro_dict, const_cast<char*>(name), &new_entry));
     }
     return macro_dict_entry;
 }
@@ -1408,7 +1404,7 @@ void reset_macro_dict(void)
 
     if (macro_dict == nullptr)
     {
-        macro_dict = dict_create(sizeof(macro_dict_entry*), 0);
+        macro_dict = dict_create(sizeof(struct macro_dict_entry), 0);
     }
     for (int index = 0; index < macro_dict->size; index++)
     {
-- 
2.43.0


From 129609b1bedbda0aa4f712d5a8376c279e98181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:23 +0000
Subject: [PATCH 18/50] fix: .fill before any origin emits all its bytes

---
 CMakePasm/source/expand.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index fda4e33..2185036 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -368,6 +368,10 @@ int expand_operator_fill_node(const parse_node_ptr p)
         error(error_value_out_of_range);
         exit(-1);
     }
+    if (!origin_specified)
+        set_output_origin(program_counter);
+    origin_specified = true;
+
     if (final_pass) 
     {
         data_size = 0;
-- 
2.43.0


From 7db0521c24841c75f66df9c82dbfa3673319a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 19/50] fix: data whose || or && skips an operand is still
 emitted

---
 CMakePasm/source/expand.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 2185036..1d92d23 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -2079,6 +2079,11 @@ bool has_uninitialized_symbol(const parse_node_ptr p)
     {
         if (has_uninitialized_symbol(p->op[index]) || is_uninitialized_symbol(p->op[index]))
             return true;
+
+        // the other operand is not expanded when the first one decides the result
+        if (index == 0 && p->type == type_opr &&
+            ((p->opr.opr == OR && expand_node(p->op[0])) || (p->opr.opr == AND && !expand_node(p->op[0]))))
+            break;
     }
     return false;
 }
-- 
2.43.0


From 87af53d9bc123d4301c4aeb19dde361f3f49c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:03 +0000
Subject: [PATCH 20/50] fix: a .fill after a header or reserved space emits all
 its bytes

---
 CMakePasm/source/genoutput.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 88ccae7..051c896 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -267,7 +267,6 @@ int write_opcode_node(FILE* file, const parse_node_ptr p)
 int generate_output(FILE* file, const parse_node_ptr p)
 {
     int bytes_written;
-    const int start_bytes = total_bytes_written;
 
     // if there is no output file exit
     if (file == NULL || !origin_specified)
@@ -289,6 +288,9 @@ int generate_output(FILE* file, const parse_node_ptr p)
         return 0;
     }
 
+    // the header and the reserved space are not part of the node
+    const int start_bytes = total_bytes_written;
+
     if (p == NULL)
         return total_bytes_written - start_bytes;
 
-- 
2.43.0


From eeb54cef0949ed13c237679fac18978a1a9a251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:09 +0000
Subject: [PATCH 21/50] fix: an anonymous label on the first line of a file or
 after .inc is a label

---
 CMakePasm/source/pasm.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 43ffc88..0d25c42 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -340,7 +340,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 return SYMBOL;
                             }
 [\+|\-]+                    {
-                                if (last_token != nullptr && *last_token == '\n')
+                                if (last_token == nullptr || *last_token == '\n')
                                 {
                                     SV_TOK
                                     P_TOK("LABEL")
-- 
2.43.0


From 602c8e503809f6e8d396056410a0c54a9c38d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:31 +0000
Subject: [PATCH 22/50] fix: an operand whose || or && did not expand a symbol
 before is sized by its value

---
 CMakePasm/source/expand.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 1d92d23..5baf5fc 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -2077,13 +2077,15 @@ bool has_uninitialized_symbol(const parse_node_ptr p)
 {
     for (int index = 0; index < p->number_of_ops; index++)
     {
+        // the second operand is not expanded when the first one decides the result
+        if (index == 1 && p->type == type_opr && (p->opr.opr == OR || p->opr.opr == AND))
+        {
+            if ((expand_node(p->op[0]) != 0) == (p->opr.opr == OR))
+                break;
+            expand_node(p->op[1]);
+        }
         if (has_uninitialized_symbol(p->op[index]) || is_uninitialized_symbol(p->op[index]))
             return true;
-
-        // the other operand is not expanded when the first one decides the result
-        if (index == 0 && p->type == type_opr &&
-            ((p->opr.opr == OR && expand_node(p->op[0])) || (p->opr.opr == AND && !expand_node(p->op[0]))))
-            break;
     }
     return false;
 }
-- 
2.43.0


From b467ce42552fd9b1488331d468cc7fbd81ea4de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:51 +0000
Subject: [PATCH 23/50] fix: text in strings and comments of a skipped part is
 not a directive

---
 CMakePasm/source/pasm.l | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 0d25c42..02f035e 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -218,6 +218,11 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                     BEGIN(INITIAL); 
                                 }
                             }
+<IF_DEF>{STRVALUE}          { /* text in strings, comments and names is not a directive */ }
+<IF_DEF>[\'][\\]?.[\']      { /* ignore ifdef false */ }
+<IF_DEF>;[^\n]*             { /* ignore ifdef false */ }
+<IF_DEF>[/][/][^\n]*        { /* ignore ifdef false */ }
+<IF_DEF>{SYMB}              { /* ignore ifdef false */ }
 <IF_DEF>.|[\n]              { /* ignore ifdef false */ }
 ".ENDIF"                    {  
                                 P_TOK("ENDIF")
-- 
2.43.0


From a4849fdc4f95306488fd07222861cb881989ee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:30 +0000
Subject: [PATCH 24/50] fix: the operator tables copy only the function pointer

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 5baf5fc..ac94074 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -2092,7 +2092,7 @@ bool has_uninitialized_symbol(const parse_node_ptr p)
 
 static dictionary_ptr create_op_table_dictionary(op_table table[], const size_t size)
 {
-    dictionary_ptr dictionary = dict_create(sizeof(op_table), -1);
+    dictionary_ptr dictionary = dict_create(sizeof(expr), -1);
     for (size_t i = 0; i < size; ++i)
     {
         dict_insert(&dictionary, (void*)static_cast<size_t>(table[i].tag), &table[i].function);
-- 
2.43.0


From b27f59dc7c411c88f0e3e353b80be8fc4ed1bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:27 +0000
Subject: [PATCH 25/50] fix: a string keeps the bytes after \\x00

---
 CMakePasm/source/genoutput.cc |  7 +++----
 CMakePasm/source/node.cc      |  3 +--
 CMakePasm/source/str.cc       | 13 +++++++++++++
 CMakePasm/source/str.h        |  1 +
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 051c896..0b35cd1 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -22,7 +22,7 @@ int origin = 0;
 
 int write_byte(FILE* file, unsigned char ch);
 int write_word(FILE* file, int word);
-int write_string(FILE* file, const char* str);
+int write_string(FILE* file, const char* str, size_t len);
 
 /**
  * \brief reset output variables
@@ -80,9 +80,8 @@ int write_word(FILE* file, const int word)
     return bytes_written;
 }
 
-int write_string(FILE* file, const char* str)
+int write_string(FILE* file, const char* str, const size_t len)
 {
-    const size_t len = strlen(str);
     // ReSharper disable once CppRedundantCastExpression
     const int bytes_written = static_cast<int>(fwrite(str, 1, len, file));
     if (bytes_written < static_cast<int>(len))
@@ -132,7 +131,7 @@ int write_program_counter_pad(FILE* file, const int delta)
 
 int write_string_node(FILE* file, const parse_node_ptr p)
 {
-    int bytes_written = write_string(output_file, p->str.value);
+    int bytes_written = write_string(output_file, p->str.value, p->str.len);
     total_bytes_written += (int)bytes_written;
     if (bytes_written < p->str.len)
     {
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 4f541bd..674b35e 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -142,13 +142,12 @@ parse_node_ptr string_node(const char* value)
     if (p->str.value)
         FREE(p->str.value);
 
-    p->str.value = sanitize_string(str);
+    p->str.value = sanitize_string_length(str, &p->str.len);
     if (p->str.value == nullptr)
     {
         error(error_out_of_memory);
         exit(-1);  // NOLINT(concurrency-mt-unsafe)
     }
-    p->str.len = static_cast<int>(strlen(p->str.value));
 
     return p;
 }
diff --git a/CMakePasm/source/str.cc b/CMakePasm/source/str.cc
index 9a7c8f5..b75e3ef 100644
--- a/CMakePasm/source/str.cc
+++ b/CMakePasm/source/str.cc
@@ -16,6 +16,18 @@
  * \return a newly allocated string
  */
 char* sanitize_string(char* str)
+{
+    int str_len;
+    return sanitize_string_length(str, &str_len);
+}
+
+/**
+ * \brief Normalize a string that may contain escape chars
+ * \param str string to normalize
+ * \param str_len length of the normalized string, which may contain zero bytes
+ * \return a newly allocated string
+ */
+char* sanitize_string_length(char* str, int* str_len)
 {
     const int len = static_cast<int>(strlen(str)) + 1;
 
@@ -110,5 +122,6 @@ char* sanitize_string(char* str)
         }
     }
 
+    *str_len = static_cast<int>(tmp_str - out_str);
     return out_str;
 }
diff --git a/CMakePasm/source/str.h b/CMakePasm/source/str.h
index 0fcec2b..be1bc23 100644
--- a/CMakePasm/source/str.h
+++ b/CMakePasm/source/str.h
@@ -1,3 +1,4 @@
 #pragma once
 
 extern char* sanitize_string(char* str);
+extern char* sanitize_string_length(char* str, int* str_len);
-- 
2.43.0


From 5b2ec99fa9e140bfca44c2ce5f8efe6a26da8deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:53 +0000
Subject: [PATCH 26/50] fix: a dictionary that grows still finds the most
 recent value of a key

---
 CMakePasm/source/dictionary.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/dictionary.cc b/CMakePasm/source/dictionary.cc
index 3fa4266..538dc25 100644
--- a/CMakePasm/source/dictionary.cc
+++ b/CMakePasm/source/dictionary.cc
@@ -122,7 +122,16 @@ static dictionary_ptr grow(const dictionary_ptr d)
     d2->collisions = 0;
     for (int index = 0; index < d->size; index++)
     {
-        for (element_ptr element = d->table[index]; element != 0; element = element->next)
+        // insert the oldest first, the most recently inserted must be found first
+        element_ptr oldest = NULL;
+        for (element_ptr element = d->table[index]; element != 0;)
+        {
+            const element_ptr next = element->next;
+            element->next = oldest;
+            oldest = element;
+            element = next;
+        }
+        for (element_ptr element = oldest; element != 0; element = element->next)
         {
             /* note: this recopies everything */
             /* a more efficient implementation would
-- 
2.43.0


From b44de935e073a13e0de49018b775d4edabd515f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:01 +0000
Subject: [PATCH 27/50] fix: an anonymous label is never resolved to a label of
 another file

---
 CMakePasm/source/sym.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index e2debdb..dff64ff 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -344,8 +344,10 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     }
     if (found_index >= 0)
     {
+        // the labels of a file are next to each other
         found_index = found_index + 1 - depth;
-        if (found_index >= 0 && found_index < minus_symbol_table_index)
+        if (found_index >= 0 && found_index < minus_symbol_table_index &&
+            stricmp(file, minus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
@@ -368,8 +370,10 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     }
     if (found_index >= 0)
     {
+        // the labels of a file are next to each other
         found_index = found_index -1 + depth;
-        if (found_index >= 0 && found_index < plus_symbol_table_index)
+        if (found_index >= 0 && found_index < plus_symbol_table_index &&
+            stricmp(file, plus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
-- 
2.43.0


From baac5e69f0803e9cfb5615f4ac67454e68fcece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:10 +0000
Subject: [PATCH 28/50] fix: a reference to a missing anonymous label is an
 error

---
 CMakePasm/source/error.cc  | 1 +
 CMakePasm/source/error.h   | 1 +
 CMakePasm/source/expand.cc | 4 ++++
 3 files changed, 6 insertions(+)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 86806d9..7a02de4 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -67,6 +67,7 @@ const char* errors[] =
     "Error opening output file.",
     "Error creating list node.",
     "Error path name too long.",
+    "Anonymous label not found.",
 };
 
 /**
diff --git a/CMakePasm/source/error.h b/CMakePasm/source/error.h
index b0c92f0..4bf1076 100644
--- a/CMakePasm/source/error.h
+++ b/CMakePasm/source/error.h
@@ -59,5 +59,6 @@ enum
     error_opening_output_file,
     error_creating_list_node,
     error_path_name_too_long,
+    error_anonymous_label_not_found,
     error_max
 };
diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index ac94074..c567fdf 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -505,6 +505,10 @@ int expand_plus_minus_node(const parse_node_ptr p)
         sym->is_initialized = true;
         sym->times_accessed++;
     }
+    else if (final_pass)
+    {
+        error(error_anonymous_label_not_found);
+    }
     p->id.i = sym;
 
     return sym->value;
-- 
2.43.0


From cb3d3e7218edd48737545bc9d1c5217e9fcefcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:25 +0000
Subject: [PATCH 29/50] fix: dividing the smallest value by -1 does not crash

---
 CMakePasm/source/expand.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index c567fdf..6da610e 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1881,12 +1881,18 @@ int expand_operator_multiply_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_divide_node(const parse_node_ptr p)
 {
-    if (expand_node(p->op[1]) == 0)
+    const int divisor = expand_node(p->op[1]);
+    if (divisor == 0)
     {
         error(error_divide_by_zero);
         return 0;
     }
-    return expand_node(p->op[0]) / expand_node(p->op[1]);
+    const int dividend = expand_node(p->op[0]);
+
+    // dividing the smallest int by -1 would trap
+    if (divisor == -1)
+        return static_cast<int>(0u - dividend);
+    return dividend / divisor;
 }
 
 /// <summary>
-- 
2.43.0


From 95623cca0dc2448267947032ccdd777cfb256c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:14 +0000
Subject: [PATCH 30/50] fix: a value stays where it is when the dictionary
 grows

---
 CMakePasm/source/dictionary.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/source/dictionary.cc b/CMakePasm/source/dictionary.cc
index 538dc25..a17dae3 100644
--- a/CMakePasm/source/dictionary.cc
+++ b/CMakePasm/source/dictionary.cc
@@ -131,12 +131,20 @@ static dictionary_ptr grow(const dictionary_ptr d)
             oldest = element;
             element = next;
         }
-        for (element_ptr element = oldest; element != 0; element = element->next)
+        for (element_ptr element = oldest; element != 0;)
         {
-            /* note: this recopies everything */
-            /* a more efficient implementation would
-             * to avoid this problem */
-            dict_insert(&d2, element->key, element->value);
+            /* the element itself is moved, pointers to its value stay valid */
+            const element_ptr next = element->next;
+            const unsigned long h = (d->key_type == 0
+                ? hash_function(static_cast<const char*>(element->key))
+                : hash_pointer_function(element->key)) % d2->size;
+            element->next = d2->table[h];
+            if (element->next)
+                d2->collisions++;
+
+            d2->table[h] = element;
+            d2->number_elements++;
+            element = next;
         }
     }
 
-- 
2.43.0


From 0e30eaea1e49eb1f7f4ccec19f84f0800f3a1588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:42 +0000
Subject: [PATCH 31/50] fix: a branch reaches a local label at address zero
 however far away

The value 0 stands for a label that is not known yet in the first pass only.
---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 6da610e..fa82f70 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -890,7 +890,7 @@ int expand_op_code_node(const parse_node_ptr p)
 
             // fix for local labels
             const char ch = (pp->type == type_id) ? pp->id.name[0] : 0;
-            if (op_value == 0 && p->opcode.mode == r && p->number_of_ops == 1 && pp->type == type_id 
+            if (pass == 1 && op_value == 0 && p->opcode.mode == r && p->number_of_ops == 1 && pp->type == type_id 
                 && (ch == '@' || ch == '-' || ch =='+') )
                 op_value = program_counter;
 
-- 
2.43.0


From 2f75e220d987cf3486f4b5914e78e1a8321426e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:55 +0000
Subject: [PATCH 32/50] fix: an out of range bbr or bbs is reversed like the
 other branches

---
 CMakePasm/source/expand.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index fa82f70..bcc1b45 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -979,6 +979,28 @@ int expand_op_code_node(const parse_node_ptr p)
                     case _bvs:
                         p->opcode.instruction = _bvc;
                         break;
+
+                    case _bbr0:
+                    case _bbr1:
+                    case _bbr2:
+                    case _bbr3:
+                    case _bbr4:
+                    case _bbr5:
+                    case _bbr6:
+                    case _bbr7:
+                        p->opcode.instruction += _bbs0 - _bbr0;
+                        break;
+
+                    case _bbs0:
+                    case _bbs1:
+                    case _bbs2:
+                    case _bbs3:
+                    case _bbs4:
+                    case _bbs5:
+                    case _bbs6:
+                    case _bbs7:
+                        p->opcode.instruction -= _bbs0 - _bbr0;
+                        break;
                     }
                     code2 = get_op_code(p->opcode.instruction, r);
                     if (code2 != -1)
-- 
2.43.0


From 3c05f83a6852b432c9b3310e11c3983fe460fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:02 +0000
Subject: [PATCH 33/50] fix: -d with a value out of range is an error

---
 CMakePasm/source/parseargs.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index 61389e5..53c9c42 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -328,7 +328,11 @@ int parse_arguments(const int argc, char* argv[])
             symbol_table_ptr sym = add_symbol(sym_name);
             if (sym != NULL)
             {
-                set_symbol_value(sym, sym_val);
+                if (set_symbol_value(sym, sym_val) == NULL)
+                {
+                    usage();
+                    exit(-1);
+                }
                 sym->is_initialized = true;
                 sym->times_accessed = 1000;
             }
-- 
2.43.0


From c0ba2753d0c262ef8aaaca0efd16a11c78269a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:10 +0000
Subject: [PATCH 34/50] fix: a symbol only used in data has to be defined

---
 CMakePasm/source/error.cc | 1 +
 CMakePasm/source/error.h  | 1 +
 CMakePasm/source/pass.cc  | 4 ++++
 3 files changed, 6 insertions(+)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 7a02de4..51cfab5 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -68,6 +68,7 @@ const char* errors[] =
     "Error creating list node.",
     "Error path name too long.",
     "Anonymous label not found.",
+    "Unresolved symbols.",
 };
 
 /**
diff --git a/CMakePasm/source/error.h b/CMakePasm/source/error.h
index 4bf1076..2c8ffb7 100644
--- a/CMakePasm/source/error.h
+++ b/CMakePasm/source/error.h
@@ -60,5 +60,6 @@ enum
     error_creating_list_node,
     error_path_name_too_long,
     error_anonymous_label_not_found,
+    error_unresolved_symbols,
     error_max
 };
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index d4202ac..aef5978 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -250,6 +250,10 @@ int assemble(void)
 
     parse_pass();
 
+    // data items are only evaluated in the final pass
+    if (unresolved_symbol_count() > 0)
+        error(error_unresolved_symbols);
+
     // close output line_content
     if (output_file != nullptr)
     {
-- 
2.43.0


From 05d759064ff397bb336a2aba9335c61cd5b0ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:51 +0000
Subject: [PATCH 35/50] fix: an output file that cannot be written out is an
 error

---
 CMakePasm/source/pass.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index aef5978..152a007 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -257,7 +257,8 @@ int assemble(void)
     // close output line_content
     if (output_file != nullptr)
     {
-        fclose(output_file);
+        if (fclose(output_file) != 0)
+            error(error_writing_output_file);
         fprintf(console, "\n%d bytes written to %s\n\n", total_bytes_written, output_file_name);
     }
 
-- 
2.43.0


From 63d8cf0c36835913edefdecb6d0972a440eba16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:20 +0000
Subject: [PATCH 36/50] fix: -d with a value that is not a number or does not
 fit is an error

---
 CMakePasm/source/parseargs.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index 53c9c42..a4dbef8 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -301,34 +301,43 @@ int parse_arguments(const int argc, char* argv[])
             }
             const char* val = argv[arg_index];
 
-            int sym_val = 0;
+            long sym_val = 0;
+            char* end = NULL;
 
             if (val[0] == '$')
             {
-                sym_val = (int)strtol(val + 1, NULL, 16);
+                sym_val = strtol(++val, &end, 16);
             }
             else if (val[0] == '%')
             {
-                sym_val = (int)strtol(val + 1, NULL, 2);
+                sym_val = strtol(++val, &end, 2);
             }
             else if (val[0] == '0' && val[1] == 'x')
             {
-                sym_val = (int)strtol(val + 2, NULL, 16);
+                sym_val = strtol(val += 2, &end, 16);
             }
             else if (val[0] == '0' && val[1] == 'b')
             {
-                sym_val = (int)strtol(val + 2, NULL, 2);
+                sym_val = strtol(val += 2, &end, 2);
             }
             else
             {
-                sym_val = (int)strtol(val, NULL, 10);
+                sym_val = strtol(val, &end, 10);
+            }
+
+            // not a number, or more than a value can hold
+            if (end == val || *end != 0 || sym_val != (int)sym_val)
+            {
+                error(error_invalid_parameters);
+                usage();
+                exit(-1);
             }
 
             // ReSharper disable once CppLocalVariableMayBeConst
             symbol_table_ptr sym = add_symbol(sym_name);
             if (sym != NULL)
             {
-                if (set_symbol_value(sym, sym_val) == NULL)
+                if (set_symbol_value(sym, (int)sym_val) == NULL)
                 {
                     usage();
                     exit(-1);
-- 
2.43.0


From c7707758c432a30e33ed53d23d48c4f29dba61ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:49 +0000
Subject: [PATCH 37/50] fix: an included file is closed at its end

---
 CMakePasm/source/pasm.l | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 02f035e..0780931 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -440,6 +440,8 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
                                 yylineno++;
                                 if (final_pass) generate_list_node(NULL);
                                 
+                                // an included file ends here
+                                if (file_stack->instance->index >= 0) fclose(yyin);
                                 yypop_buffer_state();
                                 if (file_stack->instance->index >= 0)
                                 {
-- 
2.43.0


From 8022fd76cb669aee4c60d76e4aff9430628fd45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:21 +0000
Subject: [PATCH 38/50] fix: a -dir entry needs no separator at its end

---
 CMakePasm/source/file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 30d7f33..b80095a 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -97,6 +97,9 @@ FILE* open_file(const char* file, const char* mode)
             error2(error_path_name_too_long, path);
             exit(-1);  // NOLINT(concurrency-mt-unsafe)
         }
+        // a directory may be given with or without a separator at its end
+        if (len > 0 && path[len - 1] != '/' && path[len - 1] != '\\')
+            strcat(path, "/");
         strcat(path, file);
         fd = fopen(path, mode);
         if (fd != NULL)
-- 
2.43.0


From 006810a854e9c18bd855924fce1ecb574565d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:51 +0000
Subject: [PATCH 39/50] fix: the initial value of a variable can be a symbol

---
 CMakePasm/source/expand.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index bcc1b45..4e26928 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1230,7 +1230,8 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
         switch (expansion_type)  // NOLINT(hicpp-multiway-paths-covered)
         {
         case symbol:
-            switch (pp->type)  // NOLINT(clang-diagnostic-switch-enum)
+            // what follows a variable is its value
+            switch (symbol_ptr != nullptr ? type_unknown : pp->type)  // NOLINT(clang-diagnostic-switch-enum)
             {
             case type_id:
             case type_label:
-- 
2.43.0


From e1d0ffd82a36939c089c04d67a5a7e14299e5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:53 +0000
Subject: [PATCH 40/50] fix: macro parameters first used in a section are found
 again

---
 CMakePasm/source/sym.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index dff64ff..9e38eca 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -145,7 +145,8 @@ symbol_table_ptr add_symbol(char* name)
         }
     }
 
-    if (strstr(name, "."))
+    // macro parameters belong to no section
+    if (strstr(name, ".") || name[0] == '\\')
         current_scope = NULL;
 
     if (name[0] == '.')
-- 
2.43.0


From 2f991f5c9e70b3d77fac49e4d711942764f40b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:56 +0000
Subject: [PATCH 41/50] fix: a section has its own symbol even when a global
 one has the same value

---
 CMakePasm/source/expand.cc | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4e26928..737f9df 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1819,22 +1819,23 @@ int expand_operator_equ_node(const parse_node_ptr p)
         exit(-1);
     }
 
-    if (!sym->is_initialized || sym->value != op)
+    if (!sym->scope && current_scope)
     {
-        if (!sym->scope && current_scope)
+        const int len = strlen(sym->name) + strlen(current_scope) + 2;
+        char* temp = static_cast<char*>(MALLOC(len));
+        if (temp == nullptr)
         {
-            const int len = strlen(sym->name) + strlen(current_scope) + 2;
-            char* temp = static_cast<char*>(MALLOC(len));
-            if (temp == nullptr)
-            {
-                error(error_out_of_memory);
-                exit(-1);
-            }
-
-            sprintf(temp, "%s.%s", current_scope, sym->name);
-            sym = add_symbol(temp);
-            FREE(temp);
+            error(error_out_of_memory);
+            exit(-1);
         }
+
+        sprintf(temp, "%s.%s", current_scope, sym->name);
+        sym = add_symbol(temp);
+        FREE(temp);
+    }
+
+    if (!sym->is_initialized || sym->value != op)
+    {
         set_symbol_value(sym, op);
         sym->is_initialized = true;
         if (p->op[0]->type == type_label)
-- 
2.43.0


From e8ae55731734e4ab1f8b84ad28776724707a7069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:59 +0000
Subject: [PATCH 42/50] fix: a global variable can be set in a section

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 737f9df..026a78f 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1819,7 +1819,7 @@ int expand_operator_equ_node(const parse_node_ptr p)
         exit(-1);
     }
 
-    if (!sym->scope && current_scope)
+    if (!sym->scope && !sym->is_var && current_scope)
     {
         const int len = strlen(sym->name) + strlen(current_scope) + 2;
         char* temp = static_cast<char*>(MALLOC(len));
-- 
2.43.0


From 8a612d15633a9b7a1e6135227563c9c35c88f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:04 +0000
Subject: [PATCH 43/50] fix: listing rows of long source lines do not fit into
 the buffer

---
 CMakePasm/source/genlist.cc | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index 0e7f002..06cd753 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -88,7 +88,6 @@ void generate_list_file(FILE* list_file)
     fprintf(list_file, "; Processing %s\n", current_file_name);
     for (int line = 1; line < list_head->line; ++line)
     {
-        internal_buffer[0] = 0;
         file_line_node* source_list = get_file_line(list_node->filename, line);
 
         if (list_node->list_directive)
@@ -98,8 +97,7 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, "", source_list->line_content);
-                fputs(internal_buffer, list_file);
+                fprintf(list_file, source_indent_format, "", source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -142,12 +140,11 @@ void generate_list_file(FILE* list_file)
         if (source_list == nullptr)
             continue;
 
-        internal_buffer[0] = 0;
         if (source_list->displayed == 0)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, source_list->line_content);
+                fprintf(list_file, source_indent_format, list_node->output, source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -155,16 +152,13 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, "\n");
+                fprintf(list_file, source_indent_format, list_node->output, "\n");
             }
         }
-        fputs(internal_buffer, list_file);
 
         for (source_list = source_list->next; source_list && source_list->line_number <= end_line; source_list = source_list->next)
         {
-            internal_buffer[0] = 0;
-            sprintf(internal_buffer, source_indent_format, "","");
-            fputs(internal_buffer, list_file);
+            fprintf(list_file, source_indent_format, "", "");
             if (source_list->displayed == 0)
             {
                 if (state)
-- 
2.43.0


From 9a8736fb52893484103d813fb70e3669ba1db09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:30 +0000
Subject: [PATCH 44/50] fix: a long source line is one line of the listing

---
 CMakePasm/source/file.cc | 460 ++++++++++++++++++++-------------------
 1 file changed, 241 insertions(+), 219 deletions(-)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index b80095a..f2cb573 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -1,219 +1,241 @@
-// ***********************************************************************
-// Author           : Paul Baxter
-// ***********************************************************************
-
-// ReSharper disable CppZeroConstantCanBeReplacedWithNullptr
-// ReSharper disable CppPointerConversionDropsQualifiers
-// ReSharper disable CppClangTidyClangDiagnosticIncompatiblePointerTypesDiscardsQualifiers
-#include "file.h"
-
-#include <assert.h>
-#include <stdio.h>
-#include <stdlib.h>
-#include <string.h>
-
-#include "error.h"
-#include "flex.h"
-#include "memory.h"
-#include "node.h"
-#include "pasm.h"
-
-#pragma warning(disable:4996 4090)
-
-enum
-{
-    path_max = 4096
-};
-
-
-static char path[path_max] = { 0 };
-
-void open_file_stream(std::ofstream& file, const char* filename, const std::ios::openmode mode)
-{
-    file.open(filename, mode);
-    if (file.is_open())
-        return;
-
-    if (directories == nullptr) return;
-
-    for (char* directory = directories; *directory != 0;)
-    {
-        char* p = path;
-        int len = 0;
-        while (*directory != 0 && *directory != ';' && len < (path_max - 1))
-        {
-            ++len;
-            *p++ = *directory++;
-        }
-        *p = 0;
-        if (len + strlen(filename) + 2 >= path_max)
-        {
-            error2(error_path_name_too_long, path);
-            exit(-1);  // NOLINT(concurrency-mt-unsafe)
-        }
-        strcat(path, filename);
-        file.open(path, mode);
-        if (file.is_open())
-            return;
-
-        if (*directory == ';')
-            directory++;
-
-        while (*directory == ' ' || *directory == '\t')
-            directory++;
-    }
-}
-
-/**
- * \brief open a file. If directories is not NULL it will search them in order
- * \param file name of file to open
- * \param mode mode to open file with
- * \return open file or -1
- */
-FILE* open_file(const char* file, const char* mode)
-{
-    if (file == NULL)
-    {
-        return NULL;
-    }
-
-    FILE* fd = fopen(file, mode);
-    if (fd != NULL) return fd;
-
-    if (directories == NULL) return NULL;
-
-    for (char* dir = directories; *dir != 0;)
-    {
-        char* p = path;
-        int len = 0;
-        while (*dir != 0 && *dir != ';' && len < (path_max -1))
-        {
-            ++len;
-            *p++ = *dir++;
-        }
-        *p = 0;
-        if (len + strlen(file) + 2 >= path_max)
-        {
-            error2(error_path_name_too_long, path);
-            exit(-1);  // NOLINT(concurrency-mt-unsafe)
-        }
-        // a directory may be given with or without a separator at its end
-        if (len > 0 && path[len - 1] != '/' && path[len - 1] != '\\')
-            strcat(path, "/");
-        strcat(path, file);
-        fd = fopen(path, mode);
-        if (fd != NULL)
-            return fd;
-
-        if (*dir == ';')
-            dir++;
-
-        while (*dir == ' ' || *dir == '\t')
-            dir++;
-    }
-    return NULL;
-}
-
-/**
- * \brief read a file into a file line linked list
- * \param file_name file to read
- * \return head node of the file line linked list
- */
-file_line_node* read_file_lines(const char* file_name)
-{
-    assert(file_name != NULL);
-
-    int line = 1;
-    file_line_node* head_file_node = NULL;
-    file_line_node* file_node = NULL;
-    FILE* file = open_file(file_name, "r");
-    if (file == NULL)
-    {
-        error(error_opening_list_file);
-        return NULL;
-    }
-    while (!feof(file))
-    {
-        internal_buffer[0] = 0;
-        if (fgets(internal_buffer, max_line_len, file))
-        {
-            if (file_node == NULL)
-            {
-                // ReSharper disable once CppCStyleCast
-                file_node = (file_line_node*)MALLOC(sizeof(file_line_node));
-                head_file_node = file_node;
-            }
-            else
-            {
-                // ReSharper disable once CppCStyleCast
-                file_node->next = (file_line_node*)MALLOC(sizeof(file_line_node));
-                file_node = file_node->next;
-            }
-            if (file_node == NULL)
-            {
-                error(error_out_of_memory);
-                return NULL;
-            }
-            memset(file_node, 0, sizeof(file_line_node));
-            // ReSharper disable once CppDeprecatedEntity
-            file_node->line_content = (char*)STRDUP(internal_buffer);
-            file_node->line_number = line++;
-        }
-    }
-    fclose(file);  // NOLINT(cert-err33-c)
-    return head_file_node;
-}
-
-/**
- * \brief FREE memory allocated from read_file_lines
- * \param file_lines file_lines head node
- */
-void free_file_lines(file_line_node* file_lines)
-{
-    file_line_node* temp = file_lines;
-    while (temp != NULL)
-    {
-        file_line_node* next = temp->next;
-        FREE(temp->line_content);
-        FREE(temp);
-        temp = next;
-    }
-}
-
-/**
- * \brief open an include file
- * \param file name of file
- * \return 0 on success
- */
-int open_include_file(char* file)
-{
-    if (final_pass) generate_list_node(NULL);
-
-    file_line_stack_entry file_line;
-    file_line.file = current_file_name;
-    file_line.line = yylineno;
-    
-    file_stack->push(file_stack->instance, &file_line);
-
-    current_file_name = file;
-
-    yyin = open_file(file, "r");
-    yylineno = 0;
-
-    if (final_pass) generate_list_node(NULL);
-
-    if (!yyin)
-    {
-        if (file != NULL)
-        {
-            error2(error_cant_open_include_file, file);
-        }
-        else
-        {
-            error(error_cant_open_include_file);
-        }
-        exit(-1);  // NOLINT(concurrency-mt-unsafe)
-    }
-    yypush_buffer_state(yy_create_buffer(yyin, YY_BUF_SIZE));
-    return 0;
-}
+// ***********************************************************************
+// Author           : Paul Baxter
+// ***********************************************************************
+
+// ReSharper disable CppZeroConstantCanBeReplacedWithNullptr
+// ReSharper disable CppPointerConversionDropsQualifiers
+// ReSharper disable CppClangTidyClangDiagnosticIncompatiblePointerTypesDiscardsQualifiers
+#include "file.h"
+
+#include <assert.h>
+#include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
+
+#include "error.h"
+#include "flex.h"
+#include "memory.h"
+#include "node.h"
+#include "pasm.h"
+
+#pragma warning(disable:4996 4090)
+
+enum
+{
+    path_max = 4096
+};
+
+
+static char path[path_max] = { 0 };
+
+void open_file_stream(std::ofstream& file, const char* filename, const std::ios::openmode mode)
+{
+    file.open(filename, mode);
+    if (file.is_open())
+        return;
+
+    if (directories == nullptr) return;
+
+    for (char* directory = directories; *directory != 0;)
+    {
+        char* p = path;
+        int len = 0;
+        while (*directory != 0 && *directory != ';' && len < (path_max - 1))
+        {
+            ++len;
+            *p++ = *directory++;
+        }
+        *p = 0;
+        if (len + strlen(filename) + 2 >= path_max)
+        {
+            error2(error_path_name_too_long, path);
+            exit(-1);  // NOLINT(concurrency-mt-unsafe)
+        }
+        strcat(path, filename);
+        file.open(path, mode);
+        if (file.is_open())
+            return;
+
+        if (*directory == ';')
+            directory++;
+
+        while (*directory == ' ' || *directory == '\t')
+            directory++;
+    }
+}
+
+/**
+ * \brief open a file. If directories is not NULL it will search them in order
+ * \param file name of file to open
+ * \param mode mode to open file with
+ * \return open file or -1
+ */
+FILE* open_file(const char* file, const char* mode)
+{
+    if (file == NULL)
+    {
+        return NULL;
+    }
+
+    FILE* fd = fopen(file, mode);
+    if (fd != NULL) return fd;
+
+    if (directories == NULL) return NULL;
+
+    for (char* dir = directories; *dir != 0;)
+    {
+        char* p = path;
+        int len = 0;
+        while (*dir != 0 && *dir != ';' && len < (path_max -1))
+        {
+            ++len;
+            *p++ = *dir++;
+        }
+        *p = 0;
+        if (len + strlen(file) + 2 >= path_max)
+        {
+            error2(error_path_name_too_long, path);
+            exit(-1);  // NOLINT(concurrency-mt-unsafe)
+        }
+        // a directory may be given with or without a separator at its end
+        if (len > 0 && path[len - 1] != '/' && path[len - 1] != '\\')
+            strcat(path, "/");
+        strcat(path, file);
+        fd = fopen(path, mode);
+        if (fd != NULL)
+            return fd;
+
+        if (*dir == ';')
+            dir++;
+
+        while (*dir == ' ' || *dir == '\t')
+            dir++;
+    }
+    return NULL;
+}
+
+/**
+ * \brief read a file into a file line linked list
+ * \param file_name file to read
+ * \return head node of the file line linked list
+ */
+file_line_node* read_file_lines(const char* file_name)
+{
+    assert(file_name != NULL);
+
+    int line = 1;
+    file_line_node* head_file_node = NULL;
+    file_line_node* file_node = NULL;
+    FILE* file = open_file(file_name, "r");
+    if (file == NULL)
+    {
+        error(error_opening_list_file);
+        return NULL;
+    }
+    while (!feof(file))
+    {
+        internal_buffer[0] = 0;
+        if (fgets(internal_buffer, max_line_len, file))
+        {
+            if (file_node == NULL)
+            {
+                // ReSharper disable once CppCStyleCast
+                file_node = (file_line_node*)MALLOC(sizeof(file_line_node));
+                head_file_node = file_node;
+            }
+            else
+            {
+                // ReSharper disable once CppCStyleCast
+                file_node->next = (file_line_node*)MALLOC(sizeof(file_line_node));
+                file_node = file_node->next;
+            }
+            if (file_node == NULL)
+            {
+                error(error_out_of_memory);
+                return NULL;
+            }
+            memset(file_node, 0, sizeof(file_line_node));
+            // ReSharper disable once CppDeprecatedEntity
+            file_node->line_content = (char*)STRDUP(internal_buffer);
+            if (file_node->line_content == NULL)
+            {
+                error(error_out_of_memory);
+                return NULL;
+            }
+
+            // the rest of a line that is longer than the buffer
+            size_t len = strlen(file_node->line_content);
+            size_t rest = len;
+            while (rest == max_line_len - 1 && file_node->line_content[len - 1] != '\n' && fgets(internal_buffer, max_line_len, file))
+            {
+                rest = strlen(internal_buffer);
+                char* tmp = (char*)REALLOC(file_node->line_content, len + rest + 1);
+                if (tmp == NULL)
+                {
+                    error(error_out_of_memory);
+                    return NULL;
+                }
+                memcpy(tmp + len, internal_buffer, rest + 1);
+                file_node->line_content = tmp;
+                len += rest;
+            }
+            file_node->line_number = line++;
+        }
+    }
+    fclose(file);  // NOLINT(cert-err33-c)
+    return head_file_node;
+}
+
+/**
+ * \brief FREE memory allocated from read_file_lines
+ * \param file_lines file_lines head node
+ */
+void free_file_lines(file_line_node* file_lines)
+{
+    file_line_node* temp = file_lines;
+    while (temp != NULL)
+    {
+        file_line_node* next = temp->next;
+        FREE(temp->line_content);
+        FREE(temp);
+        temp = next;
+    }
+}
+
+/**
+ * \brief open an include file
+ * \param file name of file
+ * \return 0 on success
+ */
+int open_include_file(char* file)
+{
+    if (final_pass) generate_list_node(NULL);
+
+    file_line_stack_entry file_line;
+    file_line.file = current_file_name;
+    file_line.line = yylineno;
+    
+    file_stack->push(file_stack->instance, &file_line);
+
+    current_file_name = file;
+
+    yyin = open_file(file, "r");
+    yylineno = 0;
+
+    if (final_pass) generate_list_node(NULL);
+
+    if (!yyin)
+    {
+        if (file != NULL)
+        {
+            error2(error_cant_open_include_file, file);
+        }
+        else
+        {
+            error(error_cant_open_include_file);
+        }
+        exit(-1);  // NOLINT(concurrency-mt-unsafe)
+    }
+    yypush_buffer_state(yy_create_buffer(yyin, YY_BUF_SIZE));
+    return 0;
+}
-- 
2.43.0


From 6a276c161f2832d1c53a10669ef21b13bcfbaa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:30 +0000
Subject: [PATCH 45/50] fix: macro names of any length

---
 CMakePasm/source/expand.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 026a78f..e1e096b 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1457,8 +1457,14 @@ int expand_macro_id_node(const parse_node_ptr p)
     const macro_dict_entry* macro_dict_entry = create_macro_entry(p->id.name);
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%8.8X", p->id.name, macro_dict_entry->times_executed);
-    last_label = const_cast<char*>(STRDUP(internal_buffer));
+    const size_t len = strlen(p->id.name) + 20;
+    last_label = static_cast<char*>(MALLOC(len));
+    if (last_label == nullptr)
+    {
+        error(error_out_of_memory);
+        exit(-1);
+    }
+    sprintf(last_label, "%s::%8.8X", p->id.name, macro_dict_entry->times_executed);
 
     expand_id_node(p);
 
@@ -1494,8 +1500,14 @@ int expand_macro_expansion_node(const parse_node_ptr p)
     set_macro_parameters();
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
-    last_label = (char*) STRDUP(internal_buffer);
+    const size_t len = strlen(p->macro.name) + 20;
+    last_label = static_cast<char*>(MALLOC(len));
+    if (last_label == nullptr)
+    {
+        error(error_out_of_memory);
+        exit(-1);
+    }
+    sprintf(last_label, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
 
     if (p->macro.macro != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro));
-- 
2.43.0


From 0ba5866835c85c3b6639a8dbff9527d177246187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:06 +0000
Subject: [PATCH 46/50] fix: the listing shows absolute indexed indirect
 operands as such

---
 CMakePasm/source/node.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 674b35e..4348f6c 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1840,8 +1840,8 @@ int generate_list_node(const parse_node_ptr p)
             sprintf(current_ptr, "$%04X ", op);
             break;
 
-        case aix:    /* absolute indirect x  */  // NOLINT(bugprone-branch-clone)
-            sprintf(current_ptr, "$%04X,x ", op);
+        case aix:    /* absolute indirect x  */
+            sprintf(current_ptr, "($%04X,x) ", op);
             break;
 
         case ax:     /* absolute x           */
-- 
2.43.0


From 1db2b4f2bacc4ea6375d45892cc36cc5277fda65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:30 +0000
Subject: [PATCH 47/50] fix: control characters of a string do not break its
 last listing row

---
 CMakePasm/source/node.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 4348f6c..d5ce810 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1561,7 +1561,6 @@ int generate_list_node(const parse_node_ptr p)
         const char* string_start = nullptr;
         char* str = p->str.value;
         int output_length = p->str.len;
-        int pad = 0;
         while (output_length--)
         {
             // output the PC on column zero
@@ -1598,7 +1597,7 @@ int generate_list_node(const parse_node_ptr p)
                         sprintf(current_ptr, ", ");
                         current_ptr += strlen(current_ptr);
                     }
-                    if (isprint(string_start[len]))
+                    if (isprint(string_start[len] & 0xFF))
                     {
                         sprintf(current_ptr, "'%c'", string_start[len]);
                     }
@@ -1633,7 +1632,6 @@ int generate_list_node(const parse_node_ptr p)
             col++;
             sprintf(current_ptr, " $%02X", *str & 0xFF);
             current_ptr += strlen(current_ptr);
-            pad = 1;
         }
 
         // output final node
@@ -1653,13 +1651,13 @@ int generate_list_node(const parse_node_ptr p)
                     sprintf(current_ptr, ", ");
                     current_ptr += strlen(current_ptr);
                 }
-                if (len == col - 1 && pad)
+                if (isprint(string_start[len] & 0xFF))
                 {
-                    sprintf(current_ptr, "$%02X", string_start[len]);
+                    sprintf(current_ptr, "'%c'", string_start[len]);
                 }
                 else
                 {
-                    sprintf(current_ptr, "'%c'", string_start[len]);
+                    sprintf(current_ptr, "$%02X", string_start[len] & 0xFF);
                 }
                 current_ptr += strlen(current_ptr);
             }
-- 
2.43.0


From b2568862c03e452f259f92e77f04998a25558ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:20 +0000
Subject: [PATCH 48/50] fix: negative operands are shown in the listing as they
 are written

---
 CMakePasm/source/node.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index d5ce810..23b2722 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1799,6 +1799,8 @@ int generate_list_node(const parse_node_ptr p)
         {
             expand_node(p->op[1]);
         }
+        // show negative values as they are written
+        op &= bytes > 1 || p->opcode.mode == r ? 0xFFFF : 0xFF;
         // ReSharper disable once CppDefaultCaseNotHandledInSwitchStatement
         switch (p->opcode.mode)
         {
-- 
2.43.0


From 5ba1e188fd4af750e909cec97f1a36b95b4dab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:21 +0000
Subject: [PATCH 49/50] fix: give file.cc its CRLF line endings back (lost in
 9a8736f)

---
 CMakePasm/source/file.cc | 482 +++++++++++++++++++--------------------
 1 file changed, 241 insertions(+), 241 deletions(-)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index f2cb573..2fb6ea7 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -1,241 +1,241 @@
-// ***********************************************************************
-// Author           : Paul Baxter
-// ***********************************************************************
-
-// ReSharper disable CppZeroConstantCanBeReplacedWithNullptr
-// ReSharper disable CppPointerConversionDropsQualifiers
-// ReSharper disable CppClangTidyClangDiagnosticIncompatiblePointerTypesDiscardsQualifiers
-#include "file.h"
-
-#include <assert.h>
-#include <stdio.h>
-#include <stdlib.h>
-#include <string.h>
-
-#include "error.h"
-#include "flex.h"
-#include "memory.h"
-#include "node.h"
-#include "pasm.h"
-
-#pragma warning(disable:4996 4090)
-
-enum
-{
-    path_max = 4096
-};
-
-
-static char path[path_max] = { 0 };
-
-void open_file_stream(std::ofstream& file, const char* filename, const std::ios::openmode mode)
-{
-    file.open(filename, mode);
-    if (file.is_open())
-        return;
-
-    if (directories == nullptr) return;
-
-    for (char* directory = directories; *directory != 0;)
-    {
-        char* p = path;
-        int len = 0;
-        while (*directory != 0 && *directory != ';' && len < (path_max - 1))
-        {
-            ++len;
-            *p++ = *directory++;
-        }
-        *p = 0;
-        if (len + strlen(filename) + 2 >= path_max)
-        {
-            error2(error_path_name_too_long, path);
-            exit(-1);  // NOLINT(concurrency-mt-unsafe)
-        }
-        strcat(path, filename);
-        file.open(path, mode);
-        if (file.is_open())
-            return;
-
-        if (*directory == ';')
-            directory++;
-
-        while (*directory == ' ' || *directory == '\t')
-            directory++;
-    }
-}
-
-/**
- * \brief open a file. If directories is not NULL it will search them in order
- * \param file name of file to open
- * \param mode mode to open file with
- * \return open file or -1
- */
-FILE* open_file(const char* file, const char* mode)
-{
-    if (file == NULL)
-    {
-        return NULL;
-    }
-
-    FILE* fd = fopen(file, mode);
-    if (fd != NULL) return fd;
-
-    if (directories == NULL) return NULL;
-
-    for (char* dir = directories; *dir != 0;)
-    {
-        char* p = path;
-        int len = 0;
-        while (*dir != 0 && *dir != ';' && len < (path_max -1))
-        {
-            ++len;
-            *p++ = *dir++;
-        }
-        *p = 0;
-        if (len + strlen(file) + 2 >= path_max)
-        {
-            error2(error_path_name_too_long, path);
-            exit(-1);  // NOLINT(concurrency-mt-unsafe)
-        }
-        // a directory may be given with or without a separator at its end
-        if (len > 0 && path[len - 1] != '/' && path[len - 1] != '\\')
-            strcat(path, "/");
-        strcat(path, file);
-        fd = fopen(path, mode);
-        if (fd != NULL)
-            return fd;
-
-        if (*dir == ';')
-            dir++;
-
-        while (*dir == ' ' || *dir == '\t')
-            dir++;
-    }
-    return NULL;
-}
-
-/**
- * \brief read a file into a file line linked list
- * \param file_name file to read
- * \return head node of the file line linked list
- */
-file_line_node* read_file_lines(const char* file_name)
-{
-    assert(file_name != NULL);
-
-    int line = 1;
-    file_line_node* head_file_node = NULL;
-    file_line_node* file_node = NULL;
-    FILE* file = open_file(file_name, "r");
-    if (file == NULL)
-    {
-        error(error_opening_list_file);
-        return NULL;
-    }
-    while (!feof(file))
-    {
-        internal_buffer[0] = 0;
-        if (fgets(internal_buffer, max_line_len, file))
-        {
-            if (file_node == NULL)
-            {
-                // ReSharper disable once CppCStyleCast
-                file_node = (file_line_node*)MALLOC(sizeof(file_line_node));
-                head_file_node = file_node;
-            }
-            else
-            {
-                // ReSharper disable once CppCStyleCast
-                file_node->next = (file_line_node*)MALLOC(sizeof(file_line_node));
-                file_node = file_node->next;
-            }
-            if (file_node == NULL)
-            {
-                error(error_out_of_memory);
-                return NULL;
-            }
-            memset(file_node, 0, sizeof(file_line_node));
-            // ReSharper disable once CppDeprecatedEntity
-            file_node->line_content = (char*)STRDUP(internal_buffer);
-            if (file_node->line_content == NULL)
-            {
-                error(error_out_of_memory);
-                return NULL;
-            }
-
-            // the rest of a line that is longer than the buffer
-            size_t len = strlen(file_node->line_content);
-            size_t rest = len;
-            while (rest == max_line_len - 1 && file_node->line_content[len - 1] != '\n' && fgets(internal_buffer, max_line_len, file))
-            {
-                rest = strlen(internal_buffer);
-                char* tmp = (char*)REALLOC(file_node->line_content, len + rest + 1);
-                if (tmp == NULL)
-                {
-                    error(error_out_of_memory);
-                    return NULL;
-                }
-                memcpy(tmp + len, internal_buffer, rest + 1);
-                file_node->line_content = tmp;
-                len += rest;
-            }
-            file_node->line_number = line++;
-        }
-    }
-    fclose(file);  // NOLINT(cert-err33-c)
-    return head_file_node;
-}
-
-/**
- * \brief FREE memory allocated from read_file_lines
- * \param file_lines file_lines head node
- */
-void free_file_lines(file_line_node* file_lines)
-{
-    file_line_node* temp = file_lines;
-    while (temp != NULL)
-    {
-        file_line_node* next = temp->next;
-        FREE(temp->line_content);
-        FREE(temp);
-        temp = next;
-    }
-}
-
-/**
- * \brief open an include file
- * \param file name of file
- * \return 0 on success
- */
-int open_include_file(char* file)
-{
-    if (final_pass) generate_list_node(NULL);
-
-    file_line_stack_entry file_line;
-    file_line.file = current_file_name;
-    file_line.line = yylineno;
-    
-    file_stack->push(file_stack->instance, &file_line);
-
-    current_file_name = file;
-
-    yyin = open_file(file, "r");
-    yylineno = 0;
-
-    if (final_pass) generate_list_node(NULL);
-
-    if (!yyin)
-    {
-        if (file != NULL)
-        {
-            error2(error_cant_open_include_file, file);
-        }
-        else
-        {
-            error(error_cant_open_include_file);
-        }
-        exit(-1);  // NOLINT(concurrency-mt-unsafe)
-    }
-    yypush_buffer_state(yy_create_buffer(yyin, YY_BUF_SIZE));
-    return 0;
-}
+// ***********************************************************************
+// Author           : Paul Baxter
+// ***********************************************************************
+
+// ReSharper disable CppZeroConstantCanBeReplacedWithNullptr
+// ReSharper disable CppPointerConversionDropsQualifiers
+// ReSharper disable CppClangTidyClangDiagnosticIncompatiblePointerTypesDiscardsQualifiers
+#include "file.h"
+
+#include <assert.h>
+#include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
+
+#include "error.h"
+#include "flex.h"
+#include "memory.h"
+#include "node.h"
+#include "pasm.h"
+
+#pragma warning(disable:4996 4090)
+
+enum
+{
+    path_max = 4096
+};
+
+
+static char path[path_max] = { 0 };
+
+void open_file_stream(std::ofstream& file, const char* filename, const std::ios::openmode mode)
+{
+    file.open(filename, mode);
+    if (file.is_open())
+        return;
+
+    if (directories == nullptr) return;
+
+    for (char* directory = directories; *directory != 0;)
+    {
+        char* p = path;
+        int len = 0;
+        while (*directory != 0 && *directory != ';' && len < (path_max - 1))
+        {
+            ++len;
+            *p++ = *directory++;
+        }
+        *p = 0;
+        if (len + strlen(filename) + 2 >= path_max)
+        {
+            error2(error_path_name_too_long, path);
+            exit(-1);  // NOLINT(concurrency-mt-unsafe)
+        }
+        strcat(path, filename);
+        file.open(path, mode);
+        if (file.is_open())
+            return;
+
+        if (*directory == ';')
+            directory++;
+
+        while (*directory == ' ' || *directory == '\t')
+            directory++;
+    }
+}
+
+/**
+ * \brief open a file. If directories is not NULL it will search them in order
+ * \param file name of file to open
+ * \param mode mode to open file with
+ * \return open file or -1
+ */
+FILE* open_file(const char* file, const char* mode)
+{
+    if (file == NULL)
+    {
+        return NULL;
+    }
+
+    FILE* fd = fopen(file, mode);
+    if (fd != NULL) return fd;
+
+    if (directories == NULL) return NULL;
+
+    for (char* dir = directories; *dir != 0;)
+    {
+        char* p = path;
+        int len = 0;
+        while (*dir != 0 && *dir != ';' && len < (path_max -1))
+        {
+            ++len;
+            *p++ = *dir++;
+        }
+        *p = 0;
+        if (len + strlen(file) + 2 >= path_max)
+        {
+            error2(error_path_name_too_long, path);
+            exit(-1);  // NOLINT(concurrency-mt-unsafe)
+        }
+        // a directory may be given with or without a separator at its end
+        if (len > 0 && path[len - 1] != '/' && path[len - 1] != '\\')
+            strcat(path, "/");
+        strcat(path, file);
+        fd = fopen(path, mode);
+        if (fd != NULL)
+            return fd;
+
+        if (*dir == ';')
+            dir++;
+
+        while (*dir == ' ' || *dir == '\t')
+            dir++;
+    }
+    return NULL;
+}
+
+/**
+ * \brief read a file into a file line linked list
+ * \param file_name file to read
+ * \return head node of the file line linked list
+ */
+file_line_node* read_file_lines(const char* file_name)
+{
+    assert(file_name != NULL);
+
+    int line = 1;
+    file_line_node* head_file_node = NULL;
+    file_line_node* file_node = NULL;
+    FILE* file = open_file(file_name, "r");
+    if (file == NULL)
+    {
+        error(error_opening_list_file);
+        return NULL;
+    }
+    while (!feof(file))
+    {
+        internal_buffer[0] = 0;
+        if (fgets(internal_buffer, max_line_len, file))
+        {
+            if (file_node == NULL)
+            {
+                // ReSharper disable once CppCStyleCast
+                file_node = (file_line_node*)MALLOC(sizeof(file_line_node));
+                head_file_node = file_node;
+            }
+            else
+            {
+                // ReSharper disable once CppCStyleCast
+                file_node->next = (file_line_node*)MALLOC(sizeof(file_line_node));
+                file_node = file_node->next;
+            }
+            if (file_node == NULL)
+            {
+                error(error_out_of_memory);
+                return NULL;
+            }
+            memset(file_node, 0, sizeof(file_line_node));
+            // ReSharper disable once CppDeprecatedEntity
+            file_node->line_content = (char*)STRDUP(internal_buffer);
+            if (file_node->line_content == NULL)
+            {
+                error(error_out_of_memory);
+                return NULL;
+            }
+
+            // the rest of a line that is longer than the buffer
+            size_t len = strlen(file_node->line_content);
+            size_t rest = len;
+            while (rest == max_line_len - 1 && file_node->line_content[len - 1] != '\n' && fgets(internal_buffer, max_line_len, file))
+            {
+                rest = strlen(internal_buffer);
+                char* tmp = (char*)REALLOC(file_node->line_content, len + rest + 1);
+                if (tmp == NULL)
+                {
+                    error(error_out_of_memory);
+                    return NULL;
+                }
+                memcpy(tmp + len, internal_buffer, rest + 1);
+                file_node->line_content = tmp;
+                len += rest;
+            }
+            file_node->line_number = line++;
+        }
+    }
+    fclose(file);  // NOLINT(cert-err33-c)
+    return head_file_node;
+}
+
+/**
+ * \brief FREE memory allocated from read_file_lines
+ * \param file_lines file_lines head node
+ */
+void free_file_lines(file_line_node* file_lines)
+{
+    file_line_node* temp = file_lines;
+    while (temp != NULL)
+    {
+        file_line_node* next = temp->next;
+        FREE(temp->line_content);
+        FREE(temp);
+        temp = next;
+    }
+}
+
+/**
+ * \brief open an include file
+ * \param file name of file
+ * \return 0 on success
+ */
+int open_include_file(char* file)
+{
+    if (final_pass) generate_list_node(NULL);
+
+    file_line_stack_entry file_line;
+    file_line.file = current_file_name;
+    file_line.line = yylineno;
+    
+    file_stack->push(file_stack->instance, &file_line);
+
+    current_file_name = file;
+
+    yyin = open_file(file, "r");
+    yylineno = 0;
+
+    if (final_pass) generate_list_node(NULL);
+
+    if (!yyin)
+    {
+        if (file != NULL)
+        {
+            error2(error_cant_open_include_file, file);
+        }
+        else
+        {
+            error(error_cant_open_include_file);
+        }
+        exit(-1);  // NOLINT(concurrency-mt-unsafe)
+    }
+    yypush_buffer_state(yy_create_buffer(yyin, YY_BUF_SIZE));
+    return 0;
+}
-- 
2.43.0


From 04122d9e53e0d626be75e6010291d9ef175947eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:25 +0000
Subject: [PATCH 50/50] fix: removing the last syntax tree node makes the one
 before it the last

---
 CMakePasm/source/node.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 23b2722..dd1020c 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -457,6 +457,8 @@ void remove_parse_node(const parse_node_ptr p)
         next->prev = prev;
     if (p == head_node)
         head_node = next;
+    if (p == current_node)
+        current_node = prev;
 
     free_parse_node(p);
 }
-- 
2.43.0

