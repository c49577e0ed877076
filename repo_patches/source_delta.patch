From 769c71f6385efad83c21e97096813fc85a657586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 01/55] fix: pass the scope size when pushing a package scope

---
 src/jit/jit-irgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jit/jit-irgen.c b/src/jit/jit-irgen.c
index 5f91d0f..aff2800 100644
--- a/src/jit/jit-irgen.c
+++ b/src/jit/jit-irgen.c
@@ -3108,7 +3108,7 @@ static void irgen_op_package_scope(jit_irgen_t *g, mir_value_t n)
 {
    jit_value_t locus = irgen_get_arg(g, n, 0);
    j_send(g, 0, locus);
-   j_send(g, 2, jit_value_from_int64(0));
+   j_send(g, 1, jit_value_from_int64(0));
    j_send(g, 2, jit_value_from_int64(SCOPE_PACKAGE));
 
    macro_exit(g, JIT_EXIT_PUSH_SCOPE);
-- 
2.43.0


From d4fef2aa30582d25a64de60a896b85f3f7148ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 02/55] fix: do not truncate 64-bit values in overflow and
 length errors

---
 src/jit/jit-exits.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jit/jit-exits.c b/src/jit/jit-exits.c
index ce6c13a..f68f4d4 100644
--- a/src/jit/jit-exits.c
+++ b/src/jit/jit-exits.c
@@ -557,8 +557,8 @@ void __nvc_do_exit(jit_exit_t which, jit_anchor_t *anchor, jit_scalar_t *args,
 
    case JIT_EXIT_OVERFLOW:
       {
-         int32_t lhs   = args[0].integer;
-         int32_t rhs   = args[1].integer;
+         int64_t lhs   = args[0].integer;
+         int64_t rhs   = args[1].integer;
          tree_t  where = args[2].pointer;
 
          x_overflow(lhs, rhs, where);
@@ -674,8 +674,8 @@ void __nvc_do_exit(jit_exit_t which, jit_anchor_t *anchor, jit_scalar_t *args,
 
    case JIT_EXIT_LENGTH_FAIL:
       {
-         int32_t left  = args[0].integer;
-         int32_t right = args[1].integer;
+         int64_t left  = args[0].integer;
+         int64_t right = args[1].integer;
          int32_t dim   = args[2].integer;
          tree_t  where = args[3].pointer;
 
@@ -692,7 +692,7 @@ void __nvc_do_exit(jit_exit_t which, jit_anchor_t *anchor, jit_scalar_t *args,
 
    case JIT_EXIT_EXPONENT_FAIL:
       {
-         int32_t value = args[0].integer;
+         int64_t value = args[0].integer;
          tree_t  where = args[1].pointer;
 
          x_exponent_fail(value, where);
-- 
2.43.0


From b3d059171ecf46604d559c99ffead90c8710497a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 03/55] fix: bounds of array types in the 'reflect attribute

---
 src/jit/jit-exits.c |  2 +-
 src/jit/jit-irgen.c |  2 ++
 src/lower.c         | 11 +++++++++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/jit/jit-exits.c b/src/jit/jit-exits.c
index f68f4d4..e425323 100644
--- a/src/jit/jit-exits.c
+++ b/src/jit/jit-exits.c
@@ -854,7 +854,7 @@ void __nvc_do_exit(jit_exit_t which, jit_anchor_t *anchor, jit_scalar_t *args,
          void   *context = args[0].pointer;
          tree_t  where   = args[1].pointer;
 
-         args[0].pointer = x_reflect_subtype(context, where, args + 3);
+         args[0].pointer = x_reflect_subtype(context, where, args + 2);
       }
       break;
 
diff --git a/src/jit/jit-irgen.c b/src/jit/jit-irgen.c
index aff2800..d2ae003 100644
--- a/src/jit/jit-irgen.c
+++ b/src/jit/jit-irgen.c
@@ -2483,6 +2483,8 @@ static void irgen_op_reflect_subtype(jit_irgen_t *g, mir_value_t n)
       else
          j_send(g, 2, irgen_get_value(g, bounds));
    }
+   else
+      j_send(g, 2, jit_null_ptr());
 
    macro_exit(g, JIT_EXIT_REFLECT_SUBTYPE);
 
diff --git a/src/lower.c b/src/lower.c
index 9b35f29..506996f 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -4727,8 +4727,15 @@ static vcode_reg_t lower_reflect_attr(lower_unit_t *lu, tree_t expr)
       value_reg = lower_attr_prefix(lu, name);
 
    type_t value_type = tree_type(name);
-   if (type_is_array(value_type))
-      bounds_reg = lower_wrap(lu, value_type, value_reg);
+   if (type_is_array(value_type)) {
+      vcode_reg_t data_reg = value_reg;
+      if (!is_value_mirror) {
+         type_t elem = type_elem_recur(value_type);
+         data_reg = emit_null(vtype_pointer(lower_type(elem)));
+      }
+
+      bounds_reg = lower_wrap(lu, value_type, data_reg);
+   }
 
    vcode_reg_t locus = lower_debug_locus(name);
 
-- 
2.43.0


From 4ae9a534f14774dd800db3e2a944ec0ae6313880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 04/55] fix: expanded name of a generic subprogram of an entity

An entity declaration has generics but no generic map so looking up the
actual subprogram crashed with an internal error.
---
 src/names.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/names.c b/src/names.c
index ed62fff..7b74861 100644
--- a/src/names.c
+++ b/src/names.c
@@ -1317,7 +1317,9 @@ static scope_t *private_scope_for(nametab_t *tab, tree_t unit)
                tree_t g = tree_generic(unit, i), decl = g;
 
                const class_t class = tree_class(g);
-               if (class == C_FUNCTION || class == C_PROCEDURE) {
+               if (kind == T_ENTITY)
+                  ;   // An entity declaration has no generic map
+               else if (class == C_FUNCTION || class == C_PROCEDURE) {
                   // A single subprogram could be visible both directly
                   // and as a actual generic subprogram
                   tree_t value = find_generic_map(unit, i, g);
-- 
2.43.0


From bccaba470e2dbdd571525492c46164a684810f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 05/55] fix: package declared in an architecture or block

Only instantiated packages were handled when such a declaration was
lowered: any other package aborted elaboration with an internal error.
---
 src/lower.c | 50 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 506996f..39e2b4d 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -9767,17 +9767,39 @@ static void lower_new_helper(lower_unit_t *lu, object_t *obj)
 static void lower_instantiated_package(lower_unit_t *lu, object_t *obj)
 {
    tree_t decl = tree_from_object(obj);
-   assert(tree_kind(decl) == T_PACK_INST);
 
    lu->cscope = cover_create_scope(lu->cover, lu->parent->cscope, decl, NULL);
 
-   tree_t pack = tree_ref(decl);
-   assert(is_uninstantiated_package(pack));
+   switch (tree_kind(decl)) {
+   case T_PACK_INST:
+      {
+         tree_t pack = tree_ref(decl);
+         assert(is_uninstantiated_package(pack));
+
+         lower_dependencies(lu, body_of(pack) ?: pack);
 
-   lower_dependencies(lu, body_of(pack) ?: pack);
+         lower_generics(lu, decl, NULL);
+         lower_decls(lu, decl);
+      }
+      break;
 
-   lower_generics(lu, decl, NULL);
-   lower_decls(lu, decl);
+   case T_PACKAGE:
+      lower_generics(lu, decl, NULL);
+      lower_decls(lu, decl);
+      break;
+
+   case T_PACK_BODY:
+      {
+         tree_t pack = tree_primary(decl);
+         lower_generics(lu, pack, NULL);
+         lower_decls(lu, pack);
+         lower_decls(lu, decl);
+      }
+      break;
+
+   default:
+      should_not_reach_here();
+   }
 
    emit_return(VCODE_INVALID_REG);
 }
@@ -9978,7 +10000,13 @@ static void lower_decl(lower_unit_t *lu, tree_t decl)
    case T_PACK_BODY:
    case T_PACK_INST:
       if (unit_needs_cgen(decl)) {
-         ident_t name = ident_prefix(lu->name, tree_ident(decl), '.');
+         // Only the declarations in the package declaration are visible
+         // outside the package
+         const tree_kind_t kind = tree_kind(decl);
+         tree_t pack = kind == T_PACK_BODY ? tree_primary(decl) : decl;
+         tree_t proto = kind == T_PACK_INST ? tree_ref(decl) : pack;
+
+         ident_t name = ident_prefix(lu->name, tree_ident(pack), '.');
          object_t *obj = tree_to_object(decl);
 
          unit_registry_defer(lu->registry, name, lu, emit_package,
@@ -9993,13 +10021,13 @@ static void lower_decl(lower_unit_t *lu, tree_t decl)
 
          lower_put_vcode_obj(name, pkg_reg, lu);
 
-         const int ngenerics = tree_generics(tree_ref(decl));
+         const int ngenerics = tree_generics(proto);
          for (int i = 0; i < ngenerics; i++)
-            lower_put_vcode_obj(tree_generic(decl, i), var | INSTANCE_BIT, lu);
+            lower_put_vcode_obj(tree_generic(pack, i), var | INSTANCE_BIT, lu);
 
-         const int ndecls = tree_decls(tree_ref(decl));
+         const int ndecls = tree_decls(proto);
          for (int i = 0; i < ndecls; i++)
-            lower_put_vcode_obj(tree_decl(decl, i), var | INSTANCE_BIT, lu);
+            lower_put_vcode_obj(tree_decl(pack, i), var | INSTANCE_BIT, lu);
       }
       break;
 
-- 
2.43.0


From 70f209e01c979b7eaf01afe1c211081a9bfcfc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 06/55] fix: give the 8-bit exponentiation helpers their own
 LLVM functions

---
 src/jit/jit-llvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index 256c5a5..616b5b9 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -681,7 +681,7 @@ static LLVMValueRef llvm_get_fn(llvm_obj_t *obj, llvm_fn_t which)
                                                 ARRAY_LEN(args), false);
 
          static const char *names[] = {
-            "nvc.sexp.with.overflow.i16",
+            "nvc.sexp.with.overflow.i8",
             "nvc.sexp.with.overflow.i16",
             "nvc.sexp.with.overflow.i32",
             "nvc.sexp.with.overflow.i64"
@@ -704,7 +704,7 @@ static LLVMValueRef llvm_get_fn(llvm_obj_t *obj, llvm_fn_t which)
                                                 ARRAY_LEN(args), false);
 
          static const char *names[] = {
-            "nvc.uexp.with.overflow.i16",
+            "nvc.uexp.with.overflow.i8",
             "nvc.uexp.with.overflow.i16",
             "nvc.uexp.with.overflow.i32",
             "nvc.uexp.with.overflow.i64"
-- 
2.43.0


From 87d9194dae287e8d70ae1e5b26c0076529fbacb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 07/55] fix: infinite loop parsing a parenthesised PSL sequence
 with a repetition

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 77b973c..61070e4 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -12261,7 +12261,7 @@ static psl_node_t p_psl_sere(void)
       case tAMP:
       case tDBLAMP:
       case tWITHIN:
-      case tLSQUARE:
+      case t2LSQUARE:
       case tPLUSRPT:
       case tTIMESRPT:
       case tEQRPT:
-- 
2.43.0


From 4e2da91857dfb3f28a453aa1c7c27ccfc68674e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 08/55] fix: unbounded recursion parsing a resolution
 indication at end of file

---
 src/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 61070e4..4175180 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4250,8 +4250,9 @@ static tree_t p_resolution_indication(void)
 
    if (peek() == tID || standard() < STD_08)
       return p_name(N_SUBPROGRAM);
+   else if (one_of(tLPAREN, tID) != tLPAREN)
+      return p_name(N_SUBPROGRAM);
    else {
-      one_of(tLPAREN, tID);
       tree_t rname = p_element_resolution();
       consume(tRPAREN);
       return rname;
-- 
2.43.0


From 57219345b67a88da4e22cc7baa2c780d2075848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 09/55] fix: close each report file of the per-file coverage
 report

---
 src/cov/cov-report.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cov/cov-report.c b/src/cov/cov-report.c
index b641189..57f4776 100644
--- a/src/cov/cov-report.c
+++ b/src/cov/cov-report.c
@@ -1678,6 +1678,8 @@ static void cover_report_per_file(FILE *top_f, cover_data_t *data, char *subdir)
 
       cover_print_timestamp(f);
 
+      fclose(f);
+
       // Print top table summary
       cover_print_summary_table_row(top_f, data, &(ctx->stats), base_name_id, base_name_id,
                                     0, true, false);
-- 
2.43.0


From ba5f088fb9048e1a2fc81c1fae806787bd8d97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 10/55] fix: close the index of a library from an older version

---
 src/lib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.c b/src/lib.c
index c102fef..f1097ae 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -155,6 +155,7 @@ static void lib_read_index(lib_t lib)
       if (magic != INDEX_FILE_MAGIC) {
          warnf("ignoring library index %s from an old version of " PACKAGE,
                fbuf_file_name(f));
+         fbuf_close(f, NULL);
          return;
       }
 
-- 
2.43.0


From ec387ecf64e31452eb85d685d38aacb49f541fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 11/55] fix: close the directory when its path cannot be
 resolved

---
 src/rt/stdenv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rt/stdenv.c b/src/rt/stdenv.c
index 049620a..af7122e 100644
--- a/src/rt/stdenv.c
+++ b/src/rt/stdenv.c
@@ -526,6 +526,7 @@ void _std_env_dir_open(directory_t *dir, const uint8_t *path_ptr,
    char resolved[PATH_MAX];
    if (realpath(path, resolved) == NULL) {
       *status = errno_to_dir_open_status();
+      closedir(d);
       return;
    }
 
-- 
2.43.0


From e11d5b21b82edaeccc9858bcf1598d94bd156f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 12/55] fix: crash when FILE_SIZE or FILE_CANSEEK is called on
 a closed file

---
 src/rt/fileio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt/fileio.c b/src/rt/fileio.c
index e039f5f..5adf9c8 100644
--- a/src/rt/fileio.c
+++ b/src/rt/fileio.c
@@ -368,7 +368,7 @@ void __nvc_file_size(jit_scalar_t *args)
    file_handle_t *handle = args[1].pointer;
 
    file_slot_t *slot = decode_handle(*handle);
-   if (slot->file == NULL)
+   if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_SIZE called on closed file");
 
    fflush(slot->file);
@@ -386,7 +386,7 @@ void __nvc_file_canseek(jit_scalar_t *args)
    file_handle_t *handle = args[1].pointer;
 
    file_slot_t *slot = decode_handle(*handle);
-   if (slot->file == NULL)
+   if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_CANSEEK called on closed file");
 
    args[0].integer = fseek(slot->file, 0, SEEK_CUR) == 0;
-- 
2.43.0


From 7c8c223e68110ae3d2ca23d54e142460f20f103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 13/55] fix: crash when a coverage output file cannot be opened

---
 src/cov/cov-report.c | 2 ++
 src/nvc.c            | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/cov/cov-report.c b/src/cov/cov-report.c
index 57f4776..475a02a 100644
--- a/src/cov/cov-report.c
+++ b/src/cov/cov-report.c
@@ -1727,6 +1727,8 @@ void cover_report(const char *path, cover_data_t *data, int item_limit)
 
    char *top LOCAL = xasprintf("%s/index.html", path);
    FILE *f = fopen(top, "w");
+   if (f == NULL)
+      fatal_errno("could not open %s", top);
 
    cover_print_html_header(f);
 
diff --git a/src/nvc.c b/src/nvc.c
index 7c9f548..0581a97 100644
--- a/src/nvc.c
+++ b/src/nvc.c
@@ -558,6 +558,9 @@ static int elaborate(int argc, char **argv, cmd_state_t *state)
 
    if (cover != NULL) {
       fbuf_t *covdb = fbuf_open(meta.cover_file, FBUF_OUT, FBUF_CS_NONE);
+      if (covdb == NULL)
+         fatal_errno("could not open %s", meta.cover_file);
+
       cover_dump_items(cover, covdb, COV_DUMP_ELAB, NULL);
       fbuf_close(covdb, NULL);
 
@@ -1676,6 +1679,9 @@ static int coverage_cmd(int argc, char **argv, cmd_state_t *state)
    if (out_db) {
       progress("Saving merged coverage database to: %s", out_db);
       fbuf_t *f = fbuf_open(out_db, FBUF_OUT, FBUF_CS_NONE);
+      if (f == NULL)
+         fatal_errno("could not open %s", out_db);
+
       cover_dump_items(cover, f, COV_DUMP_PROCESSING, NULL);
       fbuf_close(f, NULL);
    }
@@ -2042,6 +2048,9 @@ static int cover_merge_cmd(int argc, char **argv, cmd_state_t *state)
    progress("saving merged coverage database to %s", out_db);
 
    fbuf_t *f = fbuf_open(out_db, FBUF_OUT, FBUF_CS_NONE);
+   if (f == NULL)
+      fatal_errno("could not open %s", out_db);
+
    cover_dump_items(cover, f, COV_DUMP_PROCESSING, NULL);
    fbuf_close(f, NULL);
 
-- 
2.43.0


From f67d9537acd26bec197b9929a9607a17d713c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 14/55] fix: crash when the prefix of 'INDEX has no type

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 4175180..f6626bb 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2049,7 +2049,7 @@ static type_t apply_index_attribute(tree_t aref)
 
    type_t type = get_type_or_null(tree_name(aref));
 
-   if (!type_is_array(type)) {
+   if (type == NULL || !type_is_array(type)) {
       parse_error(tree_loc(aref), "prefix of 'INDEX attribute must be an "
                   "array type");
       return type_new(T_NONE);
-- 
2.43.0


From 23cfd0eaa61125936c8f48314720aa1c0ff73352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 15/55] fix: crash on a malformed subprogram instantiation
 declaration

---
 src/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index f6626bb..3b79e47 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -7289,9 +7289,9 @@ static tree_t p_subprogram_instantiation_declaration(void)
 
    tree_kind_t kind;
    switch (one_of(tFUNCTION, tPROCEDURE)) {
-   case tFUNCTION: kind = T_FUNC_INST; break;
    case tPROCEDURE: kind = T_PROC_INST; break;
-   default: return NULL;
+   case tFUNCTION:
+   default: kind = T_FUNC_INST; break;
    }
 
    tree_t inst = tree_new(kind);
-- 
2.43.0


From 66ca294bf9000b89868bf75e9cf62e6da5c388e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 16/55] fix: crash in vhpi_handle_by_name when the name is
 empty

---
 src/vhpi/vhpi-model.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vhpi/vhpi-model.c b/src/vhpi/vhpi-model.c
index c43a7d2..2064c0a 100644
--- a/src/vhpi/vhpi-model.c
+++ b/src/vhpi/vhpi-model.c
@@ -2430,6 +2430,11 @@ vhpiHandleT vhpi_handle_by_name(const char *name, vhpiHandleT scope)
    if (scope == NULL) {
       vhpi_context_t *c = vhpi_context();
 
+      if (elem == NULL) {
+         vhpi_error(vhpiError, NULL, "empty name");
+         return NULL;
+      }
+
       if (vhpi_name_cmp(&c->root->designInstUnit.region.object, elem))
          where = &(c->root->designInstUnit.region.object);
       else {
-- 
2.43.0


From 07557877aae532626e73532c646c6ab052af5c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 17/55] fix: crash on a blank FOREIGN attribute

---
 src/jit/jit-ffi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jit/jit-ffi.c b/src/jit/jit-ffi.c
index 0848b2c..62582ab 100644
--- a/src/jit/jit-ffi.c
+++ b/src/jit/jit-ffi.c
@@ -452,6 +452,9 @@ void jit_bind_foreign(jit_func_t *f, const uint8_t *spec, size_t length,
                       tree_t where)
 {
    char *tmp LOCAL = null_terminate(spec, length), *p = strtok(tmp, " ");
+   if (p == NULL)
+      p = tmp;   // Blank string
+
    if (strcmp(p, "VHPIDIRECT") == 0 || strcmp(p, "GHDL") == 0) {
       p = strtok(NULL, " ");
       if (p != NULL) {
-- 
2.43.0


From 80db19369308e3dc2f57b4d1cf04f13754733bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 18/55] fix: crash when NVC_LIBPATH is set to the empty string

---
 src/lib.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.c b/src/lib.c
index f1097ae..3150198 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -619,9 +619,10 @@ static void lib_default_search_paths(void)
          env_copy = strdup(libpath_env);
 
          char *path_tok = strtok(env_copy, ":");
-         do {
+         while (path_tok != NULL) {
             push_path(path_tok);
-         } while ((path_tok = strtok(NULL, ":")));
+            path_tok = strtok(NULL, ":");
+         }
       }
    }
 #endif
-- 
2.43.0


From 71b616e6d837c1adc0ae7674fb3cbb5d46671ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 19/55] fix: crash in vpi_iterate when the reference handle is
 NULL

---
 src/vpi/vpi-model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpi/vpi-model.c b/src/vpi/vpi-model.c
index 4efb63b..9f31406 100644
--- a/src/vpi/vpi-model.c
+++ b/src/vpi/vpi-model.c
@@ -597,7 +597,7 @@ static c_sysFuncCall *build_sysFuncCall(vlog_node_t where, c_callback *callback,
 
 static bool init_iterator(c_iterator *it, PLI_INT32 type, c_vpiObject *obj)
 {
-   c_tfCall *call = is_tfCall(obj);
+   c_tfCall *call = obj ? is_tfCall(obj) : NULL;
    if (call != NULL) {
       switch (type) {
       case vpiArgument:
-- 
2.43.0


From 1bc5ddce7b9a6a2809f93d99b220286d147b3782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 20/55] fix: missing choices must be reported even if the index
 type's bounds are not static

---
 src/bounds.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bounds.c b/src/bounds.c
index fca65d2..1fa0c62 100644
--- a/src/bounds.c
+++ b/src/bounds.c
@@ -547,10 +547,9 @@ static void bounds_check_missing_choices(tree_t t, type_t type,
       base = type_base(base);
 
    int64_t rlow, rhigh;
-   if (!folded_bounds(range_of(index_type ?: type, 0), &rlow, &rhigh))
-      return;
-
-   if (rlow != tlow || rhigh != thigh || !type_has_ident(index_type ?: type)) {
+   if (!folded_bounds(range_of(index_type ?: type, 0), &rlow, &rhigh)
+       || rlow != tlow || rhigh != thigh
+       || !type_has_ident(index_type ?: type)) {
       diag_printf(d, " range ");
       report_interval(d, index_type ?: type, dir, tlow, thigh);
    }
-- 
2.43.0


From f03869db8a8ffbf4bebbd602d159e9461fca16e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 21/55] fix: preprocess command must fail if errors were
 reported

---
 src/nvc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nvc.c b/src/nvc.c
index 0581a97..8fd2fd7 100644
--- a/src/nvc.c
+++ b/src/nvc.c
@@ -2101,6 +2101,9 @@ static int preprocess_cmd(int argc, char **argv, cmd_state_t *state)
       fputs(tb_get(tb), stdout);
    }
 
+   if (error_count() > 0)
+      return EXIT_FAILURE;
+
    argc -= next_cmd - 1;
    argv += next_cmd - 1;
 
-- 
2.43.0


From 5db71e9d6fbaf29f71702cf69346760f339b9d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 22/55] fix: coverage commands must fail if the exclude file
 has errors

---
 src/nvc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nvc.c b/src/nvc.c
index 8fd2fd7..999c28f 100644
--- a/src/nvc.c
+++ b/src/nvc.c
@@ -1707,7 +1707,7 @@ static int coverage_cmd(int argc, char **argv, cmd_state_t *state)
       fclose(f);
    }
 
-   return 0;
+   return error_count() > 0 ? EXIT_FAILURE : EXIT_SUCCESS;
 }
 
 #ifdef ENABLE_GUI
@@ -2001,6 +2001,9 @@ static int cover_report_cmd(int argc, char **argv, cmd_state_t *state)
    progress("generating code coverage report");
    cover_report(outdir, cover, item_limit);
 
+   if (error_count() > 0)
+      return EXIT_FAILURE;   // May have errors in exclude file
+
    argc -= next_cmd - 1;
    argv += next_cmd - 1;
 
-- 
2.43.0


From 4c161e3c2bf17a060ad357f4aeb19e71383a68e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 23/55] fix: value of force assignment must be checked against
 the target's subtype

---
 src/lower.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index 39e2b4d..d60a247 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6236,8 +6236,10 @@ static void lower_force(lower_unit_t *lu, tree_t stmt)
       lower_for_each_field_2(lu, type, value_type, nets, value_reg, locus,
                              lower_force_field_cb, NULL);
    }
-   else
+   else {
+      lower_check_scalar_bounds(lu, value_reg, type, value, target);
       emit_force(nets, emit_const(vtype_offset(), 1), value_reg);
+   }
 }
 
 static void lower_release(lower_unit_t *lu, tree_t stmt)
-- 
2.43.0


From 644d6649b1a83b77fc5a270d73ca6990dd87e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 24/55] fix: crash on mod or rem of physical types with zero
 divisor

---
 src/lower.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index d60a247..a2452d3 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -2127,7 +2127,7 @@ static vcode_reg_t lower_builtin(lower_unit_t *lu, tree_t fcall,
    case S_MOD:
    case S_REM:
    case S_DIV:
-      if (type_is_integer(r1_type)) {
+      if (!type_is_real(r1_type)) {
          vcode_reg_t locus = lower_debug_locus(fcall);
          emit_zero_check(r1, locus);
       }
-- 
2.43.0


From 933386ea05d6ffc18e85ccb8127089586bff590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 25/55] fix: returned value must be checked against the result
 subtype

---
 src/lower.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index a2452d3..c55639d 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6384,20 +6384,27 @@ static void lower_return(lower_unit_t *lu, tree_t stmt)
 
    if (tree_has_value(stmt)) {
       tree_t value = tree_value(stmt);
-      type_t type = tree_type(value);
+      type_t type = tree_type(value), rtype = tree_type(stmt);
 
       vcode_reg_t value_reg = lower_rvalue(lu, value);
 
       if (type_is_scalar(type)) {
-         lower_check_scalar_bounds(lu, value_reg, type, value, NULL);
+         lower_check_scalar_bounds(lu, value_reg, rtype, value, stmt);
          emit_return(value_reg);
       }
       else if (type_is_access(type)) {
          type_t access = type_designated(type);
          emit_return(lower_incomplete_access(value_reg, access));
       }
-      else if (type_is_array(type))
-         emit_return(lower_coerce_arrays(lu, type, tree_type(stmt), value_reg));
+      else if (type_is_array(type)) {
+         if (type_const_bounds(rtype)) {
+            vcode_reg_t locus = lower_debug_locus(value);
+            lower_check_array_sizes(lu, rtype, type, VCODE_INVALID_REG,
+                                    value_reg, locus);
+         }
+
+         emit_return(lower_coerce_arrays(lu, type, rtype, value_reg));
+      }
       else
          emit_return(value_reg);
    }
-- 
2.43.0


From 0d857d2da6e5af21cb9f25dbcf82fcd9ad8d0231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 26/55] fix: operand of qualified expression must be checked
 against the subtype

---
 src/lower.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index c55639d..821a425 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -5060,10 +5060,21 @@ static vcode_reg_t lower_qualified(lower_unit_t *lu, tree_t expr)
 
    vcode_reg_t value_reg = lower_rvalue(lu, value);
 
-   if (type_is_array(to_type))
+   if (type_is_array(to_type)) {
+      if (type_const_bounds(to_type)) {
+         vcode_reg_t locus = lower_debug_locus(expr);
+         lower_check_array_sizes(lu, to_type, from_type, VCODE_INVALID_REG,
+                                 value_reg, locus);
+      }
+
       return lower_coerce_arrays(lu, from_type, to_type, value_reg);
-   else
+   }
+   else {
+      if (type_is_scalar(to_type))
+         lower_check_scalar_bounds(lu, value_reg, to_type, expr, NULL);
+
       return value_reg;
+   }
 }
 
 static vcode_reg_t lower_cond_value(lower_unit_t *lu, tree_t expr)
-- 
2.43.0


From d18d1de28e3537d23882b107bf7f44a708797168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 27/55] fix: elements of array aggregates must be checked
 against the element subtype

---
 src/lower.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 821a425..23352ae 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -3993,13 +3993,26 @@ static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
 
          if (array_of_array || multidim) {
             assert(stride != VCODE_INVALID_REG);
+
+            if (!multidim && tree_kind(def_value) != T_AGGREGATE
+                && type_const_bounds(elem_type)) {
+               vcode_reg_t locus = lower_debug_locus(def_value);
+               lower_check_array_sizes(lu, elem_type, tree_type(def_value),
+                                       VCODE_INVALID_REG, def_reg, locus);
+            }
+
             vcode_reg_t src_reg = lower_array_data(def_reg);
             emit_copy(ptr_reg, src_reg, stride);
          }
          else if (type_is_record(elem_type))
             emit_copy(ptr_reg, def_reg, VCODE_INVALID_REG);
-         else
+         else {
+            if (type_is_scalar(elem_type))
+               lower_check_scalar_bounds(lu, def_reg, elem_type,
+                                         def_value, expr);
+
             emit_store_indirect(def_reg, ptr_reg);
+         }
 
          vcode_reg_t done_reg = emit_cmp(VCODE_CMP_EQ, next_reg, len_reg);
          emit_cond(done_reg, exit_bb, loop_bb);
@@ -4202,13 +4215,26 @@ static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
       }
       else if (array_of_array || multidim) {
          assert(stride != VCODE_INVALID_REG);
+
+         if (!multidim && tree_kind(value) != T_AGGREGATE
+             && type_const_bounds(elem_type)) {
+            vcode_reg_t locus = lower_debug_locus(value);
+            lower_check_array_sizes(lu, elem_type, tree_type(value),
+                                    VCODE_INVALID_REG, value_regs[i], locus);
+         }
+
          vcode_reg_t src_reg = lower_array_data(value_regs[i]);
          emit_copy(ptr_reg, src_reg, stride);
       }
       else if (type_is_record(elem_type))
          emit_copy(ptr_reg, value_regs[i], VCODE_INVALID_REG);
-      else
+      else {
+         if (type_is_scalar(elem_type))
+            lower_check_scalar_bounds(lu, value_regs[i], elem_type,
+                                      value, expr);
+
          emit_store_indirect(value_regs[i], ptr_reg);
+      }
 
       if (loop_bb != VCODE_INVALID_BLOCK) {
          assert(tree_subkind(a) == A_RANGE);
-- 
2.43.0


From 52db2a52ad248a32b77fb48af31551204c7f0d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 28/55] fix: value of others choice must be checked against the
 element subtype

---
 src/lower.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index 23352ae..bfb5bfd 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -3947,6 +3947,11 @@ static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
       // Initialise the array with the default value
       if (type_is_scalar(elem_type) && !multidim) {
          vcode_reg_t def_reg = lower_rvalue(lu, def_value);
+
+         // Constant values are checked during analysis
+         if (!lower_is_const(def_value))
+            lower_check_scalar_bounds(lu, def_reg, elem_type, def_value, expr);
+
          emit_memset(mem_reg, def_reg, len_reg);
       }
       else {
-- 
2.43.0


From 2f4284db99c8877a7325582c9c9535d8b39c8702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 29/55] fix: wrong value checked when signal aggregate target
 is assigned from an array or record

---
 src/lower.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index bfb5bfd..cf8e9a4 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6086,8 +6086,13 @@ static void lower_signal_assign_target(lower_unit_t *lu, target_part_t **ptr,
       if (p->kind == PART_ELEM || p->kind == PART_SLICE)
          src_reg = lower_array_data(src_reg);
 
-      if (type_is_scalar(type))
-         lower_check_scalar_bounds(lu, src_reg, type, where, p->target);
+      if (type_is_scalar(type)) {
+         vcode_reg_t scalar_reg = src_reg;
+         if (vcode_reg_kind(src_reg) == VCODE_TYPE_POINTER)
+            scalar_reg = emit_load_indirect(src_reg);
+
+         lower_check_scalar_bounds(lu, scalar_reg, type, where, p->target);
+      }
 
       if (!type_is_homogeneous(type)) {
          vcode_reg_t args[2] = { reject, after };
-- 
2.43.0


From 944d1bc926d95385acb57cc8b9fb8573cfc95c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 30/55] fix: conversion from integer to real must check the
 subtype

---
 src/lower.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index cf8e9a4..3926549 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -4581,7 +4581,9 @@ static vcode_reg_t lower_conversion(lower_unit_t *lu, vcode_reg_t value_reg,
    else if (from_k == T_INTEGER && to_k == T_REAL) {
       vcode_type_t vtype = lower_type(to);
       vcode_type_t vbounds = vtype_real((double)INT64_MIN, (double)INT64_MAX);
-      return emit_cast(vtype, vbounds, value_reg);
+      vcode_reg_t cast = emit_cast(vtype, vbounds, value_reg);
+      lower_check_scalar_bounds(lu, cast, to, where, NULL);
+      return cast;
    }
    else if (from_k == T_ARRAY && to_k == T_ARRAY) {
       type_t from_e = type_elem_recur(from);
-- 
2.43.0


From 97f5d147c50020a9bd36407e3bc4f044358be8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:33 +0000
Subject: [PATCH 31/55] fix: conversion between enumeration or physical
 subtypes must check the bounds

---
 src/lower.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index 3926549..ca24726 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -4664,6 +4664,9 @@ static vcode_reg_t lower_conversion(lower_unit_t *lu, vcode_reg_t value_reg,
    }
    else {
       // No conversion to perform
+      if (type_is_scalar(to))
+         lower_check_scalar_bounds(lu, value_reg, to, where, NULL);
+
       return value_reg;
    }
 }
-- 
2.43.0


From 2b81fb5ce2dd6aa8f111be2c54d14a79e1468205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:45 +0000
Subject: [PATCH 32/55] fix: product of an integer with itself was evaluated as
 zero

---
 src/mir/mir-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 9328d96..3b47fed 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1160,7 +1160,7 @@ mir_value_t mir_build_trap_mul(mir_unit_t *mu, mir_type_t type,
                                mir_value_t left, mir_value_t right,
                                mir_value_t locus)
 {
-   return mir_build_sub_op(mu, MIR_OP_TRAP_MUL, type, left, right, locus);
+   return mir_build_mul_op(mu, MIR_OP_TRAP_MUL, type, left, right, locus);
 }
 
 mir_value_t mir_build_div(mir_unit_t *mu, mir_type_t type, mir_value_t left,
-- 
2.43.0


From edee71aa107cedd111bd98de4cd812b45463c59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:45 +0000
Subject: [PATCH 33/55] fix: subtraction from constant zero gave the wrong sign

---
 src/mir/mir-node.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 3b47fed..7cab9ba 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1034,9 +1034,7 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
    const bool lconst = mir_get_const(mu, left, &lval);
    const bool rconst = mir_get_const(mu, right, &rval);
 
-   if (lconst && lval == 0)
-      return right;
-   else if (rconst && rval == 0)
+   if (rconst && rval == 0)
       return left;
    else if (lconst && rconst && !__builtin_sub_overflow(lval, rval, &cval))
       return mir_const(mu, type, cval);
@@ -1048,9 +1046,7 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
    const bool lconst_real = mir_get_const_real(mu, left, &lreal);
    const bool rconst_real = mir_get_const_real(mu, right, &rreal);
 
-   if (lconst_real && (lreal == 0.0 || lreal == -0.0))
-      return right;
-   else if (rconst_real && (rreal == 0.0 || rreal == -0.0))
+   if (rconst_real && (rreal == 0.0 || rreal == -0.0))
       return left;
    else if (lconst_real && rconst_real)
       return mir_const_real(mu, type, lreal - rreal);
-- 
2.43.0


From a62d3e0dbb1cdc5f47ebb0dca623efcbd7909553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:02 +0000
Subject: [PATCH 34/55] fix: overflow was not detected when subtracting from
 constant zero

---
 src/vcode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vcode.c b/src/vcode.c
index 8bb0a8f..26f52ae 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -4106,7 +4106,7 @@ static vcode_reg_t emit_sub_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
       return emit_const(vcode_reg_type(lhs), lconst - rconst);
    else if (r_is_const && rconst == 0)
       return lhs;
-   else if (l_is_const && lconst == 0)
+   else if (l_is_const && lconst == 0 && op == VCODE_OP_SUB)
       return emit_neg(rhs);
 
    vcode_type_t vbounds = VCODE_INVALID_TYPE;
-- 
2.43.0


From fda1085e661c92984ba0976f3c86236f1c1a4976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:02 +0000
Subject: [PATCH 35/55] fix: bounds of division by negative constant were
 inverted

---
 src/vcode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vcode.c b/src/vcode.c
index 26f52ae..7c7cdd1 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -3963,7 +3963,10 @@ vcode_reg_t emit_div(vcode_reg_t lhs, vcode_reg_t rhs)
 
    if (bl->kind == VCODE_TYPE_INT && r_is_const && rconst != 0) {
       reg_t *rr = vcode_reg_data(reg);
-      rr->bounds = vtype_int(bl->low / rconst, bl->high / rconst);
+      if (rconst > 0)
+         rr->bounds = vtype_int(bl->low / rconst, bl->high / rconst);
+      else if (bl->low != INT64_MIN)
+         rr->bounds = vtype_int(bl->high / rconst, bl->low / rconst);
    }
    else if (bl->kind == VCODE_TYPE_REAL) {
       reg_t *rr = vcode_reg_data(reg);
-- 
2.43.0


From 1f532427144ccd877ab13a2313823d900e0c510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 36/55] fix: wrong bounds for remainder when the divisor may be
 negative

---
 src/mir/mir-type.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mir/mir-type.c b/src/mir/mir-type.c
index 931d6e7..1558de0 100644
--- a/src/mir/mir-type.c
+++ b/src/mir/mir-type.c
@@ -1100,7 +1100,8 @@ mir_stamp_t mir_stamp_rem(mir_unit_t *mu, mir_stamp_t left, mir_stamp_t right)
 
    switch (lsd->kind) {
    case MIR_STAMP_INT:
-      if (lsd->u.intg.low >= 0 && rsd->u.intg.high > 0)
+      if (lsd->u.intg.low >= 0 && rsd->u.intg.low >= 0
+          && rsd->u.intg.high > 0)
          return mir_int_stamp(mu, 0, rsd->u.intg.high - 1);
       else
          return MIR_NULL_STAMP;
-- 
2.43.0


From 47d3df1c154d59f5df04c43e299d9706c83f9375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 37/55] fix: value of select with one operand of unknown range
 was assumed to be in the range of the other

---
 src/mir/mir-node.c | 2 +-
 src/mir/mir-type.c | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 7cab9ba..042f041 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1826,7 +1826,7 @@ void mir_set_input(mir_unit_t *mu, mir_value_t phi, unsigned nth,
    mir_set_arg(mu, n, nth * 2,  mir_cast_value(block));
    mir_set_arg(mu, n, nth * 2 + 1, value);
 
-   n->stamp = mir_stamp_union(mu, n->stamp, mir_get_stamp(mu, value));
+   // The stamp of a phi node is not known until all its inputs are set
 
    MIR_ASSERT(mir_equals(n->type, mir_get_type(mu, value)),
               "phi input %d has wrong type", nth);
diff --git a/src/mir/mir-type.c b/src/mir/mir-type.c
index 1558de0..81f31ff 100644
--- a/src/mir/mir-type.c
+++ b/src/mir/mir-type.c
@@ -1178,10 +1178,8 @@ mir_stamp_t mir_stamp_cmp(mir_unit_t *mu, mir_cmp_t cmp, mir_stamp_t left,
 
 mir_stamp_t mir_stamp_union(mir_unit_t *mu, mir_stamp_t left, mir_stamp_t right)
 {
-   if (mir_is_null(left))
-      return right;
-   else if (mir_is_null(right))
-      return left;
+   if (mir_is_null(left) || mir_is_null(right))
+      return MIR_NULL_STAMP;
 
    const stamp_data_t *lsd = mir_stamp_data(mu, left);
    const stamp_data_t *rsd = mir_stamp_data(mu, right);
-- 
2.43.0


From 8a11e819bb0d9fb07860c4e5db943cb1aff1e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 38/55] fix: crash dividing the smallest 64-bit integer by
 minus one

---
 src/jit/jit-interp.c | 10 ++++++++--
 src/jit/jit-llvm.c   | 22 +++++++++++++++++++---
 src/jit/jit-optim.c  |  3 +--
 src/mir/mir-node.c   |  2 +-
 src/vcode.c          |  3 ++-
 5 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/jit/jit-interp.c b/src/jit/jit-interp.c
index 69ec3f9..0e7d4ac 100644
--- a/src/jit/jit-interp.c
+++ b/src/jit/jit-interp.c
@@ -313,7 +313,10 @@ static void interp_div(jit_interp_t *state, jit_ir_t *ir)
    const int64_t arg1 = interp_get_int(state, ir->arg1);
    const int64_t arg2 = interp_get_int(state, ir->arg2);
 
-   state->regs[ir->result].integer = arg1 / arg2;
+   if (arg2 == -1)
+      state->regs[ir->result].integer = -(uint64_t)arg1;  // May overflow
+   else
+      state->regs[ir->result].integer = arg1 / arg2;
 }
 
 static void interp_fdiv(jit_interp_t *state, jit_ir_t *ir)
@@ -574,7 +577,10 @@ static void interp_rem(jit_interp_t *state, jit_ir_t *ir)
    const int64_t x = interp_get_int(state, ir->arg1);
    const int64_t y = interp_get_int(state, ir->arg2);
 
-   state->regs[ir->result].integer = x - (x / y) * y;
+   if (y == -1)
+      state->regs[ir->result].integer = 0;   // Division may overflow
+   else
+      state->regs[ir->result].integer = x - (x / y) * y;
 }
 
 static void interp_clamp(jit_interp_t *state, jit_ir_t *ir)
diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index 616b5b9..0820190 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -1621,8 +1621,17 @@ static void cgen_op_div(llvm_obj_t *obj, cgen_block_t *cgb, jit_ir_t *ir)
    LLVMValueRef arg1 = cgen_get_value(obj, cgb, ir->arg1);
    LLVMValueRef arg2 = cgen_get_value(obj, cgb, ir->arg2);
 
-   cgb->outregs[ir->result] = LLVMBuildSDiv(obj->builder, arg1, arg2,
-                                            cgen_reg_name(ir->result));
+   // The division overflows if the result is not representable
+   LLVMValueRef minus1 = LLVMConstAllOnes(LLVMTypeOf(arg2));
+   LLVMValueRef one = LLVMConstInt(LLVMTypeOf(arg2), 1, false);
+   LLVMValueRef is_minus1 =
+      LLVMBuildICmp(obj->builder, LLVMIntEQ, arg2, minus1, "");
+   LLVMValueRef safe = LLVMBuildSelect(obj->builder, is_minus1, one, arg2, "");
+   LLVMValueRef quot = LLVMBuildSDiv(obj->builder, arg1, safe, "");
+   LLVMValueRef neg = LLVMBuildNeg(obj->builder, quot, "");
+
+   cgb->outregs[ir->result] = LLVMBuildSelect(obj->builder, is_minus1, neg,
+                                              quot, cgen_reg_name(ir->result));
 }
 
 static void cgen_op_rem(llvm_obj_t *obj, cgen_block_t *cgb, jit_ir_t *ir)
@@ -1630,7 +1639,14 @@ static void cgen_op_rem(llvm_obj_t *obj, cgen_block_t *cgb, jit_ir_t *ir)
    LLVMValueRef arg1 = cgen_get_value(obj, cgb, ir->arg1);
    LLVMValueRef arg2 = cgen_get_value(obj, cgb, ir->arg2);
 
-   cgb->outregs[ir->result] = LLVMBuildSRem(obj->builder, arg1, arg2,
+   // The division overflows if the quotient is not representable
+   LLVMValueRef minus1 = LLVMConstAllOnes(LLVMTypeOf(arg2));
+   LLVMValueRef one = LLVMConstInt(LLVMTypeOf(arg2), 1, false);
+   LLVMValueRef is_minus1 =
+      LLVMBuildICmp(obj->builder, LLVMIntEQ, arg2, minus1, "");
+   LLVMValueRef safe = LLVMBuildSelect(obj->builder, is_minus1, one, arg2, "");
+
+   cgb->outregs[ir->result] = LLVMBuildSRem(obj->builder, arg1, safe,
                                             cgen_reg_name(ir->result));
 }
 
diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index 56de995..0c3e5c8 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -550,8 +550,7 @@ static void jit_lvn_div(jit_ir_t *ir, lvn_state_t *state)
       lvn_kill_flags(state);
 
    int64_t lhs, rhs;
-   if (lvn_can_fold(ir, state, &lhs, &rhs) && rhs != 0) {
-      // XXX: potential bug here with INT_MIN/-1
+   if (lvn_can_fold(ir, state, &lhs, &rhs) && rhs != 0 && rhs != -1) {
 #define FOLD_DIV(type) do {                                             \
          type result = (type)lhs / (type)rhs;                           \
          lvn_convert_mov(ir, state, LVN_CONST(result));                 \
diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 042f041..00c3775 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1166,7 +1166,7 @@ mir_value_t mir_build_div(mir_unit_t *mu, mir_type_t type, mir_value_t left,
    const bool lconst = mir_get_const(mu, left, &lval);
    const bool rconst = mir_get_const(mu, right, &rval);
 
-   if (lconst && rconst && rval != 0)
+   if (lconst && rconst && rval != 0 && (rval != -1 || lval != INT64_MIN))
       return mir_const(mu, type, lval / rval);
    else if (rconst && rval == 1)
       return left;
diff --git a/src/vcode.c b/src/vcode.c
index 7c7cdd1..e236632 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -3952,7 +3952,8 @@ vcode_reg_t emit_div(vcode_reg_t lhs, vcode_reg_t rhs)
    int64_t lconst, rconst;
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
-   if (l_is_const && r_is_const && rconst != 0)
+   if (l_is_const && r_is_const && rconst != 0
+       && (rconst != -1 || lconst != INT64_MIN))
       return emit_const(vcode_reg_type(lhs), lconst / rconst);
    else if (r_is_const && rconst == 1)
       return lhs;
-- 
2.43.0


From 28fc69fcddf8890ade93febf939475c69385c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 39/55] fix: stale flags were tested after folding arithmetic
 with overflow check

---
 src/jit/jit-optim.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index 0c3e5c8..ec2eaf0 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -347,6 +347,9 @@ static inline bool lvn_can_fold(jit_ir_t *ir, lvn_state_t *state,
 
 static void lvn_convert_mov(jit_ir_t *ir, lvn_state_t *state, jit_value_t value)
 {
+   if (ir->cc != JIT_CC_NONE)
+      state->regvn[state->func->nregs] = 0;   // Did not overflow
+
    ir->op        = J_MOV;
    ir->size      = JIT_SZ_UNSPEC;
    ir->cc        = JIT_CC_NONE;
@@ -606,7 +609,8 @@ static void jit_lvn_sub(jit_ir_t *ir, lvn_state_t *state)
    if (lvn_can_fold(ir, state, &lhs, &rhs)) {
 #define FOLD_SUB(type) do {                                             \
          type result;                                                   \
-         if (!__builtin_sub_overflow(lhs, rhs, &result)) {              \
+         if (!__builtin_sub_overflow(lhs, rhs, &result)                 \
+             && (ir->cc != JIT_CC_C || lhs >= rhs)) {                   \
             lvn_convert_mov(ir, state, LVN_CONST(result));              \
             return;                                                     \
          }                                                              \
-- 
2.43.0


From af16b3a9b0d02a3f7df64801979ded83cc708f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 40/55] fix: wrong operand when replacing power of two by shift

---
 src/jit/jit-optim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index ec2eaf0..5fb0c0c 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -928,7 +928,7 @@ static void jit_lvn_exp(jit_ir_t *ir, lvn_state_t *state)
       lvn_convert_mov(ir, state, LVN_CONST(ipow(base, exp)));
    else if (lvn_is_const(ir->arg1, state, &base) && base == 2) {
       ir->op = J_SHL;
-      ir->arg1.int64 = 1;
+      ir->arg1 = LVN_CONST(1);
       jit_lvn_generic(ir, state, VN_INVALID);
    }
    else
-- 
2.43.0


From c29c564d81d65c23bcfbaf478492058e38a50d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:19 +0000
Subject: [PATCH 41/55] fix: stale value of parameter after deallocate or
 file_open

---
 src/vcode.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vcode.c b/src/vcode.c
index e236632..4599b6d 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -3780,7 +3780,9 @@ vcode_reg_t emit_load_indirect(vcode_reg_t reg)
                || other->kind == VCODE_OP_STORE_INDIRECT
                || other->kind == VCODE_OP_MEMSET
                || other->kind == VCODE_OP_COPY
-               || other->kind == VCODE_OP_FILE_READ)
+               || other->kind == VCODE_OP_FILE_READ
+               || other->kind == VCODE_OP_FILE_OPEN
+               || other->kind == VCODE_OP_DEALLOCATE)
          break;   // May write to this pointer
    }
 
-- 
2.43.0


From 2d6bd920758d494c91feb5a0477bb00ae2c74d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 42/55] fix: stale variable read after call when its address
 was taken in another block

---
 src/vcode.c | 63 +++++++++++++++++++++--------------------------------
 1 file changed, 25 insertions(+), 38 deletions(-)

diff --git a/src/vcode.c b/src/vcode.c
index 4599b6d..b757fd6 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -147,6 +147,7 @@ typedef struct {
    vcode_type_t      bounds;
    ident_t           name;
    vcode_var_flags_t flags;
+   bool              addressed;
 } var_t;
 
 typedef struct {
@@ -178,6 +179,7 @@ struct _vcode_unit {
    param_array_t  params;
    unsigned       depth;
    unit_flags_t   flags;
+   bool           captured;
    vcode_unit_t   children;
    vcode_unit_t   next;
    object_t      *object;
@@ -3712,49 +3714,29 @@ vcode_reg_t emit_param(vcode_type_t type, vcode_type_t bounds, ident_t name)
 
 vcode_reg_t emit_load(vcode_var_t var)
 {
+   var_t *v = vcode_var_data(var);
+
+   // The variable may be modified indirectly if its address was taken by
+   // any earlier operation, which may be in another block
+   const bool escapes = v->addressed || active_unit->captured;
+
    // Try scanning backwards through the block for another load or store to
    // this variable
-   enum { EAGER, CONSERVATIVE, UNSAFE } state = EAGER;
-   vcode_reg_t fold = VCODE_INVALID_REG;
    VCODE_FOR_EACH_OP(other) {
-      switch (state) {
-      case EAGER:
-         if (other->kind == VCODE_OP_LOAD && other->address == var)
-            return other->result;
-         else if (other->kind == VCODE_OP_STORE && other->address == var)
-            return other->args.items[0];
-         else if (other->kind == VCODE_OP_FCALL
-                  || other->kind == VCODE_OP_PCALL
-                  || other->kind == VCODE_OP_FILE_READ
-                  || other->kind == VCODE_OP_FILE_OPEN
-                  || other->kind == VCODE_OP_STORE_INDIRECT
-                  || other->kind == VCODE_OP_DEALLOCATE)
-            state = CONSERVATIVE;   // May write to variable
-         break;
-
-      case CONSERVATIVE:
-         if (other->kind == VCODE_OP_LOAD && other->address == var
-             && fold == VCODE_INVALID_REG)
-            fold = other->result;
-         else if (other->kind == VCODE_OP_STORE && other->address == var
-                  && fold == VCODE_INVALID_REG)
-            fold = other->args.items[0];
-         else if (other->kind == VCODE_OP_INDEX && other->address == var)
-            state = UNSAFE;
-         else if (other->kind == VCODE_OP_CONTEXT_UPREF && other->hops == 0)
-            state = UNSAFE;   // Nested call captures variables
-         break;
-
-      case UNSAFE:
-         break;
-      }
+      if (other->kind == VCODE_OP_LOAD && other->address == var)
+         return other->result;
+      else if (other->kind == VCODE_OP_STORE && other->address == var)
+         return other->args.items[0];
+      else if (escapes
+               && (other->kind == VCODE_OP_FCALL
+                   || other->kind == VCODE_OP_PCALL
+                   || other->kind == VCODE_OP_FILE_READ
+                   || other->kind == VCODE_OP_FILE_OPEN
+                   || other->kind == VCODE_OP_STORE_INDIRECT
+                   || other->kind == VCODE_OP_DEALLOCATE))
+         break;   // May write to variable
    }
 
-   if (fold != VCODE_INVALID_REG && state != UNSAFE)
-      return fold;
-
-   var_t *v = vcode_var_data(var);
-
    op_t *op = vcode_add_op(VCODE_OP_LOAD);
    op->address = var;
    op->result  = vcode_add_reg(v->type);
@@ -4208,6 +4190,8 @@ vcode_reg_t emit_index(vcode_var_t var, vcode_reg_t offset)
    op_t *op = vcode_add_op(VCODE_OP_INDEX);
    op->address = var;
 
+   vcode_var_data(var)->addressed = true;
+
    if (offset != VCODE_INVALID_REG)
       vcode_add_arg(op, offset);
 
@@ -5157,6 +5141,9 @@ vcode_reg_t emit_context_upref(int hops)
       VCODE_ASSERT(vu, "hop count is greater than depth");
    }
 
+   if (hops == 0)
+      vu->captured = true;
+
    return (op->result = vcode_add_reg(vtype_context(vu->name)));
 }
 
-- 
2.43.0


From b0f0bde81b6f63c02047cb44b44bdf57d1c8f2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 43/55] fix: VHPI functions that left the error of an earlier
 call

---
 src/vhpi/vhpi-model.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vhpi/vhpi-model.c b/src/vhpi/vhpi-model.c
index 2064c0a..a663539 100644
--- a/src/vhpi/vhpi-model.c
+++ b/src/vhpi/vhpi-model.c
@@ -2540,6 +2540,8 @@ vhpiHandleT vhpi_handle_by_index(vhpiOneToManyT itRel,
 DLLEXPORT
 vhpiHandleT vhpi_iterator(vhpiOneToManyT type, vhpiHandleT handle)
 {
+   vhpi_clear_error();
+
    VHPI_TRACE("type=%s handle=%s", vhpi_one_to_many_str(type),
               handle_pp(handle));
 
@@ -2561,6 +2563,8 @@ vhpiHandleT vhpi_iterator(vhpiOneToManyT type, vhpiHandleT handle)
 DLLEXPORT
 vhpiHandleT vhpi_scan(vhpiHandleT iterator)
 {
+   vhpi_clear_error();
+
    VHPI_TRACE("handle=%s", handle_pp(iterator));
 
    c_vhpiObject *obj = from_handle(iterator);
@@ -3694,6 +3698,8 @@ vhpiHandleT vhpi_create(vhpiClassKindT kind,
 DLLEXPORT
 int vhpi_get_foreignf_info(vhpiHandleT handle, vhpiForeignDataT *foreignDatap)
 {
+   vhpi_clear_error();
+
    VHPI_TRACE("handle=%s", handle_pp(handle));
 
    c_vhpiObject *obj = from_handle(handle);
@@ -3711,6 +3717,8 @@ int vhpi_get_foreignf_info(vhpiHandleT handle, vhpiForeignDataT *foreignDatap)
 DLLEXPORT
 vhpiHandleT vhpi_register_foreignf(vhpiForeignDataT *foreignDatap)
 {
+   vhpi_clear_error();
+
    VHPI_TRACE("kind=%d libraryName=%s modelName=%s", foreignDatap->kind,
               foreignDatap->libraryName, foreignDatap->modelName);
 
-- 
2.43.0


From cef1bf209497731e477d1b2a934a24c663654b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 44/55] fix: VHPI IsNull property of physical and
 floating-point ranges

---
 src/vhpi/vhpi-model.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vhpi/vhpi-model.c b/src/vhpi/vhpi-model.c
index a663539..84155aa 100644
--- a/src/vhpi/vhpi-model.c
+++ b/src/vhpi/vhpi-model.c
@@ -3796,11 +3796,11 @@ static c_physRange *build_phys_range(tree_t t)
 {
    const int64_t left = assume_int(tree_left(t));
    const int64_t right = assume_int(tree_right(t));
-   const range_kind_t dir = tree_subkind(t) == RANGE_TO;
-   const bool null = dir == RANGE_TO ? left > right : right > left;
+   const bool is_up = tree_subkind(t) == RANGE_TO;
+   const bool null = is_up ? left > right : right > left;
 
    c_physRange *pr = new_object(sizeof(c_physRange), vhpiPhysRangeK);
-   init_range(&(pr->range), dir, null, true);
+   init_range(&(pr->range), is_up, null, true);
 
    pr->PhysLeftBound  = vhpi_phys_from_native(left);
    pr->PhysRightBound = vhpi_phys_from_native(right);
@@ -3818,11 +3818,11 @@ static c_floatRange *build_float_range(tree_t r)
    if (!folded_real(tree_right(r), &right))
       right = +INFINITY;
 
-   const range_kind_t dir = tree_subkind(r) == RANGE_TO;
-   const bool null = dir == RANGE_TO ? left > right : right > left;
+   const bool is_up = tree_subkind(r) == RANGE_TO;
+   const bool null = is_up ? left > right : right > left;
 
    c_floatRange *fr = new_object(sizeof(c_floatRange), vhpiFloatRangeK);
-   init_range(&(fr->range), dir, null, true);
+   init_range(&(fr->range), is_up, null, false);
 
    fr->FloatLeftBound  = left;
    fr->FloatRightBound = right;
-- 
2.43.0


From 88f476157eae5fc19f312d43043ee535262a87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 45/55] fix: VHPI properties of floating-point types and ranges

---
 src/vhpi/vhpi-model.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vhpi/vhpi-model.c b/src/vhpi/vhpi-model.c
index 84155aa..5d21a13 100644
--- a/src/vhpi/vhpi-model.c
+++ b/src/vhpi/vhpi-model.c
@@ -763,6 +763,7 @@ static c_range *is_range(c_vhpiObject *obj)
    switch (obj->kind) {
    case vhpiPhysRangeK:
    case vhpiIntRangeK:
+   case vhpiFloatRangeK:
       return container_of(obj, c_range, object);
    default:
       return NULL;
@@ -784,6 +785,7 @@ static c_typeDecl *is_typeDecl(c_vhpiObject *obj)
    switch (obj->kind) {
    case vhpiSubtypeDeclK:
    case vhpiIntTypeDeclK:
+   case vhpiFloatTypeDeclK:
    case vhpiEnumTypeDeclK:
    case vhpiPhysTypeDeclK:
    case vhpiArrayTypeDeclK:
-- 
2.43.0


From 1a212fe6a8604c355b8fe21484fa159d5877501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 46/55] fix: VHPI UnitName property of packages

---
 src/vhpi/vhpi-model.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vhpi/vhpi-model.c b/src/vhpi/vhpi-model.c
index 5d21a13..301a92b 100644
--- a/src/vhpi/vhpi-model.c
+++ b/src/vhpi/vhpi-model.c
@@ -881,6 +881,7 @@ static c_designUnit *is_designUnit(c_vhpiObject *obj)
    switch (obj->kind) {
    case vhpiArchBodyK:
    case vhpiEntityDeclK:
+   case vhpiPackDeclK:
    case vhpiVerilogModuleK:
       return container_of(obj, c_designUnit, region.object);
    default:
-- 
2.43.0


From 29830ace45b00814cc6e2f743b01839bd755b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 47/55] fix: VPI class of registers

---
 src/vpi/vpi-model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpi/vpi-model.c b/src/vpi/vpi-model.c
index 9f31406..b98f381 100644
--- a/src/vpi/vpi-model.c
+++ b/src/vpi/vpi-model.c
@@ -499,7 +499,7 @@ static void build_net(vlog_node_t v, c_abstractScope *scope)
 
 static void build_reg(vlog_node_t v, c_abstractScope *scope)
 {
-   c_reg *reg = new_object(sizeof(c_reg), vpiNet);
+   c_reg *reg = new_object(sizeof(c_reg), vpiReg);
    init_abstractDecl(&(reg->decl), v, scope);
 
    vpi_list_add(&scope->decls.list, &(reg->decl.object));
-- 
2.43.0


From 62aa53769d4df2022e22e6758415e19557cecc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:48 +0000
Subject: [PATCH 48/55] fix: bounds of the result of the To_X01 intrinsics

---
 src/jit/jit-intrin.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jit/jit-intrin.c b/src/jit/jit-intrin.c
index 99eed2a..e9fc2f4 100644
--- a/src/jit/jit-intrin.c
+++ b/src/jit/jit-intrin.c
@@ -320,8 +320,8 @@ static void std_to_x01_sse41(jit_func_t *func, jit_anchor_t *anchor,
    }
 
    args[0].pointer = result;
-   args[1].integer = size - 1;
-   args[2].integer = ~size;
+   args[1].integer = 1;
+   args[2].integer = size;
 }
 #endif
 
@@ -337,8 +337,8 @@ static void std_to_x01(jit_func_t *func, jit_anchor_t *anchor,
       result[i] = cvt_to_x01[input[i]];
 
    args[0].pointer = result;
-   args[1].integer = size - 1;
-   args[2].integer = ~size;
+   args[1].integer = 1;
+   args[2].integer = size;
 }
 
 __attribute__((always_inline))
-- 
2.43.0


From f1c2eba95bab47dba35a4185ef936fa6b733fd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:48 +0000
Subject: [PATCH 49/55] fix: result type of FILE_LINE matches 64-bit integer

---
 src/rt/stdenv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt/stdenv.c b/src/rt/stdenv.c
index af7122e..b03ffc4 100644
--- a/src/rt/stdenv.c
+++ b/src/rt/stdenv.c
@@ -647,7 +647,7 @@ void _std_env_file_path(ffi_uarray_t **ptr)
 }
 
 DLLEXPORT
-int32_t _std_env_file_line(void)
+int64_t _std_env_file_line(void)
 {
    jit_stack_trace_t *stack LOCAL = jit_stack_trace();
    assert(stack->count > 1);
-- 
2.43.0


From 2e7f3ffc1c92682d30e4412d3b589df33ff89e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:46 +0000
Subject: [PATCH 50/55] fix: do not take the JIT lock again while assembling a
 call

---
 src/jit/jit-core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jit/jit-core.c b/src/jit/jit-core.c
index 1c59b45..dd051f6 100644
--- a/src/jit/jit-core.c
+++ b/src/jit/jit-core.c
@@ -1308,7 +1308,7 @@ jit_handle_t jit_assemble(jit_t *j, ident_t name, const char *text)
             else if (tok[0] == '<' && tok[toklen - 1] == '>') {
                tok[toklen - 1] = '\0';
                arg.kind = JIT_VALUE_HANDLE;
-               arg.handle = jit_lazy_compile(j, ident_new(tok + 1));
+               arg.handle = jit_lazy_compile_locked(j, ident_new(tok + 1));
             }
             else if (tok[0] == '\n')
                fatal_trace("got newline, expecting argument");
-- 
2.43.0


From 0dc76bf2942dfa4783ad05014b3c40ca094191b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:36 +0000
Subject: [PATCH 51/55] fix: report an error when a postponed process waits for
 zero time

---
 src/rt/model.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index fc5bd30..bd1e8bf 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -3876,6 +3876,8 @@ void x_sched_process(int64_t delay)
    TRACE("schedule process %s delay=%s", istr(proc->name), trace_time(delay));
 
    check_delay(delay);
+   check_postponed(delay, proc);
+
    deltaq_insert_proc(get_model(), delay, proc);
 }
 
-- 
2.43.0


From 5e58e135632d227d246d37c8a709cf7089430ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:36 +0000
Subject: [PATCH 52/55] fix: check for a negative delay in a null transaction

---
 src/rt/model.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index bd1e8bf..3466bec 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -4419,6 +4419,7 @@ void x_disconnect(sig_shared_t *ss, uint32_t offset, int32_t count,
 
    rt_proc_t *proc = get_active_proc();
 
+   check_delay(after);
    check_postponed(after, proc);
    check_reject_limit(s, after, reject);
 
-- 
2.43.0


From bca828710c477dab0787f212fd232ce43c030e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:41 +0000
Subject: [PATCH 53/55] fix: keep the state of forced, released and
 disconnected drivers when a signal is split

---
 src/rt/model.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 3466bec..10e3417 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1481,6 +1481,7 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
                          rt_source_t *old, int offset)
 {
    rt_source_t *new = add_source(m, nexus, old->tag);
+   new->disconnected = old->disconnected;
 
    switch (old->tag) {
    case SOURCE_PORT:
@@ -1542,7 +1543,12 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
    case SOURCE_DEPOSIT:
       split_value(nexus, &(new->u.pseudo.value), &(old->u.pseudo.value),
                   offset);
-      assert(!old->pseudoqueued);   // TODO
+
+      // Pending force, release, or deposit
+      if (old->pseudoqueued) {
+         deltaq_insert_pseudo_source(m, new);
+         new->pseudoqueued = 1;
+      }
       break;
 
    case SOURCE_IMPLICIT:
-- 
2.43.0


From 3024ce99ad4db39b5b5caa629c07ad1adf16e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:31 +0000
Subject: [PATCH 54/55] fix: null transactions on wide signals and when the
 signal is split

---
 src/rt/model.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 10e3417..4f54618 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1533,8 +1533,11 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
 
             split_value(nexus, &w_new->value, &w_old->value, offset);
 
-            assert(w_old->when >= m->now);
-            deltaq_insert_driver(m, w_new->when - m->now, new);
+            // The sign bit is used to represent null transactions
+            const int64_t when = llabs((int64_t)w_old->when);
+
+            assert(when >= m->now);
+            deltaq_insert_driver(m, when - m->now, new);
          }
       }
       break;
@@ -2693,7 +2696,9 @@ static void sched_disconnect(rt_model_t *m, rt_nexus_t *nexus, uint64_t after,
    waveform_t *w = alloc_waveform(m);
    w->when = -when;   // Use sign bit to represent null
    w->next = NULL;
-   w->value.qword = 0;
+   w->value = alloc_value(m, nexus);
+
+   memset(value_ptr(nexus, &w->value), 0, nexus->width * nexus->size);
 
    if (!insert_transaction(m, nexus, d, w, when, reject))
       deltaq_insert_driver(m, after, d);
@@ -3023,6 +3028,7 @@ static void update_driver(rt_model_t *m, rt_nexus_t *n, rt_source_t *source)
    }
    else if (unlikely(w_next != NULL && w_next->when == -m->now)) {
       // Disconnect source due to null transaction
+      free_value(n, w_now->value);
       *w_now = *w_next;
       free_waveform(m, w_next);
       source->disconnected = 1;
-- 
2.43.0


From 0a1ade2740dd5c280b64f779c10e8af5b85e8ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:36 +0000
Subject: [PATCH 55/55] fix: keep the overflow of an intermediate square in
 native exponentiation

The compiled code for "**" remembered only whether the last squaring of
the base overflowed.  When an earlier one did and the wrapped value
squares without overflow, as in 65536 ** 4, the result was silently
wrong; the interpreter reports the overflow.
---
 src/jit/jit-llvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index 0820190..763a669 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -3273,7 +3273,8 @@ static void cgen_exp_overflow_body(llvm_obj_t *obj, llvm_fn_t which,
    LLVMValueRef x2_pair = LLVMBuildCall2(obj->builder, multype, mulfn, x2_args,
                                          ARRAY_LEN(x2_args), "");
    LLVMValueRef x2 = LLVMBuildExtractValue(obj->builder, x2_pair, 0, "x2");
-   LLVMValueRef xo2 = LLVMBuildExtractValue(obj->builder, x2_pair, 1, "");
+   LLVMValueRef x2_ovf = LLVMBuildExtractValue(obj->builder, x2_pair, 1, "");
+   LLVMValueRef xo2 = LLVMBuildOr(obj->builder, xo1, x2_ovf, "xo2");
 
    LLVMValueRef x1_in[] = { x0, x2 };
    LLVMBasicBlockRef x1_bb[] = { entry, tail };
-- 
2.43.0

