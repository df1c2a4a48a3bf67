From 3d54aa40b53ce9de4860431565d464a95c379c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:59 +0000
Subject: [PATCH 01/36] fix: do not merge throwing with non-throwing nodes in
 CSE

---
 ir/ir/irop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir/ir/irop.c b/ir/ir/irop.c
index fc42303..5d8ae50 100644
--- a/ir/ir/irop.c
+++ b/ir/ir/irop.c
@@ -242,7 +242,8 @@ static unsigned hash_typeconst(const ir_node *node)
 /** Compares two exception attributes */
 static bool except_attrs_equal(const except_attr *a, const except_attr *b)
 {
-	return a->pinned == b->pinned;
+	return a->pinned == b->pinned
+	    && a->throws_exception == b->throws_exception;
 }
 
 /** Compares the attributes of two Const nodes. */
-- 
2.43.0


From 535a413565769e9f5062f2b5c1d14bf878074b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:04 +0000
Subject: [PATCH 02/36] fix: hash only the name of a named printf conversion

The lookup of %{name} hashed the rest of the format string, so it never
found the registered handler.
---
 ir/libcore/lc_printf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/libcore/lc_printf.c b/ir/libcore/lc_printf.c
index c6458ee..ae75861 100644
--- a/ir/libcore/lc_printf.c
+++ b/ir/libcore/lc_printf.c
@@ -403,7 +403,7 @@ int lc_evpprintf(const lc_arg_env_t *env, lc_appendable_t *app, const char *fmt,
 					name[n] = '\0';
 					tmp.name = name;
 
-					arg = set_find(lc_arg_t, env->args, &tmp, sizeof(tmp), hash_str(named));
+					arg = set_find(lc_arg_t, env->args, &tmp, sizeof(tmp), hash_str(name));
 					occ.modifier = "";
 					occ.modifier_length = 0;
 
-- 
2.43.0


From 25bd34399d607a283f2f001565f9db6075ff1c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 03/36] fix: return the block edge hook from
 get_dump_block_edge_hook

---
 ir/ir/irdump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/ir/irdump.c b/ir/ir/irdump.c
index e4f6fed..c19d2d4 100644
--- a/ir/ir/irdump.c
+++ b/ir/ir/irdump.c
@@ -146,7 +146,7 @@ void set_dump_block_edge_hook(dump_node_edge_func func)
 
 dump_node_edge_func get_dump_block_edge_hook(void)
 {
-	return dump_node_edge_hook;
+	return dump_block_edge_hook;
 }
 
 void set_dump_node_vcgattr_hook(dump_node_vcgattr_func hook)
-- 
2.43.0


From 18ab1f00b62a266778491c935e9167e7bc358430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:53 +0000
Subject: [PATCH 04/36] fix: import the program name the exporter writes

write_program() emits a 'name' line when the program name is set, but the
reader did not know the keyword, so importing such a file failed.
---
 ir/ir/irio.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index df9c5ad..71cb584 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -61,6 +61,7 @@ typedef enum keyword_t {
 	kw_label,
 	kw_method,
 	kw_modes,
+	kw_name,
 	kw_parameter,
 	kw_program,
 	kw_reference_mode,
@@ -212,6 +213,7 @@ static void symtbl_init(void)
 	INSERTKEYWORD(label);
 	INSERTKEYWORD(method);
 	INSERTKEYWORD(modes);
+	INSERTKEYWORD(name);
 	INSERTKEYWORD(parameter);
 	INSERTKEYWORD(program);
 	INSERTKEYWORD(reference_mode);
@@ -2214,6 +2216,9 @@ static void read_program(read_env_t *env)
 
 		keyword_t kwkind = read_keyword(env);
 		switch (kwkind) {
+		case kw_name:
+			set_irp_prog_name(read_ident(env));
+			break;
 		case kw_segment_type: {
 			ir_segment_t  segment = (ir_segment_t) read_enum(env, tt_segment);
 			ir_type      *type    = read_type_ref(env);
-- 
2.43.0


From 76b723d72adb0f32a8851b180524e074840c86ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:53 +0000
Subject: [PATCH 05/36] fix: read type references of method and pointer types
 as written

The exporter writes parameter, result and points-to types with
write_type_ref(), which emits 'unknown' or 'code' for the builtin types;
the importer only accepted numbers here and aborted.
---
 ir/ir/irio.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index 71cb584..0fdbfab 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -1688,14 +1688,12 @@ static void read_type(read_env_t *env)
 		type = new_type_method(nparams, nresults, is_variadic, callingconv, addprops);
 
 		for (size_t i = 0; i < nparams; i++) {
-			long ptypenr = read_long(env);
-			ir_type *paramtype = get_type(env, ptypenr);
+			ir_type *paramtype = read_type_ref(env);
 
 			set_method_param_type(type, i, paramtype);
 		}
 		for (size_t i = 0; i < nresults; i++) {
-			long ptypenr = read_long(env);
-			ir_type *restype = get_type(env, ptypenr);
+			ir_type *restype = read_type_ref(env);
 
 			set_method_res_type(type, i, restype);
 		}
@@ -1704,7 +1702,7 @@ static void read_type(read_env_t *env)
 	}
 
 	case tpo_pointer: {
-		ir_type *points_to = get_type(env, read_long(env));
+		ir_type *points_to = read_type_ref(env);
 		type = new_type_pointer(points_to);
 		goto finish_type;
 	}
-- 
2.43.0


From 3354e48601b68cb760950edb9f01f98cef76d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:53 +0000
Subject: [PATCH 06/36] fix: import unnamed entities

The exporter writes NULL for the name of an unnamed (compound member)
entity, but the importer insisted on a string.
---
 ir/ir/irio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index 0fdbfab..5a08b35 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -1775,7 +1775,7 @@ static void read_entity(read_env_t *env, ir_entity_kind kind)
 	ir_entity     *entity     = NULL;
 
 	if (kind != IR_ENTITY_LABEL && kind != IR_ENTITY_PARAMETER) {
-		name    = read_ident(env);
+		name    = read_ident_null(env);
 		ld_name = read_ident_null(env);
 	}
 
-- 
2.43.0


From e0d342a13370535a18f9aad1e685b58b15bf547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:53 +0000
Subject: [PATCH 07/36] fix: keep the linker name of imported alias entities

---
 ir/ir/irio.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index 5a08b35..12d72f3 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -1795,6 +1795,8 @@ static void read_entity(read_env_t *env, ir_entity_kind kind)
 	case IR_ENTITY_ALIAS: {
 		ir_entity *aliased = read_entity_ref(env);
 		entity = new_alias_entity(owner, name, aliased, type, visibility);
+		if (ld_name != NULL)
+			set_entity_ld_ident(entity, ld_name);
 		break;
 	}
 	case IR_ENTITY_NORMAL:
-- 
2.43.0


From 30213fa8258ab7f0251a9a4d4b9470d4d875b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:53 +0000
Subject: [PATCH 08/36] fix: export the no_codegen and no_identity linkage
 flags

They were silently dropped by ir_export(), so a re-imported program would
emit code for entities whose definition must not be emitted.
---
 ir/ir/irio.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ir/ir/irio.c b/ir/ir/irio.c
index 12d72f3..75cdba3 100644
--- a/ir/ir/irio.c
+++ b/ir/ir/irio.c
@@ -188,6 +188,8 @@ static void symtbl_init(void)
 	INSERT(tt_linkage, "garbage_collect", IR_LINKAGE_GARBAGE_COLLECT);
 	INSERT(tt_linkage, "merge", IR_LINKAGE_MERGE);
 	INSERT(tt_linkage, "hidden_user", IR_LINKAGE_HIDDEN_USER);
+	INSERT(tt_linkage, "no_codegen", IR_LINKAGE_NO_CODEGEN);
+	INSERT(tt_linkage, "no_identity", IR_LINKAGE_NO_IDENTITY);
 
 	INSERT(tt_loop, "loop",   true);
 	INSERT(tt_loop, "noloop", false);
@@ -723,6 +725,10 @@ static void write_entity(write_env_t *env, ir_entity *ent)
 		write_symbol(env, "merge");
 	if (linkage & IR_LINKAGE_HIDDEN_USER)
 		write_symbol(env, "hidden_user");
+	if (linkage & IR_LINKAGE_NO_CODEGEN)
+		write_symbol(env, "no_codegen");
+	if (linkage & IR_LINKAGE_NO_IDENTITY)
+		write_symbol(env, "no_identity");
 	write_list_end(env);
 
 	write_type_ref(env, type);
-- 
2.43.0


From cd28cf33c410b29abddafeda9f712ff0af0718cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:05 +0000
Subject: [PATCH 09/36] fix: let loop Phis of a wrong mode fail verification

---
 ir/ir/irverify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/ir/irverify.c b/ir/ir/irverify.c
index caf0803..f1bc0fd 100644
--- a/ir/ir/irverify.c
+++ b/ir/ir/irverify.c
@@ -874,7 +874,7 @@ static int verify_node_Phi(const ir_node *n)
 	}
 
 	if (get_Phi_loop(n))
-		check_mode(n, mode_M);
+		fine &= check_mode(n, mode_M);
 	return fine;
 }
 
-- 
2.43.0


From 662cee583a9d8054e02be8df115e9dca62716922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:05 +0000
Subject: [PATCH 10/36] fix: keep the failures found so far when verifying a
 Return

---
 ir/ir/irverify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/ir/irverify.c b/ir/ir/irverify.c
index f1bc0fd..56c7143 100644
--- a/ir/ir/irverify.c
+++ b/ir/ir/irverify.c
@@ -494,7 +494,7 @@ static int verify_node_Return(const ir_node *n)
 	ir_graph *irg = get_irn_irg(n);
 	ir_type  *mt  = get_entity_type(get_irg_entity(irg));
 	if (!is_Method_type(mt)) /* someone else should report that problem */
-		return true;
+		return fine;
 	if ((size_t)get_Return_n_ress(n) != get_method_n_ress(mt)) {
 		warn(n, "number of inputs does not match method type (%zu inputs, %zu declared)",
 		     get_Return_n_ress(n), get_method_n_ress(mt));
-- 
2.43.0


From 1b6007097ddf291674c47fb44034b5060ad1ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:05 +0000
Subject: [PATCH 11/36] fix: verify the mode of Sub nodes

---
 ir/ir/irverify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ir/ir/irverify.c b/ir/ir/irverify.c
index 56c7143..fb7f1ac 100644
--- a/ir/ir/irverify.c
+++ b/ir/ir/irverify.c
@@ -683,6 +683,9 @@ static int verify_node_Sub(const ir_node *n)
 		fine &= check_mode_same_input(n, n_Sub_left, "left");
 		ir_mode *offset_mode = get_reference_offset_mode(mode);
 		fine &= check_input_mode(n, n_Sub_right, "right", offset_mode);
+	} else {
+		warn(n, "mode must be numeric or reference but is %+F", mode);
+		fine = false;
 	}
 	return fine;
 }
-- 
2.43.0


From 4c1f6b520cf2d40bf1d18692929b64a01d7757e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:05 +0000
Subject: [PATCH 12/36] fix: let broken nested initializers fail verification

---
 ir/tr/trverify.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ir/tr/trverify.c b/ir/tr/trverify.c
index eea4a67..8ae6897 100644
--- a/ir/tr/trverify.c
+++ b/ir/tr/trverify.c
@@ -169,7 +169,7 @@ static bool check_initializer(const ir_initializer_t *initializer,
 			for (size_t i = 0; i < n_entries; ++i) {
 				const ir_initializer_t *sub_initializer
 					= get_initializer_compound_value(initializer, i);
-				check_initializer(sub_initializer, element_type, context);
+				fine &= check_initializer(sub_initializer, element_type, context);
 			}
 		} else if (is_compound_type(type)) {
 			size_t n_members = get_compound_n_members(type);
@@ -185,7 +185,7 @@ static bool check_initializer(const ir_initializer_t *initializer,
 				ir_type   *member_type = get_entity_type(member);
 				const ir_initializer_t *sub_initializer
 					= get_initializer_compound_value(initializer, i);
-				check_initializer(sub_initializer, member_type, context);
+				fine &= check_initializer(sub_initializer, member_type, context);
 			}
 		} else {
 			report_error("compound initiailizer for non-array/compound type in entity %+F",
-- 
2.43.0


From fe61b1eb7be7417f416ec9b6db41c589e13612c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:05 +0000
Subject: [PATCH 13/36] fix: require spillslots to be owned by a frame type

---
 ir/tr/trverify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/tr/trverify.c b/ir/tr/trverify.c
index 8ae6897..14f936a 100644
--- a/ir/tr/trverify.c
+++ b/ir/tr/trverify.c
@@ -332,7 +332,7 @@ int check_entity(const ir_entity *entity)
 		break;
 
 	case IR_ENTITY_SPILLSLOT:
-		if (is_frame_type(owner)) {
+		if (!is_frame_type(owner)) {
 			report_error("spillslot %+F must be on frame type", entity);
 			fine = false;
 		}
-- 
2.43.0


From fc9ad932400df08bbb43bddba7183677d076efee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:05 +0000
Subject: [PATCH 14/36] fix: let broken out edge lists fail edge verification

---
 ir/ir/iredges.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ir/ir/iredges.c b/ir/ir/iredges.c
index 7756f7f..fccd03a 100644
--- a/ir/ir/iredges.c
+++ b/ir/ir/iredges.c
@@ -169,10 +169,11 @@ static inline void edge_change_cnt(irn_edge_info_t *const info, int const ofs)
  * Verify the edge list of a node, i.e. ensure it's a loop:
  * head -> e_1 -> ... -> e_n -> head
  */
-static inline void verify_list_head(ir_node *irn, ir_edge_kind_t kind)
+static inline bool verify_list_head(ir_node *irn, ir_edge_kind_t kind)
 {
 	int                     num    = 0;
 	pset                   *lh_set = pset_new_ptr(16);
+	bool                    fine   = true;
 	const struct list_head *head   = &get_irn_edge_info(irn, kind)->outs_head;
 	const struct list_head *pos;
 
@@ -184,6 +185,7 @@ static inline void verify_list_head(ir_node *irn, ir_edge_kind_t kind)
 			fprintf(stderr, "- at list entry %d\n", num);
 			if (edge->src)
 				ir_fprintf(stderr, "- edge(%ld) %+F(%d)\n", edge_get_id(edge), edge->src, edge->pos);
+			fine = false;
 			break;
 		}
 		num++;
@@ -191,6 +193,7 @@ static inline void verify_list_head(ir_node *irn, ir_edge_kind_t kind)
 	}
 
 	del_pset(lh_set);
+	return fine;
 }
 
 void edges_dump_kind(ir_graph *irg, ir_edge_kind_t kind)
@@ -578,7 +581,11 @@ static void verify_list_presence(ir_node *irn, void *data)
 	bitset_set(w->reachable, get_irn_idx(irn));
 
 	/* check list heads */
-	verify_list_head(irn, w->kind);
+	if (!verify_list_head(irn, w->kind)) {
+		/* the list does not end, so it cannot be visited */
+		w->fine = false;
+		return;
+	}
 
 	foreach_out_edge_kind(irn, e, w->kind) {
 		if (w->kind == EDGE_KIND_NORMAL && get_irn_arity(e->src) <= e->pos) {
@@ -719,6 +726,8 @@ int edges_verify(ir_graph *irg)
 {
 	/* verify normal edges only */
 	bool                fine = edges_verify_kind(irg, EDGE_KIND_NORMAL);
+	if (!fine)
+		return false;
 	struct build_walker w    = { .kind = EDGE_KIND_NORMAL, .fine = fine };
 
 	ir_nodemap_init(&usermap, irg);
-- 
2.43.0


From 0536dc5aaffecd81084fddad8b15cf78a94f5e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 15/36] fix: escape the register names in the spill marks

---
 ir/be/ia32/ia32_emitter.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ir/be/ia32/ia32_emitter.c b/ir/be/ia32/ia32_emitter.c
index ac6af26..ba7cfb1 100644
--- a/ir/be/ia32/ia32_emitter.c
+++ b/ir/be/ia32/ia32_emitter.c
@@ -1180,11 +1180,11 @@ static void ia32_emit_node(ir_node *node)
 			ia32_assign_exc_label(node);
 		if (mark_spill_reload) {
 			if (is_ia32_is_spill(node))
-				ia32_emitf(NULL, "xchg %ebx, %ebx        /* spill mark */");
+				ia32_emitf(NULL, "xchg %%ebx, %%ebx        /* spill mark */");
 			if (is_ia32_is_reload(node))
-				ia32_emitf(NULL, "xchg %edx, %edx        /* reload mark */");
+				ia32_emitf(NULL, "xchg %%edx, %%edx        /* reload mark */");
 			if (is_ia32_is_remat(node))
-				ia32_emitf(NULL, "xchg %ecx, %ecx        /* remat mark */");
+				ia32_emitf(NULL, "xchg %%ecx, %%ecx        /* remat mark */");
 		}
 	}
 
-- 
2.43.0


From c68d5af0f582a34bb7e9c79fba67b8aa702db45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 16/36] fix: pass the values that verifier messages print

---
 ir/be/beverify.c | 2 +-
 ir/ir/irverify.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ir/be/beverify.c b/ir/be/beverify.c
index 93373cd..4bc051b 100644
--- a/ir/be/beverify.c
+++ b/ir/be/beverify.c
@@ -138,7 +138,7 @@ static void verify_schedule_walker(ir_node *block, void *data)
 	sched_foreach(block, node) {
 		/* this node is scheduled */
 		if (bitset_is_set(env->scheduled, get_irn_idx(node))) {
-			verify_warnf(block, "%+F appears to be schedule twice");
+			verify_warnf(block, "%+F appears to be schedule twice", node);
 			env->problem_found = true;
 		}
 		bitset_set(env->scheduled, get_irn_idx(node));
diff --git a/ir/ir/irverify.c b/ir/ir/irverify.c
index fb7f1ac..e544d4c 100644
--- a/ir/ir/irverify.c
+++ b/ir/ir/irverify.c
@@ -385,7 +385,7 @@ static int verify_node_Block(const ir_node *n)
 
 static int verify_node_Deleted(const ir_node *n)
 {
-	warn(n, "Deleted node %+F appears to be reachable");
+	warn(n, "Deleted node %+F appears to be reachable", n);
 	return false;
 }
 
@@ -496,7 +496,7 @@ static int verify_node_Return(const ir_node *n)
 	if (!is_Method_type(mt)) /* someone else should report that problem */
 		return fine;
 	if ((size_t)get_Return_n_ress(n) != get_method_n_ress(mt)) {
-		warn(n, "number of inputs does not match method type (%zu inputs, %zu declared)",
+		warn(n, "number of inputs does not match method type (%d inputs, %zu declared)",
 		     get_Return_n_ress(n), get_method_n_ress(mt));
 		fine = false;
 	} else {
-- 
2.43.0


From 0677fa5dcb2c47dd96f00b339ad83caf5a94cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 17/36] fix: pass the values that panic messages print

---
 ir/be/amd64/amd64_new_nodes.c | 2 +-
 ir/be/betranshlp.c            | 2 +-
 ir/ir/irmode.c                | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ir/be/amd64/amd64_new_nodes.c b/ir/be/amd64/amd64_new_nodes.c
index f7845ba..01fed9f 100644
--- a/ir/be/amd64/amd64_new_nodes.c
+++ b/ir/be/amd64/amd64_new_nodes.c
@@ -39,7 +39,7 @@ x87_attr_t *amd64_get_x87_attr(ir_node *const node)
 	default:
 		break;
 	}
-	panic("try to get x87 attr from invalid node '%s'", node);
+	panic("try to get x87 attr from invalid node '%+F'", node);
 }
 
 x87_attr_t const *amd64_get_x87_attr_const(ir_node const *const node)
diff --git a/ir/be/betranshlp.c b/ir/be/betranshlp.c
index 7337877..01beeec 100644
--- a/ir/be/betranshlp.c
+++ b/ir/be/betranshlp.c
@@ -717,7 +717,7 @@ ir_entity **be_collect_parameter_entities(ir_graph *const irg)
 			size_t const num = get_entity_parameter_number(member);
 			assert(num < n_params);
 			if (params[num])
-				panic("multiple entities for parameter %u in %+F found", f, irg);
+				panic("multiple entities for parameter %zu in %+F found", num, irg);
 			params[num] = member;
 		}
 	}
diff --git a/ir/ir/irmode.c b/ir/ir/irmode.c
index 8f315ec..6dfa14e 100644
--- a/ir/ir/irmode.c
+++ b/ir/ir/irmode.c
@@ -180,7 +180,7 @@ ir_mode *new_float_mode(const char *name, ir_mode_arithmetic arithmetic,
 	if (arithmetic == irma_x86_extended_float) {
 		explicit_one = true;
 	} else if (arithmetic != irma_ieee754) {
-		panic("arithmetic %s invalid for float");
+		panic("arithmetic %d invalid for float", (int)arithmetic);
 	}
 	if (exponent_size >= 256)
 		panic("exponents >= 256 bits not supported");
-- 
2.43.0


From 1183176e2f0d4d2cdca95eb48cefa23ce607419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 18/36] fix: print the size of large common variables
 completely

---
 ir/be/begnuas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/be/begnuas.c b/ir/be/begnuas.c
index 17f7adf..5322614 100644
--- a/ir/be/begnuas.c
+++ b/ir/be/begnuas.c
@@ -1501,7 +1501,7 @@ static void emit_global(be_main_env_t const *const main_env,
 		emit_initializer(entity, size);
 	} else if (size > 0) {
 		/* use .space for stuff in the bss segment */
-		be_emit_irprintf("\t.space %u, 0\n", size);
+		be_emit_irprintf("\t.space %lu, 0\n", size);
 		be_emit_write_line();
 	}
 }
-- 
2.43.0


From 26432561b0b18b98f8ce675f5192a88403509ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 19/36] fix: print sizes with their width

---
 ir/be/amd64/amd64_varargs.c |  4 ++--
 ir/be/beloopana.c           |  2 +-
 ir/be/bespillslots.c        |  4 ++--
 ir/ir/irdumptxt.c           | 16 ++++++++--------
 ir/ir/irprofile.c           |  4 ++--
 ir/lower/lower_calls.c      |  2 +-
 ir/opt/scalar_replace.c     |  2 +-
 7 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/ir/be/amd64/amd64_varargs.c b/ir/be/amd64/amd64_varargs.c
index bdc09bf..ca3e1ad 100644
--- a/ir/be/amd64/amd64_varargs.c
+++ b/ir/be/amd64/amd64_varargs.c
@@ -116,13 +116,13 @@ void amd64_insert_reg_save_area(ir_graph *irg, x86_cconv_t *cconv)
 
 	gp_save_slots = XMALLOCNZ(ir_entity*, max_gp_params);
 	for (size_t i = 0; i < max_gp_params; i++) {
-		ident *id = new_id_fmt("save_gp%d", i);
+		ident *id = new_id_fmt("save_gp%zu", i);
 		gp_save_slots[i] = new_entity(reg_save_type, id, get_type_for_mode(mode_Lu));
 	}
 
 	xmm_save_slots = XMALLOCNZ(ir_entity*, max_xmm_params);
 	for (size_t i = 0; i < max_xmm_params; i++) {
-		ident *id = new_id_fmt("save_xmm%d", i);
+		ident *id = new_id_fmt("save_xmm%zu", i);
 		xmm_save_slots[i] = new_entity(reg_save_type, id, get_type_for_mode(amd64_mode_xmm));
 	}
 
diff --git a/ir/be/beloopana.c b/ir/be/beloopana.c
index 550ade7..d8dd2fe 100644
--- a/ir/be/beloopana.c
+++ b/ir/be/beloopana.c
@@ -68,7 +68,7 @@ static unsigned be_compute_block_pressure(ir_node *const block, arch_register_cl
 		max_live = MAX(cnt, max_live);
 	}
 
-	DBG((dbg, LEVEL_1, "Finished with Block %+F (%s %zu)\n", block, cls->name,
+	DBG((dbg, LEVEL_1, "Finished with Block %+F (%s %u)\n", block, cls->name,
 	     max_live));
 
 	ir_nodeset_destroy(&live_nodes);
diff --git a/ir/be/bespillslots.c b/ir/be/bespillslots.c
index f4d664f..6c23f69 100644
--- a/ir/be/bespillslots.c
+++ b/ir/be/bespillslots.c
@@ -261,7 +261,7 @@ static void do_greedy_coalescing(be_fec_env_t *env)
 	if (spillcount == 0)
 		return;
 
-	DB((dbg, LEVEL_1, "Coalescing %d spillslots\n", spillcount));
+	DB((dbg, LEVEL_1, "Coalescing %zu spillslots\n", spillcount));
 
 	struct obstack data;
 	obstack_init(&data);
@@ -287,7 +287,7 @@ static void do_greedy_coalescing(be_fec_env_t *env)
 				continue;
 
 			if (be_memory_values_interfere(spill1, spill2)) {
-				DB((dbg, LEVEL_1, "Slot %d and %d interfere\n", i, i2));
+				DB((dbg, LEVEL_1, "Slot %zu and %zu interfere\n", i, i2));
 
 				bitset_set(interferences[i], i2);
 				bitset_set(interferences[i2], i);
diff --git a/ir/ir/irdumptxt.c b/ir/ir/irdumptxt.c
index 5261b49..4955196 100644
--- a/ir/ir/irdumptxt.c
+++ b/ir/ir/irdumptxt.c
@@ -203,7 +203,7 @@ void dump_irnode_to_file(FILE *const F, const ir_node *const n)
 		ir_fprintf(F, "  start of method of type %+F\n", tp);
 		for (size_t i = 0, n_params = get_method_n_params(tp);
 		     i < n_params; ++i) {
-			ir_fprintf(F, "    param %d type: %+F\n", i, get_method_param_type(tp, i));
+			ir_fprintf(F, "    param %zu type: %+F\n", i, get_method_param_type(tp, i));
 		}
 		break;
 	}
@@ -239,12 +239,12 @@ void dump_irnode_to_file(FILE *const F, const ir_node *const n)
 			for (size_t i = 0, n_params = get_method_n_params(tp);
 			     i < n_params; ++i) {
 			    const ir_type *param_type = get_method_param_type(tp, i);
-				ir_fprintf(F, "    param %d type: %+F\n", i, param_type);
+				ir_fprintf(F, "    param %zu type: %+F\n", i, param_type);
 			}
 			for (size_t i = 0, n_ress = get_method_n_ress(tp);
 			     i < n_ress; ++i) {
 			    const ir_type *res_type = get_method_res_type(tp, i);
-				ir_fprintf(F, "    result %d type: %+F\n", i, res_type);
+				ir_fprintf(F, "    result %zu type: %+F\n", i, res_type);
 			}
 		}
 		if (cg_call_has_callees(n)) {
@@ -267,7 +267,7 @@ void dump_irnode_to_file(FILE *const F, const ir_node *const n)
 		ir_fprintf(F, "  return in method of type %+F\n", tp);
 		for (size_t i = 0, n_ress = get_method_n_ress(tp); i < n_ress; ++i) {
 			const ir_type *res_type = get_method_res_type(tp, i);
-			ir_fprintf(F, "    result %d type: %+F\n", i, res_type);
+			ir_fprintf(F, "    result %zu type: %+F\n", i, res_type);
 		}
 		break;
 	}
@@ -528,7 +528,7 @@ static void dump_entity_to_file_prefix(FILE *const F,
 				fprintf(F, "%s  overwrites:\n", prefix);
 				for (size_t i = 0; i < get_entity_n_overwrites(ent); ++i) {
 					const ir_entity *ov = get_entity_overwrites(ent, i);
-					ir_fprintf(F, "%s    %d: %F of class %+F\n", prefix, i, ov,
+					ir_fprintf(F, "%s    %zu: %F of class %+F\n", prefix, i, ov,
 					           get_entity_owner(ov));
 				}
 			} else {
@@ -538,7 +538,7 @@ static void dump_entity_to_file_prefix(FILE *const F,
 				fprintf(F, "%s  overwritten by:\n", prefix);
 				for (size_t i = 0; i < get_entity_n_overwrittenby(ent); ++i) {
 					const ir_entity *ov = get_entity_overwrittenby(ent, i);
-					ir_fprintf(F, "%s    %d: %F of class %+F\n", prefix, i, ov,
+					ir_fprintf(F, "%s    %zu: %F of class %+F\n", prefix, i, ov,
 					           get_entity_owner(ov));
 				}
 			} else {
@@ -676,12 +676,12 @@ static void dump_type_details(FILE *const F, ir_type const *const tp)
 			fprintf(F, "  supertypes: ");
 			for (size_t i = 0; i < get_class_n_supertypes(tp); ++i) {
 				const ir_type *stp = get_class_supertype(tp, i);
-				ir_fprintf(F, "\n    %d %+F", i, stp);
+				ir_fprintf(F, "\n    %zu %+F", i, stp);
 			}
 			fprintf(F, "\n  subtypes: ");
 			for (size_t i = 0; i < get_class_n_subtypes(tp); ++i) {
 				const ir_type *stp = get_class_subtype(tp, i);
-				ir_fprintf(F, "\n    %d %+F", i, stp);
+				ir_fprintf(F, "\n    %zu %+F", i, stp);
 			}
 
 			if (get_irp_inh_transitive_closure_state() != inh_transitive_closure_none) {
diff --git a/ir/ir/irprofile.c b/ir/ir/irprofile.c
index 0c3aa25..c1fd769 100644
--- a/ir/ir/irprofile.c
+++ b/ir/ir/irprofile.c
@@ -446,7 +446,7 @@ static unsigned int *parse_profile(const char *filename, unsigned int num_blocks
 	}
 
 	if (ret < 1) {
-		DBG((dbg, LEVEL_4, "Failed to read counters... (size: %u)\n",
+		DBG((dbg, LEVEL_4, "Failed to read counters... (size: %zu)\n",
 			sizeof(unsigned int) * num_blocks));
 		free(result);
 		result = NULL;
@@ -467,7 +467,7 @@ static void block_associate_walker(ir_node *bb, void *env)
 
 	query.block = get_irn_node_nr(bb);
 	query.count = b->counters[b->i++];
-	DBG((dbg, LEVEL_4, "execcount(%+F, %u): %u\n", bb, query.block, query.count));
+	DBG((dbg, LEVEL_4, "execcount(%+F, %lu): %u\n", bb, query.block, query.count));
 	(void)set_insert(execcount_t, profile, &query, sizeof(query), query.block);
 }
 
diff --git a/ir/lower/lower_calls.c b/ir/lower/lower_calls.c
index 67d5299..fb38a1d 100644
--- a/ir/lower/lower_calls.c
+++ b/ir/lower/lower_calls.c
@@ -165,7 +165,7 @@ static void remove_compound_param_entities(ir_graph *irg, unsigned *arg_map, mtp
 
 	for (size_t i = n_members; i-- > 0; ) {
 		ir_entity *member = get_compound_member(frame_type, i);
-		DBG((dbg, LEVEL_1, "Member no. %d is %+F\n", i, member));
+		DBG((dbg, LEVEL_1, "Member no. %zu is %+F\n", i, member));
 		if (!is_parameter_entity(member))
 			continue;
 
diff --git a/ir/opt/scalar_replace.c b/ir/opt/scalar_replace.c
index 7766407..4a76ca9 100644
--- a/ir/opt/scalar_replace.c
+++ b/ir/opt/scalar_replace.c
@@ -414,7 +414,7 @@ static unsigned allocate_value_numbers(pset *members, ir_entity *ent,
 				else
 					DB((dbg, SET_LEVEL_2, "[%ld]", get_tarval_long(key->path[i].tv)));
 			}
-			DB((dbg, SET_LEVEL_2, " = %u (%s)\n", PTR_TO_INT(get_irn_link(member)), get_mode_name((*modes)[key->vnum])));
+			DB((dbg, SET_LEVEL_2, " = %ld (%s)\n", (long)PTR_TO_INT(get_irn_link(member)), get_mode_name((*modes)[key->vnum])));
 #endif /* DEBUG_libfirm */
 		}
 		free(key);
-- 
2.43.0


From 64bd6d5eeb49bf59b64fdab81dc6ded9a44982d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 20/36] fix: pass the values that debug messages print

---
 ir/ana/dca.c           | 2 +-
 ir/ana/irconsconfirm.c | 2 +-
 ir/be/bechordal.c      | 2 +-
 ir/be/becopyheur4.c    | 2 +-
 ir/be/belower.c        | 4 ++--
 ir/be/bespillbelady.c  | 2 +-
 ir/be/beuses.c         | 4 ++--
 ir/opt/loop.c          | 2 +-
 ir/opt/opt_osr.c       | 2 +-
 9 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/ir/ana/dca.c b/ir/ana/dca.c
index 15a9e15..de8fbd8 100644
--- a/ir/ana/dca.c
+++ b/ir/ana/dca.c
@@ -54,7 +54,7 @@ static void care_for(ir_node *irn, ir_tarval *care)
 		set_irn_link(irn, (void *)care);
 		deq_push_pointer_right(&worklist, irn);
 	} else {
-		DBG((dbg, LEVEL_3, "no change on %+F: %T\n", irn, old_care, care));
+		DBG((dbg, LEVEL_3, "no change on %+F: %T %T\n", irn, old_care, care));
 	}
 }
 
diff --git a/ir/ana/irconsconfirm.c b/ir/ana/irconsconfirm.c
index 6f7ecc7..d23f004 100644
--- a/ir/ana/irconsconfirm.c
+++ b/ir/ana/irconsconfirm.c
@@ -423,7 +423,7 @@ static void insert_Confirm_in_block(ir_node *block, void *data)
 		/* it's the false branch */
 		if (get_Proj_num(proj) != pn_Cond_true)
 			rel = get_negated_relation(rel);
-		DB((dbg, LEVEL_2, "At %+F using %+F Confirm %=\n", block, selector, rel));
+		DB((dbg, LEVEL_2, "At %+F using %+F Confirm %s\n", block, selector, get_relation_string(rel)));
 
 		handle_if(block, selector, rel, env);
 	}
diff --git a/ir/be/bechordal.c b/ir/be/bechordal.c
index 2963088..3ad5500 100644
--- a/ir/be/bechordal.c
+++ b/ir/be/bechordal.c
@@ -222,7 +222,7 @@ static void handle_constraints(be_chordal_env_t *const env, ir_node *const irn)
 		unsigned const *const bs = get_decisive_partner_regs(op, n_regs);
 		if (bs) {
 #ifdef DEBUG_libfirm
-			DBG((dbg, LEVEL_2, "\tallowed registers for %+F:", op->carrier, bs[0]));
+			DBG((dbg, LEVEL_2, "\tallowed registers for %+F:", op->carrier));
 			rbitset_foreach(bs, n_regs, col) {
 				arch_register_t const *const reg = arch_register_for_index(env->cls, col);
 				DB((dbg, LEVEL_2, " %s", reg->name));
diff --git a/ir/be/becopyheur4.c b/ir/be/becopyheur4.c
index f70c9fe..34d00a0 100644
--- a/ir/be/becopyheur4.c
+++ b/ir/be/becopyheur4.c
@@ -625,7 +625,7 @@ static void build_affinity_chunks(co_mst_env_t *env)
 	/* now: sort edges and build the affinity chunks */
 	QSORT_ARR(edges, cmp_aff_edge);
 	for (size_t i = 0, len = ARR_LEN(edges); i < len; ++i) {
-		DBG((dbg, LEVEL_1, "edge (%u,%u) %f\n", edges[i].src->node_idx, edges[i].tgt->node_idx, edges[i].weight));
+		DBG((dbg, LEVEL_1, "edge (%u,%u) %d\n", edges[i].src->node_idx, edges[i].tgt->node_idx, edges[i].weight));
 
 		aff_chunk_absorb(env, edges[i].src, edges[i].tgt);
 	}
diff --git a/ir/be/belower.c b/ir/be/belower.c
index 4172f2c..488d3ac 100644
--- a/ir/be/belower.c
+++ b/ir/be/belower.c
@@ -200,7 +200,7 @@ static void lower_perm_node(ir_node *const perm, arch_register_class_t const *co
 		for (reg_pair_t const *p; (p = oregmap[k]);) {
 			oregmap[k] = NULL;
 			ir_node *const copy = be_new_Copy_before_reg(p->in_node, perm, p->out_reg);
-			DBG((dbg, LEVEL_2, "%+F: inserting %+F for %+F from %s to %s\n", perm, copy, p->in_node, p->in_reg, p->out_reg));
+			DBG((dbg, LEVEL_2, "%+F: inserting %+F for %+F from %s to %s\n", perm, copy, p->in_node, p->in_reg->name, p->out_reg->name));
 			exchange(p->out_node, copy);
 
 			const unsigned new_k = p->in_reg->index;
@@ -295,7 +295,7 @@ static void lower_perm_node(ir_node *const perm, arch_register_class_t const *co
 
 				ir_node *const in[] = { p->in_node, q->in_node };
 				ir_node *const xchg = be_new_Perm(block, ARRAY_SIZE(in), in);
-				DBG((dbg, LEVEL_2, "%+F: inserting %+F for %+F (%s) and %+F (%s)\n", perm, xchg, in[0], arch_get_irn_register(in[0]), in[1], arch_get_irn_register(in[1])));
+				DBG((dbg, LEVEL_2, "%+F: inserting %+F for %+F (%s) and %+F (%s)\n", perm, xchg, in[0], arch_get_irn_register(in[0])->name, in[1], arch_get_irn_register(in[1])->name));
 				p->in_node           = be_new_Proj_reg(xchg, 0, q->in_reg);
 				ir_node *const new_q = be_new_Proj_reg(xchg, 1, q->out_reg);
 				exchange(q->out_node, new_q);
diff --git a/ir/be/bespillbelady.c b/ir/be/bespillbelady.c
index 7db98c1..3fa086c 100644
--- a/ir/be/bespillbelady.c
+++ b/ir/be/bespillbelady.c
@@ -411,7 +411,7 @@ static loc_t to_take_or_not_to_take(ir_node* first, ir_node *node,
 	/* We have to keep nonspillable nodes in the workingset */
 	if (arch_get_irn_flags(skip_Proj_const(node)) & arch_irn_flag_dont_spill) {
 		loc.time = 0;
-		DB((dbg, DBG_START, "    %+F taken (dontspill node)\n", node, loc.time));
+		DB((dbg, DBG_START, "    %+F taken (dontspill node)\n", node));
 		return loc;
 	}
 
diff --git a/ir/be/beuses.c b/ir/be/beuses.c
index 3b9d18b..69a6c7b 100644
--- a/ir/be/beuses.c
+++ b/ir/be/beuses.c
@@ -249,8 +249,8 @@ static be_next_use_t get_next_use(be_uses_t *const env, ir_node *const from,
 		if (get_loop_depth(succ_loop) < loopdepth) {
 			unsigned factor = (loopdepth - get_loop_depth(succ_loop)) * 5000;
 			DBG((dbg, LEVEL_5,
-			     "Increase usestep because of loop out edge %d -> %d (%u)\n",
-			     factor));
+			     "Increase usestep because of loop out edge %u -> %u (%u)\n",
+			     loopdepth, get_loop_depth(succ_loop), factor));
 			// TODO we should use the number of nodes in the loop or so...
 			use_dist += factor;
 		}
diff --git a/ir/opt/loop.c b/ir/opt/loop.c
index 546d4c5..fd19f3a 100644
--- a/ir/opt/loop.c
+++ b/ir/opt/loop.c
@@ -1113,7 +1113,7 @@ static void loop_inversion(ir_graph *const irg)
 	if (loop_info.nodes > max_loop_nodes) {
 		/* Only for stats */
 		DB((dbg, LEVEL_1, "Nodes %d > allowed nodes %d\n",
-			loop_info.nodes, loop_depth, max_loop_nodes));
+			loop_info.nodes, max_loop_nodes));
 		++stats.too_large;
 		/* no RETURN */
 		/* Adaption might change it */
diff --git a/ir/opt/opt_osr.c b/ir/opt/opt_osr.c
index e833d5c..bb0fca2 100644
--- a/ir/opt/opt_osr.c
+++ b/ir/opt/opt_osr.c
@@ -1083,7 +1083,7 @@ static ir_node *apply_edges(ir_node **pIV, ir_node *rc, iv_env *env)
 	if (env->osr_flags & osr_flag_lftr_with_ov_check) {
 		/* overflow can only be decided for Consts */
 		if (!is_counter_iv(iv, env)) {
-			DB((dbg, LEVEL_4, "not counter IV\n", rc));
+			DB((dbg, LEVEL_4, "not counter IV\n"));
 			return NULL;
 		}
 		if (!is_Const(rc)) {
-- 
2.43.0


From 44ab65ba86a852c2f38d07c36122876df1d9be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:54 +0000
Subject: [PATCH 21/36] fix: walk parameter uses after computing the out edges

---
 ir/ana/analyze_irg_args.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ir/ana/analyze_irg_args.c b/ir/ana/analyze_irg_args.c
index bbd8fb1..f5232ee 100644
--- a/ir/ana/analyze_irg_args.c
+++ b/ir/ana/analyze_irg_args.c
@@ -369,11 +369,18 @@ static void analyze_method_params_weight(ir_entity *ent)
 	/* Call algorithm that computes the out edges */
 	assure_irg_outs(irg);
 
+	/* The walk must start after the out edges have been computed: this uses the
+	 * visited flags, too. */
+	ir_reserve_resources(irg, IR_RESOURCE_IRN_VISITED);
+	inc_irg_visited(irg);
+
 	ir_node *irg_args = get_irg_args(irg);
 	foreach_irn_out_r(irg_args, i, arg) {
 		unsigned const proj_nr = get_Proj_num(arg);
 		ent->attr.mtd_attr.param_weight[proj_nr] += calc_method_param_weight(arg);
 	}
+
+	ir_free_resources(irg, IR_RESOURCE_IRN_VISITED);
 }
 
 unsigned get_method_param_weight(ir_entity *ent, size_t pos)
@@ -397,8 +404,5 @@ void analyze_irg_args_weight(ir_graph *irg)
 	if (entity->attr.mtd_attr.param_weight != NULL)
 		return;
 
-	ir_reserve_resources(irg, IR_RESOURCE_IRN_VISITED);
-	inc_irg_visited(irg);
 	analyze_method_params_weight(entity);
-	ir_free_resources(irg, IR_RESOURCE_IRN_VISITED);
 }
-- 
2.43.0


From da9a50ca074fe881771d427539d61e3764e99d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:54 +0000
Subject: [PATCH 22/36] fix: leave the global CSE setting as GVN-PRE found it

---
 ir/opt/gvn_pre.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ir/opt/gvn_pre.c b/ir/opt/gvn_pre.c
index 2665d1e..761d2ae 100644
--- a/ir/opt/gvn_pre.c
+++ b/ir/opt/gvn_pre.c
@@ -1876,6 +1876,5 @@ void do_gvn_pre(ir_graph *irg)
 	new_identities(irg);
 
 	/* TODO assure nothing else breaks. */
-	set_opt_global_cse(0);
 	edges_activate(irg);
 }
-- 
2.43.0


From 461efce2cddc4086751c6cd841f2e89e15bd662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:53 +0000
Subject: [PATCH 23/36] fix: compare the counts, not the addresses of the array
 elements

---
 ir/lpp/sp_matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/lpp/sp_matrix.c b/ir/lpp/sp_matrix.c
index fed92e9..f8c043f 100644
--- a/ir/lpp/sp_matrix.c
+++ b/ir/lpp/sp_matrix.c
@@ -605,7 +605,7 @@ const matrix_elem_t *matrix_next(sp_matrix_t *m)
 
 static int cmp_count(const void *e1, const void *e2)
 {
-	return (int *)e2 - (int *)e1;
+	return *(const int*)e2 - *(const int*)e1;
 }
 
 static inline void matrix_fill_row(sp_matrix_t *m, int row, bitset_t *fullrow)
-- 
2.43.0


From a64aeea5b82fdd53562b6b77a8339ee845614341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:53 +0000
Subject: [PATCH 24/36] fix: do not lose fractions of the costs when sorting
 spill candidates

---
 ir/be/bespilldaemel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/be/bespilldaemel.c b/ir/be/bespilldaemel.c
index 2b68f5e..585257e 100644
--- a/ir/be/bespilldaemel.c
+++ b/ir/be/bespilldaemel.c
@@ -53,7 +53,7 @@ static int compare_spill_candidates_desc(const void *d1, const void *d2)
 {
 	const spill_candidate_t *c1 = (const spill_candidate_t*)d1;
 	const spill_candidate_t *c2 = (const spill_candidate_t*)d2;
-	return (int) (c1->costs - c2->costs);
+	return QSORT_CMP(c1->costs, c2->costs);
 }
 
 static double get_spill_costs(ir_node *node)
-- 
2.43.0


From fd8a99347be254b3a00af5e059e7da47eec4efe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:53 +0000
Subject: [PATCH 25/36] fix: compare switch table entries consistently if
 several are default entries

---
 ir/lower/lower_switch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/lower/lower_switch.c b/ir/lower/lower_switch.c
index a58a055..d57a92b 100644
--- a/ir/lower/lower_switch.c
+++ b/ir/lower/lower_switch.c
@@ -116,7 +116,7 @@ static int compare_entries(const void *a, const void *b)
 
 	/* sort default targets to the end */
 	if (entry0->pn == pn_Switch_default)
-		return 1;
+		return entry1->pn != pn_Switch_default;
 	if (entry1->pn == pn_Switch_default)
 		return -1;
 
-- 
2.43.0


From 10f0cb9a7c4dbc91b6e4bf790d478160111d79c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:53 +0000
Subject: [PATCH 26/36] fix: compare access paths of different lengths as
 unequal

---
 ir/opt/scalar_replace.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir/opt/scalar_replace.c b/ir/opt/scalar_replace.c
index 4a76ca9..bf952b0 100644
--- a/ir/opt/scalar_replace.c
+++ b/ir/opt/scalar_replace.c
@@ -83,6 +83,8 @@ static int path_cmp(const void *elt, const void *key, size_t size)
 	(void)size;
 	const path_t *p1 = (const path_t*)elt;
 	const path_t *p2 = (const path_t*)key;
+	if (p1->path_len != p2->path_len)
+		return 1;
 	/* we can use memcmp here, because identical tarvals should have identical
 	 * addresses */
 	return memcmp(p1->path, p2->path, p1->path_len * sizeof(p1->path[0]));
-- 
2.43.0


From 148d375d8a450549f9df06587b5baa95a680bfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:53 +0000
Subject: [PATCH 27/36] fix: sort the roots of blocks independently of mode
 addresses

---
 ir/opt/opt_blocks.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ir/opt/opt_blocks.c b/ir/opt/opt_blocks.c
index dccd1be..2d7d018 100644
--- a/ir/opt/opt_blocks.c
+++ b/ir/opt/opt_blocks.c
@@ -22,6 +22,7 @@
 #include "iroptimize.h"
 #include "set.h"
 #include "util.h"
+#include <string.h>
 
 /* define this for general block shaping: congruent blocks
    are found not only before the end block but anywhere in the graph */
@@ -1104,8 +1105,12 @@ static int cmp_nodes(const void *a, const void *b)
 	mode_a = get_irn_mode(irn_a);
 	mode_b = get_irn_mode(irn_b);
 
-	if (mode_a != mode_b)
-		return mode_a < mode_b ? -1 : +1;
+	if (mode_a != mode_b) {
+		/* do not use the addresses, the order must be reproducible */
+		int res = strcmp(get_mode_name(mode_a), get_mode_name(mode_b));
+		if (res != 0)
+			return res;
+	}
 
 	/* last resort: index */
 	idx_a = get_irn_idx(irn_a);
-- 
2.43.0


From ac833af3f24560499324b30b307de6737883003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:53 +0000
Subject: [PATCH 28/36] fix: sort memory operations consistently and
 independently of node addresses

---
 ir/opt/ldstopt.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ir/opt/ldstopt.c b/ir/opt/ldstopt.c
index 7c76a23..acd694d 100644
--- a/ir/opt/ldstopt.c
+++ b/ir/opt/ldstopt.c
@@ -2108,10 +2108,11 @@ static int cmp_ptrs(const void *p0, const void *p1)
 
 	ir_node *ptr0 = get_ptr(skip_Proj(*n0));
 	ir_node *ptr1 = get_ptr(skip_Proj(*n1));
+	/* sort nodes without a pointer to the end */
 	if (ptr0 == NULL || ptr1 == NULL) {
-		long num0 = get_irn_node_nr(*n0);
-		long num1 = get_irn_node_nr(*n1);
-		return (num0 > num1) - (num0 < num1);
+		if (ptr0 != ptr1)
+			return ptr0 == NULL ? 1 : -1;
+		return QSORT_CMP(get_irn_node_nr(*n0), get_irn_node_nr(*n1));
 	}
 
 	base_offset_t bo0;
@@ -2119,7 +2120,7 @@ static int cmp_ptrs(const void *p0, const void *p1)
 	get_base_and_offset(ptr0, &bo0);
 	get_base_and_offset(ptr1, &bo1);
 	if (bo0.base != bo1.base)
-		return (bo0.base > bo1.base) - (bo0.base < bo1.base);
+		return QSORT_CMP(get_irn_node_nr(bo0.base), get_irn_node_nr(bo1.base));
 	return (bo0.offset > bo1.offset) - (bo0.offset < bo1.offset);
 }
 
-- 
2.43.0


From 504b7f72ffc438bf87f8f41d1866d1c6353a2ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:00 +0000
Subject: [PATCH 29/36] fix: keep entity alignments of 4096 bytes and more

The alignment of an entity was stored in a 12 bit wide bit field, so that set_entity_alignment() with 4096 (a page) or more left the alignment 0.
---
 ir/tr/entity_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/tr/entity_t.h b/ir/tr/entity_t.h
index a205d8d..32be576 100644
--- a/ir/tr/entity_t.h
+++ b/ir/tr/entity_t.h
@@ -188,7 +188,7 @@ struct ir_entity {
 	ENUMBF(ir_align)        aligned:1;     /**< Alignment of entity content. */
 	ENUMBF(ir_entity_usage) usage:4;       /**< Usage type of entity */
 	ENUMBF(ir_visibility)   visibility:3;  /**< Visibility of entity. */
-	ENUMBF(unsigned)        alignment:12;  /**< entity alignment in bytes */
+	unsigned                alignment;     /**< entity alignment in bytes */
 	ir_visited_t visit;      /**< visited counter for walks of the type
 	                              information. */
 	dbg_info *dbi;           /**< A pointer to information for debug support. */
-- 
2.43.0


From 585496c9761c24564598531d88c96dd15beb3a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:19 +0000
Subject: [PATCH 30/36] fix: reuse flags of a swapped compare only if it has
 the same width

---
 ir/be/ia32/ia32_bearch.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ir/be/ia32/ia32_bearch.c b/ir/be/ia32/ia32_bearch.c
index e6dc546..8ccbfaf 100644
--- a/ir/be/ia32/ia32_bearch.c
+++ b/ir/be/ia32/ia32_bearch.c
@@ -536,6 +536,9 @@ static bool ia32_try_replace_flags(ir_node *consumers, ir_node *flags, ir_node *
 	} else {
 		return false;
 	}
+	/* The upper bits of smaller operands may contain garbage. */
+	if (get_ia32_attr_const(flags)->size != get_ia32_attr_const(available)->size)
+		return false;
 	/* Assuming CSE would have found the more obvious case */
 	ir_node *const flags_left  = get_irn_n(flags,     n_ia32_binary_left);
 	ir_node *const avail_right = get_irn_n(available, n_ia32_binary_right);
-- 
2.43.0


From 52d94acc2bb0d14a86a071cf9eb2f6c6d7b97542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:56 +0000
Subject: [PATCH 31/36] fix: ia32 GetEIP changes the flags

---
 ir/be/ia32/ia32_spec.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/be/ia32/ia32_spec.pl b/ir/be/ia32/ia32_spec.pl
index 1478ed7..7c9e2b0 100644
--- a/ir/be/ia32/ia32_spec.pl
+++ b/ir/be/ia32/ia32_spec.pl
@@ -1007,7 +1007,7 @@ Const => {
 GetEIP => {
 	template  => $valueop,
 	# not rematerializable, value depends on location in code
-	irn_flags => [],
+	irn_flags => [ "modify_flags" ],
 	latency   => 5,
 },
 
-- 
2.43.0


From 723bb4d325138a96c6bea07eed2cf53e921e33de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:11 +0000
Subject: [PATCH 32/36] Undo the flag change of GetEIP in the specification

---
 ir/be/ia32/ia32_spec.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/be/ia32/ia32_spec.pl b/ir/be/ia32/ia32_spec.pl
index 7c9e2b0..1478ed7 100644
--- a/ir/be/ia32/ia32_spec.pl
+++ b/ir/be/ia32/ia32_spec.pl
@@ -1007,7 +1007,7 @@ Const => {
 GetEIP => {
 	template  => $valueop,
 	# not rematerializable, value depends on location in code
-	irn_flags => [ "modify_flags" ],
+	irn_flags => [],
 	latency   => 5,
 },
 
-- 
2.43.0


From bcc5da3de91c7ddc247b3842597f3bf35fb2cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:41 +0000
Subject: [PATCH 33/36] fix: ia32 GetEIP changes the flags

It is emitted as a call and an addl, so mark the node when it is made.
---
 ir/be/ia32/ia32_transform.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ir/be/ia32/ia32_transform.c b/ir/be/ia32/ia32_transform.c
index f051e49..ffb96b6 100644
--- a/ir/be/ia32/ia32_transform.c
+++ b/ir/be/ia32/ia32_transform.c
@@ -194,6 +194,8 @@ ir_node *ia32_get_pic_base(ir_graph *irg)
 	if (!*get_eip) {
 		ir_node *const block = get_irg_start_block(irg);
 		*get_eip = new_bd_ia32_GetEIP(NULL, block);
+		/* it is emitted with an addl, which changes the flags */
+		arch_add_irn_flags(*get_eip, arch_irn_flag_modify_flags);
 	}
 	return *get_eip;
 }
-- 
2.43.0


From 4a99e7e6777e1004312bc4b2144dd905dc13b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:42 +0000
Subject: [PATCH 34/36] fix: a node in Bad is allowed unless the graph has no
 Bads

---
 ir/ir/irverify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ir/ir/irverify.c b/ir/ir/irverify.c
index e544d4c..49bee7c 100644
--- a/ir/ir/irverify.c
+++ b/ir/ir/irverify.c
@@ -1038,7 +1038,7 @@ int irn_verify(const ir_node *const n)
 	if (op != op_Block && op != op_Anchor) {
 		ir_node *block = get_nodes_block(n);
 		if (!is_Block(block) && (!is_Bad(block)
-		    || !irg_has_properties(irg, IR_GRAPH_PROPERTY_NO_BADS))) {
+		    || irg_has_properties(irg, IR_GRAPH_PROPERTY_NO_BADS))) {
 			warn(n, "block input is not a block (but %+F)", block);
 			fine = false;
 		} else if (is_op_start_block_placed(op)
-- 
2.43.0


From 0ab31472386ed9d44160c0351fc0e97ad59d450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:09 +0000
Subject: [PATCH 35/36] fix: opt_ldst reserves the phi lists it uses

---
 ir/opt/opt_ldst.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ir/opt/opt_ldst.c b/ir/opt/opt_ldst.c
index e6966e9..9c9ddeb 100644
--- a/ir/opt/opt_ldst.c
+++ b/ir/opt/opt_ldst.c
@@ -1784,7 +1784,7 @@ void opt_ldst(ir_graph *irg)
 	env.id_2_address  = NEW_ARR_F(ir_node *, 0);
 #endif
 
-	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK | IR_RESOURCE_BLOCK_MARK);
+	ir_reserve_resources(irg, IR_RESOURCE_IRN_LINK | IR_RESOURCE_BLOCK_MARK | IR_RESOURCE_PHI_LIST);
 
 	/* first step: allocate block entries. Note that some blocks might be
 	   unreachable here. Using the normal walk ensures that ALL blocks are initialized. */
@@ -1876,7 +1876,7 @@ no_changes:
 		confirm_irg_properties(irg, IR_GRAPH_PROPERTIES_ALL);
 	}
 
-	ir_free_resources(irg, IR_RESOURCE_IRN_LINK | IR_RESOURCE_BLOCK_MARK);
+	ir_free_resources(irg, IR_RESOURCE_IRN_LINK | IR_RESOURCE_BLOCK_MARK | IR_RESOURCE_PHI_LIST);
 	ir_nodehashmap_destroy(&env.adr_map);
 	obstack_free(&env.obst, NULL);
 
-- 
2.43.0


From 9a239c82bd1b3c8f6fbb26d89f89c7f2038db446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:33 +0000
Subject: [PATCH 36/36] fix: opt_ldst claims consistent control flow after it
 changed jumps

---
 ir/opt/opt_ldst.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ir/opt/opt_ldst.c b/ir/opt/opt_ldst.c
index 9c9ddeb..642ebd8 100644
--- a/ir/opt/opt_ldst.c
+++ b/ir/opt/opt_ldst.c
@@ -113,6 +113,7 @@ typedef struct ldst_env_t {
 	size_t          rbs_size;          /**< size of all bitsets in bytes */
 	int             max_cfg_preds;     /**< maximum number of block cfg predecessors */
 	int             changed;           /**< Flags for changed graph state */
+	bool            cf_changed;        /**< Set if control flow has changed. */
 #ifdef DEBUG_libfirm
 	ir_node         **id_2_address;    /**< maps an id to the used address */
 #endif
@@ -626,11 +627,13 @@ static void update_Load_memop(memop_t *m)
 			m->projs[pn_Load_X_except] = NULL;
 			m->flags &= ~FLAG_EXCEPTION;
 			env.changed = 1;
+			env.cf_changed = true;
 		}
 		if (m->projs[pn_Load_X_regular]) {
 			exchange(m->projs[pn_Load_X_regular], new_r_Jmp(get_nodes_block(load)));
 			m->projs[pn_Load_X_regular] = NULL;
 			env.changed = 1;
+			env.cf_changed = true;
 		}
 	}
 
@@ -1290,10 +1293,12 @@ static void replace_load(memop_t *op)
 	if (proj != NULL) {
 		ir_graph *irg = get_irn_irg(load);
 		exchange(proj, new_r_Bad(irg, mode_X));
+		env.cf_changed = true;
 	}
 	proj = op->projs[pn_Load_X_regular];
 	if (proj != NULL) {
 		exchange(proj, new_r_Jmp(get_nodes_block(load)));
+		env.cf_changed = true;
 	}
 }
 
@@ -1317,10 +1322,12 @@ static void remove_store(memop_t *op)
 	if (proj != NULL) {
 		ir_graph *irg = get_irn_irg(store);
 		exchange(proj, new_r_Bad(irg, mode_X));
+		env.cf_changed = true;
 	}
 	proj = op->projs[pn_Store_X_regular];
 	if (proj != NULL) {
 		exchange(proj, new_r_Jmp(get_nodes_block(store)));
+		env.cf_changed = true;
 	}
 }
 
@@ -1779,6 +1786,7 @@ void opt_ldst(ir_graph *irg)
 	env.n_mem_ops     = 0;
 	env.max_cfg_preds = 0;
 	env.changed       = 0;
+	env.cf_changed    = false;
 	env.end_bl        = get_irg_end_block(irg);
 #ifdef DEBUG_libfirm
 	env.id_2_address  = NEW_ARR_F(ir_node *, 0);
@@ -1870,10 +1878,12 @@ void opt_ldst(ir_graph *irg)
 
 		/* not only invalidate but free them. We might allocate new out arrays
 		   on our obstack which will be deleted yet. */
-		confirm_irg_properties(irg, IR_GRAPH_PROPERTIES_CONTROL_FLOW);
+		confirm_irg_properties(irg, env.cf_changed
+			? IR_GRAPH_PROPERTIES_NONE : IR_GRAPH_PROPERTIES_CONTROL_FLOW);
 	} else {
 no_changes:
-		confirm_irg_properties(irg, IR_GRAPH_PROPERTIES_ALL);
+		confirm_irg_properties(irg, env.cf_changed
+			? IR_GRAPH_PROPERTIES_NONE : IR_GRAPH_PROPERTIES_ALL);
 	}
 
 	ir_free_resources(irg, IR_RESOURCE_IRN_LINK | IR_RESOURCE_BLOCK_MARK | IR_RESOURCE_PHI_LIST);
-- 
2.43.0

