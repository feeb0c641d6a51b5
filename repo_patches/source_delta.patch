From cbca9b5f19dbfd9f3b38ccdc10cec1935beb4baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 01/58] fix: PUSH_STRING operand is read with the width it was
 emitted with

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 43d90b8..fd5411c 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1217,7 +1217,7 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
 
         case TINY_OP_PUSH_STRING: {
             ++thread->pc;
-            Tiny_Int stringIndex = ReadInteger(thread);
+            Tiny_ConstantIndex stringIndex = ReadConstIndex(thread);
             DoPush(thread, Tiny_NewConstString(state->strings[stringIndex]));
         } break;
 
-- 
2.43.0


From c76a2f7391864635713385a6175e9cc3516b5878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 02/58] fix: disassemble the shift instructions

---
 tiny/src/tiny.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index fd5411c..fc18c17 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4238,6 +4238,8 @@ bool Tiny_DisasmOne(const Tiny_State *state, int *ppc, char *buf, size_t maxlen)
             OP_NO_ARGS(MOD)
             OP_NO_ARGS(OR)
             OP_NO_ARGS(AND)
+            OP_NO_ARGS(SHIFT_LEFT)
+            OP_NO_ARGS(SHIFT_RIGHT)
             OP_NO_ARGS(LT)
             OP_NO_ARGS(LTE)
             OP_NO_ARGS(GT)
-- 
2.43.0


From 7b3f6fa76657a3f42ab67ba1f5c9e3571cca863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 03/58] fix: reject calls to Tiny functions with too few
 arguments

---
 tiny/src/tiny.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index fc18c17..efa811e 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3099,6 +3099,13 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
         GenerateCode(state, (Word)nargs);
         GEN_VALUE_NOPOS(state, &fn->foreignFunc.index);
     } else {
+        int fNargs = sb_count(fn->func.args);
+
+        if (fNargs != nargs) {
+            ReportErrorE(state, errorExp, "Function '%s' expects %d args but you supplied %d.\n",
+                         fn->name, fNargs, nargs);
+        }
+
         GenerateCode(state, TINY_OP_CALL);
         GenerateCode(state, (Word)nargs);
         GEN_VALUE_NOPOS(state, &fn->func.index);
-- 
2.43.0


From 1a4e5ea4ef2520db4b9851af3007a387eb22b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 04/58] fix: a struct constructor must initialize every field
 exactly once

---
 tiny/src/tiny.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index efa811e..a152c6d 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2942,10 +2942,25 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 }
 
                 if (nameNode) {
+                    for (Tiny_StringNode *prev = exp->constructor.argNamesHead; prev != nameNode;
+                         prev = prev->next) {
+                        if (strcmp(prev->value, nameNode->value) == 0) {
+                            ReportErrorE(state, argNode,
+                                         "Field %s of struct %s is initialized multiple times.",
+                                         nameNode->value, GetTagName(exp->constructor.structTag));
+                        }
+                    }
+
                     nameNode = nameNode->next;
                 }
             }
 
+            if (i < tagCount) {
+                ReportErrorE(state, exp,
+                             "struct %s constructor expects %d args but you supplied %d.",
+                             GetTagName(exp->constructor.structTag), tagCount, i);
+            }
+
             exp->tag = exp->constructor.structTag;
         } break;
 
-- 
2.43.0


From 6e22972e9262e68ae91391efcf5f948a48e43769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 05/58] fix: mark an object before its children so that cycles
 do not recurse forever

---
 tiny/src/tiny.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index a152c6d..77b5192 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -131,14 +131,15 @@ void Tiny_ProtectFromGC(Tiny_Value value) {
 
     if (obj->marked) return;
 
+    // Mark before visiting children so that cyclic object graphs terminate
+    obj->marked = 1;
+
     if (obj->type == TINY_VAL_NATIVE) {
         if (obj->nat.prop && obj->nat.prop->protectFromGC)
             obj->nat.prop->protectFromGC(obj->nat.addr);
     } else if (obj->type == TINY_VAL_STRUCT) {
         for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
     }
-
-    obj->marked = 1;
 }
 
 static void MarkAll(Tiny_StateThread *thread);
-- 
2.43.0


From eb75a8dc87510025ea13b4ba46e5f18231929683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 06/58] fix: keep the return value saved by Tiny_CallFunction
 alive across collections

---
 tiny/src/tiny.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 77b5192..693a824 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -596,6 +596,9 @@ Tiny_Value Tiny_CallFunction(Tiny_StateThread *thread, int functionIndex, const
 
     AllocGlobals(thread);
 
+    // Keep the saved return value reachable by the garbage collector
+    DoPush(thread, retVal);
+
     for (int i = 0; i < count; ++i) {
         DoPush(thread, args[i]);
     }
-- 
2.43.0


From e1a52b4206a1a4cad6cb9a33de8b9d25a810690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 07/58] fix: report break and continue outside of a loop

---
 tiny/src/tiny.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 693a824..f683463 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3814,6 +3814,9 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 
             if (exp->proc.body) {
                 CompileStatement(state, exp->proc.body);
+
+                // Any break/continue that isn't in a loop at this point is an error
+                PatchBreakContinue(state, exp->proc.body, -1, -1);
             }
 
             GenerateCode(state, TINY_OP_RETURN);
@@ -3906,6 +3909,9 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 static void CompileProgram(Tiny_State *state, Tiny_Expr *progHead) {
     for (Tiny_Expr *exp = progHead; exp; exp = exp->next) {
         CompileStatement(state, exp);
+
+        // Any break/continue that isn't in a loop at this point is an error
+        PatchBreakContinue(state, exp, -1, -1);
     }
 }
 
-- 
2.43.0


From 9fe886d3f0c24c6b4a38303a4b2d6f22c905a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 08/58] fix: a failed compilation restores all of the
 compiler's state

---
 tiny/src/tiny.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index f683463..a122351 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4005,6 +4005,23 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     int firstSymIndex = sb_count(state->globalSymbols);
     int startCodeLen = sb_count(state->program);
 
+    // Everything else a failed compilation must put back the way it was. CompileState overwrites
+    // the trailing HALT (and may update the last line record) so those are saved as well.
+    Word lastCode = startCodeLen > 0 ? state->program[startCodeLen - 1] : TINY_OP_HALT;
+
+    int startLineLen = sb_count(state->pcToFileLine);
+    Tiny_PCToFileLine lastLine = {0};
+    if (startLineLen > 0) {
+        lastLine = state->pcToFileLine[startLineLen - 1];
+    }
+
+    int startNumGlobalVars = state->numGlobalVars;
+    int startNumFunctions = state->numFunctions;
+    int startNumForeignFunctions = state->numForeignFunctions;
+
+    Tiny_Symbol *startFunc = state->currFunc;
+    int startScope = state->currScope;
+
     // We have to do this _before_ setjmp because it'll get
     // incremented again if it jumps back and we put it after
     state->compileCallNestCount += 1;
@@ -4028,8 +4045,27 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
         if (state->program) {
             // TODO(Apaar): Should we realloc and shrink?
             stb__sbn(state->program) = startCodeLen;
+
+            if (startCodeLen > 0) {
+                state->program[startCodeLen - 1] = lastCode;
+            }
         }
 
+        if (state->pcToFileLine) {
+            stb__sbn(state->pcToFileLine) = startLineLen;
+
+            if (startLineLen > 0) {
+                state->pcToFileLine[startLineLen - 1] = lastLine;
+            }
+        }
+
+        state->numGlobalVars = startNumGlobalVars;
+        state->numFunctions = startNumFunctions;
+        state->numForeignFunctions = startNumForeignFunctions;
+
+        state->currFunc = startFunc;
+        state->currScope = startScope;
+
         state->l = prevLexer;
         state->parserArena = prevParserArena;
         --state->compileCallNestCount;
-- 
2.43.0


From b475d0829dba253ab2f3a3189121aaf2987ab1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 09/58] fix: an error reported outside of a compilation does
 not jump to a dead buffer

---
 tiny/src/tiny.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index a122351..5299df4 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -40,6 +40,17 @@ static void *DefaultAlloc(void *ptr, size_t size, void *userdata) {
 
 Tiny_Context Tiny_DefaultContext = {DefaultAlloc, NULL};
 
+static void ThrowCompileError(Tiny_State *state) {
+    if (state->compileCallNestCount == 0) {
+        // We're not compiling (e.g. the host bound the same constant twice) so there's nothing to
+        // jump back to
+        fprintf(stderr, "%s", state->compileErrorResult.error.msg);
+        exit(1);
+    }
+
+    longjmp(state->compileErrorJmpBufs[state->compileCallNestCount - 1], 1);
+}
+
 static void ReportErrorL(Tiny_State *state, Tiny_Lexer *l, const char *s, ...) {
     va_list args;
     va_start(args, s);
@@ -52,7 +63,7 @@ static void ReportErrorL(Tiny_State *state, Tiny_Lexer *l, const char *s, ...) {
 
     va_end(args);
 
-    longjmp(state->compileErrorJmpBufs[state->compileCallNestCount - 1], 1);
+    ThrowCompileError(state);
 }
 
 static void ReportErrorSL(Tiny_State *state, const char *s, ...) {
@@ -67,7 +78,7 @@ static void ReportErrorSL(Tiny_State *state, const char *s, ...) {
 
     va_end(args);
 
-    longjmp(state->compileErrorJmpBufs[state->compileCallNestCount - 1], 1);
+    ThrowCompileError(state);
 }
 
 static char *CloneString(Tiny_Context *ctx, const char *str) {
@@ -1479,7 +1490,7 @@ static void ReportErrorE(Tiny_State *state, const Tiny_Expr *exp, const char *s,
 
     va_end(args);
 
-    longjmp(state->compileErrorJmpBufs[state->compileCallNestCount - 1], 1);
+    ThrowCompileError(state);
 }
 
 static void ReportErrorS(Tiny_State *state, const Tiny_Symbol *sym, const char *s, ...) {
@@ -1494,7 +1505,7 @@ static void ReportErrorS(Tiny_State *state, const Tiny_Symbol *sym, const char *
 
     va_end(args);
 
-    longjmp(state->compileErrorJmpBufs[state->compileCallNestCount - 1], 1);
+    ThrowCompileError(state);
 }
 
 static void ExpectTokenL(Tiny_State *state, Tiny_Lexer *l, Tiny_TokenKind tok, const char *msg) {
-- 
2.43.0


From 8ea4ba6bce4a196a794d63f86bc427af93af8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 10/58] fix: compile error arguments match their conversion
 specifiers

---
 tiny/src/tiny.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 5299df4..bdda986 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2572,7 +2572,7 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
 
                 if (i >= argc && !isVarargs) {
                     ReportErrorE(state, node, "Too many arguments to function '%s' (%d expected).",
-                                 exp->call.calleeName, argc);
+                                 exp->call.calleeName->value, argc);
                 }
 
                 if (func->type == TINY_SYM_FOREIGN_FUNCTION) {
@@ -3145,7 +3145,7 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
 static void CompileGetLHS(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->type == TINY_EXP_ID) {
         if (!exp->id.sym)
-            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n", exp->id.name);
+            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n", exp->id.name->value);
 
         assert(exp->id.sym->type == TINY_SYM_GLOBAL || exp->id.sym->type == TINY_SYM_LOCAL ||
                exp->id.sym->type == TINY_SYM_CONST);
@@ -3223,14 +3223,14 @@ static void CompileCall(Tiny_State *state, Tiny_Expr *exp) {
     Tiny_Symbol *sym = ReferenceFunction(state, exp->call.calleeName->value);
     if (!sym) {
         ReportErrorE(state, exp, "Attempted to call undefined function '%s'.\n",
-                     exp->call.calleeName);
+                     exp->call.calleeName->value);
     }
 
     if (nargs > UCHAR_MAX) {
         ReportErrorE(state, exp,
                      "Attempted to call function '%s' with %d args. Tiny supports calling "
                      "functions with %d args at most.",
-                     exp->call.calleeName, nargs, UCHAR_MAX);
+                     exp->call.calleeName->value, nargs, UCHAR_MAX);
     }
 
     CompileCallSymbolWithArgsPrepared(state, (Word)nargs, sym, exp);
@@ -3755,7 +3755,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         if (!exp->binary.lhs->id.sym) {
                             // The variable being referenced doesn't exist
                             ReportErrorE(state, exp, "Assigning to undeclared identifier '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         if (exp->binary.lhs->id.sym->type == TINY_SYM_GLOBAL) {
@@ -3767,7 +3767,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         } else  // Probably a constant, can't change it
                         {
                             ReportErrorE(state, exp, "Cannot assign to id '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         exp->binary.lhs->id.sym->var.initialized = true;
@@ -4107,7 +4107,8 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
                 for (Tiny_StringNode *node = exp->use.argsHead; node; node = node->next) {
                     if (argp - args > sizeof(args) / sizeof(args[0])) {
                         ReportErrorE(state, exp, "Macro %s takes too many args (limit is %d)",
-                                     exp->use.moduleName->value, sizeof(args) / sizeof(args[0]));
+                                     exp->use.moduleName->value,
+                                     (int)(sizeof(args) / sizeof(args[0])));
                     }
 
                     *argp++ = node->value;
-- 
2.43.0


From fab46f317036c551fe70d1bb9b6de1a9de145422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 11/58] fix: off-by-one in the macro argument limit

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index bdda986..8226d2c 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4105,7 +4105,7 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
                 char **argp = args;
 
                 for (Tiny_StringNode *node = exp->use.argsHead; node; node = node->next) {
-                    if (argp - args > sizeof(args) / sizeof(args[0])) {
+                    if (argp - args >= sizeof(args) / sizeof(args[0])) {
                         ReportErrorE(state, exp, "Macro %s takes too many args (limit is %d)",
                                      exp->use.moduleName->value,
                                      (int)(sizeof(args) / sizeof(args[0])));
-- 
2.43.0


From 4b14257b9cbecaded36b10e36a866e510aa2693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 12/58] fix: a nullable value is assignable to its own type

---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 8226d2c..d75faf3 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2494,6 +2494,10 @@ static bool IsTagAssignableTo(const Tiny_Symbol *src, const Tiny_Symbol *dest) {
     }
 
     if (dest->type == TINY_SYM_TAG_NULLABLE) {
+        if (src->type == TINY_SYM_TAG_NULLABLE) {
+            return src->nullableTag == dest->nullableTag;
+        }
+
         return IsTagAssignableTo(src, dest->nullableTag);
     }
 
-- 
2.43.0


From cc08fa603f64bfa3ef73abbbcbfa319c7efe07df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 13/58] fix: adding or subtracting 1 from a float does not use
 the integer instructions

---
 tiny/src/tiny.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index d75faf3..ed78e6e 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3323,7 +3323,9 @@ static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
                 case TINY_TOK_PLUS: {
                     CompileExpr(state, exp->binary.lhs);
 
-                    if (exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
+                    // The increment/decrement instructions only operate on ints
+                    if (exp->binary.lhs->tag->type == TINY_SYM_TAG_INT &&
+                        exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
                         GenerateCode(state, TINY_OP_ADD1);
                     } else {
                         CompileExpr(state, exp->binary.rhs);
@@ -3334,7 +3336,9 @@ static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
                 case TINY_TOK_MINUS: {
                     CompileExpr(state, exp->binary.lhs);
 
-                    if (exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
+                    // The increment/decrement instructions only operate on ints
+                    if (exp->binary.lhs->tag->type == TINY_SYM_TAG_INT &&
+                        exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
                         GenerateCode(state, TINY_OP_SUB1);
                     } else {
                         CompileExpr(state, exp->binary.rhs);
-- 
2.43.0


From 2d3d2e8d7809fa835c4422b82c2eb2edfc672335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 14/58] fix: compound assignments require arithmetic operands

---
 tiny/src/tiny.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index ed78e6e..e46c33f 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2747,6 +2747,22 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                             GetTagName(exp->binary.rhs->tag), GetTagName(exp->binary.lhs->tag));
                     }
 
+                    if (exp->binary.op != TINY_TOK_EQUAL) {
+                        // The right hand side has the same type as the left hand side at this point
+                        bool isInt = exp->binary.lhs->tag->type == TINY_SYM_TAG_INT;
+                        bool isFloat = exp->binary.lhs->tag->type == TINY_SYM_TAG_FLOAT;
+
+                        bool onlyInts = exp->binary.op == TINY_TOK_PERCENTEQUAL ||
+                                        exp->binary.op == TINY_TOK_OREQUAL ||
+                                        exp->binary.op == TINY_TOK_ANDEQUAL;
+
+                        if (!isInt && (onlyInts || !isFloat)) {
+                            ReportErrorE(state, exp,
+                                         "Attempted to use an arithmetic assignment on a '%s'.",
+                                         GetTagName(exp->binary.lhs->tag));
+                        }
+                    }
+
                     exp->tag = GetPrimTag(TINY_SYM_TAG_VOID);
                 } break;
 
-- 
2.43.0


From b3cc2886ddfe967ff9637781275d259437f1859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 15/58] fix: report references to variables whose type is not
 known yet

---
 tiny/src/tiny.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index e46c33f..74f8433 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -849,6 +849,7 @@ static Tiny_Symbol *DeclareGlobalVar(Tiny_State *state, const char *name) {
     newNode->var.initialized = false;
     newNode->var.index = state->numGlobalVars;
     newNode->var.scope = 0;  // Global variable scope don't matter
+    newNode->var.tag = NULL;
     newNode->var.scopeEnded = false;
 
     sb_push(&state->ctx, state->globalSymbols, newNode);
@@ -914,6 +915,7 @@ static Tiny_Symbol *DeclareLocal(Tiny_State *state, const char *name) {
     newNode->var.scopeEnded = false;
     newNode->var.index = sb_count(state->currFunc->func.locals);
     newNode->var.scope = state->currScope;
+    newNode->var.tag = NULL;
 
     sb_push(&state->ctx, state->currFunc->func.locals, newNode);
 
@@ -2547,7 +2549,10 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                    exp->id.sym->type == TINY_SYM_CONST);
 
             if (exp->id.sym->type != TINY_SYM_CONST) {
-                assert(exp->id.sym->var.tag);
+                if (!exp->id.sym->var.tag) {
+                    ReportErrorE(state, exp, "Referencing '%s' before its type is known.\n",
+                                 exp->id.name->value);
+                }
 
                 exp->tag = exp->id.sym->var.tag;
             } else {
-- 
2.43.0


From c07d2b6d8e1f94704e9492f98836458871861e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 16/58] fix: Tiny_NewInt does not truncate integers to 32 bits

---
 tiny/include/tiny.h | 2 +-
 tiny/src/tiny.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 9f535f6..8b56fb6 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -183,7 +183,7 @@ extern Tiny_Context Tiny_DefaultContext;
 void Tiny_ProtectFromGC(Tiny_Value value);
 
 Tiny_Value Tiny_NewBool(bool value);
-Tiny_Value Tiny_NewInt(int i);
+Tiny_Value Tiny_NewInt(Tiny_Int i);
 Tiny_Value Tiny_NewFloat(Tiny_Float f);
 Tiny_Value Tiny_NewConstString(const char *string);
 Tiny_Value Tiny_NewLightNative(void *ptr);
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 74f8433..051551f 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -365,7 +365,7 @@ Tiny_Value Tiny_NewBool(bool value) {
     return val;
 }
 
-Tiny_Value Tiny_NewInt(int i) {
+Tiny_Value Tiny_NewInt(Tiny_Int i) {
     Tiny_Value val;
 
     val.type = TINY_VAL_INT;
-- 
2.43.0


From 271c2e483a747efc7509fb6f44fc14f6c509602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 17/58] fix: stop on value stack overflow instead of writing
 past the stack

---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 051551f..80d7d4d 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1148,6 +1148,8 @@ static Tiny_Float ReadFloat(Tiny_StateThread *thread) {
 }
 
 static void DoPush(Tiny_StateThread *thread, Tiny_Value value) {
+    assert(thread->sp < TINY_THREAD_STACK_SIZE);
+
     thread->stack[thread->sp++] = value;
 }
 
@@ -1193,6 +1195,8 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
         case TINY_OP_PUSH_NULL_N: {
             ++thread->pc;
             Word n = state->program[thread->pc++];
+            assert(thread->sp + n <= TINY_THREAD_STACK_SIZE);
+
             memset(&thread->stack[thread->sp], 0, sizeof(Tiny_Value) * n);
             thread->sp += n;
         } break;
-- 
2.43.0


From 4f876a7b7e87c1ac0338d5c181789cedfb34629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 18/58] fix: an unterminated string literal is an error instead
 of an endless loop

---
 tiny/src/lexer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index a6dd938..da7713a 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -272,6 +272,11 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         while (l->last != '"') {
             CHECK_ESCAPE();
 
+            if (l->last == 0) {
+                l->errorMsg = "Unexpected end of file in string literal.";
+                return TINY_TOK_LEXER_ERROR;
+            }
+
             sb_push(&l->ctx, l->lexeme, l->last);
             l->last = GetChar(l);
         }
-- 
2.43.0


From c4aba94d91cb464abd31aaf1fc8fc71a14b19d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 19/58] fix: do not leak parameters and fields when a
 declaration has a syntax error

---
 tiny/src/tiny.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 80d7d4d..1df8d90 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1717,30 +1717,36 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
 
     GetNextToken(state);
 
-    typedef struct {
-        char *name;
+    typedef struct Arg {
+        struct Arg *next;
+        Tiny_StringNode *name;
         Tiny_Symbol *tag;
     } Arg;
 
-    Arg *args = NULL;  // array
+    // These are in the parser arena so they're freed even if there's a syntax error
+    Arg *argsHead = NULL;
+    Arg *argsTail = NULL;
+    int argCount = 0;
 
     while (state->l.lastTok != TINY_TOK_CLOSEPAREN) {
         ExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier in function parameter list");
 
-        Arg arg;
+        Arg *arg = Tiny_ArenaAlloc(&state->parserArena, sizeof(Arg), sizeof(void *));
 
-        arg.name = CloneString(&state->ctx, state->l.lexeme);
+        arg->next = NULL;
+        arg->name = CreateExprStringNode(state, state->l.lexeme);
         GetNextToken(state);
 
         if (state->l.lastTok != TINY_TOK_COLON) {
-            ReportErrorSL(state, "Expected ':' after %s", arg.name);
+            ReportErrorSL(state, "Expected ':' after %s", arg->name->value);
         }
 
         GetNextToken(state);
 
-        arg.tag = ParseTypeSL(state);
+        arg->tag = ParseTypeSL(state);
 
-        sb_push(&state->ctx, args, arg);
+        TINY_LL_APPEND(argsHead, argsTail, arg);
+        ++argCount;
 
         if (state->l.lastTok != TINY_TOK_CLOSEPAREN && state->l.lastTok != TINY_TOK_COMMA) {
             ReportErrorSL(state,
@@ -1751,13 +1757,10 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
         if (state->l.lastTok == TINY_TOK_COMMA) GetNextToken(state);
     }
 
-    for (int i = 0; i < sb_count(args); ++i) {
-        DeclareArgument(state, args[i].name, args[i].tag, sb_count(args));
-        TFree(&state->ctx, args[i].name);
+    for (Arg *arg = argsHead; arg; arg = arg->next) {
+        DeclareArgument(state, arg->name->value, arg->tag, argCount);
     }
 
-    sb_free(&state->ctx, args);
-
     GetNextToken(state);
 
     if (state->l.lastTok != TINY_TOK_COLON) {
@@ -1819,13 +1822,15 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
 
         Tiny_Symbol *f = Symbol_create(TINY_SYM_FIELD, state->l.lexeme, state);
 
+        // Push it first so that it's freed along with the struct if there's a syntax error
+        f->fieldTag = NULL;
+        sb_push(&state->ctx, s->sstruct.fields, f);
+
         GetExpectTokenSL(state, TINY_TOK_COLON, "Expected ':' after field name.");
 
         GetNextToken(state);
 
         f->fieldTag = ParseTypeSL(state);
-
-        sb_push(&state->ctx, s->sstruct.fields, f);
     }
 
     GetNextToken(state);
-- 
2.43.0


From ef7be592c1e19e3e9dd6461fa89c90c5054df7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 20/58] fix: never pass a NULL pointer with size 0 to the
 allocator

---
 tiny/src/tiny.c | 2 +-
 tiny/src/util.c | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 1df8d90..52313e0 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -535,7 +535,7 @@ void Tiny_InitThread(Tiny_StateThread *thread, const Tiny_State *state) {
 static void AllocGlobals(Tiny_StateThread *thread) {
     // If the global variables haven't been allocated yet,
     // do that
-    if (!thread->globalVars) {
+    if (!thread->globalVars && thread->state->numGlobalVars > 0) {
         thread->globalVars =
             TMalloc(&thread->ctx, sizeof(Tiny_Value) * thread->state->numGlobalVars);
         memset(thread->globalVars, 0, sizeof(Tiny_Value) * thread->state->numGlobalVars);
diff --git a/tiny/src/util.c b/tiny/src/util.c
index b19ef6e..b9d8d33 100644
--- a/tiny/src/util.c
+++ b/tiny/src/util.c
@@ -13,7 +13,12 @@ void *TRealloc(Tiny_Context *ctx, void *ptr, size_t size) {
     return ctx->alloc(ptr, size, ctx->userdata);
 }
 
-void TFree(Tiny_Context *ctx, void *ptr) { ctx->alloc(ptr, 0, ctx->userdata); }
+void TFree(Tiny_Context *ctx, void *ptr) {
+    // The allocator is only ever asked to free non-NULL pointers
+    if (!ptr) return;
+
+    ctx->alloc(ptr, 0, ctx->userdata);
+}
 
 int Tiny_TranslatePosToLineNumber(const char *src, Tiny_TokenPos pos) {
     int curPos = 0;
-- 
2.43.0


From 1dd47b11ee21480c5166a674a4ded1f3fe282e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 21/58] fix: report too many strings as a compile error

---
 tiny/src/tiny.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 52313e0..fbe4fd1 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -709,7 +709,10 @@ static int RegisterString(Tiny_State *state, const char *string) {
         if (strcmp(state->strings[i], string) == 0) return i;
     }
 
-    assert(state->numStrings < MAX_STRINGS);
+    if (state->numStrings >= MAX_STRINGS) {
+        ReportErrorSL(state, "Exceeded maximum number of strings (%d).", MAX_STRINGS);
+    }
+
     state->strings[state->numStrings++] = CloneString(&state->ctx, string);
 
     return state->numStrings - 1;
-- 
2.43.0


From 4c00127cf3eb9b3660fa5ebc5800ad398fc0786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 22/58] fix: using a struct which is only mentioned in a
 binding is a compile error

---
 tiny/src/tiny.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index fbe4fd1..0b98f9f 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2911,7 +2911,8 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
         case TINY_EXP_DOT: {
             ResolveTypes(state, exp->dot.lhs);
 
-            if (exp->dot.lhs->tag->type != TINY_SYM_TAG_STRUCT) {
+            if (exp->dot.lhs->tag->type != TINY_SYM_TAG_STRUCT ||
+                !exp->dot.lhs->tag->sstruct.defined) {
                 ReportErrorE(state, exp, "Cannot use '.' on a %s", GetTagName(exp->dot.lhs->tag));
             }
 
@@ -2924,7 +2925,10 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
         } break;
 
         case TINY_EXP_CONSTRUCTOR: {
-            assert(exp->constructor.structTag->sstruct.defined);
+            if (!exp->constructor.structTag->sstruct.defined) {
+                ReportErrorE(state, exp, "Referenced undefined struct %s.",
+                             GetTagName(exp->constructor.structTag));
+            }
 
             int tagCount = sb_count(exp->constructor.structTag->sstruct.fields);
 
-- 
2.43.0


From 69e2a328aa879ce0dc7fd43bc4a7b4c78a22d48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 23/58] fix: reading a directory does not allocate a bogus size

---
 tiny/src/std.c  |  8 +++++++-
 tiny/src/tiny.c | 18 ++++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f1e6685..3edbab9 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -155,8 +155,14 @@ static Tiny_Value Lib_ReadFile(Tiny_StateThread *thread, const Tiny_Value *args,
     long len = ftell(file);
     rewind(file);
 
+    if (len < 0 || len >= INT_MAX) {
+        // Not a regular file (e.g. a directory) or too large
+        fclose(file);
+        return Tiny_Null;
+    }
+
     char *s = Tiny_AllocUsingContext(thread->ctx, NULL, len + 1);
-    fread(s, 1, len, file);
+    len = (long)fread(s, 1, len, file);
 
     s[len] = '\0';
 
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 0b98f9f..c98f77e 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3,6 +3,7 @@
 
 #include <assert.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdalign.h>
 #include <stdarg.h>
 #include <stdbool.h>
@@ -4222,12 +4223,25 @@ Tiny_CompileResult Tiny_CompileFile(Tiny_State *state, const char *filename) {
 
     long len = ftell(file);
 
+    if (len < 0 || len >= INT_MAX) {
+        // Not a regular file (e.g. a directory) or too large
+        fclose(file);
+
+        Tiny_CompileResult result = {
+            .type = TINY_COMPILE_ERROR,
+        };
+
+        snprintf(result.error.msg, sizeof(result.error.msg),
+                 "Error: Unable to determine the size of file '%s'\n", filename);
+        return result;
+    }
+
     char *s = TMalloc(&state->ctx, len + 1);
 
     rewind(file);
 
-    fread(s, 1, len, file);
-    s[len] = 0;
+    size_t readLen = fread(s, 1, len, file);
+    s[readLen] = 0;
 
     fclose(file);
 
-- 
2.43.0


From a8f7ee70359b094bf2ee75f72eef6e65f45da68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 24/58] fix: string functions use the length of the string

---
 tiny/src/std.c  | 15 ++++++++++-----
 tiny/src/tiny.c |  4 ++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 3edbab9..8843b8f 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -45,12 +45,12 @@ void __stdcall Sleep(DWORD dwMilliseconds);
 static Tiny_Value Strlen(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     Tiny_Value val = args[0];
 
-    return Tiny_NewInt(strlen(Tiny_ToString(val)));
+    return Tiny_NewInt(Tiny_StringLen(val));
 }
 
 static Tiny_Value Stridx(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *s = Tiny_ToString(args[0]);
-    size_t len = strlen(s);
+    size_t len = Tiny_StringLen(args[0]);
 
     int i = Tiny_ToInt(args[1]);
 
@@ -104,6 +104,8 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
     FILE *file = Tiny_ToAddr(args[0]);
     int num = (int)Tiny_ToNumber(args[1]);
 
+    if (num < 0) num = 0;
+
     // + 1 for null-terminator
     char *str = Tiny_AllocUsingContext(thread->ctx, NULL, num + 1);
 
@@ -114,7 +116,7 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
         return Tiny_NewConstString("");
     }
 
-    str[num] = '\0';
+    str[readCount] = '\0';
 
     return Tiny_NewString(thread, str, readCount);
 }
@@ -131,7 +133,10 @@ static Tiny_Value Lib_Fseek(Tiny_StateThread *thread, const Tiny_Value *args, in
 static Tiny_Value Lib_Fwrite(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
     const char *str = Tiny_ToString(args[1]);
-    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : (int)strlen(str);
+    int len = (int)Tiny_StringLen(args[1]);
+    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : len;
+
+    if (num < 0 || num > len) num = len;
 
     return Tiny_NewInt(fwrite(str, 1, num, file));
 }
@@ -180,7 +185,7 @@ static Tiny_Value Lib_WriteFile(Tiny_StateThread *thread, const Tiny_Value *args
 
     const char *s = Tiny_ToString(args[1]);
 
-    fwrite(s, 1, strlen(s), file);
+    fwrite(s, 1, Tiny_StringLen(args[1]), file);
     fclose(file);
 
     return Tiny_NewBool(true);
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c98f77e..d80e902 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -254,7 +254,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
     }
 
     if (a.type == TINY_VAL_CONST_STRING) {
@@ -269,7 +269,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.cstr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(a.cstr, Tiny_ToString(b), aLen) == 0;
     }
 
     return false;
-- 
2.43.0


From af1717549c53d743e30b2fdc9ffeda7f2708181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 25/58] fix: clearing or shrinking an array without storage
 does not write through NULL

---
 tiny/src/array.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 7f3f6b0..3308202 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -20,7 +20,9 @@ void InitArrayEx(Array *array, Tiny_Context ctx, int length, const Tiny_Value *i
 
 int ArrayLen(Array *array) { return sb_count(array->data); }
 
-void ArrayClear(Array *array) { stb__sbn(array->data) = 0; }
+void ArrayClear(Array *array) {
+    if (array->data) stb__sbn(array->data) = 0;
+}
 
 void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
     assert(newLen >= 0);
@@ -33,7 +35,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
         for (int i = len; i < newLen; ++i) {
             newValues[i] = newValue;
         }
-    } else {
+    } else if (array->data) {
         stb__sbn(array->data) = newLen;
     }
 }
-- 
2.43.0


From 8c488f679d1585974e8aa099c9504fb9cc40737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 26/58] fix: floats and NULL light natives can be used as dict
 keys

---
 tiny/src/dict.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tiny/src/dict.c b/tiny/src/dict.c
index 9234fe8..8cc986d 100644
--- a/tiny/src/dict.c
+++ b/tiny/src/dict.c
@@ -22,6 +22,17 @@ static unsigned long HashValue(Tiny_Value value) {
             return (int)value.boolean + 1;
         case TINY_VAL_INT:
             return (unsigned long)value.i;
+        case TINY_VAL_FLOAT: {
+            // 0.0 and -0.0 are equal so they must have the same hash
+            Tiny_Float f = value.f == 0 ? 0 : value.f;
+
+            unsigned long bits = 0;
+            memcpy(&bits, &f, sizeof(bits) < sizeof(f) ? sizeof(bits) : sizeof(f));
+
+            return bits;
+        }
+        case TINY_VAL_LIGHT_NATIVE:
+            return (uintptr_t)value.addr;
         case TINY_VAL_CONST_STRING:
         case TINY_VAL_STRING: {
             const char *start = Tiny_ToString(value);
-- 
2.43.0


From 884e4333462136c4424aa217ff858fb6a21f5097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 27/58] fix: integer array sort compares the full width of the
 integers

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 8843b8f..afe27b7 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -335,7 +335,7 @@ static int CompareInts(const void *aRaw, const void *bRaw) {
     assert(a->type == TINY_VAL_INT);
     assert(b->type == TINY_VAL_INT);
 
-    return a->i - b->i;
+    return (a->i > b->i) - (a->i < b->i);
 }
 
 static TINY_FOREIGN_FUNCTION(Lib_ArraySortInt) {
-- 
2.43.0


From 8fb4c6cffa8cebc34ae5ed876dac7816020699fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 28/58] fix: input stops at the end of the stream

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index afe27b7..caccb1e 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -574,7 +574,7 @@ static Tiny_Value Lib_Input(Tiny_StateThread *thread, const Tiny_Value *args, in
     int c = getc(stdin);
     int i = 0;
 
-    while (c != '\n') {
+    while (c != '\n' && c != EOF) {
         if (bufferLength + 1 >= bufferCapacity) {
             bufferCapacity *= 2;
             buffer = Tiny_AllocUsingContext(thread->ctx, buffer, bufferCapacity);
-- 
2.43.0


From 053a3f3f5b33d62e8582e5448f03d30977214498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 29/58] fix: print booleans

---
 tiny/src/std.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index caccb1e..ad0f5e6 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -598,6 +598,9 @@ static void Print(Tiny_Value val, bool repr) {
         case TINY_VAL_NULL:
             printf("<null>");
             break;
+        case TINY_VAL_BOOL:
+            printf(val.boolean ? "true" : "false");
+            break;
         case TINY_VAL_INT:
             printf("%lld", (int64_t)val.i);
             break;
-- 
2.43.0


From 1aeb4b462844f07e4c159e8a31ffc7f2ff7233b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 30/58] fix: printf handles percent signs and checks the types
 of its arguments

---
 tiny/src/std.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index ad0f5e6..34d7c28 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -672,6 +672,12 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
 
     while (*fmt) {
         if (*fmt == '%') {
+            if (fmt[1] == '%') {
+                putc('%', stdout);
+                fmt += 2;
+                continue;
+            }
+
             if (arg >= count) {
                 fprintf(stderr, "Too few arguments for format '%s'\n", fmt);
                 exit(1);
@@ -680,28 +686,25 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
             ++fmt;
             switch (*fmt) {
                 case 'i':
-                    printf("%lld", (int64_t)args[arg].i);
+                    printf("%lld", (int64_t)Tiny_ToInt(args[arg]));
                     break;
                 case 'f':
-                    printf("%f", args[arg].f);
+                    printf("%f", Tiny_ToNumber(args[arg]));
                     break;
                 case 's':
                     printf("%.*s", (int)Tiny_StringLen(args[arg]), Tiny_ToString(args[arg]));
                     break;
                 case 'c':
-                    printf("%c", (char)args[arg].i);
+                    printf("%c", (char)Tiny_ToInt(args[arg]));
                     break;
 
                 case 'q':
                     Print(args[arg], true);
                     break;
-                case '%':
-                    putc('%', stdout);
-
                 default:
                     printf("\nInvalid format specifier '%c'\n", *fmt);
             }
-            ++fmt;
+            if (*fmt) ++fmt;
             ++arg;
         } else
             putc(*fmt++, stdout);
-- 
2.43.0


From ae11963a6216c875d75b812cf29dad7fa3ab9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 31/58] fix: str_to_json passes the number of arguments rather
 than their size

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 34d7c28..87b80ab 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1030,7 +1030,7 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
             Tiny_Value forwardArgs[] = {Tiny_NewConstString("\""), args[0],
                                         Tiny_NewConstString("\"")};
 
-            return Strcat(thread, forwardArgs, sizeof(forwardArgs));
+            return Strcat(thread, forwardArgs, sizeof(forwardArgs) / sizeof(forwardArgs[0]));
         } break;
 
         default:
-- 
2.43.0


From 0d94e19d5a0c60da807a97629ed94083daf9895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 32/58] fix: float functions keep double precision

---
 tiny/src/std.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 87b80ab..f4698a2 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -517,7 +517,7 @@ static Tiny_Value Lib_Substr(Tiny_StateThread *thread, const Tiny_Value *args, i
 
 static Tiny_Value Lib_Ston(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *str = Tiny_ToString(args[0]);
-    float value = strtof(str, NULL);
+    Tiny_Float value = strtod(str, NULL);
 
     return Tiny_NewFloat(value);
 }
@@ -722,11 +722,11 @@ static Tiny_Value Exit(Tiny_StateThread *thread, const Tiny_Value *args, int cou
 }
 
 static Tiny_Value Lib_Floor(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewFloat(floorf(Tiny_ToFloat(args[0])));
+    return Tiny_NewFloat(floor(Tiny_ToFloat(args[0])));
 }
 
 static Tiny_Value Lib_Ceil(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewFloat(ceilf(Tiny_ToFloat(args[0])));
+    return Tiny_NewFloat(ceil(Tiny_ToFloat(args[0])));
 }
 
 #ifdef _WIN32
-- 
2.43.0


From d1c074f9d6d148b31647acfd836affc3313154fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 33/58] fix: elements of a primitive array are only left
 unmarked if they are primitive

---
 tiny/src/std.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f4698a2..0230c1c 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -227,6 +227,15 @@ static Tiny_Value CreateArrayEx(Tiny_StateThread *thread, int count, const Tiny_
 
     memcpy(array->data, values, sizeof(Tiny_Value) * count);
 
+    // The constructor is variadic so its arguments aren't type checked; if there's an object in here
+    // then the elements must be marked
+    for (int i = 0; i < count; ++i) {
+        if (values[i].type == TINY_VAL_STRING || values[i].type == TINY_VAL_NATIVE ||
+            values[i].type == TINY_VAL_STRUCT) {
+            primitive = false;
+        }
+    }
+
     return Tiny_NewNative(thread, array, primitive ? &PrimitiveArrayProp : &ArrayProp);
 }
 
-- 
2.43.0


From a24a2ea301dcc26fa0e8d43eb031513f27139967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 34/58] fix: macros report unknown types and functions instead
 of crashing

---
 tiny/src/std.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 0230c1c..645d489 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -864,7 +864,7 @@ static TINY_MACRO_FUNCTION(JsonMacroFunction) {
 
     const Tiny_Symbol *sym = Tiny_FindTypeSymbol(state, args[0]);
 
-    if (sym->type != TINY_SYM_TAG_STRUCT) {
+    if (!sym || sym->type != TINY_SYM_TAG_STRUCT) {
         return (Tiny_MacroResult){
             .type = TINY_MACRO_ERROR,
             .error.msg = "Must specify struct type as argument to 'use json_mod'",
@@ -1075,6 +1075,13 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
 
     const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, args[0]);
 
+    if (!func) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The function you specified for 'use delegate' does not exist",
+        };
+    }
+
     for (int i = 0;
          i < Tiny_SymbolArrayCount(func->type == TINY_SYM_FUNCTION ? func->func.args
                                                                    : func->foreignFunc.argTags);
-- 
2.43.0


From 8e4bd0a44240ca36735ad9738a50b042ac5907d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 35/58] fix: macros propagate errors from the code they compile

---
 tiny/src/std.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 645d489..d0aa44b 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -832,7 +832,11 @@ static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_
 
         const Tiny_Symbol *fieldSym = sym->sstruct.fields[i];
 
-        BindJsonSerializerForType(state, fieldSym->fieldTag);
+        Tiny_MacroResult fieldResult = BindJsonSerializerForType(state, fieldSym->fieldTag);
+
+        if (fieldResult.type != TINY_MACRO_SUCCESS) {
+            return fieldResult;
+        }
 
         used += snprintf(buf + used, sizeof(buf) - used, "\"\\\"%s\\\":\", %s_to_json(v.%s)",
                          fieldSym->name, fieldSym->fieldTag->name, fieldSym->name);
@@ -1048,6 +1052,15 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
     }
 }
 
+static Tiny_MacroResult DelegateCompileError(const Tiny_CompileResult *compileResult) {
+    Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
+
+    snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+             "Failed to compile delegate code: %s", compileResult->error.msg);
+
+    return macroResult;
+}
+
 static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
     if (nargs != 1) {
         return (Tiny_MacroResult){
@@ -1122,7 +1135,12 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
                      typeBuf, typeBuf, argsBuf, paramsBuf);
         }
 
-        Tiny_CompileString(state, "(delegate call function)", callBuf);
+        Tiny_CompileResult compileResult =
+            Tiny_CompileString(state, "(delegate call function)", callBuf);
+
+        if (compileResult.type != TINY_COMPILE_SUCCESS) {
+            return DelegateCompileError(&compileResult);
+        }
     }
 
     if (!Tiny_FindFuncSymbol(state, asName)) {
@@ -1131,7 +1149,12 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
                  "func %s(): %s { return cast(get_function_index(\"%s\"), %s) }", asName, typeBuf,
                  args[0], typeBuf);
 
-        Tiny_CompileString(state, "(delegate create function)", createBuf);
+        Tiny_CompileResult compileResult =
+            Tiny_CompileString(state, "(delegate create function)", createBuf);
+
+        if (compileResult.type != TINY_COMPILE_SUCCESS) {
+            return DelegateCompileError(&compileResult);
+        }
     }
 
     return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
-- 
2.43.0


From 2ba2a426615a11daa83fda93982c8b434a674ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 36/58] fix: literals are not truncated to int and float

---
 tiny/include/expr.h  | 4 ++--
 tiny/include/lexer.h | 4 ++--
 tiny/src/lexer.c     | 8 +++-----
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/tiny/include/expr.h b/tiny/include/expr.h
index 7292418..7bd4a8e 100644
--- a/tiny/include/expr.h
+++ b/tiny/include/expr.h
@@ -59,8 +59,8 @@ typedef struct Tiny_Expr {
     union {
         bool boolean;
 
-        int iValue;
-        float fValue;
+        Tiny_Int iValue;
+        Tiny_Float fValue;
         int sIndex;
 
         struct {
diff --git a/tiny/include/lexer.h b/tiny/include/lexer.h
index 2692028..ae10e84 100644
--- a/tiny/include/lexer.h
+++ b/tiny/include/lexer.h
@@ -22,8 +22,8 @@ typedef struct {
 
     union {
         bool bValue;
-        int iValue;
-        float fValue;
+        Tiny_Int iValue;
+        Tiny_Float fValue;
     };
 
     const char *errorMsg;
diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index da7713a..66c4d84 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -206,13 +206,11 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         sb_push(&l->ctx, l->lexeme, 0);
 
         if (isFloat) {
-            l->fValue = (float)strtod(l->lexeme, NULL);
+            l->fValue = strtod(l->lexeme, NULL);
         } else if (isHex) {
-            int64_t value = strtoll(l->lexeme, NULL, 16);
-
-            l->iValue = (int)value;
+            l->iValue = strtoll(l->lexeme, NULL, 16);
         } else {
-            l->iValue = strtol(l->lexeme, NULL, 10);
+            l->iValue = strtoll(l->lexeme, NULL, 10);
         }
 
         return isFloat ? TINY_TOK_FLOAT : TINY_TOK_INT;
-- 
2.43.0


From b77e5be0606b7755828e7d77790cad0390a96146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 37/58] fix: type check the operands of the index operator

---
 tiny/src/tiny.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index d80e902..7d6535d 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2523,6 +2523,27 @@ static bool IsTagAssignableTo(const Tiny_Symbol *src, const Tiny_Symbol *dest) {
     return false;
 }
 
+// Returns NULL if the function doesn't restrict the type of the argument at the given index.
+static const Tiny_Symbol *GetParamTag(const Tiny_Symbol *func, int index) {
+    if (func->type == TINY_SYM_FOREIGN_FUNCTION) {
+        return index < sb_count(func->foreignFunc.argTags) ? func->foreignFunc.argTags[index]
+                                                           : NULL;
+    }
+
+    return index < sb_count(func->func.args) ? func->func.args[index]->var.tag : NULL;
+}
+
+static void CheckIndexArg(Tiny_State *state, const Tiny_Symbol *func, int index,
+                          const Tiny_Expr *arg) {
+    const Tiny_Symbol *expectedTag = GetParamTag(func, index);
+
+    if (expectedTag && !IsTagAssignableTo(arg->tag, expectedTag)) {
+        ReportErrorE(state, arg,
+                     "Argument %i to '%s' is supposed to be a '%s' but you supplied a '%s'\n",
+                     index + 1, func->name, GetTagName(expectedTag), GetTagName(arg->tag));
+    }
+}
+
 static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->tag) return;
 
@@ -2765,6 +2786,15 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                             GetTagName(exp->binary.rhs->tag), GetTagName(exp->binary.lhs->tag));
                     }
 
+                    if (exp->binary.lhs->type == TINY_EXP_INDEX &&
+                        exp->binary.lhs->index.setIndexFunc) {
+                        const Tiny_Symbol *setIndexFunc = exp->binary.lhs->index.setIndexFunc;
+
+                        CheckIndexArg(state, setIndexFunc, 0, exp->binary.lhs->index.arr);
+                        CheckIndexArg(state, setIndexFunc, 1, exp->binary.lhs->index.elem);
+                        CheckIndexArg(state, setIndexFunc, 2, exp->binary.rhs);
+                    }
+
                     if (exp->binary.op != TINY_TOK_EQUAL) {
                         // The right hand side has the same type as the left hand side at this point
                         bool isInt = exp->binary.lhs->tag->type == TINY_SYM_TAG_INT;
@@ -3089,8 +3119,9 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                                                   ? getIndexFunc->foreignFunc.returnTag
                                                   : getIndexFunc->func.returnTag;
 
-            // TODO(Apaar): Check that the argument count of getIndexFunc is 2 and also that it
-            // receives the correct argument types.
+            // The argument count is checked when the call is compiled
+            CheckIndexArg(state, getIndexFunc, 0, exp->index.arr);
+            CheckIndexArg(state, getIndexFunc, 1, exp->index.elem);
 
             exp->tag = getIndexReturnType;
 
-- 
2.43.0


From 7dab1b12f944ea3b283ab6b169a76237680b8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 38/58] fix: generated macro code never writes past the end of
 its buffer

---
 tiny/src/std.c | 66 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index d0aa44b..926eb08 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -2,6 +2,8 @@
 #include <errno.h>
 #include <limits.h>
 #include <math.h>
+#include <stdarg.h>
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -794,6 +796,26 @@ static Tiny_Value Lib_I64ToString(Tiny_StateThread *thread, const Tiny_Value *ar
     return Tiny_NewStringCopy(thread, buf, len);
 }
 
+// Appends to the text in buf, never writing past its end. Returns false once the text doesn't fit.
+static bool AppendFormat(char *buf, size_t size, int *used, const char *fmt, ...) {
+    if (*used >= size) return false;
+
+    va_list args;
+    va_start(args, fmt);
+
+    int len = vsnprintf(buf + *used, size - *used, fmt, args);
+
+    va_end(args);
+
+    if (len < 0 || len >= size - *used) {
+        *used = (int)size;
+        return false;
+    }
+
+    *used += len;
+    return true;
+}
+
 static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym) {
     if (sym->type == TINY_SYM_TAG_FOREIGN) {
         // For foreign types, it's up to the calling code to set up an appropriate serializer.
@@ -821,13 +843,13 @@ static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_
         return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
     }
 
-    used +=
-        snprintf(buf, sizeof(buf), "func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t",
-                 sym->name, sym->name);
+    AppendFormat(buf, sizeof(buf), &used,
+                 "func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t", sym->name,
+                 sym->name);
 
     for (int i = 0; i < Tiny_SymbolArrayCount(sym->sstruct.fields); ++i) {
         if (i > 0) {
-            used += snprintf(buf + used, sizeof(buf) - used, ", \",\",\n\t\t");
+            AppendFormat(buf, sizeof(buf), &used, ", \",\",\n\t\t");
         }
 
         const Tiny_Symbol *fieldSym = sym->sstruct.fields[i];
@@ -838,11 +860,16 @@ static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_
             return fieldResult;
         }
 
-        used += snprintf(buf + used, sizeof(buf) - used, "\"\\\"%s\\\":\", %s_to_json(v.%s)",
-                         fieldSym->name, fieldSym->fieldTag->name, fieldSym->name);
+        AppendFormat(buf, sizeof(buf), &used, "\"\\\"%s\\\":\", %s_to_json(v.%s)",
+                     fieldSym->name, fieldSym->fieldTag->name, fieldSym->name);
     }
 
-    used += snprintf(buf + used, sizeof(buf) - used, ",\n\t\"}\")\n}");
+    if (!AppendFormat(buf, sizeof(buf), &used, ",\n\t\"}\")\n}")) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The struct is too large for 'use json'",
+        };
+    }
 
     Tiny_CompileResult compileResult = Tiny_CompileString(state, "(json mod)", buf);
 
@@ -1084,7 +1111,7 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
     int argsUsed = 0;
     int paramsUsed = 0;
 
-    typeUsed += snprintf(typeBuf, sizeof(typeBuf), "delegate_");
+    AppendFormat(typeBuf, sizeof(typeBuf), &typeUsed, "delegate_");
 
     const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, args[0]);
 
@@ -1100,18 +1127,17 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
                                                                    : func->foreignFunc.argTags);
          ++i) {
         if (i > 0) {
-            typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "_");
-            argsUsed += snprintf(argsBuf + argsUsed, sizeof(argsBuf) - argsUsed, ", ");
-            paramsUsed += snprintf(paramsBuf + paramsUsed, sizeof(paramsBuf) - paramsUsed, ", ");
+            AppendFormat(typeBuf, sizeof(typeBuf), &typeUsed, "_");
+            AppendFormat(argsBuf, sizeof(argsBuf), &argsUsed, ", ");
+            AppendFormat(paramsBuf, sizeof(paramsBuf), &paramsUsed, ", ");
         }
 
         const Tiny_Symbol *argTag = func->type == TINY_SYM_FUNCTION ? func->func.args[i]->var.tag
                                                                     : func->foreignFunc.argTags[i];
 
-        typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "%s", argTag->name);
-        argsUsed +=
-            snprintf(argsBuf + argsUsed, sizeof(argsBuf) - argsUsed, "a%d: %s", i, argTag->name);
-        paramsUsed += snprintf(paramsBuf + paramsUsed, sizeof(paramsBuf) - paramsUsed, "a%d", i);
+        AppendFormat(typeBuf, sizeof(typeBuf), &typeUsed, "%s", argTag->name);
+        AppendFormat(argsBuf, sizeof(argsBuf), &argsUsed, "a%d: %s", i, argTag->name);
+        AppendFormat(paramsBuf, sizeof(paramsBuf), &paramsUsed, "a%d", i);
     }
 
     const Tiny_Symbol *returnTag =
@@ -1119,7 +1145,15 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
 
     const char *returnTagName = returnTag->name;
 
-    typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "_%s", returnTagName);
+    AppendFormat(typeBuf, sizeof(typeBuf), &typeUsed, "_%s", returnTagName);
+
+    if (typeUsed >= sizeof(typeBuf) || argsUsed >= sizeof(argsBuf) ||
+        paramsUsed >= sizeof(paramsBuf)) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The function signature is too large for 'use delegate'",
+        };
+    }
 
     if (!Tiny_FindTypeSymbol(state, typeBuf)) {
         Tiny_RegisterType(state, typeBuf);
-- 
2.43.0


From 321a3eed83d4789c0adb95b4bdea19a83756ce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 39/58] fix: a failed compilation undoes the struct definitions
 it made

---
 tiny/include/detail.h |  3 +++
 tiny/include/tiny.h   |  4 ++++
 tiny/src/tiny.c       | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index e41b513..ea92059 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -86,6 +86,9 @@ typedef struct Tiny_State {
     jmp_buf compileErrorJmpBufs[TINY_MAX_NESTED_COMPILE_CALLS];
     int compileCallNestCount;
 
+    // Incremented for every compilation
+    int compileSerial;
+
     // In case there was a compile error, it gets put in
     // here.
     Tiny_CompileResult compileErrorResult;
diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 8b56fb6..76e7d76 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -538,6 +538,10 @@ typedef struct Tiny_Symbol {
             bool defined;
 
             struct Tiny_Symbol **fields;  // array
+
+            // Identifies the compilation during which this was defined, so that
+            // the definition can be undone if that compilation fails.
+            int definedSerial;
         } sstruct;
 
         struct Tiny_Symbol *fieldTag;
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 7d6535d..600e0cb 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -473,6 +473,7 @@ Tiny_State *Tiny_CreateStateWithContext(Tiny_Context ctx) {
     state->pcToFileLine = NULL;
 
     state->compileCallNestCount = 0;
+    state->compileSerial = 0;
 
     Tiny_BindFunction(state, "int(float): int", Lib_ToInt);
     Tiny_BindFunction(state, "float(int): float", Lib_ToFloat);
@@ -1016,6 +1017,7 @@ void Tiny_RegisterType(Tiny_State *state, const char *name) {
             // referring to this type that we're about to define here, so just update it in place
             // to be an opaque foreign type.
             s->type = TINY_SYM_TAG_FOREIGN;
+            s->sstruct.definedSerial = state->compileSerial;
         }
 
         return;
@@ -1023,6 +1025,10 @@ void Tiny_RegisterType(Tiny_State *state, const char *name) {
 
     s = Symbol_create(TINY_SYM_TAG_FOREIGN, name, state);
 
+    s->sstruct.defined = false;
+    s->sstruct.fields = NULL;
+    s->sstruct.definedSerial = 0;
+
     sb_push(&state->ctx, state->globalSymbols, s);
 }
 
@@ -1549,6 +1555,7 @@ static Tiny_Symbol *DeclareStruct(Tiny_State *state, const char *name, bool sear
 
     s->sstruct.defined = false;
     s->sstruct.fields = NULL;
+    s->sstruct.definedSerial = 0;
 
     sb_push(&state->ctx, state->globalSymbols, s);
 
@@ -1803,6 +1810,7 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
 
     s->pos = pos;
     s->sstruct.defined = true;
+    s->sstruct.definedSerial = state->compileSerial;
 
     GetExpectTokenSL(state, TINY_TOK_OPENCURLY, "Expected '{' after struct name.");
 
@@ -4110,6 +4118,8 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     Tiny_Symbol *startFunc = state->currFunc;
     int startScope = state->currScope;
 
+    int startSerial = ++state->compileSerial;
+
     // We have to do this _before_ setjmp because it'll get
     // incremented again if it jumps back and we put it after
     state->compileCallNestCount += 1;
@@ -4117,6 +4127,28 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     int jmpCode = setjmp(state->compileErrorJmpBufs[state->compileCallNestCount - 1]);
 
     if (jmpCode) {
+        // Structs which were declared before but defined since the start of compilation are
+        // undefined again
+        for (int i = 0; i < firstSymIndex; ++i) {
+            Tiny_Symbol *s = state->globalSymbols[i];
+
+            if ((s->type != TINY_SYM_TAG_STRUCT && s->type != TINY_SYM_TAG_FOREIGN) ||
+                s->sstruct.definedSerial < startSerial) {
+                continue;
+            }
+
+            for (int j = 0; j < sb_count(s->sstruct.fields); ++j) {
+                Symbol_destroy(s->sstruct.fields[j], &state->ctx);
+            }
+
+            sb_free(&state->ctx, s->sstruct.fields);
+
+            s->type = TINY_SYM_TAG_STRUCT;
+            s->sstruct.defined = false;
+            s->sstruct.fields = NULL;
+            s->sstruct.definedSerial = 0;
+        }
+
         // Free all stuff allocated since the start of compilation
         for (int i = firstSymIndex; i < sb_count(state->globalSymbols); ++i) {
             Symbol_destroy(state->globalSymbols[i], &state->ctx);
-- 
2.43.0


From 4ce6c154c7a91226af86861079357be4ec306210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 40/58] fix: a long run of comment lines does not exhaust the
 stack

---
 tiny/src/lexer.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 66c4d84..a71ffda 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -42,7 +42,16 @@ void Tiny_InitLexer(Tiny_Lexer *l, const char *fileName, const char *src, Tiny_C
 }
 
 static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
-    while (isspace(l->last)) {
+    while (isspace(l->last) || (l->last == '/' && Peek(l) == '/')) {
+        // Skip comments, up to the newline
+        if (l->last == '/') {
+            while (l->last && l->last != '\n') {
+                l->last = GetChar(l);
+            }
+
+            continue;
+        }
+
         if (l->last == '\n') l->lineNumber++;
         l->last = GetChar(l);
     }
@@ -51,19 +60,6 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         return TINY_TOK_EOF;
     }
 
-    if (l->last == '/' && Peek(l) == '/') {
-        while (l->last && l->last != '\n') {
-            l->last = GetChar(l);
-        }
-
-        if (l->last) {
-            l->last = GetChar(l);
-            l->lineNumber += 1;
-        }
-
-        return Tiny_GetToken(l);
-    }
-
     if (l->last == '.' && Peek(l) == '.' && Peek2(l) == '.') {
         ResetLexeme(l);
         char *buf = sb_add(&l->ctx, l->lexeme, 4);
-- 
2.43.0


From 736196c209cf07c67301aed32256a407011cdf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 41/58] fix: count the lines inside of string and character
 literals

---
 tiny/src/lexer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index a71ffda..03dd39d 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -244,6 +244,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
 
         CHECK_ESCAPE();
 
+        if (l->last && l->src[l->pos - 1] == '\n') l->lineNumber++;
+
         l->iValue = l->last;
 
         l->last = GetChar(l);
@@ -271,6 +273,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
                 return TINY_TOK_LEXER_ERROR;
             }
 
+            if (l->src[l->pos - 1] == '\n') l->lineNumber++;
+
             sb_push(&l->ctx, l->lexeme, l->last);
             l->last = GetChar(l);
         }
-- 
2.43.0


From 1bb995195fa642c859254ed90ca41137a91d98dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 42/58] fix: int() keeps the full width of the integer

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 600e0cb..4cdcc67 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -441,7 +441,7 @@ Tiny_Value Tiny_NewStringCopyNullTerminated(Tiny_StateThread *thread, const char
 static void Symbol_destroy(Tiny_Symbol *sym, Tiny_Context *ctx);
 
 static Tiny_Value Lib_ToInt(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewInt((int)Tiny_ToFloat(args[0]));
+    return Tiny_NewInt((Tiny_Int)Tiny_ToFloat(args[0]));
 }
 
 static Tiny_Value Lib_ToFloat(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-- 
2.43.0


From 6d2b3f87d78d79613ba7113c61a137c8518d9407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 43/58] fix: growing a non-empty array wrote past the new
 elements

---
 tiny/src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 3308202..26e8113 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -33,7 +33,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
         Tiny_Value *newValues = sb_add(&array->ctx, array->data, newLen - len);
 
         for (int i = len; i < newLen; ++i) {
-            newValues[i] = newValue;
+            newValues[i - len] = newValue;
         }
     } else if (array->data) {
         stb__sbn(array->data) = newLen;
-- 
2.43.0


From 2b967223d7fdf08cb6f6692f99d61360da76cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:19 +0000
Subject: [PATCH 44/58] fix: array and string indexes keep the full width of
 the integer

---
 tiny/include/array.h | 10 +++++-----
 tiny/src/array.c     | 15 ++++++++-------
 tiny/src/std.c       | 20 ++++++++++----------
 3 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/tiny/include/array.h b/tiny/include/array.h
index b6929a3..b855050 100644
--- a/tiny/include/array.h
+++ b/tiny/include/array.h
@@ -15,7 +15,7 @@ void InitArrayEx(Array *array, Tiny_Context ctx, int length, const Tiny_Value *i
 int ArrayLen(Array *array);
 
 void ArrayClear(Array *array);
-void ArrayResize(Array *array, int length, Tiny_Value newValue);
+void ArrayResize(Array *array, Tiny_Int length, Tiny_Value newValue);
 
 void ArrayPush(Array *array, Tiny_Value value);
 void ArrayPop(Array *array, Tiny_Value *value);
@@ -23,10 +23,10 @@ void ArrayPop(Array *array, Tiny_Value *value);
 // Pop from front
 void ArrayShift(Array *array, Tiny_Value *value);
 
-void ArrayInsert(Array *array, int index, Tiny_Value value);
-void ArrayRemove(Array *array, int index);
+void ArrayInsert(Array *array, Tiny_Int index, Tiny_Value value);
+void ArrayRemove(Array *array, Tiny_Int index);
 
-void ArraySet(Array *array, int index, Tiny_Value value);
-Tiny_Value *ArrayGet(Array *array, int index);
+void ArraySet(Array *array, Tiny_Int index, Tiny_Value value);
+Tiny_Value *ArrayGet(Array *array, Tiny_Int index);
 
 void DestroyArray(Array *array);
diff --git a/tiny/src/array.c b/tiny/src/array.c
index 26e8113..8f5fb98 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -1,6 +1,7 @@
 #include "array.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -24,15 +25,15 @@ void ArrayClear(Array *array) {
     if (array->data) stb__sbn(array->data) = 0;
 }
 
-void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
-    assert(newLen >= 0);
+void ArrayResize(Array *array, Tiny_Int newLen, Tiny_Value newValue) {
+    assert(newLen >= 0 && newLen <= INT_MAX);
 
     int len = array->data ? stb__sbn(array->data) : 0;
 
     if (newLen > len) {
         Tiny_Value *newValues = sb_add(&array->ctx, array->data, newLen - len);
 
-        for (int i = len; i < newLen; ++i) {
+        for (Tiny_Int i = len; i < newLen; ++i) {
             newValues[i - len] = newValue;
         }
     } else if (array->data) {
@@ -60,7 +61,7 @@ void ArrayShift(Array *array, Tiny_Value *value) {
     stb__sbn(array->data) -= 1;
 }
 
-void ArrayInsert(Array *array, int index, Tiny_Value value) {
+void ArrayInsert(Array *array, Tiny_Int index, Tiny_Value value) {
     int len = sb_count(array->data);
 
     assert(index >= 0 && index < len);
@@ -71,7 +72,7 @@ void ArrayInsert(Array *array, int index, Tiny_Value value) {
     memcpy(&array->data[index], &value, sizeof(Tiny_Value));
 }
 
-void ArrayRemove(Array *array, int index) {
+void ArrayRemove(Array *array, Tiny_Int index) {
     int len = sb_count(array->data);
 
     assert(index >= 0 && index < len);
@@ -80,13 +81,13 @@ void ArrayRemove(Array *array, int index) {
     stb__sbn(array->data) -= 1;
 }
 
-void ArraySet(Array *array, int index, Tiny_Value value) {
+void ArraySet(Array *array, Tiny_Int index, Tiny_Value value) {
     assert(index >= 0 && index < sb_count(array->data));
 
     memcpy(&array->data[index], &value, sizeof(value));
 }
 
-Tiny_Value *ArrayGet(Array *array, int index) {
+Tiny_Value *ArrayGet(Array *array, Tiny_Int index) {
     assert(index >= 0 && index < sb_count(array->data));
 
     return &array->data[index];
diff --git a/tiny/src/std.c b/tiny/src/std.c
index 926eb08..f95c7ee 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -54,7 +54,7 @@ static Tiny_Value Stridx(Tiny_StateThread *thread, const Tiny_Value *args, int c
     const char *s = Tiny_ToString(args[0]);
     size_t len = Tiny_StringLen(args[0]);
 
-    int i = Tiny_ToInt(args[1]);
+    Tiny_Int i = Tiny_ToInt(args[1]);
 
     assert(i >= 0 && i < len);
 
@@ -262,7 +262,7 @@ static TINY_FOREIGN_FUNCTION(Lib_ArrayClear) {
 
 static TINY_FOREIGN_FUNCTION(Lib_ArrayResize) {
     Array *array = Tiny_ToAddr(args[0]);
-    ArrayResize(array, (int)Tiny_ToNumber(args[1]), Tiny_Null);
+    ArrayResize(array, Tiny_ToInt(args[1]), Tiny_Null);
 
     return Tiny_Null;
 }
@@ -271,7 +271,7 @@ static TINY_FOREIGN_FUNCTION(Lib_ArrayResizeFill) {
     Array *array = Tiny_ToAddr(args[0]);
     Tiny_Value fillValue = args[2];
 
-    ArrayResize(array, (int)Tiny_ToNumber(args[1]), fillValue);
+    ArrayResize(array, Tiny_ToInt(args[1]), fillValue);
 
     return Tiny_Null;
 }
@@ -287,14 +287,14 @@ static TINY_FOREIGN_FUNCTION(Lib_ArrayPush) {
 
 static TINY_FOREIGN_FUNCTION(Lib_ArrayGet) {
     Array *array = Tiny_ToAddr(args[0]);
-    int index = Tiny_ToInt(args[1]);
+    Tiny_Int index = Tiny_ToInt(args[1]);
 
     return *ArrayGet(array, index);
 }
 
 static Tiny_Value Lib_ArraySet(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     Array *array = Tiny_ToAddr(args[0]);
-    int index = Tiny_ToInt(args[1]);
+    Tiny_Int index = Tiny_ToInt(args[1]);
     Tiny_Value value = args[2];
 
     ArraySet(array, index, value);
@@ -322,7 +322,7 @@ static Tiny_Value Lib_ArrayShift(Tiny_StateThread *thread, const Tiny_Value *arg
 
 static TINY_FOREIGN_FUNCTION(Lib_ArrayRemove) {
     Array *array = Tiny_ToAddr(args[0]);
-    int idx = Tiny_ToInt(args[1]);
+    Tiny_Int idx = Tiny_ToInt(args[1]);
 
     ArrayRemove(array, idx);
 
@@ -331,7 +331,7 @@ static TINY_FOREIGN_FUNCTION(Lib_ArrayRemove) {
 
 static TINY_FOREIGN_FUNCTION(Lib_ArrayInsert) {
     Array *array = Tiny_ToAddr(args[0]);
-    int idx = Tiny_ToInt(args[1]);
+    Tiny_Int idx = Tiny_ToInt(args[1]);
     Tiny_Value value = args[2];
 
     ArrayInsert(array, idx, value);
@@ -499,8 +499,8 @@ static Tiny_Value Lib_Substr(Tiny_StateThread *thread, const Tiny_Value *args, i
     const char *s = Tiny_ToString(args[0]);
     size_t sLen = Tiny_StringLen(args[0]);
 
-    int start = (int)Tiny_ToNumber(args[1]);
-    int end = (int)Tiny_ToNumber(args[2]);
+    Tiny_Int start = Tiny_ToInt(args[1]);
+    Tiny_Int end = Tiny_ToInt(args[2]);
 
     if (end == -1) {
         end = sLen;
@@ -515,7 +515,7 @@ static Tiny_Value Lib_Substr(Tiny_StateThread *thread, const Tiny_Value *args, i
     assert(end <= sLen);
 
     char *sub = Tiny_AllocUsingContext(thread->ctx, NULL, end - start + 1);
-    for (int i = start; i < end; ++i) {
+    for (Tiny_Int i = start; i < end; ++i) {
         sub[i - start] = s[i];
     }
     sub[end - start] = '\0';
-- 
2.43.0


From 10e50b4508e09e91368db04761aa8035ca222446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 45/58] fix: str_to_int keeps the full width of the integer

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f95c7ee..11e288c 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -539,7 +539,7 @@ static Tiny_Value Lib_Stoi(Tiny_StateThread *thread, const Tiny_Value *args, int
 
     long value = strtol(str, NULL, base);
 
-    return Tiny_NewInt((int)value);
+    return Tiny_NewInt(value);
 }
 
 static Tiny_Value Lib_Ntos(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-- 
2.43.0


From c3978ee356e0a7f815cff0e19c991e803950fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:19 +0000
Subject: [PATCH 46/58] fix: calling a function index that does not exist is
 caught

---
 tiny/src/tiny.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 4cdcc67..effcbee 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -596,7 +596,8 @@ void Tiny_SetGlobal(Tiny_StateThread *thread, int globalIndex, Tiny_Value value)
 
 Tiny_Value Tiny_CallFunction(Tiny_StateThread *thread, int functionIndex, const Tiny_Value *args,
                              int count) {
-    assert(thread->state && functionIndex >= 0);
+    assert(thread->state && functionIndex >= 0 &&
+           functionIndex < thread->state->numFunctions);
 
     int pc, fp, sp, fc;
 
-- 
2.43.0


From 8800c4e1bdfbb162c604ef3aa1603e0f02b3a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 47/58] fix: ntos keeps all digits of an integer and needs an
 argument

---
 tiny/src/std.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 11e288c..246e52d 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -542,16 +542,6 @@ static Tiny_Value Lib_Stoi(Tiny_StateThread *thread, const Tiny_Value *args, int
     return Tiny_NewInt(value);
 }
 
-static Tiny_Value Lib_Ntos(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    float num = Tiny_ToNumber(args[0]);
-
-    char buf[32];
-
-    int c = snprintf(buf, sizeof(buf), "%g", num);
-
-    return Tiny_NewStringCopy(thread, buf, c);
-}
-
 static TINY_FOREIGN_FUNCTION(Lib_IntToStr) {
     Tiny_Int i = Tiny_ToInt(args[0]);
 
@@ -562,6 +552,23 @@ static TINY_FOREIGN_FUNCTION(Lib_IntToStr) {
     return Tiny_NewStringCopy(thread, buf, len);
 }
 
+static Tiny_Value Lib_Ntos(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
+    assert(count >= 1);
+
+    if (args[0].type == TINY_VAL_INT) {
+        // The digits of an integer are all significant
+        return Lib_IntToStr(thread, args, count);
+    }
+
+    Tiny_Float num = Tiny_ToNumber(args[0]);
+
+    char buf[32];
+
+    int c = snprintf(buf, sizeof(buf), "%g", num);
+
+    return Tiny_NewStringCopy(thread, buf, c);
+}
+
 static Tiny_Value Lib_Time(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     return Tiny_NewInt((int)time(NULL));
 }
-- 
2.43.0


From be075df814bbe6faf6d3d8045952b6a5bd040409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:18 +0000
Subject: [PATCH 48/58] fix: the prompt of input may be any value

---
 tiny/src/std.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 246e52d..733811a 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -583,7 +583,9 @@ static Tiny_Value Rand(Tiny_StateThread *thread, const Tiny_Value *args, int cou
 }
 
 static Tiny_Value Lib_Input(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    if (count >= 1) printf("%s", Tiny_ToString(args[0]));
+    if (count >= 1 && Tiny_ToString(args[0])) {
+        printf("%.*s", (int)Tiny_StringLen(args[0]), Tiny_ToString(args[0]));
+    }
 
     char *buffer = Tiny_AllocUsingContext(thread->ctx, NULL, 8);
     size_t bufferLength = 0;
-- 
2.43.0


From 6d02a4052b9f5ccf7a4db72b4ab58dbeee559d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:00 +0000
Subject: [PATCH 49/58] fix: file functions use the whole width of sizes and
 positions

---
 tiny/src/std.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 733811a..30df8f0 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -99,24 +99,19 @@ static Tiny_Value Lib_Fsize(Tiny_StateThread *thread, const Tiny_Value *args, in
     long size = ftell(file);
     rewind(file);
 
-    return Tiny_NewInt((int)size);
+    return Tiny_NewInt(size);
 }
 
 static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
-    int num = (int)Tiny_ToNumber(args[1]);
+    Tiny_Int num = Tiny_ToInt(args[1]);
 
     if (num < 0) num = 0;
 
     // + 1 for null-terminator
-    char *str = Tiny_AllocUsingContext(thread->ctx, NULL, num + 1);
+    char *str = Tiny_AllocUsingContext(thread->ctx, NULL, (size_t)num + 1);
 
-    int readCount = fread(str, 1, num, file);
-
-    if (readCount < 0) {
-        Tiny_AllocUsingContext(thread->ctx, str, 0);
-        return Tiny_NewConstString("");
-    }
+    size_t readCount = fread(str, 1, (size_t)num, file);
 
     str[readCount] = '\0';
 
@@ -125,9 +120,9 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
 
 static Tiny_Value Lib_Fseek(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
-    int pos = (int)Tiny_ToNumber(args[1]);
+    Tiny_Int pos = Tiny_ToInt(args[1]);
 
-    fseek(file, pos, SEEK_SET);
+    fseek(file, (long)pos, SEEK_SET);
 
     return Tiny_Null;
 }
@@ -135,10 +130,13 @@ static Tiny_Value Lib_Fseek(Tiny_StateThread *thread, const Tiny_Value *args, in
 static Tiny_Value Lib_Fwrite(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
     const char *str = Tiny_ToString(args[1]);
-    int len = (int)Tiny_StringLen(args[1]);
-    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : len;
+    size_t num = Tiny_StringLen(args[1]);
 
-    if (num < 0 || num > len) num = len;
+    if (count == 3) {
+        Tiny_Float max = Tiny_ToNumber(args[2]);
+
+        if (max >= 0 && max < num) num = (size_t)max;
+    }
 
     return Tiny_NewInt(fwrite(str, 1, num, file));
 }
-- 
2.43.0


From 8a79e7fa5a1445778f63a4089fbd4cbe1268e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 50/58] fix: time() is not limited to 32 bits

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 30df8f0..6be0c34 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -568,7 +568,7 @@ static Tiny_Value Lib_Ntos(Tiny_StateThread *thread, const Tiny_Value *args, int
 }
 
 static Tiny_Value Lib_Time(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewInt((int)time(NULL));
+    return Tiny_NewInt(time(NULL));
 }
 
 static Tiny_Value SeedRand(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-- 
2.43.0


From ea65745e55aa721863f1ff828795e0fac1285030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:31 +0000
Subject: [PATCH 51/58] fix: call_function checks the whole function index

---
 tiny/src/std.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 6be0c34..da6099f 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1210,9 +1210,11 @@ static TINY_FOREIGN_FUNCTION(GetFunctionIndex) {
 
 static TINY_FOREIGN_FUNCTION(CallFunction) {
     assert(count >= 1);
-    int i = Tiny_ToInt(args[0]);
+    Tiny_Int i = Tiny_ToInt(args[0]);
+
+    assert(i >= 0 && i < thread->state->numFunctions);
 
-    return Tiny_CallFunction(thread, i, args + 1, count - 1);
+    return Tiny_CallFunction(thread, (int)i, args + 1, count - 1);
 }
 
 static TINY_FOREIGN_FUNCTION(GetExecutingLine) {
-- 
2.43.0


From 9d55095538d3e3a1726988d792f7ec279bd90d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:33 +0000
Subject: [PATCH 52/58] fix: use delegate works for functions without
 parameters

---
 tiny/src/std.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index da6099f..d86a9b3 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1166,14 +1166,15 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
         Tiny_RegisterType(state, typeBuf);
 
         char callBuf[512] = {0};
+        const char *sep = paramsUsed > 0 ? ", " : "";
 
         if (returnTag->type != TINY_SYM_TAG_VOID) {
             snprintf(callBuf, sizeof(callBuf),
-                     "func %s_call(f: %s, %s): %s { return cast(call_function(f, %s), %s) }",
-                     typeBuf, typeBuf, argsBuf, returnTagName, paramsBuf, returnTagName);
+                     "func %s_call(f: %s%s%s): %s { return cast(call_function(f%s%s), %s) }",
+                     typeBuf, typeBuf, sep, argsBuf, returnTagName, sep, paramsBuf, returnTagName);
         } else {
-            snprintf(callBuf, sizeof(callBuf), "func %s_call(f: %s, %s) { call_function(f, %s) }",
-                     typeBuf, typeBuf, argsBuf, paramsBuf);
+            snprintf(callBuf, sizeof(callBuf), "func %s_call(f: %s%s%s) { call_function(f%s%s) }",
+                     typeBuf, typeBuf, sep, argsBuf, sep, paramsBuf);
         }
 
         Tiny_CompileResult compileResult =
-- 
2.43.0


From 19cd3f6bac2b3103d7a31ba391caa2eb98edc542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 53/58] fix: str_to_json escapes what JSON does not allow in a
 string

---
 tiny/src/std.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index d86a9b3..846954e 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1073,11 +1073,34 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
             return Lib_Ntos(thread, args, count);
         case TINY_VAL_CONST_STRING:
         case TINY_VAL_STRING: {
-            // TODO(Apaar): Escape args[0] string
-            Tiny_Value forwardArgs[] = {Tiny_NewConstString("\""), args[0],
-                                        Tiny_NewConstString("\"")};
+            const char *s = Tiny_ToString(args[0]);
+            size_t len = Tiny_StringLen(args[0]);
 
-            return Strcat(thread, forwardArgs, sizeof(forwardArgs) / sizeof(forwardArgs[0]));
+            // Escaping makes a character at most 6 characters long
+            char *json = Tiny_AllocUsingContext(thread->ctx, NULL, len * 6 + 3);
+            size_t used = 0;
+
+            json[used++] = '"';
+
+            for (size_t i = 0; i < len; ++i) {
+                unsigned char c = s[i];
+
+                if (c < 0x20) {
+                    used += sprintf(&json[used], "\\u%04x", c);
+                    continue;
+                }
+
+                if (c == '"' || c == '\\') {
+                    json[used++] = '\\';
+                }
+
+                json[used++] = c;
+            }
+
+            json[used++] = '"';
+            json[used] = '\0';
+
+            return Tiny_NewString(thread, json, used);
         } break;
 
         default:
-- 
2.43.0


From 0a96325457338229975bcc7e92cbe2a5ad26d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 54/58] fix: infinities and NaN have no JSON number

---
 tiny/src/std.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 846954e..c185355 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1069,6 +1069,11 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
         case TINY_VAL_BOOL:
             return Tiny_NewConstString(args[0].boolean ? "true" : "false");
         case TINY_VAL_FLOAT:
+            if (!isfinite(args[0].f)) {
+                // JSON has no way to write these
+                return Tiny_NewConstString("null");
+            }
+            // fallthrough
         case TINY_VAL_INT:
             return Lib_Ntos(thread, args, count);
         case TINY_VAL_CONST_STRING:
-- 
2.43.0


From eef5ece6ee57439bee3ff89faea2e79c37cdc830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:30 +0000
Subject: [PATCH 55/58] fix: printf prints arrays of ints, floats and bools
 like other arrays

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index c185355..341c827 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -643,7 +643,7 @@ static void Print(Tiny_Value val, bool repr) {
             printf("<light native at %p>", val.addr);
             break;
         case TINY_VAL_NATIVE: {
-            if (repr && val.obj->nat.prop == &ArrayProp) {
+            if (repr && (val.obj->nat.prop == &ArrayProp || val.obj->nat.prop == &PrimitiveArrayProp)) {
                 printf("[");
 
                 Array *array = val.obj->nat.addr;
-- 
2.43.0


From 629aa07c72a37dc8e3d4162ae937de813565a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:22 +0000
Subject: [PATCH 56/58] fix: use json on a struct that contains itself is an
 error instead of an endless recursion

---
 tiny/src/std.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 341c827..3a3025f 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -823,7 +823,14 @@ static bool AppendFormat(char *buf, size_t size, int *used, const char *fmt, ...
     return true;
 }
 
-static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym) {
+// The structs whose serializers are being generated, innermost first
+typedef struct JsonNesting {
+    const Tiny_Symbol *sym;
+    const struct JsonNesting *outer;
+} JsonNesting;
+
+static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym,
+                                                  const JsonNesting *outer) {
     if (sym->type == TINY_SYM_TAG_FOREIGN) {
         // For foreign types, it's up to the calling code to set up an appropriate serializer.
         // We can't do it automatically.
@@ -850,6 +857,17 @@ static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_
         return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
     }
 
+    for (const JsonNesting *nesting = outer; nesting; nesting = nesting->outer) {
+        if (nesting->sym == sym) {
+            return (Tiny_MacroResult){
+                .type = TINY_MACRO_ERROR,
+                .error.msg = "A struct that contains itself is not supported by 'use json'",
+            };
+        }
+    }
+
+    const JsonNesting nesting = {sym, outer};
+
     AppendFormat(buf, sizeof(buf), &used,
                  "func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t", sym->name,
                  sym->name);
@@ -861,7 +879,7 @@ static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_
 
         const Tiny_Symbol *fieldSym = sym->sstruct.fields[i];
 
-        Tiny_MacroResult fieldResult = BindJsonSerializerForType(state, fieldSym->fieldTag);
+        Tiny_MacroResult fieldResult = BindJsonSerializerForType(state, fieldSym->fieldTag, &nesting);
 
         if (fieldResult.type != TINY_MACRO_SUCCESS) {
             return fieldResult;
@@ -909,7 +927,7 @@ static TINY_MACRO_FUNCTION(JsonMacroFunction) {
         };
     }
 
-    return BindJsonSerializerForType(state, sym);
+    return BindJsonSerializerForType(state, sym, NULL);
 }
 
 static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
-- 
2.43.0


From 695b8cd3dd13315ced8d92f6b4485b42c22aee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:48 +0000
Subject: [PATCH 57/58] fix: use delegate does not mix up signatures whose type
 names run together

---
 tiny/src/std.c | 50 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 3a3025f..81c0d06 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1141,6 +1141,35 @@ static Tiny_MacroResult DelegateCompileError(const Tiny_CompileResult *compileRe
     return macroResult;
 }
 
+static int DelegateParamCount(const Tiny_Symbol *func) {
+    return (int)Tiny_SymbolArrayCount(func->type == TINY_SYM_FUNCTION ? func->func.args
+                                                                      : func->foreignFunc.argTags);
+}
+
+static const Tiny_Symbol *DelegateParamTag(const Tiny_Symbol *func, int i) {
+    return func->type == TINY_SYM_FUNCTION ? func->func.args[i]->var.tag
+                                           : func->foreignFunc.argTags[i];
+}
+
+static const Tiny_Symbol *DelegateReturnTag(const Tiny_Symbol *func) {
+    return func->type == TINY_SYM_FUNCTION ? func->func.returnTag : func->foreignFunc.returnTag;
+}
+
+// Whether the function which calls a delegate (whose first parameter is the delegate itself)
+// takes and returns exactly what func does
+static bool DelegateCallMatches(const Tiny_Symbol *callFunc, const Tiny_Symbol *func) {
+    if (!callFunc || DelegateParamCount(callFunc) != DelegateParamCount(func) + 1 ||
+        DelegateReturnTag(callFunc) != DelegateReturnTag(func)) {
+        return false;
+    }
+
+    for (int i = 0; i < DelegateParamCount(func); ++i) {
+        if (DelegateParamTag(callFunc, i + 1) != DelegateParamTag(func, i)) return false;
+    }
+
+    return true;
+}
+
 static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
     if (nargs != 1) {
         return (Tiny_MacroResult){
@@ -1175,26 +1204,21 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
         };
     }
 
-    for (int i = 0;
-         i < Tiny_SymbolArrayCount(func->type == TINY_SYM_FUNCTION ? func->func.args
-                                                                   : func->foreignFunc.argTags);
-         ++i) {
+    for (int i = 0; i < DelegateParamCount(func); ++i) {
         if (i > 0) {
             AppendFormat(typeBuf, sizeof(typeBuf), &typeUsed, "_");
             AppendFormat(argsBuf, sizeof(argsBuf), &argsUsed, ", ");
             AppendFormat(paramsBuf, sizeof(paramsBuf), &paramsUsed, ", ");
         }
 
-        const Tiny_Symbol *argTag = func->type == TINY_SYM_FUNCTION ? func->func.args[i]->var.tag
-                                                                    : func->foreignFunc.argTags[i];
+        const Tiny_Symbol *argTag = DelegateParamTag(func, i);
 
         AppendFormat(typeBuf, sizeof(typeBuf), &typeUsed, "%s", argTag->name);
         AppendFormat(argsBuf, sizeof(argsBuf), &argsUsed, "a%d: %s", i, argTag->name);
         AppendFormat(paramsBuf, sizeof(paramsBuf), &paramsUsed, "a%d", i);
     }
 
-    const Tiny_Symbol *returnTag =
-        func->type == TINY_SYM_FUNCTION ? func->func.returnTag : func->foreignFunc.returnTag;
+    const Tiny_Symbol *returnTag = DelegateReturnTag(func);
 
     const char *returnTagName = returnTag->name;
 
@@ -1229,6 +1253,16 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
         if (compileResult.type != TINY_COMPILE_SUCCESS) {
             return DelegateCompileError(&compileResult);
         }
+    } else {
+        char callName[sizeof(typeBuf) + 8] = {0};
+        snprintf(callName, sizeof(callName), "%s_call", typeBuf);
+
+        if (!DelegateCallMatches(Tiny_FindFuncSymbol(state, callName), func)) {
+            return (Tiny_MacroResult){
+                .type = TINY_MACRO_ERROR,
+                .error.msg = "The delegate type of the function has the same name as another type",
+            };
+        }
     }
 
     if (!Tiny_FindFuncSymbol(state, asName)) {
-- 
2.43.0


From 6c1e3e4940def179111c19e841eee8000f9c6cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:04 +0000
Subject: [PATCH 58/58] fix: refuse a token after new that is no identifier

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index effcbee..126a820 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1979,7 +1979,7 @@ static Tiny_Expr *ParseValue(Tiny_State *state) {
         case TINY_TOK_NEW: {
             Tiny_Expr *exp = Expr_create(TINY_EXP_CONSTRUCTOR, state);
 
-            GetNextToken(state);
+            GetExpectTokenSL(state, TINY_TOK_IDENT, "Expected struct name after 'new'.");
 
             Tiny_Symbol *tag = DeclareStruct(state, state->l.lexeme, true);
 
-- 
2.43.0

