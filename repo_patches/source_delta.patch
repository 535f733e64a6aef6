From 21e9060ea8969281199266e590e2c0e0b1e0ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 01/72] fix: exit non-zero whenever compilation is aborted,
 whatever the verbosity

---
 src/compiler/error/default.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index 75012fe..33c2265 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -73,16 +73,13 @@ void default_panic_handler(Context_T* context)
     if(!context->flags.silent)
     {
         if(context->emitted_errors && context->emitted_warnings)
-        {
             LOG_ERROR_F(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " %u error%s and %u warning%s thrown during code validation; aborting.\n", context->emitted_errors, context->emitted_errors == 1 ? "" : "s", context->emitted_warnings, context->emitted_warnings == 1 ? "" : "s");
-            exit(1);
-        }
         else if(context->emitted_errors)
-        {
             LOG_ERROR_F(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " %u error%s thrown during code validation; aborting.\n", context->emitted_errors, context->emitted_errors == 1 ? "" : "s");
-            exit(1);
-        }
         else if(context->emitted_warnings)
             LOG_WARN_F(COLOR_BOLD_YELLOW "[Warning]" COLOR_RESET COLOR_YELLOW " %u warning%s thrown during code validation\n", context->emitted_warnings, context->emitted_warnings == 1 ? "" : "s");
     }
+
+    // the panic handler is only invoked if something failed, so never let the caller go on
+    exit(1);
 }
-- 
2.43.0


From 553ba41c203cb95bb84e4d7495cead5b0b53bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 02/72] fix: report signal-killed, interrupted and unstartable
 subprocesses truthfully

---
 src/compiler/platform/linux/linux_platform.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/compiler/platform/linux/linux_platform.c b/src/compiler/platform/linux/linux_platform.c
index a59a4b8..75de863 100644
--- a/src/compiler/platform/linux/linux_platform.c
+++ b/src/compiler/platform/linux/linux_platform.c
@@ -48,6 +48,7 @@ bool make_dir(char* path)
 
 i32 subprocess(const char* p_name, char* const* p_arg, bool print_exit_msg)
 {
+    fflush(OUTPUT_STREAM); // buffered output must not be duplicated into the subprocess
     pid_t pid = fork();
 
     if(pid < 0)
@@ -59,12 +60,15 @@ i32 subprocess(const char* p_name, char* const* p_arg, bool print_exit_msg)
     if(pid == 0 && execvp(p_name, p_arg) == -1)
     {
         LOG_ERROR_F("error executing %s: %s\n", p_name, strerror(errno));
-        exit(-1);
+        fflush(OUTPUT_STREAM);
+        _exit(-1); // exit() would run the exit handlers of the parent process
     }
 
     i32 pid_status;
-    if(waitpid(pid, &pid_status, 0) == -1)
+    while(waitpid(pid, &pid_status, 0) == -1)
     {
+        if(errno == EINTR)
+            continue;
         LOG_ERROR_F("error getting status of child process %d\n", pid);
         return -1;
     }
@@ -86,6 +90,10 @@ i32 subprocess(const char* p_name, char* const* p_arg, bool print_exit_msg)
 #endif
     }
 
+    // a process killed by a signal has not succeeded, report it like a shell does
+    if(WIFSIGNALED(pid_status))
+        return 128 + WTERMSIG(pid_status);
+
     return WEXITSTATUS(pid_status);
 }
 
-- 
2.43.0


From be6c35f4499d0c4169929ef12cd5392cd60c64d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 03/72] fix: run executes the built program, not a PATH lookup,
 and returns its exit status

---
 src/compiler/main.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index ed0d3e0..209c4a5 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -368,6 +368,7 @@ i32 main(i32 argc, char* argv[])
 
     compile(&context, input_file, output_file);
 
+    i32 exit_code = 0;
     switch(action)
     {
         case AC_BUILD:
@@ -378,7 +379,10 @@ i32 main(i32 argc, char* argv[])
             break;
         default:
             if(context.flags.run_after_compile)
+            {
                 run(&context, output_file);
+                exit_code = context.last_exit_code;
+            }
             break;
     }
 
@@ -387,7 +391,7 @@ i32 main(i32 argc, char* argv[])
 
     free_context(&context);
 
-    return 0;
+    return exit_code;
 }
 
 static void evaluate_info_flags(Context_T* context, char* argv)
@@ -451,6 +455,7 @@ static void run(Context_T* context, char* filename)
     if(!context->flags.do_assembling || !context->flags.do_linking) 
     {
         LOG_OK(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " cannot execute target since no executable was generated.\n");
+        context->last_exit_code = 1;
         return;
     }
 
@@ -467,7 +472,11 @@ static void run(Context_T* context, char* filename)
         memcpy(argv + 1, context->args.argv, context->args.argc * sizeof(const char*));
     argv[context->args.argc + 1] = NULL;
 
-    context->last_exit_code = subprocess(filename, (char* const*) argv, !context->flags.silent);
+    // a file name without a directory must not be searched for in PATH
+    char exec_path[strlen(filename) + 3];
+    sprintf(exec_path, "%s%s", strchr(filename, '/') ? "" : "./", filename);
+
+    context->last_exit_code = subprocess(exec_path, (char* const*) argv, !context->flags.silent);
     timer_stop(context);
 }
 
-- 
2.43.0


From c36715db1c840f99f58faddad6711c6e82b24262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 04/72] fix: detect read and write errors of source and
 intermediate files

---
 src/compiler/codegen/asm/asm_codegen.c      |  3 +--
 src/compiler/codegen/transpiler/c_codegen.c |  3 +--
 src/compiler/io/io.c                        | 18 ++++++++++++++++--
 src/compiler/io/io.h                        |  1 +
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index dc999d6..3e9d528 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -239,8 +239,7 @@ static void write_code(ASMCodegenData_T* cg, const char* target, bool cachefile)
     fclose(cg->code_buffer);
 
     FILE* out = open_file(file_path);
-    fwrite(cg->buf, cg->buf_len, 1, out);
-    fclose(out);
+    close_written_file(out, file_path, fwrite(cg->buf, 1, cg->buf_len, out) == cg->buf_len);
 }
 
 i32 asm_codegen_pass(Context_T* context, ASTProg_T* ast)
diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 39e3af8..9438747 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -306,8 +306,7 @@ static void write_code(CCodegenData_T* cg, const char* target, bool cachefile)
     fclose(cg->code_buffer);
 
     FILE* out = open_file(file_path);
-    fwrite(cg->buf, cg->buf_len, 1, out);
-    fclose(out);
+    close_written_file(out, file_path, fwrite(cg->buf, 1, cg->buf_len, out) == cg->buf_len);
 }
 
 i32 transpiler_pass(Context_T* context, ASTProg_T* ast)
diff --git a/src/compiler/io/io.c b/src/compiler/io/io.c
index dceab69..fbbd78b 100755
--- a/src/compiler/io/io.c
+++ b/src/compiler/io/io.c
@@ -36,6 +36,12 @@ File_T* read_file(const char* path)
         list_push(buffer_list, strdup(line));
     }
 
+    if(ferror(fp))
+    {
+        LOG_ERROR_F("Could not read file '%s': %s\n", path, strerror(errno));
+        exit(1);
+    }
+
     fclose(fp);
     if(line) 
     {
@@ -70,8 +76,16 @@ void write_file(const char* path, char* buffer)
         exit(1);
     }
 
-    fprintf(fp, "%s", buffer);
-    fclose(fp);
+    close_written_file(fp, path, fputs(buffer, fp) >= 0);
+}
+
+void close_written_file(FILE* fp, const char* path, bool written)
+{
+    if(fclose(fp) != 0 || !written)
+    {
+        LOG_ERROR_F("[ERROR] IO: could not write file '%s': %s\n", path, strerror(errno));
+        exit(1);
+    }
 }
 
 bool file_exists(const char* file)
diff --git a/src/compiler/io/io.h b/src/compiler/io/io.h
index e450bff..2bd130a 100755
--- a/src/compiler/io/io.h
+++ b/src/compiler/io/io.h
@@ -10,6 +10,7 @@
 
 File_T* read_file(const char* path);
 void write_file(const char* path, char* buffer);
+void close_written_file(FILE* fp, const char* path, bool written); // exits if `fp` could not be written completely
 FILE *open_file(char *path);
 
 bool file_exists(const char* file);
-- 
2.43.0


From 19739c1b9b3c03435adf4f921b077d3967d99082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 05/72] fix: -c with the C backend writes the requested object
 file

---
 src/compiler/codegen/transpiler/c_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 9438747..3b7e6d8 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -439,7 +439,7 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
     else
     {
         char obj_file[BUFSIZ] = {'\0'};
-        get_cached_file_path(obj_file, target, ".o");
+        sprintf(obj_file, "%s.o", target);
 
         const char* args[] = {
             cg->context->cc,
-- 
2.43.0


From 636372bd9916b82d9d014ddf2ae72a6fe1b54671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 06/72] fix: give targets in different directories separate
 cached intermediate files

---
 src/compiler/codegen/asm/asm_codegen.c      |  2 +-
 src/compiler/codegen/transpiler/c_codegen.c |  2 +-
 src/compiler/io/io.c                        | 12 +++++++++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 3e9d528..fadab80 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -231,7 +231,7 @@ static void write_code(ASMCodegenData_T* cg, const char* target, bool cachefile)
             LOG_ERROR("error creating cache directory `" DIRECTORY_DELIMS CACHE_DIR DIRECTORY_DELIMS "`.\n");
             throw(cg->context->main_error_exception);
         }
-        sprintf(file_path, "%s" DIRECTORY_DELIMS "%s.s", cache_dir, basename((char*) target));
+        get_cached_file_path(file_path, target, ".s");
     }
     else
         sprintf(file_path, "%s.s", basename((char*) target));
diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 3b7e6d8..3efa640 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -298,7 +298,7 @@ static void write_code(CCodegenData_T* cg, const char* target, bool cachefile)
             LOG_ERROR("error creating cache directory `" DIRECTORY_DELIMS CACHE_DIR DIRECTORY_DELIMS "`.\n");
             throw(cg->context->main_error_exception);
         }
-        sprintf(file_path, "%s" DIRECTORY_DELIMS "%s.c", cache_dir, basename((char*) target));
+        get_cached_file_path(file_path, target, ".c");
     }
     else
         sprintf(file_path, "%s.c", basename((char*) target));
diff --git a/src/compiler/io/io.c b/src/compiler/io/io.c
index fbbd78b..b2ca85d 100755
--- a/src/compiler/io/io.c
+++ b/src/compiler/io/io.c
@@ -173,7 +173,17 @@ char* get_cached_file_path(char* buffer, const char* filename, const char* filee
     get_cache_dir(buffer);
     strcat(buffer, DIRECTORY_DELIMS);
 
-    strcat(buffer, basename((char*) filename));
+    // targets with the same name in different directories must not share their cached files
+    char cwd[BUFSIZ] = {'\0'};
+    u64 hash = 0xcbf29ce484222325ULL; // FNV-1a of the absolute path
+    if(filename[0] != '/' && getcwd(cwd, sizeof(cwd) - 1))
+        strcat(cwd, DIRECTORY_DELIMS);
+    for(const char* c = cwd; *c; c++)
+        hash = (hash ^ (u8) *c) * 0x100000001b3ULL;
+    for(const char* c = filename; *c; c++)
+        hash = (hash ^ (u8) *c) * 0x100000001b3ULL;
+
+    sprintf(buffer + strlen(buffer), "%s-%016llx", basename((char*) filename), (unsigned long long) hash);
     if(fileextension)
         strcat(buffer, fileextension);
     return buffer;
-- 
2.43.0


From 0bf6505590d568eb8ff09aaf7d28917a2c52d59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 07/72] fix: list_insert moved items the wrong way and wrote
 behind the list

---
 src/compiler/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/list.c b/src/compiler/list.c
index 114c9c5..ed177dd 100755
--- a/src/compiler/list.c
+++ b/src/compiler/list.c
@@ -74,7 +74,7 @@ void list_insert(List_T* list, void* item, size_t index)
 
     list_push(list, NULL);
 
-    for(size_t i = list->size - 1; i > index; i++)
+    for(size_t i = list->size - 1; i > index; i--)
         list->items[i] = list->items[i - 1];
     
     list->items[index] = item;
-- 
2.43.0


From ed9ebec8d77d86755f97ca36cf07b5995d476923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 08/72] fix: lexer overran its buffers on long tokens and did
 not end in a number at the end of a file

---
 src/compiler/lexer/lexer.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 923ff82..61cfde1 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -157,6 +157,17 @@ static void lexer_advance(Lexer_T* lexer)
     lexer->c = get_char(lexer->file, lexer->line, lexer->pos);
 }
 
+// appends the current character to the lexer's buffer
+static void lexer_buffer_char(Lexer_T* lexer)
+{
+    size_t len = strlen(lexer->tmp_buffer);
+    if(len + 2 > lexer->tmp_buffer_size)
+        lexer->tmp_buffer = realloc(lexer->tmp_buffer, lexer->tmp_buffer_size *= 2);
+
+    lexer->tmp_buffer[len] = lexer->c;
+    lexer->tmp_buffer[len + 1] = '\0';
+}
+
 static char lexer_peek(Lexer_T* lexer, int offset)
 {
     if(lexer->pos + offset >= get_line_len(lexer->file, lexer->line))
@@ -270,7 +281,7 @@ static Token_T* lexer_get_id(Lexer_T* lexer)
 
     while(isalnum(lexer->c) || lexer->c == '_' || lexer->c == '?' || lexer->c == '\'')
     {
-        strcat(lexer->tmp_buffer, (char[]){lexer->c, '\0'});
+        lexer_buffer_char(lexer);
         lexer_advance(lexer);
     }
 
@@ -296,14 +307,14 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
 
     *lexer->tmp_buffer = '\0';
 
-    while(strchr(digits, lexer->c))
+    while(lexer->c && strchr(digits, lexer->c))
     {
         if(lexer->c == '_')
         {
             lexer_advance(lexer);
             continue;
         }
-        strcat(lexer->tmp_buffer, (char[2]){lexer->c, '\0'});
+        lexer_buffer_char(lexer);
 
         lexer_advance(lexer);
     }
@@ -328,7 +339,7 @@ static Token_T* lexer_get_decimal(Lexer_T* lexer)
             continue;
         }
 
-        strcat(lexer->tmp_buffer, (char[2]){lexer->c, '\0'});
+        lexer_buffer_char(lexer);
 
         if(lexer->c == '.')
         {   
@@ -381,7 +392,7 @@ static Token_T* lexer_get_str(Lexer_T* lexer)
 
     while(lexer->c != '"' || (lexer_peek(lexer, -1) == '\\' && lexer_peek(lexer, -2) != '\\'))
     {
-        if(strlen(buffer) - 3 >= length)
+        if(strlen(buffer) + 2 > length)
             buffer = realloc(buffer, length *= 2);
 
         strcat(buffer, (char[2]){lexer->c, '\0'});
@@ -478,7 +489,7 @@ static Token_T* lexer_get_operator(Lexer_T* lexer)
 
     while(is_operator_char(lexer->c))
     {
-        strcat(lexer->tmp_buffer, (char[]){lexer->c, '\0'});
+        lexer_buffer_char(lexer);
         lexer_advance(lexer);
     }
 
@@ -540,7 +551,7 @@ static Token_T* lexer_get_symbol(Lexer_T* lexer)
                 return init_token(&lexer->context->raw_allocator, "EOF", lexer->line, lexer->pos, TOKEN_EOF, lexer->file);
             }
             else
-                throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, &lexer->c, lexer->line, lexer->pos, TOKEN_ERROR, lexer->file), "unknown token `%c` (id: %d)", lexer->c, lexer->c);
+                throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, (char[]){lexer->c, '\0'}, lexer->line, lexer->pos, TOKEN_ERROR, lexer->file), "unknown token `%c` (id: %d)", lexer->c, lexer->c);
         }
     }
     // satisfy -Wall
-- 
2.43.0


From ae95b7a81a5589e7f04871a675df89a3481e54cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 09/72] fix: parser read tokens behind the end of a file,
 crashes on incomplete declarations

---
 src/compiler/ast/types.c         | 2 +-
 src/compiler/ast/types.h         | 2 +-
 src/compiler/parser/directives.c | 2 +-
 src/compiler/parser/parser.c     | 7 ++++++-
 src/compiler/parser/validator.c  | 6 +++++-
 5 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/compiler/ast/types.c b/src/compiler/ast/types.c
index 53f44fe..933c31e 100644
--- a/src/compiler/ast/types.c
+++ b/src/compiler/ast/types.c
@@ -47,7 +47,7 @@ const struct StrTypeIdx str_type_map[NUM_TYPES] = { // a lookup-chart to find th
     {"bool", TY_BOOL},
 };
 
-const int type_byte_size_map[NUM_TYPES] = { // a array to find the size in bytes of primitive data types
+const int type_byte_size_map[TY_KIND_LEN] = { // a array to find the size in bytes of primitive data types
     [TY_I8]  = I8_S,
     [TY_I16] = I16_S,
     [TY_I32] = I32_S,
diff --git a/src/compiler/ast/types.h b/src/compiler/ast/types.h
index 1b43863..b03c46e 100644
--- a/src/compiler/ast/types.h
+++ b/src/compiler/ast/types.h
@@ -33,7 +33,7 @@ extern const struct StrTypeIdx str_type_map[NUM_TYPES];
 
 extern const ASTType_T* primitives[NUM_TYPES];
 
-extern const int type_byte_size_map[NUM_TYPES];
+extern const int type_byte_size_map[TY_KIND_LEN];
 
 extern const ASTType_T* char_ptr_type;
 extern const ASTType_T* void_ptr_type;
diff --git a/src/compiler/parser/directives.c b/src/compiler/parser/directives.c
index 0319aac..b2cca23 100644
--- a/src/compiler/parser/directives.c
+++ b/src/compiler/parser/directives.c
@@ -235,7 +235,7 @@ void parse_directives(Parser_T* p, List_T* objects, bool in_extern_block, bool i
     else
         parse_obj(p, objects);
     if(objects->size == old_obj_list_size)
-        throw_error(parser_context(p), ERR_UNDEFINED, parser_peek(p, 0), "directive `%s` requires an object [const, fn, type, namespace] after `]`");
+        throw_error(parser_context(p), ERR_UNDEFINED, parser_peek(p, 0), "directive requires an object [const, fn, type, namespace] after `]`");
 
     obj = objects->items[objects->size - 1];
 
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index c6178de..53019d5 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -366,6 +366,9 @@ static inline bool streq(char* s1, char* s2)
 
 static inline Token_T* parser_advance(Parser_T* p)
 {
+    if(p->tok->type == TOKEN_EOF)
+        throw_error(p->context, ERR_SYNTAX_ERROR, p->tok, "unexpected end of file");
+
     p->tok = p->tokens->items[++p->token_i];
     if(p->tok->type == TOKEN_SEMICOLON && streq(p->tok->value, ";"))
         throw_error(p->context, ERR_SYNTAX_WARNING, p->tok, "found `;` (greek question mark) instead of `;` (semicolon)");
@@ -386,8 +389,10 @@ inline Token_T* parser_peek(Parser_T* p, i32 level)
 {
     if(level == 0)
         return p->tok;
-    if(p->token_i + level >= p->tokens->size || p->token_i + level <= 0)
+    if(p->token_i + level <= 0)
         return NULL;
+    if(p->token_i + level >= p->tokens->size)
+        return p->tokens->items[p->tokens->size - 1]; // there is nothing but EOF behind the last token
     return p->tokens->items[p->token_i + level];
 }
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 719fa7f..f5dde39 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -423,7 +423,11 @@ static void enter_type_scope(ASTType_T* type, va_list args)
     case TY_STRUCT:
         begin_scope(v, NULL);
         for(size_t i = 0; i < type->members->size; i++)
-            scope_register_node(v, type->members->items[i]);
+        {
+            ASTNode_T* member = type->members->items[i];
+            if(member->id) // embedded structs don't have a name
+                scope_register_node(v, member);
+        }
         break;
     default:
         break;
-- 
2.43.0


From 4960d437f90df3629f604afd85456a93ab3958e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 10/72] fix: error handlers crashed on unnamed objects and cut
 the source lines they print

---
 src/compiler/error/default.c | 13 +++++++++----
 src/compiler/util.c          |  4 ++--
 src/linter/error.c           |  2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index 33c2265..929f63e 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -8,10 +8,11 @@
 #include <stddef.h>
 #include <string.h>
 #include <stdio.h>
+#include <stdlib.h>
 
 static void print_current_fn(Context_T* context) {
     static ASTObj_T* last_obj = NULL; // remember the last function to eliminate duplication in multiple errors of the same function
-    if(context->current_obj && *context->current_obj && *context->current_obj != last_obj) 
+    if(context->current_obj && *context->current_obj && (*context->current_obj)->id && *context->current_obj != last_obj) 
     {
         char buf[BUFSIZ] = {};
         fprintf(
@@ -45,7 +46,9 @@ void default_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, con
                             "%*s | " COLOR_BOLD_BLUE "%*s^"; // the pointer to the error in the source
     const char err_tmp3[] = "-here" COLOR_RESET "\n";        // the end of the error message
 
-    char* raw_src_line = get_line(tok->source, tok->line);
+    // trim a copy, the lines of the source file must stay as they are on disk
+    char* tok_line = get_line(tok->source, tok->line);
+    char* raw_src_line = strdup(tok_line ? tok_line : "");
     char* src_line = trim(raw_src_line);
     ptrdiff_t trim_offset = src_line - raw_src_line;
 
@@ -59,12 +62,14 @@ void default_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, con
 
     fprintf(ERR_OUTPUT_STREAM, err_tmp1, source_file_path, (long) line, (long) character, is_error ? COLOR_BOLD_RED : COLOR_BOLD_YELLOW, error_str);
     vfprintf(ERR_OUTPUT_STREAM, format, args);
-    fprintf(ERR_OUTPUT_STREAM, err_tmp2, ERR_LINE_NUMBER_SPACES, line, src_line, src_line[strlen(src_line) - 1] == '\n' ? "" : "\n ", 
+    fprintf(ERR_OUTPUT_STREAM, err_tmp2, ERR_LINE_NUMBER_SPACES, line, src_line, "\n ",
             ERR_LINE_NUMBER_SPACES, "", (int) (character - strlen(tok->value) - trim_offset), "");
 
-    for(u32 i = 0; i < strlen(tok->value) - 1; i++)
+    for(size_t i = 1; i < strlen(tok->value); i++)
         putc('~', ERR_OUTPUT_STREAM);
     fprintf(ERR_OUTPUT_STREAM, err_tmp3);
+
+    free(raw_src_line);
 }
 
 void default_panic_handler(Context_T* context) 
diff --git a/src/compiler/util.c b/src/compiler/util.c
index 1f14ef6..fbf66c0 100644
--- a/src/compiler/util.c
+++ b/src/compiler/util.c
@@ -95,8 +95,8 @@ char *trim(char* string)
 
     // trim right
     char* back = string + strlen(string);
-    while(isspace(*--back));
-    back[1] = '\0';
+    while(back > string && isspace(back[-1])) back--;
+    *back = '\0';
 
     return string;
 }
diff --git a/src/linter/error.c b/src/linter/error.c
index 3543680..2754124 100644
--- a/src/linter/error.c
+++ b/src/linter/error.c
@@ -14,7 +14,7 @@ void linter_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, cons
 
     fprintf(OUTPUT_FILE, "%s: %u\nfile: %s\nline: %u\ncol: %u\n", is_error ? "error" : "warning", is_error ? context->emitted_errors : context->emitted_warnings, source_file_path, tok->line + 1, tok->pos + 1);
     
-    if(context->current_obj && *context->current_obj) 
+    if(context->current_obj && *context->current_obj && (*context->current_obj)->id) 
     {
         char buf[BUFSIZ] = {};
         fprintf(OUTPUT_FILE,
-- 
2.43.0


From 9226a541d64f3233452cede9645cba8c036d22e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 11/72] fix: csp-lint jumped to an uninitialised handler when
 linting aborted

---
 src/linter/linter.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/linter/linter.c b/src/linter/linter.c
index ffab7f3..d7eb072 100644
--- a/src/linter/linter.c
+++ b/src/linter/linter.c
@@ -1,5 +1,6 @@
 #include "linter.h"
 
+#include <error/panic.h>
 #include <passes.h>
 
 i32 lint(Context_T* context, char* src_file, char* std_path)
@@ -10,12 +11,21 @@ i32 lint(Context_T* context, char* src_file, char* std_path)
     context->paths.std_path = std_path;
     context->paths.target = "/dev/null";
 
-    initialization_pass(context, &ast);
-    lexer_pass(context, &ast);
-    preprocessor_pass(context, &ast);
-    parser_pass(context, &ast);
-    validator_pass(context, &ast);
-    cleanup_pass(context, &ast);
+    try(context->main_error_exception)
+    {
+        initialization_pass(context, &ast);
+        lexer_pass(context, &ast);
+        preprocessor_pass(context, &ast);
+        parser_pass(context, &ast);
+        validator_pass(context, &ast);
+        if(context->emitted_errors)
+            panic(context);
+        cleanup_pass(context, &ast);
+    }
+    catch {
+        get_panic_handler()(context);
+        return 1;
+    }
 
     return context->emitted_errors != 0 || context->emitted_warnings != 0;
 }
-- 
2.43.0


From c67f199df33921be4642ac21dcb94c6bb5c936d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 12/72] fix: concatenating identifiers in a macro changed the
 macro's own tokens

---
 src/compiler/preprocessor/preprocessor.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index ad063e1..85c37cd 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -486,9 +486,12 @@ static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_
             list_pop(dest_list);
             list_pop(dest_list);
 
-            u64 prev_size = sizeof(Token_T) + strlen(id->value) * sizeof(char);
-            dest_list->items[dest_list->size - 1] = id = allocator_realloc(&pp->context->raw_allocator, id, prev_size + (strlen(current->value) + 1) * sizeof(char));
-            strcat(id->value, current->value);
+            // the macro still owns the first identifier, so put the concatenation into a new token
+            Token_T* concatenated = allocator_malloc(&pp->context->raw_allocator, sizeof(Token_T) + strlen(id->value) + strlen(current->value) + 1);
+            memcpy(concatenated, id, sizeof(Token_T));
+            strcpy(concatenated->value, id->value);
+            strcat(concatenated->value, current->value);
+            dest_list->items[dest_list->size - 1] = concatenated;
         }
     }
 }
-- 
2.43.0


From 065297ff0003d0337bcaa9647cc496e1012171fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 13/72] fix: live lint session missed edits made between
 reading and watching, replaced files and broken imports

---
 src/compiler/preprocessor/preprocessor.c |  4 +-
 src/linter/live.c                        | 47 +++++++++++++++++++++++-
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index 85c37cd..aaba744 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -220,6 +220,8 @@ static void parse_import_def(Preprocessor_T* pp, List_T* token_list, size_t* i)
     import_file->path = strdup(imp->import_path);
     CONTEXT_ALLOC_REGISTER(pp->context, (void*) import_file->path);
 
+    list_push(pp->files, import_file);
+
     Lexer_T import_lexer;
     init_lexer(&import_lexer, pp->context, import_file);
     
@@ -232,8 +234,6 @@ static void parse_import_def(Preprocessor_T* pp, List_T* token_list, size_t* i)
     Token_T* tok;
     for(tok = lexer_next_token(&import_lexer); tok->type != TOKEN_EOF; tok = lexer_next_token(&import_lexer))  
         push_tok(pp, tok);
-    
-    list_push(pp->files, import_file);
 }
 
 //
diff --git a/src/linter/live.c b/src/linter/live.c
index 9260a2c..8c73fa0 100644
--- a/src/linter/live.c
+++ b/src/linter/live.c
@@ -12,6 +12,7 @@
 
 #include <memory.h>
 #include <stdlib.h>
+#include <string.h>
 #include <time.h> 
 
 #ifdef CSPYDR_LINUX
@@ -82,6 +83,7 @@ void lint_watched(Context_T* context, const char* filepath, const char* std_path
     }
     catch {
         get_panic_handler()(context);
+        fflush(OUTPUT_STREAM);
         return;
     };
 
@@ -94,6 +96,40 @@ void lint_watched(Context_T* context, const char* filepath, const char* std_path
         " (%lu file%s, at %02d:%02d:%02d)\n",
         AST.files->size, AST.files->size > 1 ? "s" : "", local->tm_hour, local->tm_min, local->tm_sec
     );
+    fflush(OUTPUT_STREAM);
+}
+
+// checks if a file's contents differ from the lines that were read for linting
+static bool file_changed(File_T* file)
+{
+    FILE* fp = fopen(file->path, "r");
+    if(!fp)
+        return true;
+
+    char* line = NULL;
+    size_t len = 0;
+    size_t line_no = 0;
+    bool changed = false;
+
+    while(!changed && getline(&line, &len, fp) != -1)
+    {
+        changed = line_no >= file->lines->size || strcmp(line, file->lines->items[line_no]) != 0;
+        line_no++;
+    }
+
+    if(line_no != file->lines->size)
+        changed = true;
+
+    free(line);
+    fclose(fp);
+    return changed;
+}
+
+// waits a moment for files that are just being replaced
+static void await_file(const char* filepath)
+{
+    for(i32 i = 0; i < 50 && !file_exists(filepath); i++)
+        usleep(20 * 1000);
 }
 
 static bool get_event(int fd)
@@ -139,6 +175,9 @@ void live_session(Context_T* context, const char* filepath, const char* std_path
                 first_time = false;
             else
             {
+                for(size_t i = 0; i < AST.files->size; i++)
+                    await_file(((File_T*) AST.files->items[i])->path);
+
                 free_ast(context, fd);
                 close(fd);
                 fd = inotify_init();
@@ -148,15 +187,19 @@ void live_session(Context_T* context, const char* filepath, const char* std_path
             for(size_t i = 0; i < AST.files->size; i++)
             {
                 File_T* file = AST.files->items[i];
-                file->wd = inotify_add_watch(fd, file->path, IN_MODIFY | IN_DELETE);
+                file->wd = inotify_add_watch(fd, file->path, IN_MODIFY | IN_ATTRIB | IN_DELETE_SELF | IN_MOVE_SELF);
                 if(file->wd == -1)
                     LOG_ERROR_F(ERROR_MSG("Could not add watch to %s.\n"), file->path);
                 //else
                 //    LOG_OK_F("Watching:: %s\n", file->path);
             }
+
+            // edits made before the watches were set up don't cause an event
+            for(size_t i = 0; i < AST.files->size && !relint; i++)
+                relint = file_changed(AST.files->items[i]);
         }
 
-        if(get_event(fd))
+        if(!relint && get_event(fd))
             relint = true;
     }
 
-- 
2.43.0


From 1c50aa887aeba9c31dd5298791349e0321bd8c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 14/72] fix: an import that can't be read is reported as an
 error at the import instead of ending the process

---
 src/compiler/io/io.c                     | 10 ++++++++--
 src/compiler/preprocessor/preprocessor.c |  6 ++++++
 src/compiler/toolchain.c                 |  2 ++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/compiler/io/io.c b/src/compiler/io/io.c
index b2ca85d..71f389d 100755
--- a/src/compiler/io/io.c
+++ b/src/compiler/io/io.c
@@ -28,7 +28,8 @@ File_T* read_file(const char* path)
     if(fp == NULL) 
     {
         LOG_ERROR_F("Could not read file '%s'\n", path);
-        exit(1);
+        free_list(buffer_list);
+        return NULL;
     }
 
     while((read = getline(&line, &len, fp)) != -1) 
@@ -39,7 +40,12 @@ File_T* read_file(const char* path)
     if(ferror(fp))
     {
         LOG_ERROR_F("Could not read file '%s': %s\n", path, strerror(errno));
-        exit(1);
+        fclose(fp);
+        free(line);
+        for(size_t i = 0; i < buffer_list->size; i++)
+            free(buffer_list->items[i]);
+        free_list(buffer_list);
+        return NULL;
     }
 
     fclose(fp);
diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index aaba744..6064d68 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -215,6 +215,12 @@ static void parse_import_def(Preprocessor_T* pp, List_T* token_list, size_t* i)
 
     // get the tokens from the file
     File_T* import_file = read_file(imp->import_path);
+    if(!import_file)
+    {
+        throw_error(pp->context, ERR_SYNTAX_ERROR, imp->tok, "error reading \"%s\"", imp->tok->value);
+        return;
+    }
+
     import_file->short_path = strdup(imp->tok->value);
     import_file->file_no = ++file_no;
     import_file->path = strdup(imp->import_path);
diff --git a/src/compiler/toolchain.c b/src/compiler/toolchain.c
index 48e36ad..60fe987 100644
--- a/src/compiler/toolchain.c
+++ b/src/compiler/toolchain.c
@@ -97,6 +97,8 @@ i32 initialization_pass(Context_T* context, ASTProg_T* ast)
     if(context->flags.read_main_file_on_init)
     {
         File_T* main_file = read_file(ast->main_file_path);
+        if(!main_file)
+            exit(1);
         list_push(ast->files, main_file);
     }
 
-- 
2.43.0


From 97049367a969a36b13784306e52e9f7d1490c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 15/72] fix: memory: failed mmap was taken for a block, realloc
 read behind the old block, calloc overflow

---
 src/std/memory.csp | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/std/memory.csp b/src/std/memory.csp
index 7fbe03b..fd2b104 100644
--- a/src/std/memory.csp
+++ b/src/std/memory.csp
@@ -86,6 +86,10 @@ namespace std {
 
         const ALIGN: u64 = 16;
 
+        # a failed mmap returns an error number between -4095 and -1
+        [private]
+        fn failed(addr: &void): bool = (addr: i64) < 0 && (addr: i64) > -4096;
+
         [cfg("linux")]
         fn alloc(n: usize): &void
         {
@@ -96,7 +100,7 @@ namespace std {
 
             let length = n + sizeof usize;
             let plen: &usize = syscall::mmap(nil, length, Prot::READ | Prot::WRITE, MMap::PRIVATE | MMap::ANONYMOUS, -1, 0);
-            if plen == MMAP_FAILED {
+            if failed(plen) {
                 error::new(Errno::NOMEM, "mmap failed");
                 <- nil;
             }
@@ -108,15 +112,25 @@ namespace std {
 
         fn calloc(nmemb: usize, size: usize): &void
         {
+            if size != 0 && nmemb > u64_max! / size {
+                error::new(Errno::NOMEM, "allocation too big");
+                <- nil;
+            }
+
             let ptr = alloc(nmemb * size);
-            zero(ptr, nmemb * size);
+            if ptr != nil
+                zero(ptr, nmemb * size);
             <- ptr;
         }
 
         fn realloc(ptr: &void, size: usize): &void
         {
             let new = alloc(size);
-            move(new, ptr, size);
+            if new == nil || ptr == nil
+                ret new; # `ptr` stays valid if there is no memory
+
+            let old_size = (ptr: &usize)[-1] - sizeof usize;
+            copy(new, ptr, if old_size < size => old_size else size);
             free(ptr);
             <- new;
             #let plen = &(ptr: &usize)[-1];
@@ -156,11 +170,17 @@ namespace std {
 
         fn move(dest: &void, src: &const void, n: usize): &void
         {
-            let tmp: &u8 = alloc(n); # allocate memory for a temporary array
-            copy(tmp, src, n);       # copy the source to tmp 
-            copy(dest, tmp, n);      # copy tmp to source
+            let x: &u8 = dest;
+            let y: &const u8 = src;
+
+            # copy away from the overlapping part
+            if x <= y
+                for let i: usize = 0; i < n; i++;
+                    x[i] = y[i];
+            else
+                for let i = n; i > 0; i--;
+                    x[i - 1] = y[i - 1];
 
-            free(tmp);
             <- dest;
         }
 
-- 
2.43.0


From bc75787959b7957c1f6f8f5f1663dcb14b14562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 16/72] fix: string: appending wrote behind the buffer,
 self-concatenation, trim, substr and from_char

---
 src/std/string.csp | 79 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 23 deletions(-)

diff --git a/src/std/string.csp b/src/std/string.csp
index bb87245..236b06f 100644
--- a/src/std/string.csp
+++ b/src/std/string.csp
@@ -70,14 +70,18 @@ namespace std {
             let str_data: &StringData;
 
             if value == nil {
-                str_data = memory::alloc(sizeof StringData);
+                str_data = memory::alloc(sizeof StringData + 1);
+                if str_data == nil
+                    ret nil;
                 str_data.alloc = 1;
                 str_data.size = 0;
             }
             else {
                 let v_len = c_str::strlen(value);
                 str_data = memory::alloc(sizeof StringData + v_len + 1);
-                str_data.alloc = v_len;
+                if str_data == nil
+                    ret nil;
+                str_data.alloc = v_len + 1;
                 str_data.size = v_len;
                 
                 c_str::copy(str_data.buff, value);
@@ -88,6 +92,8 @@ namespace std {
         fn init_sized(size: u64): String
         {
             let str_data: &StringData = memory::alloc(sizeof StringData + size + 1);
+            if str_data == nil
+                ret nil;
             str_data.alloc = size + 1;
             <- &(str_data.buff[0]);
         }
@@ -95,7 +101,10 @@ namespace std {
         fn init_sized_with(size: u64, fill: char): String
         {
             let str_data: &StringData = memory::alloc(sizeof StringData + size + 1);
+            if str_data == nil
+                ret nil;
             str_data.alloc = size + 1;
+            str_data.size = size;
             let str_ptr = &(*str_data.buff);
             memory::set(str_ptr, fill, size);
             <- str_ptr;
@@ -104,7 +113,8 @@ namespace std {
         [drop]
         fn free(str: String) 
         {
-            memory::free(get_data(str));
+            if str != nil
+                memory::free(get_data(str));
         } 
 
         fn get_data(str: String): &StringData 
@@ -122,12 +132,23 @@ namespace std {
             let str_data = get_data(*dest);
             let str_len = size(*dest);
             let src_len = c_str::strlen(src);
+            let new_alloc = str_len + src_len + 1;
 
-            str_data.alloc = str_data.alloc + src_len;
-            str_data.size = str_data.size + src_len;
-            str_data = memory::realloc(str_data, sizeof StringData + str_data.alloc + 1);
+            if str_data.alloc < new_alloc {
+                # `src` may be a part of `dest`
+                let offset = (src: u64) - (*dest: u64);
+                
+                str_data = memory::realloc(str_data, sizeof StringData + new_alloc);
+                if str_data == nil
+                    ret;
+                str_data.alloc = new_alloc;
+                
+                if offset <= str_len
+                    src = &(str_data.buff[offset]);
+            }
             c_str::copy(&(str_data.buff[str_len]), src);
 
+            str_data.size = str_len + src_len;
             str_data.buff[str_len + src_len] = '\0';
             *dest = &(str_data.buff[0]);
         }
@@ -135,11 +156,16 @@ namespace std {
         fn append(dest: &String, c: char)
         {
             let str_data = get_data(*dest);
-            str_data.alloc++;
-            str_data.size++;
 
-            if(!has_space(str_data))
-                str_data = memory::realloc(str_data, sizeof StringData + (str_data.alloc *= 2) + 1);
+            if !has_space(str_data) {
+                let new_alloc = str_data.alloc * 2 + 1;
+                str_data = memory::realloc(str_data, sizeof StringData + new_alloc);
+                if str_data == nil
+                    ret;
+                str_data.alloc = new_alloc;
+            }
+
+            str_data.size++;
             str_data.buff[str_data.size - 1] = c;
             str_data.buff[str_data.size] = '\0';
             *dest = &(str_data.buff[0]);
@@ -210,26 +236,31 @@ namespace std {
 
         fn substr(str: String, from: i64, to: i64): String 
         {
-            if to - from < 0 || to - from >= size(str)
+            if from < 0 || to < from || to > (size(str): i64)
                  ret nil;
 
-            let ch_arr: &char = memory::alloc((to - from + 2) * sizeof char);
+            let sub_str = init_sized(to - from);
+            if sub_str == nil
+                ret nil;
+
             for let i: i64 = from; i < to; i++; {
-                ch_arr[i - from] = str[i];
+                sub_str[i - from] = str[i];
             }
-            #ch_arr[from - to] = '\0';
-            
-            let sub_str = init(ch_arr);
-            memory::free(ch_arr);
+            sub_str[to - from] = '\0';
+            get_data(sub_str).size = to - from;
             <- sub_str;
         }
 
         fn trim(str: String): String {
-            while(character::isspace(*str)) str++;
+            let begin: u64 = 0;
+            let end = size(str);
 
-            let back = &str[len str];
-            while(character::isspace(*back)) back--;
-            back[1] = '\0';
+            while begin < end && character::isspace(str[begin]) begin++;
+            while end > begin && character::isspace(str[end - 1]) end--;
+
+            memory::move(str, &str[begin], end - begin);
+            str[end - begin] = '\0';
+            get_data(str).size = end - begin;
 
             <- str;
         }
@@ -250,8 +281,10 @@ namespace std {
 
         fn from_char(c: char): String
         {
-            let buf: u16 = c << 8 | '\0';
-            <- str!{(&buf): &char};
+            let buf: char 'c[2];
+            buf[0] = c;
+            buf[1] = '\0';
+            <- str!{buf};
         }
         
         fn from_f32(float: f32): String
-- 
2.43.0


From d3634055d3ae840ea6a4544f157398f58cc460af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 17/72] fix: hashmap lost zero keys, differently sized keys and
 values and counted overwrites; vec capacity of sized and copied vectors

---
 src/std/hashmap.csp | 70 +++++++++++++++++++++++++++++----------------
 src/std/vec.csp     |  3 +-
 2 files changed, 47 insertions(+), 26 deletions(-)

diff --git a/src/std/hashmap.csp b/src/std/hashmap.csp
index e145971..eb00037 100644
--- a/src/std/hashmap.csp
+++ b/src/std/hashmap.csp
@@ -38,6 +38,7 @@ macro hashmap_init(key_type, val_type) {
         }),
         sizeof (key_type),
         sizeof (val_type),
+        alignof (val_type),
         type::((key_type) == &char) || type::((key_type) == &const char)
     ): &struct {
         pairs: &struct {
@@ -53,6 +54,7 @@ macro hashmap_init(map) {
     (::std::hashmap::init((map), 
         sizeof typeof (map).pairs.key, 
         sizeof typeof (map).pairs.val,
+        alignof typeof (map).pairs.val,
         type::((typeof (map).pairs.key) == &char) || type::((typeof (map).pairs.key) == &const char)
     ): typeof (map))
 }
@@ -91,11 +93,11 @@ macro hashmap_values(map) {
 }
 
 macro hashmap_size_mod(map, val) {
-    ((val) & ((map).data.alloc / ((map).data.ksize + (map).data.vsize) - 1))
+    ((val) & ((map).data.alloc / ::std::hashmap::slot_size(map) - 1))
 }
 
 macro hashmap_num_allocated(map) {
-    ((map).data.alloc / ((map).data.ksize + (map).data.vsize))
+    ((map).data.alloc / ::std::hashmap::slot_size(map))
 }
 
 # hashmap implementation
@@ -106,6 +108,7 @@ namespace std {
             size: u64,
             ksize: u16,
             vsize: u16,
+            voffset: u16, # offset of the value in the pairs passed to `put`
             use_str_hashing: bool
         };
 
@@ -117,10 +120,11 @@ namespace std {
         const HASHMAP_INIT_SIZE: i32 = 32;
         const HASHMAP_MULTIPLIER: i32 = 2;
 
-        fn init(map: &Template, ksize: u64, vsize: u64, key_is_str: bool): &Template {
+        fn init(map: &Template, ksize: u64, vsize: u64, valign: u64, key_is_str: bool): &Template {
             map.data = Data::{
                 0, 0,
                 ksize, vsize,
+                (ksize + valign - 1) / valign * valign,
                 key_is_str
             };
 
@@ -128,18 +132,25 @@ namespace std {
             <- map;
         }
 
+        # a slot consists of the key, the value and a byte telling if the slot is used
+        fn slot_size(map: &Template): u64 = (map.data.ksize: u64) + (map.data.vsize: u64) + 1;
+
+        fn is_used(map: &Template, slot: &u8): bool = slot[slot_size(map) - 1] != 0;
+
         fn allocate(map: &Template) {
-            map.data.alloc = ((map.data.ksize + map.data.vsize) * HASHMAP_INIT_SIZE);
-            map.pairs = memory::alloc(map.data.alloc);
+            map.data.alloc = slot_size(map) * HASHMAP_INIT_SIZE;
+            map.pairs = memory::calloc(map.data.alloc, 1);
         }
 
         fn free(map: &Template) {
             memory::free(map.pairs);
+            map.pairs = nil;
             map.data.alloc = 0;
+            map.data.size = 0;
         }
 
         fn has_space(map: &Template): bool {
-            <- map.data.size < map.data.alloc / (map.data.ksize + map.data.vsize);
+            <- map.data.size < map.data.alloc / slot_size(map);
         }
 
         fn grow(map: &Template) {
@@ -149,8 +160,12 @@ namespace std {
             let old_alloc = map.data.alloc;
             let old_pairs = map.pairs;
 
+            let new_pairs = memory::calloc(old_alloc * HASHMAP_MULTIPLIER, 1);
+            if new_pairs == nil
+                ret;
+
             map.data.alloc *= HASHMAP_MULTIPLIER;
-            map.pairs = memory::alloc(map.data.alloc);
+            map.pairs = new_pairs;
 
             rehash(map, old_alloc, old_pairs);
         
@@ -158,11 +173,10 @@ namespace std {
         }
 
         fn rehash(map: &Template, old_alloc: u64, old_pairs: &u8) {
-            for let ptr = old_pairs; ptr < old_pairs + old_alloc; 
-                ptr += ((map.data.ksize + map.data.vsize): u64); {
-                if !memory::is_zero(ptr, map.data.ksize + map.data.vsize) {
+            for let ptr = old_pairs; ptr < old_pairs + old_alloc; ptr += slot_size(map); {
+                if is_used(map, ptr) {
                     let new = find_pair(map, ptr, true);
-                    memory::copy(new, ptr, map.data.ksize + map.data.vsize);
+                    memory::copy(new, ptr, slot_size(map));
                 }
             }
         }
@@ -181,14 +195,14 @@ namespace std {
 
             # linear probing
             for 0..hashmap_num_allocated!(map) {
-                let pair = &map.pairs[index * (map.data.ksize + map.data.vsize)];
+                let pair = &map.pairs[index * slot_size(map)];
+
+                if !is_used(map, pair)
+                    <- if find_empty => pair else nil: &u8;
                 
                 if memory::eq(key, pair, map.data.ksize) || (map.data.use_str_hashing && string::equal(*(key: &&const char), *(pair: &&const char)))
                     <- pair;
 
-                if memory::is_zero(pair, map.data.ksize)
-                    <- if find_empty => pair else nil: &u8;
-                
                 index = hashmap_size_mod!(map, index + 1);
             }
 
@@ -196,12 +210,18 @@ namespace std {
         }
 
         fn put(map: &Template, pair: &u8) {
-            map.data.size++;
-            grow(map); # grow if needed
-
             let addr = find_pair(map, pair, true);
+            if addr == nil || !is_used(map, addr) {
+                map.data.size++;
+                grow(map); # grow if needed
+                addr = find_pair(map, pair, true);
+            }
+
             if addr {
-                memory::copy(addr, pair, map.data.ksize + map.data.vsize);
+                if !is_used(map, addr)
+                    memory::copy(addr, pair, map.data.ksize);
+                memory::copy(addr + (map.data.ksize: u64), pair + (map.data.voffset: u64), map.data.vsize);
+                addr[slot_size(map) - 1] = 1;
             }
         }
 
@@ -210,8 +230,8 @@ namespace std {
         fn keys(map: &Template): &u8 {
             let v = vec!{u8};
 
-            for let i: u64 = 0; i < map.data.alloc; i += (map.data.ksize + map.data.vsize); {
-                if !memory::is_zero(&map.pairs[i], map.data.ksize)
+            for let i: u64 = 0; i < map.data.alloc; i += slot_size(map); {
+                if is_used(map, &map.pairs[i])
                     memory::copy(vec::__internal_add(&v, map.data.ksize), &map.pairs[i], map.data.ksize);
             }
 
@@ -221,12 +241,12 @@ namespace std {
         fn values(map: &Template): &u8 {
             let v = vec!{u8};
 
-            for let i: u64 = 0; i < map.data.alloc; i += (map.data.ksize + map.data.vsize); {
-                if !memory::is_zero(&map.pairs[i], map.data.ksize)
-                    memory::copy(vec::__internal_add(&v, map.data.vsize), &map.pairs[i] + map.data.ksize, map.data.vsize);
+            for let i: u64 = 0; i < map.data.alloc; i += slot_size(map); {
+                if is_used(map, &map.pairs[i])
+                    memory::copy(vec::__internal_add(&v, map.data.vsize), &map.pairs[i] + (map.data.ksize: u64), map.data.vsize);
             }
 
             <- v;
         }
     }
-}
\ No newline at end of file
+}
diff --git a/src/std/vec.csp b/src/std/vec.csp
index 57e5aed..b9f80d1 100644
--- a/src/std/vec.csp
+++ b/src/std/vec.csp
@@ -19,7 +19,7 @@ macro vec(datatype) {
 }
 
 macro vec(datatype, size) {
-    (std::vec::init((size), sizeof (datatype)): &(datatype))
+    (::std::vec::init(sizeof (datatype), (size)): &(datatype))
 }
 
 # macro to get the size of the vector
@@ -220,6 +220,7 @@ namespace std {
             let copy: &VecData = memory::alloc(alloc_size);
             
             memory::copy(copy, v_data, alloc_size);
+            copy.alloc = size;
             <- &copy.buff;
         }
 
-- 
2.43.0


From d51d0c0df42cac03d479836566c98a1212bf5ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 18/72] fix: io: stderr was stdout, short and interrupted
 writes lost output, writeln wrote NUL bytes

---
 src/std/c_str.csp |  7 +++++--
 src/std/io.csp    | 48 ++++++++++++++++++++++++-----------------------
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/std/c_str.csp b/src/std/c_str.csp
index 1d04346..21b8114 100644
--- a/src/std/c_str.csp
+++ b/src/std/c_str.csp
@@ -297,13 +297,16 @@ namespace std {
                 <- str;
             }
 
-            if num < 0 && base == 10 {
+            if num < 0 {
+                if base != 10
+                    <- from_uint(num: u64, str, base);
                 is_negative = true;
-                num = -num;
             }
 
             while num != 0 {
                 let rem: i64 = num % base;
+                if rem < 0 # the smallest i64 has no positive counterpart
+                    rem = -rem;
                 if rem > 9 
                     str[i++] = ((rem - 10) + 'a');
                 else
diff --git a/src/std/io.csp b/src/std/io.csp
index 7a5ea76..ba57e2c 100644
--- a/src/std/io.csp
+++ b/src/std/io.csp
@@ -84,7 +84,7 @@ namespace std {
 
     const stdin: i32 = stdin!;
     const stdout: i32 = stdout!;
-    const stderr: i32 = stdout!;
+    const stderr: i32 = stderr!;
 
     namespace io {
         const O_RDONLY: i32   = 0;
@@ -183,12 +183,9 @@ namespace std {
         fn getc(): char = fgetc(stdin!);
 
         fn fputs(str: &const char, fd: i32)
-        {
-            write(fd, str);
-            write(fd, "\n");
-        }
+            writeln(fd, str);
 
-        fn fputc(c: char, fd: i32) syscall::write(fd, &c, 1);
+        fn fputc(c: char, fd: i32) write_all(fd, &c, 1);
 
         fn fgetc(fd: i32): char
         {
@@ -197,7 +194,7 @@ namespace std {
             <- c;
         }
 
-        fn newline() syscall::write(stdout, "\n", 1);
+        fn newline() write_all(stdout, "\n", 1);
 
         fn close(fd: i32) syscall::close(fd); # error handling
 
@@ -215,28 +212,33 @@ namespace std {
             <- 0;
         }
 
-        fn write(fd: i32, buf: &const char) 
+        # writes all `count` bytes of `buf`: continues after short and interrupted writes
+        # returns false if the rest can't be written
+        fn write_all(fd: i32, buf: &const char, count: usize): bool
         {
-            if syscall::write(fd, buf, c_str::strlen(buf)) <= 0
-            {
-                # todo: fail assertion
-                ret;
+            while count > 0 {
+                let written = syscall::write(fd, buf, count);
+                if written > 0 {
+                    buf += written;
+                    count -= written;
+                }
+                else if written != -4 # interrupted before anything was written
+                    <- false;
             }
+            <- true;
         }
 
-        fn writeln(fd: i32, buf: &const char)
+        fn write(fd: i32, buf: &const char) 
         {
-            if syscall::write(fd, buf, c_str::strlen(buf) + 1) <= 0
-            {
-                # todo: fail assertion
-                ret;
-            }
+            # todo: fail assertion
+            write_all(fd, buf, c_str::strlen(buf));
+        }
 
-            if syscall::write(fd, "\n", 2) <= 0
-            {
-                # todo: fail assertion
-                ret;
-            }
+        fn writeln(fd: i32, buf: &const char)
+        {
+            # todo: fail assertion
+            if write_all(fd, buf, c_str::strlen(buf))
+                write_all(fd, "\n", 1);
         }
 
         fn write_int(fd: i32, int: i64)
-- 
2.43.0


From 1b7f74bfe9ab5063189080adc57a0c0f3c86b65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 19/72] fix: hashmap: values wider than their alignment were
 read from the wrong offset

---
 src/std/hashmap.csp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/std/hashmap.csp b/src/std/hashmap.csp
index eb00037..8cad96d 100644
--- a/src/std/hashmap.csp
+++ b/src/std/hashmap.csp
@@ -38,7 +38,10 @@ macro hashmap_init(key_type, val_type) {
         }),
         sizeof (key_type),
         sizeof (val_type),
-        alignof (val_type),
+        &((nil: &struct {
+            key: (key_type),
+            val: (val_type)
+        }).val): u64,
         type::((key_type) == &char) || type::((key_type) == &const char)
     ): &struct {
         pairs: &struct {
@@ -54,7 +57,7 @@ macro hashmap_init(map) {
     (::std::hashmap::init((map), 
         sizeof typeof (map).pairs.key, 
         sizeof typeof (map).pairs.val,
-        alignof typeof (map).pairs.val,
+        &((nil: typeof (map).pairs).val): u64,
         type::((typeof (map).pairs.key) == &char) || type::((typeof (map).pairs.key) == &const char)
     ): typeof (map))
 }
@@ -120,11 +123,11 @@ namespace std {
         const HASHMAP_INIT_SIZE: i32 = 32;
         const HASHMAP_MULTIPLIER: i32 = 2;
 
-        fn init(map: &Template, ksize: u64, vsize: u64, valign: u64, key_is_str: bool): &Template {
+        fn init(map: &Template, ksize: u64, vsize: u64, voffset: u64, key_is_str: bool): &Template {
             map.data = Data::{
                 0, 0,
                 ksize, vsize,
-                (ksize + valign - 1) / valign * valign,
+                voffset,
                 key_is_str
             };
 
-- 
2.43.0


From c3af7423978239bb0589475b955ae58dc017a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 20/72] fix: fmt: no crash without memory; printf and writef
 leaked the formatted text

---
 src/std/fmt.csp | 4 ++++
 src/std/io.csp  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/std/fmt.csp b/src/std/fmt.csp
index 103b89a..f89e08b 100644
--- a/src/std/fmt.csp
+++ b/src/std/fmt.csp
@@ -42,6 +42,8 @@ namespace std {
         {
             using string;
             let str = str!{};
+            if str == nil
+                <- nil;
             do {
                 error::new(Errno::NILPTR, "`fmt` is nil");
                 <- str;
@@ -77,6 +79,8 @@ namespace std {
         {
             using string;
             let str = str!(nil);
+            if str == nil
+                <- nil;
             do {
                 error::new(Errno::NILPTR, "`fmt` is nil");
                 <- str;
diff --git a/src/std/io.csp b/src/std/io.csp
index ba57e2c..2b572e9 100644
--- a/src/std/io.csp
+++ b/src/std/io.csp
@@ -206,7 +206,7 @@ namespace std {
         {
             using std::fmt;
 
-            with formatted = va_format(fmt, args): &void
+            with formatted = va_format(fmt, args)
                 write(fd, formatted);
             
             <- 0;
-- 
2.43.0


From b6ef5a58daa4dc85be72f693c8e412fcf39a3b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 21/72] fix: file: errors, short transfers and failed seeks
 went unnoticed, access modes ignored, leaks

---
 src/std/file.csp | 100 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 72 insertions(+), 28 deletions(-)

diff --git a/src/std/file.csp b/src/std/file.csp
index d8c6532..e6a9163 100644
--- a/src/std/file.csp
+++ b/src/std/file.csp
@@ -39,15 +39,11 @@ namespace std {
 
         fn open(path: &const char, mode: u8): &File
         {
-            let file: &File = memory::alloc(sizeof File);
-            file.mode = mode;
-            file.offset = 0;
-            
             let sys_flags = 0;
 
             if mode & CREATE
                 sys_flags |= io::O_CREAT;
-            if mode & READ_WRITE
+            if (mode & READ_WRITE) == READ_WRITE
                 sys_flags |= io::O_RDWR;
             else if mode & READ
                 sys_flags |= io::O_RDONLY;
@@ -58,20 +54,32 @@ namespace std {
                 <- nil;
             }
 
-            file.desc = syscall::open(path, sys_flags, 416);
-            if file.desc < 0 {
+            let desc = syscall::open(path, sys_flags, 416);
+            if desc < 0 {
                 error::new(Errno::IO, "could not open file");
                 <- nil;
             }
 
+            let file = fopen(desc);
+            if file == nil {
+                syscall::close(desc);
+                <- nil;
+            }
+            file.mode = mode;
+
             <- file;
         }
 
         fn fopen(fd: i32): &File
         {
             let file: &File = memory::alloc(sizeof File);
+            if file == nil
+                <- nil;
+
+            # the descriptor might have been used already
+            let offset: i64 = syscall::lseek(fd, 0, SEEK_CUR);
             file.mode = 0;
-            file.offset = 0;
+            file.offset = if offset > 0 => offset else 0: i64;
             file.desc = fd;
             file.path = "";
             <- file;
@@ -83,7 +91,7 @@ namespace std {
         fn write(file: &File, data: &const void, count: usize): i64
         {
             let written = syscall::write(file.desc, data, count);
-            if written == -1 
+            if written < 0
                 error::new(Errno::IO, "could not write to file");
             else
                 file.offset += written;
@@ -95,12 +103,9 @@ namespace std {
         fn vwritef(file: &File, fmt: &const char, args: &VAList): i64
         {
             using std::fmt;
-            let written = -1;
-            with formatted = va_format(fmt, args): &void
-                written = syscall::write(file.desc, formatted, c_str::strlen(formatted));
-            
-            if written == -1
-                error::new(Errno::IO, "could not write to file");
+            let written: i64 = -1;
+            with formatted = va_format(fmt, args)
+                written = write(file, formatted, c_str::strlen(formatted));
             
             <- written;
         }
@@ -108,7 +113,7 @@ namespace std {
         fn read(file: &File, buffer: &void, count: usize): &void
         {
             let bytes_read = syscall::read(file.desc, buffer, count);
-            if bytes_read == -1 
+            if bytes_read < 0
                 error::new(Errno::IO, "could not read file");
             else
                 file.offset += bytes_read;
@@ -122,10 +127,11 @@ namespace std {
                 <- -1;
             } unless file;
             let c = '\0';
-            if syscall::read(file.desc, &c, 1) == -1 
+            let bytes_read = syscall::read(file.desc, &c, 1);
+            if bytes_read < 0
                 error::new(Errno::IO, "could not read file");
             else
-                file.offset++;
+                file.offset += bytes_read;
             <- c;
         }
 
@@ -135,9 +141,10 @@ namespace std {
             do
                 <- error::new(Errno::NILPTR, "`file` is nil")
             unless file;
-            if syscall::close(file.desc) == -1
-                <- error::new(Errno::IO, "could not close file");
+            let res = syscall::close(file.desc);
             memory::free(file);
+            if res < 0
+                <- error::new(Errno::IO, "could not close file");
 
             <- error::none();
         }
@@ -154,7 +161,32 @@ namespace std {
             <- stat.size;
         }
 
-        fn read_all(file: &File): String = size(file) |> read(file, string::init_sized($), $);
+        # reads everything from the current position up to the end of the file
+        fn read_all(file: &File): String
+        {
+            let length = size(file);
+            if length < 0
+                <- nil;
+            length = if file.offset < length => length - file.offset else 0: i64;
+
+            let str = string::init_sized(length);
+            if str == nil
+                <- nil;
+
+            let data = string::get_data(str);
+            data.size = 0;
+            while data.size < length {
+                let bytes_read = syscall::read(file.desc, &str[data.size], length - data.size);
+                if bytes_read < 0
+                    error::new(Errno::IO, "could not read file");
+                if bytes_read <= 0
+                    break;
+                file.offset += bytes_read;
+                data.size += bytes_read;
+            }
+
+            <- str;
+        }
 
         const SEEK_SET: u8 = 0;
         const SEEK_CUR: u8 = 1; 
@@ -166,14 +198,28 @@ namespace std {
                 ret error::new(Errno::NILPTR, "`file` argument is nil")
             unless file;
 
+            let new_offset = offset;
             match whence {
-                SEEK_SET => file.offset = offset;
-                SEEK_CUR => file.offset += offset;
-                SEEK_END => file.offset = size(file) - offset;
+                SEEK_SET => {}
+                SEEK_CUR => new_offset += file.offset;
+                SEEK_END => {
+                    let file_size = size(file);
+                    if file_size < 0
+                        ret error::current();
+                    new_offset = file_size - offset;
+                }
                 _ => ret error::new(Errno::INVAL, "value of `whence` is invalid");
             }
 
-            syscall::lseek(file.desc, file.offset, SEEK_SET);
+            <- move_to(file, new_offset);
+        }
+
+        [private]
+        fn move_to(file: &File, offset: i64): Error
+        {
+            if syscall::lseek(file.desc, offset, SEEK_SET) < 0
+                <- error::new(Errno::IO, "could not set the position in file");
+            file.offset = offset;
             <- error::none();
         }
 
@@ -191,9 +237,7 @@ namespace std {
             do
                 ret error::new(Errno::NILPTR, "`file` argument is nil")
             unless file;
-            file.offset = 0;
-            syscall::lseek(file.desc, 0, SEEK_SET);
-            <- error::none();
+            <- move_to(file, 0);
         }
     }
 }
-- 
2.43.0


From ae7a5aea90ac85ce57e8287c8ac999b76b3635a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 22/72] fix: debugger: the session did not end at the end of
 its input, over-long and empty lines, left the inferior running

---
 src/compiler/debugger/debugger.c | 44 +++++++++++++++++++++++++++++---
 src/compiler/io/io.c             |  6 ++++-
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/compiler/debugger/debugger.c b/src/compiler/debugger/debugger.c
index 94007d2..29f79bd 100644
--- a/src/compiler/debugger/debugger.c
+++ b/src/compiler/debugger/debugger.c
@@ -181,12 +181,31 @@ void debug_repl(Context_T* context, const char* src, const char* bin)
         fflush(stdout);
         
         char input[BUFSIZ] = {'\0'};
-        fgets(input, BUFSIZ - 1, stdin);
-        input[strlen(input) - 1] = '\0';
+        if(!fgets(input, BUFSIZ - 1, stdin))
+        {
+            if(ferror(stdin) && errno == EINTR)
+            {
+                clearerr(stdin);
+                continue;
+            }
+            break; // end of input
+        }
+
+        size_t len = strlen(input);
+        if(len == BUFSIZ - 2 && input[len - 1] != '\n')
+        {
+            // skip the rest of the line
+            for(i32 c; (c = getchar()) != EOF && c != '\n';);
+            debug_error("Command is too long.");
+            context->last_exit_code = 1;
+            goto skip;
+        }
+
+        if(len && input[len - 1] == '\n')
+            input[--len] = '\0';
 
-        if(!strlen(input))
+        if(!len)
             continue;
-        
 
         for(size_t i = 0; dbg.commands[i].cmd; i++)
         {
@@ -202,6 +221,10 @@ void debug_repl(Context_T* context, const char* src, const char* bin)
         sprintf(dbg.prompt, PROMPT_FMT, context->paths.exec_name, context->last_exit_code ? COLOR_BOLD_RED : COLOR_BOLD_GREEN, context->last_exit_code);
     }
 
+    // the session may end by itself, don't leave the inferior process behind
+    if(dbg.loaded)
+        handle_unload(&dbg, "");
+
     free_debugger(&dbg);
 }
 
@@ -300,6 +323,15 @@ static void handle_current(Debugger_T* dbg, const char* input)
     printf("`%s` (compiled from `%s`).\n", dbg->bin_file, dbg->src_file);
 }
 
+static pid_t wait_for_inferior(pid_t pid, i32* wait_status)
+{
+    pid_t ret;
+    do
+        ret = waitpid(pid, wait_status, 0);
+    while(ret < 0 && errno == EINTR);
+    return ret;
+}
+
 static bool load_exec(Debugger_T* dbg, char* exec)
 {
     List_T* exec_args = init_list();
@@ -385,6 +417,10 @@ static void handle_unload(Debugger_T* dbg, const char* input)
     }
 
     kill(dbg->loaded, SIGKILL);
+    
+    i32 wait_status;
+    while(wait_for_inferior(dbg->loaded, &wait_status) >= 0 && WIFSTOPPED(wait_status));
+
     if(!dbg->context->flags.silent)
         debug_info("Killed process with pid %d.", dbg->loaded);
     
diff --git a/src/compiler/io/io.c b/src/compiler/io/io.c
index 71f389d..e7ac7d5 100755
--- a/src/compiler/io/io.c
+++ b/src/compiler/io/io.c
@@ -144,7 +144,11 @@ bool question(const char* question, ...)
         vfprintf(OUTPUT_STREAM, question, ap);
         va_end(ap);
         fprintf(OUTPUT_STREAM, COLOR_RESET " [" COLOR_BOLD_GREEN "y" COLOR_RESET "/" COLOR_BOLD_RED "n" COLOR_RESET "]: ");
-        answer = getchar();
+
+        i32 c = getchar();
+        if(c == EOF)
+            return false;
+        answer = c;
     }
 
     return answer == 'y' || answer == 'Y';
-- 
2.43.0


From 2da064e406d1931ba187ccb1e5190095c14fef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 23/72] fix: debugger: breakpoints and signals changed the
 debugged program, load raced with exec

---
 src/compiler/debugger/breakpoint.c |   9 +-
 src/compiler/debugger/debugger.c   | 141 ++++++++++++++++++-----------
 src/compiler/debugger/debugger.h   |   4 +
 src/compiler/debugger/register.c   |   2 +-
 4 files changed, 103 insertions(+), 53 deletions(-)

diff --git a/src/compiler/debugger/breakpoint.c b/src/compiler/debugger/breakpoint.c
index 7ab8b1c..5f11c3f 100644
--- a/src/compiler/debugger/breakpoint.c
+++ b/src/compiler/debugger/breakpoint.c
@@ -1,5 +1,6 @@
 #include "breakpoint.h"
 
+#include <errno.h>
 #include <sys/ptrace.h>
 
 #include "debugger.h"
@@ -21,7 +22,13 @@ void free_breakpoint(Breakpoint_T* brk)
 
 void breakpoint_enable(Context_T* context, Breakpoint_T* brk)
 {
+    errno = 0;
     u64 data = ptrace(PTRACE_PEEKDATA, brk->pid, brk->addr, NULL);
+    if(errno)
+    {
+        debug_error("Cannot access memory at address 0x%016lx.", brk->addr);
+        return;
+    }
     brk->saved_data = data & 0xff;
 
     u64 int3 = ((data & ~0xff) | 0xcc); // set bottom byte to 0xcc
@@ -80,7 +87,7 @@ void disable_breakpoint_at_address(Debugger_T* dbg, intptr_t addr)
 {
     Breakpoint_T* found = find_breakpoint(dbg, addr);
 
-    if(found)
+    if(found && found->enabled)
         breakpoint_disable(dbg->context, found);
     else
         debug_error("No breakpoint enabled at address 0x%016lx.\n", addr);
diff --git a/src/compiler/debugger/debugger.c b/src/compiler/debugger/debugger.c
index 29f79bd..4324952 100644
--- a/src/compiler/debugger/debugger.c
+++ b/src/compiler/debugger/debugger.c
@@ -277,7 +277,7 @@ static u64 hex_value_arg(const char* cmd_name)
     char* val_str = strtok(NULL, " ");
     if(!val_str)
     {
-        debug_error("Command `%s` expects value argument.");
+        debug_error("Command `%s` expects value argument.", cmd_name);
         errno = EIO;
         return 0;
     }
@@ -350,17 +350,34 @@ static bool load_exec(Debugger_T* dbg, char* exec)
     if(pid == 0)
     {
         // child process
-        ptrace(PTRACE_TRACEME, 0, NULL, NULL);
-        execv(exec, (char* const*) exec_args->items);
+        if(ptrace(PTRACE_TRACEME, 0, NULL, NULL) == 0)
+            execv(exec, (char* const*) exec_args->items);
+        _exit(127);
     }
     else if(pid > 0)
     {
+        // wait until the process has executed `exec`
+        i32 wait_status;
+        if(wait_for_inferior(pid, &wait_status) < 0 || !WIFSTOPPED(wait_status))
+        {
+            debug_error("Could not execute `%s`.", exec);
+            goto fail;
+        }
+        // don't let the process outlive the debugger
+        ptrace(PTRACE_SETOPTIONS, pid, NULL, PTRACE_O_EXITKILL);
+
         dbg->loaded = pid;
+        dbg->pending_signal = 0;
+        dbg->at_breakpoint = false;
         if(!dbg->context->flags.silent)
             debug_info("Loaded executable `%s` with pid `%d`.", exec, pid);
         
         for(size_t i = 0; i < dbg->breakpoints->size; i++)
-            ((Breakpoint_T*) dbg->breakpoints->items[i])->enabled = false;
+        {
+            Breakpoint_T* b = dbg->breakpoints->items[i];
+            b->enabled = false;
+            b->pid = pid;
+        }
     }
     else 
     {
@@ -437,36 +454,29 @@ static inline void debugger_set_pc(Debugger_T* dbg, u64 pc)
     set_register_value(dbg->loaded, DEBUGGER_REG_RIP, pc);
 }
 
-static void wait_for_signal(Debugger_T* dbg)
+// Executes the instruction under the breakpoint the process has stopped at.
+// Returns false if the process did not get past it; `wait_status` tells why.
+static bool step_over_breakpoint(Debugger_T* dbg, i32* wait_status)
 {
-    i32 wait_status, options = 0;
-    waitpid(dbg->loaded, &wait_status, options);
-}
+    u64 pc = debugger_get_pc(dbg);
+    Breakpoint_T* bp = dbg->at_breakpoint && pc == dbg->stop_addr ? find_breakpoint(dbg, pc) : NULL;
+    if(!bp || !bp->enabled)
+        return true;
 
-static void step_over_breakpoint(Debugger_T* dbg)
-{
-    u64 possible_breakpoint_location = debugger_get_pc(dbg) - 1;
+    bool silent = dbg->context->flags.silent;
+    dbg->context->flags.silent = true;
 
-    if(dbg->breakpoints->size)
-    {
-        Breakpoint_T* bp = find_breakpoint(dbg, possible_breakpoint_location);
+    breakpoint_disable(dbg->context, bp);
+    ptrace(PTRACE_SINGLESTEP, dbg->loaded, NULL, (uintptr_t) dbg->pending_signal);
+    dbg->pending_signal = 0;
 
-        if(bp && bp->enabled)
-        {
-            u64 prev_instruction_addr = possible_breakpoint_location;
-            debugger_set_pc(dbg, prev_instruction_addr);
-
-            bool silent = dbg->context->flags.silent;
-            dbg->context->flags.silent = true;
-            
-            breakpoint_disable(dbg->context, bp);
-            ptrace(PTRACE_SINGLESTEP, dbg->loaded, NULL, NULL);
-            wait_for_signal(dbg);
-            breakpoint_enable(dbg->context, bp);
-
-            dbg->context->flags.silent = silent;
-        }
-    }
+    bool stopped = wait_for_inferior(dbg->loaded, wait_status) >= 0 && WIFSTOPPED(*wait_status);
+    if(stopped)
+        breakpoint_enable(dbg->context, bp);
+
+    dbg->context->flags.silent = silent;
+
+    return stopped && WSTOPSIG(*wait_status) == SIGTRAP;
 }
 
 static void handle_continue(Debugger_T* dbg, const char* input)
@@ -477,12 +487,19 @@ static void handle_continue(Debugger_T* dbg, const char* input)
         return; 
     }
 
-    step_over_breakpoint(dbg);
-    ptrace(PTRACE_CONT, dbg->loaded, NULL, NULL);
+    i32 wait_status = 0;
+    if(step_over_breakpoint(dbg, &wait_status))
+    {
+        ptrace(PTRACE_CONT, dbg->loaded, NULL, (uintptr_t) dbg->pending_signal);
+        dbg->pending_signal = 0;
+        dbg->at_breakpoint = false;
 
-    i32 wait_status,
-        options = 0;
-    waitpid(dbg->loaded, &wait_status, options);
+        if(wait_for_inferior(dbg->loaded, &wait_status) < 0)
+        {
+            debug_error("Lost process %d.", dbg->loaded);
+            goto process_exited;
+        }
+    }
 
     if(WIFEXITED(wait_status))
     {
@@ -500,16 +517,24 @@ static void handle_continue(Debugger_T* dbg, const char* input)
     else if(WIFSTOPPED(wait_status))
     {
         i32 stop_sig = WSTOPSIG(wait_status);
-        switch(stop_sig)
+        u64 addr = debugger_get_pc(dbg) - 1;
+        Breakpoint_T* bp = stop_sig == SIGTRAP ? find_breakpoint(dbg, addr) : NULL;
+        
+        if(bp && bp->enabled)
         {
-            case SIGTRAP:
-                debug_info("Process %d hit breakpoint 0x%016lx.", dbg->loaded, debugger_get_pc(dbg) - 1);
-                dbg->context->last_exit_code = 0;
-                break;
-            default:
-                debug_info("Process %d was stopped by signal %s.", dbg->loaded, strsignal(WSTOPSIG(wait_status)));
-                dbg->context->last_exit_code = WSTOPSIG(wait_status);
-                goto process_exited;
+            // undo the execution of the breakpoint instruction
+            debugger_set_pc(dbg, addr);
+            dbg->at_breakpoint = true;
+            dbg->stop_addr = addr;
+
+            debug_info("Process %d hit breakpoint 0x%016lx.", dbg->loaded, addr);
+            dbg->context->last_exit_code = 0;
+        }
+        else
+        {
+            debug_info("Process %d was stopped by signal %s.", dbg->loaded, strsignal(stop_sig));
+            dbg->context->last_exit_code = stop_sig;
+            dbg->pending_signal = stop_sig; // deliver it when the process continues
         }
     }
 
@@ -536,7 +561,7 @@ static void handle_breakpoint(Debugger_T* dbg, const char* input)
     else if(!dbg->loaded) 
     {
         debug_error("`brk` is only available if an executable is loaded.");
-        return;
+        goto end;
     }
     else if(strcmp(subcommand, "list") == 0)
     {
@@ -587,7 +612,7 @@ static void handle_breakpoint(Debugger_T* dbg, const char* input)
     }
     else if(strcmp(subcommand, "add") == 0)
     {
-        u64 addr = hex_value_arg("bkr add");
+        u64 addr = hex_value_arg("brk add");
         if(errno)
             goto end;
 
@@ -595,7 +620,7 @@ static void handle_breakpoint(Debugger_T* dbg, const char* input)
     }
     else
     {
-        debug_error("Unknown `brk` subcommand `%s`, expect one of [help, list, rm, add].\n        Use `register help` to get help on this command.");
+        debug_error("Unknown `brk` subcommand `%s`, expect one of [help, list, rm, add].\n        Use `register help` to get help on this command.", subcommand);
         goto end;
     }
 
@@ -633,7 +658,14 @@ static void handle_register(Debugger_T* dbg, const char* input)
             goto fail;
         }
 
-        printf("%s %016lx\n", reg, get_register_value(dbg->loaded, get_register_from_name(reg)));
+        Register_T r = get_register_from_name(reg);
+        if(r == DEBUGGER_REG_NUM)
+        {
+            debug_error("Unknown register `%s`.", reg);
+            goto fail;
+        }
+
+        printf("%s %016lx\n", reg, get_register_value(dbg->loaded, r));
     }
     else if(strcmp(subcommand, "write") == 0)
     {
@@ -644,15 +676,22 @@ static void handle_register(Debugger_T* dbg, const char* input)
             goto fail;
         }
 
+        Register_T r = get_register_from_name(reg);
+        if(r == DEBUGGER_REG_NUM)
+        {
+            debug_error("Unknown register `%s`.", reg);
+            goto fail;
+        }
+
         u64 val = hex_value_arg("register write <reg>");
         if(errno)
             goto fail;
 
-        set_register_value(dbg->loaded, get_register_from_name(reg), val);
+        set_register_value(dbg->loaded, r, val);
     }
     else 
     {
-        debug_error("Unknown `register` subcommand `%s`, expect one of [help, dump, read, write].\n        Use `register help` to get help on this command.");
+        debug_error("Unknown `register` subcommand `%s`, expect one of [help, dump, read, write].\n        Use `register help` to get help on this command.", subcommand);
         goto fail;
     }
 
@@ -712,7 +751,7 @@ static void handle_memory(Debugger_T* dbg, const char* input)
     }
     else 
     {
-        debug_error("Unknown `memory` subcommand `%s`, expect one of [help, read, write].\n        Use `memory help` to get help on this command.");
+        debug_error("Unknown `memory` subcommand `%s`, expect one of [help, read, write].\n        Use `memory help` to get help on this command.", subcommand);
         goto fail;
     }
 
diff --git a/src/compiler/debugger/debugger.h b/src/compiler/debugger/debugger.h
index 797622d..9465ef9 100644
--- a/src/compiler/debugger/debugger.h
+++ b/src/compiler/debugger/debugger.h
@@ -6,6 +6,7 @@
 
 #include "config.h"
 #include "list.h"
+#include "util.h"
 
 typedef struct DEBUGGER_STRUCT Debugger_T;
 typedef struct COMMAND_STRUCT {
@@ -26,6 +27,9 @@ struct DEBUGGER_STRUCT {
     
     char* loaded_cmd;
     pid_t loaded;
+    i32 pending_signal; // signal the loaded process was stopped by
+    bool at_breakpoint; // stopped by the breakpoint at `stop_addr`
+    u64 stop_addr;
     
     bool running;
     char prompt[BUFSIZ];
diff --git a/src/compiler/debugger/register.c b/src/compiler/debugger/register.c
index 231c638..c7785bb 100644
--- a/src/compiler/debugger/register.c
+++ b/src/compiler/debugger/register.c
@@ -87,7 +87,7 @@ Register_T get_register_from_name(const char* name)
             return DEBUGGER_REG_DESCRIPTORS[i].r;
     }
 
-    return 0;
+    return DEBUGGER_REG_NUM;
 }
 
 void dump_registers(Debugger_T* dbg) 
-- 
2.43.0


From b5f649135be5dea6c8bcda097bd3974a514fb1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:09 +0000
Subject: [PATCH 24/72] fix: directives: copy copied a file onto itself, cc
 passed an unterminated argument list

---
 src/compiler/parser/directives.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/directives.c b/src/compiler/parser/directives.c
index b2cca23..00d8343 100644
--- a/src/compiler/parser/directives.c
+++ b/src/compiler/parser/directives.c
@@ -335,6 +335,9 @@ EVAL_FN(before_main)
 EVAL_FN(cc)
 {
 #ifdef CSPYDR_LINUX
+    if(data->arguments->size != 1)
+        throw_error(context, ERR_UNDEFINED, data->name_token, "directive `cc` expects 1 argument, got %lu", data->arguments->size);
+
     char* abs_path = get_absolute_path(data->name_token->source->path);
     char* working_dir = get_path_from_file(abs_path);
     if(!context->flags.silent) 
@@ -348,6 +351,8 @@ EVAL_FN(cc)
         list_push(args, ch);
         ch = strtok(NULL, " ");
     }
+    list_push(args, NULL);
+
     char current_dir[FILENAME_MAX];
     getcwd(current_dir, LEN(current_dir));
     chdir(working_dir);
@@ -401,7 +406,7 @@ EVAL_FN(copy)
 {
 #ifdef CSPYDR_LINUX
     char* from = data->arguments->items[0];
-    char* to = data->arguments->items[0];
+    char* to = data->arguments->items[1];
 
     if(!context->flags.silent) 
         LOG_OK_F(COLOR_BOLD_CYAN "  Command" COLOR_RESET "    \"cp -r %s %s\"\n", from, to);
-- 
2.43.0


From 644ba214b40c6b2b5ec4ce53bd141f9ec94f52e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 25/72] fix: diagnostics printed uninitialised buffers and
 overran them; with on a type without exit function crashed

---
 src/compiler/ast/ast.c            | 69 +++++++++++++++++--------------
 src/compiler/parser/directives.c  |  6 +--
 src/compiler/parser/typechecker.c |  9 +++-
 src/compiler/parser/validator.c   |  3 +-
 4 files changed, 51 insertions(+), 36 deletions(-)

diff --git a/src/compiler/ast/ast.c b/src/compiler/ast/ast.c
index b5cebad..5ba4a08 100644
--- a/src/compiler/ast/ast.c
+++ b/src/compiler/ast/ast.c
@@ -103,18 +103,23 @@ const char* obj_kind_to_str(ASTObjKind_T kind)
     }
 }
 
+// append to a string in a buffer of `size` bytes; whatever does not fit is cut off
+static void str_append(char* dest, const char* src, size_t size)
+{
+    size_t len = strlen(dest);
+    if(len + 1 < size)
+        strncat(dest, src, size - len - 1);
+}
+
 char* ast_id_to_str(char* dest, ASTIdentifier_T* id, size_t size)
 {
     if(id->outer)
     {
         ast_id_to_str(dest, id->outer, size);
-        if(size - strlen(dest) - 1 < 2)
-            return dest;
-        strcat(dest, "::");
+        str_append(dest, "::", size);
     }
     
-    if(size - strlen(dest) - 1 - strlen(id->callee) > 0) // concatenate the callee, if enough memory is left
-        strcat(dest, id->callee);
+    str_append(dest, id->callee, size);
     return dest;
 }
 
@@ -176,46 +181,50 @@ const char* type_kind_to_str(ASTTypeKind_T kind)
 
 char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_t size)
 {
-    if(size - strlen(dest) < 32) // if not enough memory is left, return
+    if(strlen(dest) + 32 > size) // if not enough memory is left, return
     {
-        strcat(dest, "...");
+        str_append(dest, "...", size);
         return dest;
     }
 
     if(ty->is_constant)
-        strcat(dest, "const ");
+        str_append(dest, "const ", size);
 
     switch(ty->kind)
     {
         case TY_I8...TY_CHAR:
-            strcat(dest, type_kind_to_str(ty->kind));
+            str_append(dest, type_kind_to_str(ty->kind), size);
             break;
         case TY_PTR:
-            strcat(dest, "&");
+            str_append(dest, "&", size);
             ast_type_to_str(context, dest, ty->base, size);
             break;
         case TY_C_ARRAY:
             ast_type_to_str(context, dest, ty->base, size);
-            strcat(dest, " 'c[");
+            str_append(dest, " 'c[", size);
             
             {
                 char buf[128] = {'\0'};
                 sprintf(buf, "%lu", const_u64(context, ty->num_indices_node));
-                strcat(dest, buf);
+                str_append(dest, buf, size);
             }            
             
-            strcat(dest, "]");
+            str_append(dest, "]", size);
             break;
         case TY_ARRAY:
             ast_type_to_str(context, dest, ty->base, size);            
-            sprintf(dest + strlen(dest), "[%lu]", ty->num_indices);
+            {
+                char buf[128] = {'\0'};
+                sprintf(buf, "[%lu]", ty->num_indices);
+                str_append(dest, buf, size);
+            }
             break;
         case TY_VLA:
             ast_type_to_str(context, dest, ty->base, size);
-            strcat(dest, "[]");
+            str_append(dest, "[]", size);
             break;
         case TY_STRUCT:
-            strcat(dest, ty->is_union ? "union {" : "struct {");
+            str_append(dest, ty->is_union ? "union {" : "struct {", size);
             for(size_t i = 0; i < ty->members->size; i++)
             {
                 ASTNode_T* member = ty->members->items[i];
@@ -224,15 +233,15 @@ char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_
                 case ND_STRUCT_MEMBER:
                     if(member->id->callee && strlen(member->id->callee) != 0)
                     {
-                        strcat(dest, member->id->callee);
-                        strcat(dest, ": ");
+                        str_append(dest, member->id->callee, size);
+                        str_append(dest, ": ", size);
                     }
 
                     ast_type_to_str(context, dest, member->data_type, size);
                     break;
 
                 case ND_EMBED_STRUCT:
-                    strcat(dest, "embed ");
+                    str_append(dest, "embed ", size);
                     ast_type_to_str(context, dest, member->data_type, size);
                     break;
                 default:
@@ -240,39 +249,39 @@ char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_
                 }
                 
                 if(ty->members->size - i > 1)
-                    strcat(dest, ", ");
+                    str_append(dest, ", ", size);
             }
-            strcat(dest, "}");
+            str_append(dest, "}", size);
             break;
         case TY_INTERFACE:
-            strcat(dest, "interface {}");
+            str_append(dest, "interface {}", size);
             break;
         case TY_DYN:
-            strcat(dest, "dyn ");
+            str_append(dest, "dyn ", size);
             ast_type_to_str(context, dest, ty->base, size);
             break;
         case TY_ENUM:
-            strcat(dest, "enum");
+            str_append(dest, "enum", size);
             break;
         case TY_FN:
-            strcat(dest, "fn<");
+            str_append(dest, "fn<", size);
             ast_type_to_str(context, dest, ty->base, size);
-            strcat(dest, ">(");
+            str_append(dest, ">(", size);
             for(size_t i = 0; i < ty->arg_types->size; i++)
             {
                 ast_type_to_str(context, dest, ty->arg_types->items[i], size);
                 if(ty->arg_types->size - i > 1)
-                    strcat(dest, ", ");
+                    str_append(dest, ", ", size);
             }
             if(is_variadic(ty))
-                strcat(dest, ", ...");
-            strcat(dest, ")");
+                str_append(dest, ", ...", size);
+            str_append(dest, ")", size);
             break;
         case TY_UNDEF:
             ast_id_to_str(dest, ty->id, size);
             break;
         case TY_TYPEOF:
-            strcat(dest, "<typeof>");
+            str_append(dest, "<typeof>", size);
             break;
         default:
             break;
diff --git a/src/compiler/parser/directives.c b/src/compiler/parser/directives.c
index 00d8343..e7724cb 100644
--- a/src/compiler/parser/directives.c
+++ b/src/compiler/parser/directives.c
@@ -312,7 +312,7 @@ EVAL_FN(after_main)
 {
     if(obj->after_main)
     {
-        char buf[BUFSIZ];
+        char buf[BUFSIZ] = {'\0'};
         throw_error(context, ERR_SYNTAX_WARNING, data->name_token, "function `%s` already marked as `[after_main]`", ast_id_to_str(buf, obj->id, sizeof(buf)));
     }
     obj->after_main = true;
@@ -324,7 +324,7 @@ EVAL_FN(before_main)
 {
     if(obj->before_main)
     {
-        char buf[BUFSIZ];
+        char buf[BUFSIZ] = {'\0'};
         throw_error(context, ERR_SYNTAX_WARNING, data->name_token, "function `%s` already marked as `[before_main]`", ast_id_to_str(buf, obj->id, sizeof(buf)));
     }
     obj->before_main = true;
@@ -394,7 +394,7 @@ EVAL_FN(constexpr_directive)
 {
     if(obj->constexpr) 
     {
-        char buf[BUFSIZ];
+        char buf[BUFSIZ] = {'\0'};
         throw_error(context, ERR_REDEFINITION_UNCR, data->name_token, "redundant `constexpr` directive; `%s` is already marked as `constexpr`", ast_id_to_str(buf, obj->id, BUFSIZ));
     }
 
diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 0f8efad..b98e3e4 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -151,7 +151,7 @@ static void typecheck_call(ASTNode_T* call, va_list args)
             ASTNode_T* arg = call->args->items[i];
             if(arg->unpack_mode)
             {
-                char buf[BUFSIZ];
+                char buf[BUFSIZ] = {'\0'};
                 if(!is_const_len_array(arg->data_type) && unpack(arg->data_type)->kind != TY_STRUCT)
                     throw_error(t->context, ERR_TYPE_ERROR_UNCR, arg->tok, "unpacking with `...` is not supported for type `%s`", ast_type_to_str(t->context, buf, arg->data_type, LEN(buf)));
             }
@@ -259,6 +259,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
             return; // skip pointer-identical anonymous structs
 
         char* buf1 = alloca(BUFSIZ * sizeof(char));
+        *buf1 = '\0';
         throw_error(t->context, ERR_TYPE_CAST_WARN, cast->tok, "unnecessary type cast: expression is already of type `%s`",
             ast_type_to_str(t->context, buf1, cast->data_type, BUFSIZ)
         );
@@ -270,6 +271,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
 
     if(from->kind == TY_VOID) {
         char* buf1 = alloca(BUFSIZ * sizeof(char));
+        *buf1 = '\0';
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, cast->tok, "cannot cast from `void` to `%s`", 
             ast_type_to_str(t->context, buf1, cast->data_type, BUFSIZ)
         );
@@ -277,6 +279,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
     
     if(to->kind == TY_VOID) {
         char* buf1 = alloca(BUFSIZ * sizeof(char));
+        *buf1 = '\0';
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, cast->tok, "cannot cast from `%s` to `void`", 
             ast_type_to_str(t->context, buf1, cast->left->data_type, BUFSIZ)
         );
@@ -289,6 +292,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
         }
 
         char* buf1 = alloca(BUFSIZ * sizeof(char));
+        *buf1 = '\0';
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, cast->tok, "cannot cast from dynamic type to `%s`",
             ast_type_to_str(t->context, buf1, cast->data_type, BUFSIZ)
         );
@@ -298,6 +302,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
         cast->kind = ND_DYNCAST;
         if(from->kind != TY_PTR) {
             char* buf1 = alloca(BUFSIZ * sizeof(char));
+            *buf1 = '\0';
             throw_error(t->context, ERR_TYPE_ERROR_UNCR, cast->tok, "can only cast from `%s` to dynamic types",
                 ast_type_to_str(t->context, buf1, cast->left->data_type, BUFSIZ)
             );
@@ -393,7 +398,7 @@ static void typecheck_struct_lit(ASTNode_T* s_lit, va_list args)
 
             throw_error(t->context, ERR_TYPE_ERROR_UNCR, arg->tok, "cannot implicitly cast from `%s` to `%s`",
                 ast_type_to_str(t->context, buf1, arg->data_type, BUFSIZ),
-                buf2[0] == '\0' ? buf2 : ast_type_to_str(t->context, buf2, expected_ty, BUFSIZ)
+                ast_type_to_str(t->context, buf2, expected_ty, BUFSIZ)
             );
         }
     }
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index f5dde39..762800e 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1182,6 +1182,7 @@ static void iter_validate_with(ASTNode_T* with, va_list args)
         throw_error(v->context, ERR_TYPE_ERROR_UNCR, with->obj->tok, "type `%s` does not have a registered exit function.\nRegister one by using the `exit_fn` compiler directive",
             ast_type_to_str(v->context, buf, with->condition->data_type, BUFSIZ));
         free(buf);
+        return;
     }
     with->exit_fn = handle->fn;
 }
@@ -1558,7 +1559,7 @@ static void iter_validate_index(ASTNode_T* index, va_list args)
 
     if(!indexable(left_type->kind))
     {
-        char buf[BUFSIZ];
+        char buf[BUFSIZ] = {'\0'};
         throw_error(v->context, ERR_TYPE_ERROR, index->tok, "cannot get an index value from type `%s`", ast_type_to_str(v->context, buf, left_type, BUFSIZ));
         return;
     }
-- 
2.43.0


From 4a6eb934f69fd8598433d19cb95f752ef0e5144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 26/72] fix: constant expressions crashed the compiler
 (division by zero, array sizes, nil, non-constants) and divided wrongly

---
 src/compiler/interpreter/interpreter.c | 47 +++++++++++++++++++++++---
 src/compiler/optimizer/constexpr.c     | 16 +++++++--
 2 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 421fe7e..52db37b 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -390,12 +390,30 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
     }
 }
 
+static inline void check_divisor(InterpreterContext_T* ictx, const ASTNode_T* expr, const InterpreterValue_T* left, const InterpreterValue_T* divisor)
+{
+    switch(left->type->kind)
+    {
+        case TY_F32: case TY_F64: case TY_F80:
+            return;
+        default: {
+            i64 value = interpreter_value_i64((InterpreterValue_T*) divisor);
+            if(value == 0)
+                throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "division by zero in constant expression");
+            if(value == -1 && left->type->kind == TY_I64 && left->value.integer.i64 == INT64_MIN)
+                throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "overflow in constant expression");
+            if(value == -1 && left->type->kind == TY_I32 && left->value.integer.i32 == INT32_MIN)
+                throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "overflow in constant expression");
+        }
+    }
+}
+
 static inline InterpreterValue_T eval_add(InterpreterContext_T* ictx, ASTNode_T* expr)
 {
     InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
     InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
     
-    ASTType_T* left_type = unpack(expr->left->data_type);
+    const ASTType_T* left_type = expr->left->data_type ? unpack(expr->left->data_type) : left_value.type;
     if(PTR_TYPE(left_type)) {
         left_value.type = left_type;
         left_value.value.ptr += interpreter_value_i64(&right_value) * left_type->base->size;
@@ -416,7 +434,7 @@ static inline InterpreterValue_T eval_sub(InterpreterContext_T* ictx, ASTNode_T*
     InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
     InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
     
-    ASTType_T* left_type = unpack(expr->left->data_type);
+    const ASTType_T* left_type = expr->left->data_type ? unpack(expr->left->data_type) : left_value.type;
     ASTType_T* right_type = unpack(expr->right->data_type);
     if(PTR_TYPE(left_type) && PTR_TYPE(right_type))
     {
@@ -580,6 +598,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            check_divisor(ictx, expr, &left_value, &right_value);
             switch(left_value.type->kind)
             {
                 NUMERIC_INFIX_OP_CASES(left_value, right_value, /);
@@ -587,7 +606,18 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             }
             return left_value;
         }
-        INTEGER_INFIX_OP_CASE(ND_MOD, %);
+        case ND_MOD:
+        {
+            InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
+            InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            check_divisor(ictx, expr, &left_value, &right_value);
+            switch(left_value.type->kind)
+            {
+                INTLIKE_INFIX_OP_CASES(left_value, right_value, %);
+                default: unreachable();
+            }
+            return left_value;
+        }
         case ND_ID:
         {
             ASTObj_T* obj = expr->referenced_obj;
@@ -609,6 +639,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         case ND_DEREF:
         {
             InterpreterValue_T value = interpreter_eval_expr(ictx, expr->right);
+            if(!value.value.ptr)
+                throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "dereferencing `nil` in constant expression");
             return load_value((LValue_T) {
                 .type = expr->data_type,
                 .ptr = (void*) value.value.ptr
@@ -689,6 +721,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         COMPARISON_OP_CASE(ND_GE, >=);
         case ND_CALL: {
             InterpreterValue_T callee = interpreter_eval_expr(ictx, expr->expr);
+            if(callee.type->kind != TY_FN)
+                throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "cannot call this value in a constant expression");
             InterpreterValueList_T* args = init_interpreter_value_list(expr->args->size);
             for(size_t i = 0; i < expr->args->size; i++)
             {
@@ -791,11 +825,16 @@ static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTTyp
         free(buf);
     }
     
+    // array sizes get evaluated before their expressions are validated
+    if(!ty && !(ty = obj->data_type))
+        throw_error(ictx->context, ERR_CONSTEXPR, tok, "the data type of `%s` is not known yet", obj->id->callee);
+
     switch(obj->kind) {
         case OBJ_LOCAL: 
         case OBJ_FN_ARG:
         {
-            assert(obj->offset != 0);
+            if(obj->offset == 0)
+                throw_error(ictx->context, ERR_CONSTEXPR, tok, "%s `%s` is not a compile-time constant", obj_kind_to_str(obj->kind), obj->id->callee);
             return (LValue_T) {
                 .ptr = &ictx->stack->data[obj->offset],
                 .type = ty
diff --git a/src/compiler/optimizer/constexpr.c b/src/compiler/optimizer/constexpr.c
index 778efd2..cb6b2d6 100644
--- a/src/compiler/optimizer/constexpr.c
+++ b/src/compiler/optimizer/constexpr.c
@@ -45,6 +45,12 @@ static u64 const_u64_infix(Context_T* context, ASTNode_T* node)
     u64 a = const_u64(context, node->left);
     u64 b = const_u64(context, node->right);
 
+    if((node->kind == ND_DIV || node->kind == ND_MOD) && (b == 0))
+    {
+        throw_error(context, ERR_CONSTEXPR, node->tok, "invalid division in constant expression");
+        return 0;
+    }
+
     switch(node->kind)
     {
         case ND_ADD:
@@ -54,7 +60,7 @@ static u64 const_u64_infix(Context_T* context, ASTNode_T* node)
         case ND_MUL:
             return a * b;
         case ND_DIV:
-            return a - b;
+            return a / b;
         case ND_MOD:
             return a % b;
         case ND_EQ:
@@ -156,6 +162,12 @@ static i64 const_i64_infix(Context_T* context, ASTNode_T* node)
     i64 a = const_i64(context, node->left);
     i64 b = const_i64(context, node->right);
 
+    if((node->kind == ND_DIV || node->kind == ND_MOD) && (b == 0 || (b == -1 && a == INT64_MIN)))
+    {
+        throw_error(context, ERR_CONSTEXPR, node->tok, "invalid division in constant expression");
+        return 0;
+    }
+
     switch(node->kind)
     {
         case ND_ADD:
@@ -165,7 +177,7 @@ static i64 const_i64_infix(Context_T* context, ASTNode_T* node)
         case ND_MUL:
             return a * b;
         case ND_DIV:
-            return a - b;
+            return a / b;
         case ND_MOD:
             return a % b;
         case ND_EQ:
-- 
2.43.0


From 6b1123263026ac07df481a09b7eae4883f1d40f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 27/72] fix: after_main registered the wrong list for release,
 live lint crashed on the next pass

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 762800e..a87f4db 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -727,7 +727,7 @@ static void validate_after_main_fn(Validator_T* v, ASTObj_T* fn)
     if(!v->ast->after_main)
     {
         v->ast->after_main = init_list();
-        CONTEXT_ALLOC_REGISTER(v->context, v->ast->before_main);
+        CONTEXT_ALLOC_REGISTER(v->context, v->ast->after_main);
     }
 
     list_push(v->ast->after_main, fn);
-- 
2.43.0


From 91877608998fe691ff046bdb1165309f42a79bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 28/72] fix: the default output of a source without extension
 was derived from its directory's name

---
 src/compiler/main.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index 209c4a5..103edd0 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -499,8 +499,12 @@ static char* default_output_file(Context_T* context, Action_T action, const char
     if(action == AC_LIB)
         fileext = SHARED_LIB_FILEEXT;
 
-    uintptr_t extptr = (uintptr_t) strrchr(input_file, '.');
-    if(!extptr)
+    // a dot in a directory's name does not begin the file's extension
+    const char* base = strrchr(input_file, '/');
+    base = base ? base + 1 : input_file;
+
+    uintptr_t extptr = (uintptr_t) strrchr(base, '.');
+    if(extptr <= (uintptr_t) base)
         extptr = (uintptr_t) input_file + strlen(input_file);
     uintptr_t base_length = extptr - (uintptr_t) input_file;
 
-- 
2.43.0


From 9d45491ba2d0588e51a2edb19021df19beb27584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 29/72] fix: __date__ and __time__ read the clock separately
 and disagreed around midnight

---
 src/compiler/preprocessor/stdmacros.c | 30 ++++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/compiler/preprocessor/stdmacros.c b/src/compiler/preprocessor/stdmacros.c
index a1edb9a..b0265a4 100644
--- a/src/compiler/preprocessor/stdmacros.c
+++ b/src/compiler/preprocessor/stdmacros.c
@@ -17,6 +17,24 @@ static const char* get_main_file(Context_T* context);
 static char current_time[128] = { '\0' };
 static char current_date[128] = { '\0' };
 
+// `__time__` and `__date__` have to denote the same point in time, so the clock is read only once
+static const struct tm* get_compile_time(void)
+{
+    static struct tm time_info;
+    static bool initialized = false;
+
+    if(!initialized)
+    {
+        time_t raw_time;
+
+        time(&raw_time);
+        time_info = *localtime(&raw_time);
+        initialized = true;
+    }
+
+    return &time_info;
+}
+
 struct {
     const char* id;
     union {
@@ -97,11 +115,7 @@ static const char* get_time_str(Context_T* context)
 {
     if(!current_time[0])
     {
-        time_t raw_time;
-        struct tm* time_info;
-
-        time(&raw_time);
-        time_info = localtime(&raw_time);
+        const struct tm* time_info = get_compile_time();
 
         sprintf(current_time, "%d:%d:%d", time_info->tm_hour, time_info->tm_min, time_info->tm_sec);
     }
@@ -113,11 +127,7 @@ static const char* get_date_str(Context_T* context)
 {
     if(!current_date[0])
     {
-        time_t raw_time;
-        struct tm* time_info;
-
-        time(&raw_time);
-        time_info = localtime(&raw_time);
+        const struct tm* time_info = get_compile_time();
 
         sprintf(current_date, "%d.%d.%d", time_info->tm_mday, time_info->tm_mon + 1, time_info->tm_year + 1900);
     }
-- 
2.43.0


From 97c7f20142844d95dc7b60f721aeaeaed3c3185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 30/72] fix: [deprecated] dates during daylight saving time
 took effect an hour late

---
 src/compiler/parser/directives.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/parser/directives.c b/src/compiler/parser/directives.c
index e7724cb..0001971 100644
--- a/src/compiler/parser/directives.c
+++ b/src/compiler/parser/directives.c
@@ -496,6 +496,8 @@ EVAL_FN(deprecated)
                 return false;
             }
 
+            deadline.tm_isdst = -1; // let mktime find out whether daylight saving time is in effect
+
             time_t deadline_tv = mktime(&deadline);
             time_t current_tv;
             time(&current_tv);
-- 
2.43.0


From ad62e756bc133242d0a62abb0abe0f7c6c8f065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 31/72] fix: system call wrappers stat, ioctl, wait4,
 gettimeofday, sendto and set/getres[ug]id passed wrong arguments

---
 src/std/syscall.csp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index e508adb..0ae02bf 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -207,7 +207,7 @@ namespace std {
         GETPGRP, 
         SETSID, SETREUID, SETREGID,
         GETGROUPS, SETGROUPS, 
-        SETRESUID, SETRESGID, GETRESUID, GETRESGID,
+        SETRESUID, GETRESUID, SETRESGID, GETRESGID,
         GETPGID,
         SETFSUID, SETFSGID, 
         GETSID,
@@ -370,7 +370,7 @@ namespace std {
         fn stat(filename: &const char, buf: &Stat): i32
         {
             let res: i64;
-            syscall_r!(res, res, Syscall::STAT, filename, buf);
+            syscall_r!(res, Syscall::STAT, filename, buf);
             <- res;
         }
 
@@ -440,7 +440,7 @@ namespace std {
         fn ioctl(fd: i32, cmd: i32, arg: u64): i32
         {
             let res: i64;
-            syscall_r!(res, res, Syscall::IOCTL, fd, cmd, arg);
+            syscall_r!(res, Syscall::IOCTL, fd, cmd, arg);
             <- res;
         }
         
@@ -608,7 +608,7 @@ namespace std {
         fn sendto(sockfd: i32, buf: &const void, length: usize, flags: i32): ssize_t
         {
             let res: ssize_t;
-            syscall_r!(res, Syscall::SENDTO, sockfd, buf, length, flags);
+            syscall_r!(res, Syscall::SENDTO, sockfd, buf, length, flags, 0, 0);
             <- res;
         }
 
@@ -710,7 +710,7 @@ namespace std {
         fn exit(status: i32)
             syscall!(Syscall::EXIT, status);
         
-        fn wait4(pid: pid_t, wstatus: &i32, options: i32, arg: i32): pid_t
+        fn wait4(pid: pid_t, wstatus: &i32, options: i32, arg: i64): pid_t
         {
             let res: i64;
             syscall_r!(res, Syscall::WAIT4, pid, wstatus, options, arg);
@@ -954,7 +954,7 @@ namespace std {
             <- res;
         }
 
-        fn gettimeofday(ts: &TimeSpec, n: i32): i32
+        fn gettimeofday(ts: &TimeSpec, n: i64): i32
         {
             let res: i64;
             syscall_r!(res, Syscall::GETTIMEOFDAY, ts, n);
-- 
2.43.0


From 5a2270d3550c7eb20f72317c6069fb3b67232af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 32/72] fix: timer::delay slept a thousandth of the
 milliseconds, time::unix::secs did not read the clock

---
 src/std/time.csp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std/time.csp b/src/std/time.csp
index 5d2c9e2..f163e1c 100644
--- a/src/std/time.csp
+++ b/src/std/time.csp
@@ -80,7 +80,7 @@ namespace std {
 
         namespace unix {
             # gets the current unix-time (time in seconds since 01.01.1970)
-            fn secs(): TimeVal = *syscall::time(nil);
+            fn secs(): TimeVal = clock::get_time_of_day();
         }
     }
 
@@ -127,7 +127,7 @@ namespace std {
 
         # delay further execution by `millis` milliseconds
         fn delay(millis: i64): TimeSpec {
-            let req = TimeSpec::{millis / 1_000, (millis % 1000) * 1000};
+            let req = TimeSpec::{millis / 1_000, (millis % 1_000) * 1_000_000};
             let rem = TimeSpec::{};
             syscall::nanosleep(&req, &rem);
             <- rem;
-- 
2.43.0


From d709d1a5708cbc10b44b19ee00dea990971aa6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 33/72] fix: function values in globals, arrays, members and
 behind pointers were read as addresses (at_exit handlers crashed)

---
 src/compiler/codegen/asm/asm_codegen.c | 30 +++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index fadab80..abbe819 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1029,8 +1029,6 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
 
             asm_gen_addr(cg, node->left);
             asm_println(cg, "  add $%ld, %%rax", node->body->offset);
-            if(unpack(node->data_type)->kind == TY_FN)
-                asm_println(cg, "  mov (%%rax), %%rax");
         } return;
         case ND_INDEX:
             asm_gen_index(cg, node, true);
@@ -1315,7 +1313,9 @@ static void asm_load(ASMCodegenData_T* cg, ASTType_T *ty) {
         case TY_DYN:
         case TY_ARRAY:
         case TY_VLA:
+            return;
         case TY_FN:
+            asm_println(cg, "  mov (%%rax), %%rax");
             return;
         case TY_F32:
             asm_println(cg, "  movss (%%rax), %%xmm0");
@@ -1901,13 +1901,12 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         
         case ND_ID:
             asm_gen_addr(cg, node);
-            asm_load(cg, node->data_type);
 
-            if(unpack(node->data_type)->kind == TY_FN && 
-                node->referenced_obj && 
-                (node->referenced_obj->kind == OBJ_LOCAL || node->referenced_obj->kind == OBJ_FN_ARG)
-            )
-                    asm_println(cg, "  mov (%%rax), %%rax");
+            // the address of a function already is its value
+            if(unpack(node->data_type)->kind == TY_FN && node->referenced_obj && node->referenced_obj->kind == OBJ_FUNCTION)
+                return;
+            
+            asm_load(cg, node->data_type);
             return;
 
         case ND_MEMBER: {
@@ -1920,10 +1919,6 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
             asm_gen_addr(cg, node);
             asm_load(cg, node->data_type);
-
-            if(unpack(node->data_type)->kind == TY_FN)
-                asm_println(cg, "  mov (%%rax), %%rax");
-
         } return;
         
         case ND_ARRAY:
@@ -2175,10 +2170,15 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             List_T* packed_args = node->args;
             node->args = unpack_call_args(cg, node);
             i32 stack_args = asm_push_args(cg, node);
-            asm_gen_addr(cg, node->expr);
+            if(node->expr->kind == ND_ID)
+            {
+                asm_gen_addr(cg, node->expr);
 
-            if(!node->called_obj || node->called_obj->kind == OBJ_LOCAL || node->called_obj->kind == OBJ_FN_ARG)
-                asm_println(cg, "  mov (%%rax), %%rax");
+                if(!node->called_obj || node->called_obj->kind == OBJ_LOCAL || node->called_obj->kind == OBJ_FN_ARG)
+                    asm_println(cg, "  mov (%%rax), %%rax");
+            }
+            else
+                asm_gen_expr(cg, node->expr);
 
             i32 fp = asm_pop_args(cg, node);
 
-- 
2.43.0


From 66c3337489652de0e5d5e56b9693f2ae9cad9ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 34/72] fix: the test runner reported tests that exited,
 crashed or failed 255 and more assertions as passed or skipped

---
 src/std/testing.csp | 95 +++++++++++++++++++++++++++++----------------
 1 file changed, 62 insertions(+), 33 deletions(-)

diff --git a/src/std/testing.csp b/src/std/testing.csp
index 587ed7f..30ac66d 100644
--- a/src/std/testing.csp
+++ b/src/std/testing.csp
@@ -11,6 +11,7 @@
 ]#
 
 import "error.csp";
+import "memory.csp";
 import "process.csp";
 
 namespace std {
@@ -33,6 +34,20 @@ namespace std {
             OK, SKIP, FAIL
         };
 
+        # memory the process of a test shares with the runner, receives the test's outcome
+        let __outcome: &TestExit;
+
+        # end the process of a test with the given outcome
+        [no_return]
+        fn __finish(t: &Testing, outcome: TestExit) {
+            # a test with failed assertions has failed, however it ends
+            do {
+                *__outcome = outcome;
+                noop;
+            } unless t && t.errors != 0;
+            process::exit(ExitCode::SUCCESS);
+        }
+
         fn new(tests: Test[]): Testing {
             <- Testing::{
                 &tests
@@ -62,44 +77,58 @@ namespace std {
             io::printf("Running test %l/%l: `%s`", idx + 1, len *t.tests, test.desc);
 
             using process;
-            let pid = fork();
-            let skipped = false;
-            match pid {
-                (-1): pid_t => {
-                    error::new(Errno::CHILD, "could not fork process");
-                    <- TestExit::FAIL;
-                }
-                0 => {
+            # as long as the test did not finish by itself, it counts as failed
+            let outcome: &TestExit = syscall::mmap(nil, sizeof TestExit, Prot::READ | Prot::WRITE, MMap::SHARED | MMap::ANONYMOUS, -1, 0);
+            let pid: pid_t = -1;
+            if (outcome: i64) < 0 && (outcome: i64) > -4096
+                error::new(Errno::NOMEM, "could not share memory with the test");
+            else {
+                *outcome = TestExit::FAIL;
+                pid = fork();
+                if pid == 0 {
                     # new child process
+                    testing::__outcome = outcome;
                     test.func(t);
-                    exit(t.errors + 1); # pass the number of errors through the exit status to the parent process
+                    __finish(t, TestExit::OK);
                 }
-                _ => {
-                    # parent process
-                    let exit_code = 0;
-                    waitpid(pid, &exit_code, 0);
-                    if exited(exit_code) {
-                        let status = exit_status(exit_code);
-
-                        match status {
-                            0 => skipped = true;
-                            _ => t.errors += (status - 1);
-                        }
-                    }
-                    else if signaled(exit_code) {
-                        let signame = signum_str(term_sig(exit_code));
+                if pid < 0
+                    error::new(Errno::CHILD, "could not fork process");
+            }
 
-                        using io::color;
-                        io::printf("\n    %sTest `%s` (%i) terminated with signal %s.%s", &RED[0], test.desc, idx + 1, signame, &RESET[0]);
-                        t.errors ++;
-                    }
-                    else {
-                        using io::color;
-                        io::printf("\n   %sTest `%s` (%i) terminated in an unexpected way.%s", &RED[0], test.desc, idx + 1, &RESET[0]);
-                        t.errors++;
+            let skipped = false;
+            if pid < 0
+                t.errors++;
+            else {
+                # parent process
+                let exit_code = 0;
+                let waited = waitpid(pid, &exit_code, 0);
+                while waited == -Errno::INTR
+                    waited = waitpid(pid, &exit_code, 0);
+                
+                if waited == pid && exited(exit_code) {
+                    match *outcome {
+                        TestExit::OK => noop;
+                        TestExit::SKIP => skipped = true;
+                        _ => t.errors++;
                     }
                 }
+                else if waited == pid && signaled(exit_code) {
+                    let signame = signum_str(term_sig(exit_code));
+
+                    using io::color;
+                    io::printf("\n    %sTest `%s` (%i) terminated with signal %s.%s", &RED[0], test.desc, idx + 1, signame, &RESET[0]);
+                    t.errors++;
+                }
+                else {
+                    using io::color;
+                    io::printf("\n   %sTest `%s` (%i) terminated in an unexpected way.%s", &RED[0], test.desc, idx + 1, &RESET[0]);
+                    t.errors++;
+                }
             }
+            do {
+                syscall::munmap(outcome, sizeof TestExit);
+                noop;
+            } unless (outcome: i64) < 0 && (outcome: i64) > -4096;
 
             using io::color;
             if skipped {
@@ -207,8 +236,8 @@ namespace std {
         }
 
         # skip the current test by terminating the process
-        fn skip(_t: &Testing) {
-            process::exit(0);
+        fn skip(t: &Testing) {
+            __finish(t, TestExit::SKIP);
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 6c6e1d1e531be8430551d412227d03841134f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 35/72] fix: C arrays in structs were aligned to at least 8
 bytes, so structs shared with the kernel (UTSName, SockAddr, DirEntry) were
 read at wrong offsets

---
 src/compiler/parser/validator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index a87f4db..cd3ea39 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2319,6 +2319,8 @@ static i32 align_type(ASTType_T* ty)
     switch(ty->kind)
     {
         case TY_C_ARRAY:
+            // aligned like its elements
+            return align_type(unpack(ty->base));
         case TY_PTR:
             return MAX(pow(2, floor(log(ty->base->size)/log(2))), 8);
         default:
@@ -2461,6 +2463,8 @@ static i32 get_type_align(Validator_T* v, ASTType_T* type)
     switch(type->kind)
     {
         case TY_C_ARRAY:
+            // aligned like its elements
+            return get_type_align(v, unpack(type->base));
         case TY_PTR:
             return MAX(pow(2, floor(log(type->base->size)/log(2))), 8);
         case TY_ARRAY:
-- 
2.43.0


From d7c2015a866c5126d010cfafe693ae226d072fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 36/72] fix: Stat did not have the layout the kernel fills, its
 mode, links and owner were mixed up

---
 src/std/io.csp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/std/io.csp b/src/std/io.csp
index 2b572e9..2441d28 100644
--- a/src/std/io.csp
+++ b/src/std/io.csp
@@ -44,19 +44,20 @@ namespace std {
     type Stat: struct {
         dev: dev_t,         # Device
         ino: ino_t,         # File serial number
-        mode: mode_t,       # File mode
         nlink: nlink_t,     # Link count
+        mode: mode_t,       # File mode
         uid: uid_t,         # User ID of the file's owner
         gid: gid_t,         # Group ID of the file's owner
+        __pad0: u32,
         rdev: dev_t,        # Device number, if device
         size: Offset,        # Sote of the file (in bytes)
         blksize: blksize_t, # Optimal blocksize for IO
         blocks: blkcnt_t,   # Number 512-byte blocks allocated
-        atime: TimeVal,
-        atimensec: u64,
-        mtime: TimeVal,
+        atime: i64,         # Time of last access (in seconds)
+        atimensec: u64,     # ... and nanoseconds
+        mtime: i64,         # Time of last modification
         mtimensec: u64,
-        ctime: TimeVal,
+        ctime: i64,         # Time of last status change
         ctimensec: u64,
         __glibc_reserved: u64 'c[3]
     };
-- 
2.43.0


From 346d699df261f149742ffc77dff37129f17d365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 37/72] fix: directories could not be opened or read, and
 failed seeks reported success

---
 src/std/directory.csp | 41 ++++++++++++++++++++++++++++++-----------
 src/std/syscall.csp   |  7 +++++++
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/std/directory.csp b/src/std/directory.csp
index af11488..9b6bdc4 100644
--- a/src/std/directory.csp
+++ b/src/std/directory.csp
@@ -49,8 +49,10 @@ namespace std {
             let st: Stat;
             let dir: &Directory = nil;
 
-            if fstat(fd, &st) < 0
+            if fstat(fd, &st) < 0 {
+                error::new(Errno::BADF, "error in `std::syscall::fstat()`");
                 <- nil;
+            }
             if fcntl(fd, io::F_GETFL) & io::O_PATH {
                 error::new(Errno::BADF, "");
                 <- nil;
@@ -70,9 +72,8 @@ namespace std {
         {
             using io;
 
-            let fd = 0;
-            if fd = syscall::open(name, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0) < 0
-            {
+            let fd = syscall::open(name, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
+            if fd < 0 {
                 error::new(Errno::IO, "could not open directory");
                 <- nil;
             }
@@ -90,6 +91,11 @@ namespace std {
         [drop]
         fn close(dir: &Directory): i32 
         {
+            do {
+                error::new(Errno::NILPTR, "`dir` argument is nil");
+                <- -1;
+            } unless dir;
+
             let return = syscall::close(dir.fd);
             memory::free(dir);
             <- return;
@@ -111,7 +117,10 @@ namespace std {
             do 
                 <- error::new(Errno::NILPTR, "`dir` argument is nil")
             unless dir;
-            dir.tell = syscall::lseek(dir.fd, offset, SEEK_SET);
+            let pos = syscall::lseek(dir.fd, offset, SEEK_SET);
+            if pos < 0
+                <- error::new(Errno::INVAL, "error in `std::syscall::lseek()`");
+            dir.tell = pos;
             dir.buf_pos = dir.buf_end = 0;
             <- error::none();
         }
@@ -121,28 +130,38 @@ namespace std {
             do
                 <- error::new(Errno::NILPTR, "`dir` argument is nil")
             unless dir;
-            syscall::lseek(dir.fd, 0, SEEK_SET);
+            if syscall::lseek(dir.fd, 0, SEEK_SET) < 0
+                <- error::new(Errno::IO, "error in `std::syscall::lseek()`");
             dir.buf_pos = dir.buf_end = 0;
             dir.tell = 0;
             <- error::none();
         }
 
+        # returns the next entry, `nil` at the end of the directory or on error;
+        # the entry is valid until the next call with the same directory
         fn read(dir: &Directory): &DirEntry
         {
-            if dir.buf_pos > dir.buf_end {
-                let length = syscall::getdents(dir.fd, dir.buf, sizeof typeof dir.buf);
+            do {
+                error::new(Errno::NILPTR, "`dir` argument is nil");
+                <- nil;
+            } unless dir;
+
+            if dir.buf_pos >= dir.buf_end {
+                let length = syscall::getdents64(dir.fd, &dir.buf[0], sizeof typeof dir.buf);
                 if length < 0 {
-                    error::new(Errno::IO, "error in `std::syscall::getdents()`");
+                    error::new(Errno::IO, "error in `std::syscall::getdents64()`");
                     <- nil;
                 }
+                if length == 0
+                    <- nil;
                 dir.buf_end = length;
                 dir.buf_pos = 0;
             }
 
-            let de = (&(dir.buf) + dir.buf_pos): &DirEntry;
+            let de = (&dir.buf[dir.buf_pos]): &DirEntry;
             dir.buf_pos += de.reclen;
             dir.tell = de.off;
             <- de;
         }
     }
-}
\ No newline at end of file
+}
diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index 0ae02bf..d3e7e9e 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -845,6 +845,13 @@ namespace std {
             <- res;
         }
 
+        fn getdents64(fd: u32, dirp: &void, count: u32): i64
+        {
+            let res: i64;
+            syscall_r!(res, Syscall::GETDENTS64, fd, dirp, count);
+            <- res;
+        }
+
         fn getcwd(buf: &char, size: usize): &char
         {
             let res: &char;
-- 
2.43.0


From 3b50b7d51126afaa4a40ebd56dfae602c031dcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 38/72] fix: threads raced with their own handle, errors of
 starting and joining were lost, detach took a pointer

---
 src/std/libc/pthread.csp |  4 ++--
 src/std/thread.csp       | 37 ++++++++++++++++++++++++-------------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/std/libc/pthread.csp b/src/std/libc/pthread.csp
index 6b1f34f..26347ee 100644
--- a/src/std/libc/pthread.csp
+++ b/src/std/libc/pthread.csp
@@ -113,9 +113,9 @@ namespace libc {
     namespace pthread {
         extern "C" {
             fn pthread_create(thread: &PThread, attr: &const PThreadAttr, func: const fn<&void>(&void), ptr: &void): i32;
-            fn pthread_detach(thread: &PThread): i32;
+            fn pthread_detach(thread: PThread): i32;
             fn pthread_exit(ptr: &void);
-            fn pthread_join(thread: PThread, ptr: &&void);
+            fn pthread_join(thread: PThread, ptr: &&void): i32;
 
             fn pthread_self(): PThread;
 
diff --git a/src/std/thread.csp b/src/std/thread.csp
index 64722e6..94065fd 100644
--- a/src/std/thread.csp
+++ b/src/std/thread.csp
@@ -26,25 +26,34 @@ namespace std {
         fn create(func: const fn(&Thread), userdata: &void): &Thread
         {
             let thread: &Thread = memory::alloc(sizeof Thread);
-            thread.userdata = userdata;
+            do ret nil unless thread;
+
+            # the new thread might use its handle before pthread_create() returns
+            *thread = Thread::{ func, nil, true, userdata };
 
             using libc, pthread;
             let err = pthread_create(&thread.pt, nil, func: const fn<&void>(&void), thread);
             if err {
-                error::new(err, "failed creating pthread object");
+                memory::free(thread);
+                error::new(err: Errno, "failed creating pthread object");
                 <- nil;
             }
 
-            thread.running = true;
             <- thread;
         }
 
         fn detach(thread: &Thread): Error
         {
+            do
+                <- error::new(Errno::NILPTR, "detach(): `thread` is nil")
+            unless thread;
+
             using libc::pthread;
-            let err = pthread_detach(&thread.pt);
+            let err = pthread_detach(thread.pt);
             if err
-                <- error::new(err, "failed detaching thread");
+                <- error::new(err: Errno, "failed detaching thread");
+
+            thread.running = false;
             <- error::none();
         }
 
@@ -62,8 +71,11 @@ namespace std {
             unless t;
 
             if t.running {
-                using libc::pthread, memory;
-                pthread_join(t.pt, nil);
+                using libc::pthread;
+                let err = pthread_join(t.pt, nil);
+                if err
+                    <- error::new(err: Errno, "failed joining thread");
+                t.running = false;
             }
 
             #memory::free(t);
@@ -85,7 +97,7 @@ namespace std {
             if a == b ret true;
          
             using libc, pthread;
-            <- a.func == b.func && pthread_equal(a.pt, b.pt);
+            <- pthread_equal(a.pt, b.pt) != 0;
         }
 
         fn get_pthread(t: &const Thread): libc::PThread
@@ -111,12 +123,11 @@ namespace std {
         fn async(func: const fn(&Thread)): Error {
             let thread = create(func, nil);
 
-            if error::is_some() 
-                <- error::current();
+            do
+                <- error::current()
+            unless thread;
             
-            join(thread);
-
-            <- error::current();
+            <- join(thread);
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 5b0035075ed073dcbcd680dc888ab31a38dbb533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 39/72] fix: error::is_some() was inverted

---
 src/std/error.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/error.csp b/src/std/error.csp
index e622556..df940ec 100644
--- a/src/std/error.csp
+++ b/src/std/error.csp
@@ -228,6 +228,6 @@ namespace std {
             }
         }
 
-        fn is_some(): bool = __static::__error.kind == Errno::NONE;
+        fn is_some(): bool = __static::__error.kind != Errno::NONE;
     }
 }
\ No newline at end of file
-- 
2.43.0


From f02a9f43d86ae4a80830cc8a8ba957637a93cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:01 +0000
Subject: [PATCH 40/72] fix: process::exit and returning from main only ended
 the calling thread

---
 src/compiler/codegen/asm/asm_codegen.c | 3 ++-
 src/std/process.csp                    | 3 ++-
 src/std/syscall.csp                    | 4 ++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index abbe819..10dbb04 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -402,7 +402,8 @@ static void asm_gen_entry_point(ASMCodegenData_T* cg)
     else
         asm_println(cg, "  movq %rax, %rdi");
 
-    asm_println(cg, "  movq $60, %rax");
+    // exit_group: end the process with all its threads
+    asm_println(cg, "  movq $231, %rax");
     asm_println(cg, "  syscall");
 }
 
diff --git a/src/std/process.csp b/src/std/process.csp
index a0285da..75b6b43 100644
--- a/src/std/process.csp
+++ b/src/std/process.csp
@@ -156,7 +156,8 @@ namespace std {
                 func(exit_code);
             }
             
-            loop syscall::exit(exit_code);
+            # end the whole process, not only the calling thread
+            loop syscall::exit_group(exit_code);
         }
 
         [no_return]
diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index d3e7e9e..809fc5d 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -709,6 +709,10 @@ namespace std {
         [no_return]
         fn exit(status: i32)
             syscall!(Syscall::EXIT, status);
+
+        [no_return]
+        fn exit_group(status: i32)
+            syscall!(Syscall::EXIT_GROUP, status);
         
         fn wait4(pid: pid_t, wstatus: &i32, options: i32, arg: i64): pid_t
         {
-- 
2.43.0


From a7f1e09baddff5440b6b13ccbc7863efd6eab78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:58 +0000
Subject: [PATCH 41/72] fix: MMap::GROWSDOWN, the IPC and the SHM constants had
 other values than the system's

---
 src/std/memory.csp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/std/memory.csp b/src/std/memory.csp
index fd2b104..548e62f 100644
--- a/src/std/memory.csp
+++ b/src/std/memory.csp
@@ -45,7 +45,7 @@ namespace std {
         ANONYMOUS       = 0x20,
         FIXED           = 0x10,
         # FIXED_NOREPLACE
-        GROWSDOWN       = 0x01000000,
+        GROWSDOWN       = 0x0100,
         # HUGETB
         # HUGE_1MB
         # HUGE_2MB
@@ -70,16 +70,15 @@ namespace std {
     namespace memory {
         const MMAP_FAILED: &void = (-1): &void;
         
-        # TODO: implement correct values
-        const IPC_CREAT: i32 = 0;
-        const IPC_EXCL: i32 = 0;
-
-        const SHM_HUGETLB: i32 = 0;
-        const SHM_HUGE_1GB: i32 = 0;
-        const SHM_HUGE_2M: i32 = 0;
-        const SHM_NORESERVE: i32 = 0;
-        const SHM_REMAP: i32 = 0;
-        const SHM_RDONLY: i32 = 0;
+        const IPC_CREAT: i32 = 0o1000;
+        const IPC_EXCL: i32 = 0o2000;
+
+        const SHM_HUGETLB: i32 = 0o4000;
+        const SHM_HUGE_1GB: i32 = 0x78000000;
+        const SHM_HUGE_2M: i32 = 0x54000000;
+        const SHM_NORESERVE: i32 = 0o10000;
+        const SHM_REMAP: i32 = 0o40000;
+        const SHM_RDONLY: i32 = 0o10000;
 
         [private]
         let unfreed_allocs: i32 = 0;
-- 
2.43.0


From 6327ed8dfbd504ece2cae987d37eb7f42fa49c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 42/72] fix: resolve a relative --cc path before [cc] changes
 the directory

---
 src/compiler/parser/directives.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/directives.c b/src/compiler/parser/directives.c
index 0001971..ee14870 100644
--- a/src/compiler/parser/directives.c
+++ b/src/compiler/parser/directives.c
@@ -355,13 +355,17 @@ EVAL_FN(cc)
 
     char current_dir[FILENAME_MAX];
     getcwd(current_dir, LEN(current_dir));
+
+    // a relative path to the compiler does not refer to the directory of the source file
+    char* cc_path = strchr(context->cc, '/') ? get_absolute_path((char*) context->cc) : NULL;
     chdir(working_dir);
     
-    i32 exit_code = subprocess(context->cc, (char* const*) args->items, false);
+    i32 exit_code = subprocess(cc_path ? cc_path : context->cc, (char* const*) args->items, false);
     if(exit_code)
         throw_error(context, ERR_MISC, data->name_token, "command %s %s failed with exit code %d", context->cc, (const char*) data->arguments->items[0], exit_code);
     chdir(current_dir);
     free_list(args);
+    free(cc_path);
     free(abs_path);
 #else
     throw_error(context, ERR_INTERNAL, data->name_token, "directive `cc` is only implemented for linux as of now");
-- 
2.43.0


From 91583c41c7a441b375dc5a7a3e1a27c27ec09a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 43/72] fix: report a missing STD path instead of crashing

---
 src/compiler/main.c | 6 +++++-
 src/linter/main.c   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index 103edd0..891730f 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -332,7 +332,11 @@ i32 main(i32 argc, char* argv[])
                 LOG_ERROR_F(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " expect STD path after %s.\n", arg);
                 exit(1);
             }
-            context.paths.std_path = get_absolute_path(argv[i]);
+            if(!(context.paths.std_path = get_absolute_path(argv[i])))
+            {
+                LOG_ERROR_F(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " error opening STD path \"%s\": No such file or directory\n", argv[i]);
+                exit(1);
+            }
         }
         else if(streq(arg, "--clear-cache"))
             context.flags.clear_cache_after = true;
diff --git a/src/linter/main.c b/src/linter/main.c
index dda89b8..af934f8 100644
--- a/src/linter/main.c
+++ b/src/linter/main.c
@@ -151,7 +151,11 @@ i32 main(i32 argc, char* argv[])
                 LOG_ERROR_F(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " expect STD path after %s.", arg);
                 exit(1);
             }
-            std_path = get_absolute_path(argv[i]);
+            if(!(std_path = get_absolute_path(argv[i])))
+            {
+                LOG_ERROR_F(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " error opening STD path \"%s\": No such file or directory\n", argv[i]);
+                exit(1);
+            }
         }
         else if(arg[0] == '-')
         {
-- 
2.43.0


From 9760656d44e9ce41c019bf0dd2c070f3e6c9ee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 44/72] fix: report a missing value of --set-mmcd

---
 src/compiler/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index 891730f..f63f8fd 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -317,7 +317,7 @@ i32 main(i32 argc, char* argv[])
             context.flags.optimize = false;
         else if(streq(arg, "--set-mmcd"))
         {
-            if(!(context.max_macro_call_depth = atoi(argv[++i])))
+            if(!argv[++i] || !(context.max_macro_call_depth = atoi(argv[i])))
             {
                 LOG_ERROR(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " `--set-mmcd` expects an integer greater than 0\n");
                 exit(1);
-- 
2.43.0


From 4c15f603ae63a5d7849c7f6e6b7320b472fc8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 45/72] fix: do not pass on an empty --cc-flags as the end of
 the arguments

---
 src/compiler/main.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index f63f8fd..0c6446f 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -350,10 +350,8 @@ i32 main(i32 argc, char* argv[])
             }
 
             char* state;
-            char* flag = strtok_r(flags, " \t", &state);
-            do
+            for(char* flag = strtok_r(flags, " \t", &state); flag != NULL; flag = strtok_r(NULL, " \t", &state))
                 list_push(context.compiler_flags, flag);
-            while((flag = strtok_r(NULL, " \t", &state)) != NULL);
         }
         else if(streq(arg, "--"))
         {
-- 
2.43.0


From ca12462bef4909a073a2781ec6e642c71bea284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:16 +0000
Subject: [PATCH 46/72] fix: the debugger's comp command compiles with the
 session's options

---
 src/compiler/context.h           |  2 ++
 src/compiler/debugger/debugger.c | 22 +++++++++++++---------
 src/compiler/main.c              |  2 ++
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/compiler/context.h b/src/compiler/context.h
index 17f1709..8d32115 100644
--- a/src/compiler/context.h
+++ b/src/compiler/context.h
@@ -65,6 +65,8 @@ typedef struct CSPYDR_CONTEXT_STRUCT {
         i32 argc;
     } args;
 
+    char** compile_args; // the options given on the command line, NULL-terminated
+
     char* cc;
     List_T* compiler_flags;
 
diff --git a/src/compiler/debugger/debugger.c b/src/compiler/debugger/debugger.c
index 4324952..553552d 100644
--- a/src/compiler/debugger/debugger.c
+++ b/src/compiler/debugger/debugger.c
@@ -254,15 +254,19 @@ static void handle_comp(Debugger_T* dbg, const char* input)
 
     fprintf(OUTPUT_STREAM, "\n");
 
-    const char* args[] = {
-        dbg->context->paths.exec_name,
-        "build",
-        dbg->src_file,
-        dbg->context->ct == CT_ASM ? "--asm" : "--transpile",
-        NULL
-    };
-
-    dbg->context->last_exit_code = subprocess(args[0], (char* const*) args, false);
+    // compile with the options the session was started with
+    List_T* args = init_list();
+    list_push(args, dbg->context->paths.exec_name);
+    list_push(args, "build");
+    list_push(args, dbg->src_file);
+    for(char** arg = dbg->context->compile_args; *arg && strcmp(*arg, "--") != 0; arg++)
+        list_push(args, *arg);
+    list_push(args, "-o");
+    list_push(args, dbg->bin_file);
+    list_push(args, NULL);
+
+    dbg->context->last_exit_code = subprocess(args->items[0], (char* const*) args->items, false);
+    free_list(args);
 
     fprintf(OUTPUT_STREAM, "\n");
 
diff --git a/src/compiler/main.c b/src/compiler/main.c
index 0c6446f..71f3d57 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -220,6 +220,7 @@ i32 main(i32 argc, char* argv[])
     // remove the first three flags form argc/argv
     argc -= 3;
     argv += 3;
+    context.compile_args = argv; // for compiling again with the same options
 
     if(action == AC_SHELL)
     {
@@ -350,6 +351,7 @@ i32 main(i32 argc, char* argv[])
             }
 
             char* state;
+            flags = strdup(flags);
             for(char* flag = strtok_r(flags, " \t", &state); flag != NULL; flag = strtok_r(NULL, " \t", &state))
                 list_push(context.compiler_flags, flag);
         }
-- 
2.43.0


From 17f66c26989b2a863d6c7ce86d66f563311f2793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:20 +0000
Subject: [PATCH 47/72] fix: the debugger reports memory it cannot read or
 write

---
 src/compiler/debugger/debugger.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/compiler/debugger/debugger.c b/src/compiler/debugger/debugger.c
index 553552d..6638878 100644
--- a/src/compiler/debugger/debugger.c
+++ b/src/compiler/debugger/debugger.c
@@ -703,14 +703,26 @@ fail:
     free(args);    
 }
 
-static inline u64 debugger_read_memory(Debugger_T* dbg, u64 address)
+static bool debugger_read_memory(Debugger_T* dbg, u64 address, u64* value)
 {
-    return ptrace(PTRACE_PEEKDATA, dbg->loaded, address, NULL);
+    errno = 0; // any value may be read, only `errno` tells about a failure
+    *value = ptrace(PTRACE_PEEKDATA, dbg->loaded, address, NULL);
+    if(errno)
+    {
+        debug_error("Cannot read memory at address 0x%016lx: %s.", address, strerror(errno));
+        return false;
+    }
+    return true;
 }
 
-static inline void debugger_write_memory(Debugger_T* dbg, u64 address, u64 value)
+static bool debugger_write_memory(Debugger_T* dbg, u64 address, u64 value)
 {
-    ptrace(PTRACE_POKEDATA, dbg->loaded, address, value);
+    if(ptrace(PTRACE_POKEDATA, dbg->loaded, address, value) < 0)
+    {
+        debug_error("Cannot write memory at address 0x%016lx: %s.", address, strerror(errno));
+        return false;
+    }
+    return true;
 }
 
 static void handle_memory(Debugger_T* dbg, const char* input)
@@ -738,7 +750,9 @@ static void handle_memory(Debugger_T* dbg, const char* input)
         if(errno)
             goto fail;
         
-        fprintf(OUTPUT_STREAM, "0x%016lx: 0x%016lx\n", addr, debugger_read_memory(dbg, addr));
+        u64 value;
+        if(debugger_read_memory(dbg, addr, &value))
+            fprintf(OUTPUT_STREAM, "0x%016lx: 0x%016lx\n", addr, value);
     }
     else if(strcmp(subcommand, "write") == 0)
     {
@@ -750,8 +764,9 @@ static void handle_memory(Debugger_T* dbg, const char* input)
         if(errno)
             goto fail;
         
-        fprintf(OUTPUT_STREAM, "0x%016lx: 0x%016lx -> 0x%016lx\n", addr, debugger_read_memory(dbg, addr), value);
-        debugger_write_memory(dbg, addr, value);
+        u64 old_value;
+        if(debugger_read_memory(dbg, addr, &old_value) && debugger_write_memory(dbg, addr, value))
+            fprintf(OUTPUT_STREAM, "0x%016lx: 0x%016lx -> 0x%016lx\n", addr, old_value, value);
     }
     else 
     {
-- 
2.43.0


From ddc5b58e4a3d534ed6d4f255ead30df7acc725eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:22 +0000
Subject: [PATCH 48/72] fix: generated code that cannot be kept in memory is an
 error

---
 src/compiler/codegen/asm/asm_codegen.c      |  9 +++++----
 src/compiler/codegen/codegen_utils.c        | 10 ++++++++++
 src/compiler/codegen/codegen_utils.h        |  1 +
 src/compiler/codegen/transpiler/c_codegen.c | 13 +++++++------
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 10dbb04..a20f6b6 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -182,6 +182,7 @@ void init_asm_cg(ASMCodegenData_T* cg, Context_T* context, ASTProg_T* ast)
     cg->ast = ast;
     cg->embed_file_locations = context->flags.embed_debug_info;
     cg->code_buffer = open_memstream(&cg->buf, &cg->buf_len);
+    check_code_written(context, cg->code_buffer != NULL);
     cg->string_literals = init_list();
 }
 
@@ -198,7 +199,7 @@ void asm_print(ASMCodegenData_T* cg, char* fmt, ...)
 {
     va_list va;
     va_start(va, fmt);
-    vfprintf(cg->code_buffer, fmt, va);
+    check_code_written(cg->context, vfprintf(cg->code_buffer, fmt, va) >= 0);
     va_end(va);
 }
 
@@ -209,9 +210,9 @@ void asm_println(ASMCodegenData_T* cg, char* fmt, ...)
 {
     va_list va;
     va_start(va, fmt);
-    vfprintf(cg->code_buffer, fmt, va);
+    check_code_written(cg->context, vfprintf(cg->code_buffer, fmt, va) >= 0);
     va_end(va);    
-    fputc('\n', cg->code_buffer);
+    check_code_written(cg->context, fputc('\n', cg->code_buffer) != EOF);
 }
 
 static void write_code(ASMCodegenData_T* cg, const char* target, bool cachefile)
@@ -236,7 +237,7 @@ static void write_code(ASMCodegenData_T* cg, const char* target, bool cachefile)
     else
         sprintf(file_path, "%s.s", basename((char*) target));
 
-    fclose(cg->code_buffer);
+    check_code_written(cg->context, fclose(cg->code_buffer) == 0 && cg->buf);
 
     FILE* out = open_file(file_path);
     close_written_file(out, file_path, fwrite(cg->buf, 1, cg->buf_len, out) == cg->buf_len);
diff --git a/src/compiler/codegen/codegen_utils.c b/src/compiler/codegen/codegen_utils.c
index bbc2959..17044ea 100644
--- a/src/compiler/codegen/codegen_utils.c
+++ b/src/compiler/codegen/codegen_utils.c
@@ -189,3 +189,13 @@ void print_linking_msg(Context_T* context, const char* target, bool is_exec)
     }
     LOG_OK(COLOR_RESET "\n");
 } 
+
+// the generated code is collected in memory: never go on with a part of it
+void check_code_written(Context_T* context, bool written)
+{
+    if(written)
+        return;
+
+    LOG_ERROR("could not store the generated code: out of memory\n");
+    throw(context->main_error_exception);
+}
diff --git a/src/compiler/codegen/codegen_utils.h b/src/compiler/codegen/codegen_utils.h
index cba16a2..e4b4697 100644
--- a/src/compiler/codegen/codegen_utils.h
+++ b/src/compiler/codegen/codegen_utils.h
@@ -18,6 +18,7 @@ bool is_variadic(const ASTType_T* ty);
 ASTType_T* unpack(ASTType_T* ty);
 bool should_emit(Context_T* context, ASTObj_T* obj);
 bool ptr_type(ASTType_T* ty);
+void check_code_written(Context_T* context, bool written);
 void print_linking_msg(Context_T* context, const char* target, bool is_exec);
 
 #endif
\ No newline at end of file
diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 3efa640..6066f9b 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -228,6 +228,7 @@ void init_c_cg(CCodegenData_T* cg, Context_T* context, ASTProg_T* ast)
     cg->ast = ast;
     cg->silent = context->flags.silent;
     cg->code_buffer = open_memstream(&cg->buf, &cg->buf_len);
+    check_code_written(context, cg->code_buffer != NULL);
     cg->unique_id = 0;
     cg->blocks = init_list();
     cg->arrays = hashmap_init();
@@ -255,7 +256,7 @@ static void c_print(CCodegenData_T* cg, const char* fmt, ...)
 {
     va_list va;
     va_start(va, fmt);
-    vfprintf(cg->code_buffer, fmt, va);
+    check_code_written(cg->context, vfprintf(cg->code_buffer, fmt, va) >= 0);
     va_end(va);
 }
 
@@ -266,19 +267,19 @@ static void c_println(CCodegenData_T* cg, const char* fmt, ...)
 {
     va_list va;
     va_start(va, fmt);
-    vfprintf(cg->code_buffer, fmt, va);
+    check_code_written(cg->context, vfprintf(cg->code_buffer, fmt, va) >= 0);
     va_end(va);    
-    fputc('\n', cg->code_buffer);
+    check_code_written(cg->context, fputc('\n', cg->code_buffer) != EOF);
 }
 
 static void c_putc(CCodegenData_T* cg, int c)
 {
-    fputc(c, cg->code_buffer);
+    check_code_written(cg->context, fputc(c, cg->code_buffer) != EOF);
 }
 
 static void c_rewind(CCodegenData_T* cg, i64 amount)
 {
-    fseek(cg->code_buffer, amount, SEEK_END);
+    check_code_written(cg->context, fseek(cg->code_buffer, amount, SEEK_END) == 0);
 }
 
 static void write_code(CCodegenData_T* cg, const char* target, bool cachefile)
@@ -303,7 +304,7 @@ static void write_code(CCodegenData_T* cg, const char* target, bool cachefile)
     else
         sprintf(file_path, "%s.c", basename((char*) target));
 
-    fclose(cg->code_buffer);
+    check_code_written(cg->context, fclose(cg->code_buffer) == 0 && cg->buf);
 
     FILE* out = open_file(file_path);
     close_written_file(out, file_path, fwrite(cg->buf, 1, cg->buf_len, out) == cg->buf_len);
-- 
2.43.0


From ae12470a9393b0f76fe01b2da964b077b481b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:25 +0000
Subject: [PATCH 49/72] fix: a source path that cannot be resolved is an error

---
 src/compiler/parser/directives.c         | 16 +++++++++++++---
 src/compiler/preprocessor/preprocessor.c |  3 +++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/compiler/parser/directives.c b/src/compiler/parser/directives.c
index ee14870..643fd94 100644
--- a/src/compiler/parser/directives.c
+++ b/src/compiler/parser/directives.c
@@ -12,6 +12,7 @@
 #include "context.h"
 #include "io/log.h"
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -332,13 +333,22 @@ EVAL_FN(before_main)
     return false;
 }
 
+// absolute path of the file the directive is written in
+static char* get_source_path(Context_T* context, DirectiveData_T* data)
+{
+    char* path = get_absolute_path(data->name_token->source->path);
+    if(!path)
+        throw_error(context, ERR_SYNTAX_ERROR, data->name_token, "could not resolve the path of \"%s\": %s", data->name_token->source->path, strerror(errno));
+    return path;
+}
+
 EVAL_FN(cc)
 {
 #ifdef CSPYDR_LINUX
     if(data->arguments->size != 1)
         throw_error(context, ERR_UNDEFINED, data->name_token, "directive `cc` expects 1 argument, got %lu", data->arguments->size);
 
-    char* abs_path = get_absolute_path(data->name_token->source->path);
+    char* abs_path = get_source_path(context, data);
     char* working_dir = get_path_from_file(abs_path);
     if(!context->flags.silent) 
         LOG_OK_F(COLOR_BOLD_CYAN "  Command   " COLOR_RESET " \"%s %s\"\n", context->cc, (const char*) data->arguments->items[0]);
@@ -415,7 +425,7 @@ EVAL_FN(copy)
     if(!context->flags.silent) 
         LOG_OK_F(COLOR_BOLD_CYAN "  Command" COLOR_RESET "    \"cp -r %s %s\"\n", from, to);
 
-    char* abs_path = get_absolute_path(data->name_token->source->path);
+    char* abs_path = get_source_path(context, data);
     char* working_dir = get_path_from_file(abs_path);
     char current_dir[FILENAME_MAX];
     getcwd(current_dir, LEN(current_dir));
@@ -681,7 +691,7 @@ EVAL_FN(link_obj)
 {
     for(size_t i = 0; i < data->arguments->size; i++)
     {
-        char* abs_path = get_absolute_path(data->name_token->source->path);
+        char* abs_path = get_source_path(context, data);
         char* working_dir = get_path_from_file(abs_path);
 
         char* full_fp = allocator_malloc(&context->raw_allocator, (strlen(working_dir) + strlen(DIRECTORY_DELIMS) + strlen(data->arguments->items[i]) + 2) * sizeof(char));
diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index 6064d68..41fc0ee 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -13,6 +13,7 @@
 #include "util.h"
 
 #include <dirent.h>
+#include <errno.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -150,6 +151,8 @@ static char* get_full_import_path(Context_T* context, char* origin, Token_T* imp
 {
     // first get the full directory of the origin
     char* abs_path = get_absolute_path(origin);
+    if(!abs_path)
+        throw_error(context, ERR_SYNTAX_ERROR, import_file, "could not resolve the path of \"%s\": %s", origin, strerror(errno));
     char* full_path = get_path_from_file(abs_path);
 
     // construct the imported file onto it
-- 
2.43.0


From bbafabaf9b2a9272f314b985fae7d9604ecbb6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:29 +0000
Subject: [PATCH 50/72] fix: a file that cannot be examined is not taken for a
 missing one

---
 src/compiler/io/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/io/io.c b/src/compiler/io/io.c
index e7ac7d5..d735355 100755
--- a/src/compiler/io/io.c
+++ b/src/compiler/io/io.c
@@ -96,7 +96,8 @@ void close_written_file(FILE* fp, const char* path, bool written)
 
 bool file_exists(const char* file)
 {
-    return access(file, F_OK) != -1;
+    // a file that cannot be examined is not a missing one
+    return access(file, F_OK) != -1 || (errno != ENOENT && errno != ENOTDIR);
 }
 
 bool file_is_readable(char* file)
-- 
2.43.0


From 0fcac8c71e32fce3022bc92dcf4481a4f29054de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:15 +0000
Subject: [PATCH 51/72] fix: a command line without a source file is reported
 again

---
 src/compiler/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index 71f3d57..ec3f998 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -210,6 +210,12 @@ i32 main(i32 argc, char* argv[])
         break;
     }
 
+    if(argc == 2)
+    {
+        LOG_ERROR(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " expect an input file.\n");
+        exit(1);
+    }
+
     // declare the input files
     char* input_file = argv[2];
     if(!file_exists(input_file))
-- 
2.43.0


From 4346612b328341ae5090383f079e792f26f8b17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:19 +0000
Subject: [PATCH 52/72] fix: a package that cannot be used does not crash the
 compiler

---
 src/compiler/platform/pkg_config.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/compiler/platform/pkg_config.c b/src/compiler/platform/pkg_config.c
index f7eea25..040b367 100644
--- a/src/compiler/platform/pkg_config.c
+++ b/src/compiler/platform/pkg_config.c
@@ -29,7 +29,7 @@ static bool pkg_error_handler(const char* msg, const pkgconf_client_t* client, c
         return false;
     PkgErrorHandlerData_T* data = (PkgErrorHandlerData_T*) raw_data;
 
-    throw_error(data->context, ERR_PKG_CONFIG, data->token, msg);
+    throw_error(data->context, ERR_PKG_CONFIG, data->token, "%s", msg);
     return true;
 }
 
@@ -143,7 +143,7 @@ void pkg_config(Context_T* context, const char* name, Token_T* token)
     if(err != PKGCONF_PKG_ERRF_OK)
     {
         pkgconf_error(client, "error resolving libraries from package `%s`: %s", name, pkg_errf_str(err));
-        goto free_fragment;
+        goto free_pkg; // the list has already been freed
     }
 
     pkgconf_node_t* node;
@@ -161,7 +161,6 @@ void pkg_config(Context_T* context, const char* name, Token_T* token)
         free(quoted);
     }
 
-free_fragment:
     pkgconf_fragment_free(&libs);
 free_pkg:
     pkgconf_pkg_free(client, package);
-- 
2.43.0


From 70517be752020e47133e0a6a96c6ba225c685c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 53/72] fix: the link flags of a package are passed on unquoted
 and completely

---
 src/compiler/platform/pkg_config.c | 92 +++++++++++++-----------------
 1 file changed, 41 insertions(+), 51 deletions(-)

diff --git a/src/compiler/platform/pkg_config.c b/src/compiler/platform/pkg_config.c
index 040b367..02abe67 100644
--- a/src/compiler/platform/pkg_config.c
+++ b/src/compiler/platform/pkg_config.c
@@ -10,6 +10,7 @@
 #include "lexer/token.h"
 #include "list.h"
 #include "context.h"
+#include "toolchain.h"
 
 // list of libraries known to not work with pkgconf which should be present on all systems
 const char* OVERRIDES[] = {
@@ -49,48 +50,46 @@ static const char* pkg_errf_str(int errf) {
     }
 }
 
-static char* fragment_quote(const pkgconf_fragment_t *frag)
+static void push_link_arg(Context_T* context, const char* arg)
 {
-	const char *src = frag->data;
-	ssize_t outlen = strlen(src) + 10;
-	char *out, *dst;
-
-	if (frag->data == NULL)
-		return NULL;
-
-	out = dst = calloc(outlen, 1);
-
-	for (; *src; src++)
-	{
-		if (((*src < ' ') ||
-		    (*src >= (' ' + (frag->merged ? 1 : 0)) && *src < '$') ||
-		    (*src > '$' && *src < '(') ||
-		    (*src > ')' && *src < '+') ||
-		    (*src > ':' && *src < '=') ||
-		    (*src > '=' && *src < '@') ||
-		    (*src > 'Z' && *src < '\\') ||
-#ifndef _WIN32
-		    (*src == '\\') ||
-#endif
-		    (*src > '\\' && *src < '^') ||
-		    (*src == '`') ||
-		    (*src > 'z' && *src < '~') ||
-		    (*src > '~')))
-			*dst++ = '\\';
-
-		*dst++ = *src;
-
-		if ((ptrdiff_t)(dst - out) + 2 > outlen)
-		{
-			ptrdiff_t offset = dst - out;
-			outlen *= 2;
-			out = realloc(out, outlen);
-			dst = out + offset;
-		}
-	}
-
-	*dst = 0;
-	return out;
+    // the linker does not know the options of the C compiler that may stand in a package
+    if(context->ct == CT_ASM && strcmp(arg, "-pthread") == 0)
+        arg = "-lpthread";
+    
+    char* buf = strdup(arg);
+    CONTEXT_ALLOC_REGISTER(context, (void*) buf);
+
+    if(context->ct == CT_ASM && strncmp(arg, "-Wl,", 4) == 0)
+    {
+        char* state;
+        for(char* opt = strtok_r(buf + 4, ",", &state); opt; opt = strtok_r(NULL, ",", &state))
+            list_push(context->link_mode.libs, opt);
+    }
+    else
+        list_push(context->link_mode.libs, buf);
+}
+
+static void push_fragment(Context_T* context, const pkgconf_fragment_t* fragment)
+{
+    if(!fragment->data)
+        return;
+
+    // the arguments are not passed through a shell, so they must not be quoted
+    size_t len = strlen(fragment->data) + 3;
+    char buf[len];
+
+    if(fragment->type)
+    {
+        snprintf(buf, len, "-%c%s", fragment->type, fragment->data);
+        push_link_arg(context, buf);
+        return;
+    }
+
+    // fragments without a type may be several arguments merged into one
+    strcpy(buf, fragment->data);
+    char* state;
+    for(char* arg = strtok_r(buf, fragment->merged ? " " : "", &state); arg; arg = strtok_r(NULL, fragment->merged ? " " : "", &state))
+        push_link_arg(context, arg);
 }
 
 static void pkg_try_alternative(Context_T* context, const char* name, Token_T* token)
@@ -149,16 +148,7 @@ void pkg_config(Context_T* context, const char* name, Token_T* token)
     pkgconf_node_t* node;
     PKGCONF_FOREACH_LIST_ENTRY(libs.head, node)
     {
-        const pkgconf_fragment_t* fragment = node->data;
-        char* quoted = fragment_quote(fragment);
-        size_t len = strlen(quoted) + 3;
-
-        char* buf = calloc(len, sizeof(char));
-        CONTEXT_ALLOC_REGISTER(context, (void*) buf);
-
-        snprintf(buf, len, "-%c%s", fragment->type, quoted);
-        list_push(context->link_mode.libs, buf);
-        free(quoted);
+        push_fragment(context, node->data);
     }
 
     pkgconf_fragment_free(&libs);
-- 
2.43.0


From 2c848d6d1a6655941ae585bf9d80b2ecee29f0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:38 +0000
Subject: [PATCH 54/72] fix: an interrupt is taken up between two lints, not in
 the middle of one

---
 src/linter/live.c | 51 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/src/linter/live.c b/src/linter/live.c
index 8c73fa0..1ac13da 100644
--- a/src/linter/live.c
+++ b/src/linter/live.c
@@ -16,6 +16,9 @@
 #include <time.h> 
 
 #ifdef CSPYDR_LINUX
+    #include <errno.h>
+    #include <poll.h>
+    #include <signal.h>
     #include <sys/inotify.h>
     #include <sys/wait.h>
     #include <unistd.h>
@@ -50,14 +53,32 @@ static void free_ast(Context_T* context, int fd)
     cleanup(context);
 }
 
-static Context_T* __sighandler_context_ptr = 0;
+// An interrupt may arrive in the middle of anything. The handler only leaves a note,
+// which is picked up between two lints; a second interrupt before that kills the linter.
+static int interrupt_pipe[2] = {-1, -1};
 static void sigint_handler(int dummy /* unused */) 
 {
+    int saved_errno = errno;
+    signal(SIGINT, SIG_DFL);
+    if(write(interrupt_pipe[1], "", 1) != 1)
+        _exit(1);
+    errno = saved_errno;
+}
+
+static void handle_interrupt(Context_T* context)
+{
+    char dummy;
+    if(read(interrupt_pipe[0], &dummy, 1) != 1)
+        return;
+
     if(prompt_on_quit && !question("\rDo you really want to quit?")) 
+    {
+        signal(SIGINT, sigint_handler);
         return;
+    }
 
-    summary(__sighandler_context_ptr);
-    cleanup(__sighandler_context_ptr);
+    summary(context);
+    cleanup(context);
     exit(0);
 }
 
@@ -132,8 +153,23 @@ static void await_file(const char* filepath)
         usleep(20 * 1000);
 }
 
-static bool get_event(int fd)
+// waits for a change of a watched file or an interrupt; returns true if a file changed
+static bool get_event(Context_T* context, int fd)
 {
+    struct pollfd fds[] = {
+        {.fd = interrupt_pipe[0], .events = POLLIN},
+        {.fd = fd, .events = POLLIN}
+    };
+
+    if(poll(fds, 2, -1) < 0)
+        return false;
+
+    if(fds[0].revents)
+        handle_interrupt(context);
+
+    if(!fds[1].revents)
+        return false;
+
     char buffer[BUFSIZ] = {};
     int len = read(fd, buffer, BUFSIZ);
     if(len < 0)
@@ -153,7 +189,10 @@ void live_session(Context_T* context, const char* filepath, const char* std_path
     exit(1);
 #else
 
-    __sighandler_context_ptr = context;
+    if(pipe(interrupt_pipe) < 0) {
+        LOG_ERROR(ERROR_MSG("Could not create a pipe for interrupts."));
+        exit(1);
+    }
     signal(SIGINT, sigint_handler);
 
     int fd = inotify_init();
@@ -199,7 +238,7 @@ void live_session(Context_T* context, const char* filepath, const char* std_path
                 relint = file_changed(AST.files->items[i]);
         }
 
-        if(!relint && get_event(fd))
+        if(!relint && get_event(context, fd))
             relint = true;
     }
 
-- 
2.43.0


From 2b49e103ca0aeca34e926f1c5bde4bf3eb96b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:42 +0000
Subject: [PATCH 55/72] fix: source names with quotes or backslashes are
 escaped in assembly

---
 src/compiler/codegen/asm/asm_codegen.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index a20f6b6..03840e3 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -350,7 +350,11 @@ static void asm_gen_file_descriptors(ASMCodegenData_T* cg)
     for(size_t i = 0; i < cg->ast->files->size; i++)
     {
         File_T* file = cg->ast->files->items[i];
-        asm_println(cg, "  .file %d \"%s\"", file->file_no + 1, file->path);
+        asm_print(cg, "  .file %d \"", file->file_no + 1);
+        // quotes and backslashes are legal in file names
+        for(const char* c = file->path; *c; c++)
+            asm_print(cg, *c == '"' || *c == '\\' ? "\\%c" : "%c", *c);
+        asm_println(cg, "\"");
     }
 }
 
-- 
2.43.0


From e3d504b19051eadaff9bd952f537ef64c9dff1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:43 +0000
Subject: [PATCH 56/72] fix: predefined macros inside of functions crashed the
 compiler, __file__ was not escaped

---
 src/compiler/preprocessor/preprocessor.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index 41fc0ee..46e91fe 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -308,7 +308,7 @@ static Macro_T* parse_macro_def(Preprocessor_T* pp, size_t* i)
         throw_error(pp->context, ERR_SYNTAX_ERROR, next, "unexpected token `%s`, expect `}` to end the macro body", next->value);
 
     Macro_T* found = find_macro(pp, macro->tok->value, macro->argc);
-    if(found && found->tok)
+    if(found && found->tok && found->tok->source)
         throw_error(pp->context, ERR_REDEFINITION, macro->tok, "redefinition of macro `%s` with %d arguments\nfirst defined in `%s` at line %d", macro->tok->value, macro->argc, found->tok->source->path ? found->tok->source->path : found->tok->source->short_path, found->tok->line + 1);
     else if(found)
         throw_error(pp->context, ERR_SYNTAX_ERROR, macro->tok, "redefinition of macro `%s` with %d arguments", macro->tok->value, macro->argc);
@@ -434,6 +434,9 @@ static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_
     for(size_t i = 0; i < call.macro->replacing_tokens->size; i++)
     {
         Token_T* tok = call.macro->replacing_tokens->items[i];
+        // predefined macros have no source file, their tokens belong to the place where they are used
+        if(!tok->source)
+            tok = init_token(&pp->context->raw_allocator, tok->value, call.tok->line, call.tok->pos, tok->type, call.tok->source);
         tok->in_macro_expansion = true;
 
         switch(tok->type) {
@@ -460,7 +463,18 @@ static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_
                     list_push(dest_list, init_token(&pp->context->raw_allocator, linestr, tok->line, tok->pos, TOKEN_INT, tok->source));
                 }
                 else if(strcmp(tok->value, "__file__") == 0)
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, (char*) call.tok->source->path, tok->line, tok->pos, TOKEN_STRING, tok->source));
+                {
+                    // the value of a string token is still in its escaped form
+                    const char* path = call.tok->source->path;
+                    char filestr[BUFSIZ * 2] = { '\0' };
+                    for(size_t j = 0; *path && j < sizeof(filestr) - 2; path++)
+                    {
+                        if(*path == '"' || *path == '\\')
+                            filestr[j++] = '\\';
+                        filestr[j++] = *path;
+                    }
+                    list_push(dest_list, init_token(&pp->context->raw_allocator, filestr, tok->line, tok->pos, TOKEN_STRING, tok->source));
+                }
                 else if(strcmp(tok->value, "__func__") == 0)
                     list_push(dest_list, init_token(&pp->context->raw_allocator, "", tok->line, tok->pos, TOKEN_CURRENT_FN, tok->source));
                 else
-- 
2.43.0


From a41a7abf17e10b81ac3c4350650064033f5c736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:44 +0000
Subject: [PATCH 57/72] fix: __func__ outside of a function crashed the
 compiler

---
 src/compiler/parser/parser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 53019d5..785dd15 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2670,9 +2670,11 @@ static ASTNode_T* parse_pow_3(Parser_T* p, ASTNode_T* left)
 
 static ASTNode_T* parse_current_fn_token(Parser_T* p)
 {
-    p->tok->type = TOKEN_STRING;
-    p->tok = allocator_realloc(&p->context->raw_allocator, p->tok, sizeof(Token_T) + strlen(p->cur_obj->id->callee) + 1);
-    strcpy(p->tok->value, p->cur_obj->id->callee);
+    if(!p->cur_obj)
+        throw_error(p->context, ERR_SYNTAX_ERROR, p->tok, "`__func__` can only be used inside of a function");
+
+    // the token list still refers to the original token
+    p->tok = init_token(&p->context->raw_allocator, p->cur_obj->id->callee, p->tok->line, p->tok->pos, TOKEN_STRING, p->tok->source);
 
     return parse_str_lit(p);
 }
-- 
2.43.0


From f97bbf23d8fa271c0d240826feb0605f0cf8e9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:38 +0000
Subject: [PATCH 58/72] fix: a dyn() function the interface does not declare
 crashed the compiler

---
 src/compiler/parser/validator.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index cd3ea39..0523187 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2487,7 +2487,12 @@ static void validate_vtable(Validator_T* v, ASTType_T* base_type, ASTVTable_T* v
             break;
         }
     }
-    assert(any_impl);
+    if(!any_impl) {
+        // none of the functions belongs to the interface
+        List_T* functions = hashmap_values(vtable->functions);
+        any_impl = ((ASTObj_T*) functions->items[0])->tok;
+        free_list(functions);
+    }
 
     for(size_t i = 0; i < interface->func_decls->size; i++) {
         ASTObj_T* decl = interface->func_decls->items[i];
-- 
2.43.0


From eb2ba32872c9e72b3ef1e3d765c15bd57b4f7b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:57 +0000
Subject: [PATCH 59/72] fix: a variable whose initializer names it crashed the
 compiler

---
 src/compiler/parser/validator.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 0523187..3ad194a 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1292,6 +1292,12 @@ static void iter_validate_identifier(ASTNode_T* id, va_list args)
         case OBJ_LOCAL:
         case OBJ_FN_ARG:
             id->referenced_obj->referenced = true;
+            // only the left side of its initializer may name a variable whose type is not known yet
+            if(!id->referenced_obj->data_type && !id->is_initializing)
+            {
+                throw_error(v->context, ERR_TYPE_ERROR, id->id->tok, "could not resolve datatype for `%s`", id->id->callee);
+                return;
+            }
             break;
 
         default:
@@ -1613,6 +1619,8 @@ static void iter_enter_assignment(ASTNode_T* assign, va_list args)
 {
     if(assign->right->kind == ND_ARRAY || assign->right->kind == ND_STRUCT)
         assign->right->is_assigning = true;
+    if(assign->is_initializing)
+        assign->left->is_initializing = true;
 }
 
 static void iter_leave_assignment(ASTNode_T* assign, va_list args)
-- 
2.43.0


From 498c8e4a70012ebc794bd33ebc8908a4975d06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:03 +0000
Subject: [PATCH 60/72] fix: typeof in the type of a global or struct member
 and self-referential globals crashed the compiler

---
 src/compiler/ast/ast.h          |  3 ++-
 src/compiler/parser/queue.c     |  7 +++++
 src/compiler/parser/validator.c | 47 ++++++++++++++++++++++++++++++---
 3 files changed, 53 insertions(+), 4 deletions(-)

diff --git a/src/compiler/ast/ast.h b/src/compiler/ast/ast.h
index b824f02..e533b44 100644
--- a/src/compiler/ast/ast.h
+++ b/src/compiler/ast/ast.h
@@ -242,7 +242,8 @@ struct AST_OBJ_STRUCT
             bool before_main    : 1;
             bool constexpr      : 1;
             bool interface_func : 1;
-            u8 __unused__       : 3;
+            bool is_resolving   : 1;
+            u8 __unused__       : 2;
         };
         u16 flags;
     };
diff --git a/src/compiler/parser/queue.c b/src/compiler/parser/queue.c
index 736a074..9630952 100644
--- a/src/compiler/parser/queue.c
+++ b/src/compiler/parser/queue.c
@@ -165,10 +165,17 @@ static void resolve_obj_enqueue(Validator_T* v, ResolveQueue_T* queue, ASTObj_T*
     }
     else
     {
+        // already about to be enqueued
+        if(obj->is_resolving)
+            goto finish;
+
         iter.iterate_only_objs = obj->kind == OBJ_FUNCTION;
     }
 
+    bool was_resolving = obj->is_resolving;
+    obj->is_resolving = method == RESOLVE_SHALLOW;
     ast_iterate_obj(&iter, obj, v, queue);
+    obj->is_resolving = was_resolving;
 
     if(resolve_queue_contains(queue, obj, method == RESOLVE_SHALLOW ? RESOLVE_ANYHOW : method))
             goto finish;
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 3ad194a..2601408 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -886,6 +886,38 @@ static void validate_dyn_function(Validator_T* v, ASTObj_T* obj)
     obj->referenced = true; // referenced by vtable
 }
 
+static void validate_deep(Validator_T* v, ASTObj_T* obj, ASTType_T* type);
+
+// whether a type still contains a `typeof` that is not resolved
+static bool has_typeof(ASTType_T* type)
+{
+    if(!type)
+        return false;
+
+    switch(type->kind)
+    {
+    case TY_TYPEOF:
+        return true;
+    case TY_PTR:
+    case TY_VLA:
+    case TY_ARRAY:
+    case TY_C_ARRAY:
+        return has_typeof(type->base);
+    case TY_FN:
+        for(size_t i = 0; i < type->arg_types->size; i++)
+            if(has_typeof(type->arg_types->items[i]))
+                return true;
+        return has_typeof(type->base);
+    case TY_STRUCT:
+        for(size_t i = 0; i < type->members->size; i++)
+            if(has_typeof(((ASTNode_T*) type->members->items[i])->data_type))
+                return true;
+        return false;
+    default:
+        return false;
+    }
+}
+
 static void validate_obj_shallow(Validator_T* v, ASTObj_T* obj)
 {
     switch(obj->kind)
@@ -897,6 +929,9 @@ static void validate_obj_shallow(Validator_T* v, ASTObj_T* obj)
         break;
 
     case OBJ_GLOBAL:
+        // whatever refers to the variable needs its actual type
+        if(has_typeof(obj->data_type))
+            validate_deep(v, NULL, obj->data_type);
         validate_data_type(v, obj->data_type);
         break;
 
@@ -2086,7 +2121,7 @@ static void iter_validate_c_array_type(ASTType_T* c_array, va_list args);
 static void iter_validate_dyn_type(ASTType_T* dyn_type, va_list args);
 static void iter_validate_type(ASTType_T* type, va_list args);
 
-static void validate_obj_deep(Validator_T* v, ASTObj_T* obj)
+static void validate_deep(Validator_T* v, ASTObj_T* obj, ASTType_T* type)
 {
     static const ASTIteratorList_T iter = {
         .obj_start_fns = {
@@ -2174,6 +2209,7 @@ static void validate_obj_deep(Validator_T* v, ASTObj_T* obj)
     };
 
     ast_iterate_obj(&iter, obj, v);
+    ast_iterate_type(&iter, type, v);
 }
 
 static void validate_semantics(Validator_T* v, ResolveQueue_T* queue)
@@ -2189,7 +2225,7 @@ static void validate_semantics(Validator_T* v, ResolveQueue_T* queue)
     while(node)
     {
         if(node->method & RESOLVE_DEEP)
-            validate_obj_deep(v, node->obj);
+            validate_deep(v, node->obj, NULL);
 
         node = node->next;
     }
@@ -2276,7 +2312,7 @@ static void iter_validate_typeof_type(ASTType_T* typeof_type, va_list args)
     GET_VALIDATOR(args);
 
     ASTType_T* found = typeof_type->num_indices_node->data_type;
-    if(!found)
+    if(!found || has_typeof(found))
         throw_error(v->context, ERR_TYPE_ERROR, typeof_type->num_indices_node->tok, "could not resolve data type");
     
     *typeof_type = *found;
@@ -2428,6 +2464,11 @@ static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_t
         case TY_FN:
             return PTR_S;
         case TY_TYPEOF:
+            if(!type->num_indices_node->data_type)
+            {
+                validate_deep(v, NULL, type);
+                return get_type_size_impl(v, type, struct_types);
+            }
             return get_type_size_impl(v, unpack(type->num_indices_node->data_type), struct_types);
         case TY_UNDEF:
             return get_type_size_impl(v, unpack(type), struct_types);
-- 
2.43.0


From a3b91d44b08000c55098e9e50f68fb994324603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:50 +0000
Subject: [PATCH 61/72] fix: __main_file__ was not escaped

---
 src/compiler/preprocessor/stdmacros.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/compiler/preprocessor/stdmacros.c b/src/compiler/preprocessor/stdmacros.c
index b0265a4..d3d2f33 100644
--- a/src/compiler/preprocessor/stdmacros.c
+++ b/src/compiler/preprocessor/stdmacros.c
@@ -150,5 +150,20 @@ static const char* get_compile_type(Context_T* context)
 
 static const char* get_main_file(Context_T* context)
 {
-    return context->paths.main_src_file ? context->paths.main_src_file : "nil";
+    const char* path = context->paths.main_src_file;
+    if(!path)
+        return "nil";
+
+    // the value of a string token is still in its escaped form
+    char* escaped = allocator_malloc(&context->raw_allocator, strlen(path) * 2 + 1);
+    char* end = escaped;
+    for(; *path; path++)
+    {
+        if(*path == '"' || *path == '\\')
+            *end++ = '\\';
+        *end++ = *path;
+    }
+    *end = '\0';
+
+    return escaped;
 }
-- 
2.43.0


From e90219f0faa2ceb69fe2565461cb391ff0796243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 62/72] fix: constant functions could not call others or
 themselves in their return value

`returned` was set before the return value was evaluated, so that the called body did not run. The arguments
and locals of recursive calls shared the offsets of the latest call, and an `if` without `else` crashed.
---
 src/compiler/interpreter/interpreter.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 52db37b..934e458 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -292,8 +292,9 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
         case ND_NOOP:
             break;
         case ND_RETURN:
-            ictx->returned = true;
+            // calls inside of the return value return first
             ictx->return_value = stmt->return_val ? interpreter_eval_expr(ictx, stmt->return_val) : VOID_VALUE;
+            ictx->returned = true;
             break;
         case ND_EXPR_STMT:
             interpreter_eval_expr(ictx, stmt->expr);
@@ -308,7 +309,10 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
         break;
         case ND_IF:
             if(interpreter_value_is_falsy(interpreter_eval_expr(ictx, stmt->condition)))
-                eval_stmt(ictx, stmt->else_branch);
+            {
+                if(stmt->else_branch)
+                    eval_stmt(ictx, stmt->else_branch);
+            }
             else
                 eval_stmt(ictx, stmt->if_branch);
             break;
@@ -756,6 +760,14 @@ static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn
     //    printf(COLOR_BOLD_CYAN ">>> Entering %s(%zu)\n" COLOR_RESET, fn->id->callee, args->size);
     
     const size_t stack_size_before = ictx->stack->size;
+
+    // recursive calls have their own arguments and locals
+    i32* offsets_before = malloc((fn->args->size + fn->objs->size + 1) * sizeof(i32));
+    for(size_t i = 0; i < fn->args->size; i++)
+        offsets_before[i] = ((ASTObj_T*) fn->args->items[i])->offset;
+    for(size_t i = 0; i < fn->objs->size; i++)
+        offsets_before[fn->args->size + i] = ((ASTObj_T*) fn->objs->items[i])->offset;
+
     for(size_t i = 0; i < args->size; i++) {
         const InterpreterValue_T* arg_value = &args->data[i];
         ASTObj_T* arg = fn->args->items[i];
@@ -778,6 +790,11 @@ static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn
     eval_stmt(ictx, fn->body);
 
     interpreter_stack_shrink_to(ictx->stack, stack_size_before);
+    for(size_t i = 0; i < fn->args->size; i++)
+        ((ASTObj_T*) fn->args->items[i])->offset = offsets_before[i];
+    for(size_t i = 0; i < fn->objs->size; i++)
+        ((ASTObj_T*) fn->objs->items[i])->offset = offsets_before[fn->args->size + i];
+    free(offsets_before);
 //    printf(COLOR_BOLD_CYAN "<<<\n" COLOR_RESET);
     ictx->recursion_depth--;
 
-- 
2.43.0


From 29e2718840d22f897b2cbdf1ff0395c82dd57998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 63/72] fix: constants depending on other constants had the
 wrong value in constant expressions

The offset of a constant was taken before the constants it depends on were pushed; the sizes of
data types that are not validated yet are 0.
---
 src/compiler/interpreter/interpreter.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 934e458..f1dc6d4 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -772,7 +772,7 @@ static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn
         const InterpreterValue_T* arg_value = &args->data[i];
         ASTObj_T* arg = fn->args->items[i];
         arg->offset = ictx->stack->size;
-        interpreter_stack_push(&ictx->stack, &arg_value->value, arg->data_type->size);
+        interpreter_stack_push(&ictx->stack, &arg_value->value, sizeof arg_value->value);
     }
 
     size_t stack_size = ictx->stack->size;
@@ -823,14 +823,21 @@ static LValue_T eval_lvalue(InterpreterContext_T* ictx, ASTNode_T* node)
 
 static void push_global(InterpreterContext_T* ictx, ASTObj_T* global)
 {
-    global->offset = interpreter_stack_align_to(&ictx->global_storage, global->data_type->align);
-    if(global->value) 
+    // evaluating the value may push other globals
+    InterpreterValueUnion_T value;
+    memset(&value, 0, sizeof value);
+    if(global->value)
     {
-        InterpreterValue_T value = interpreter_eval_expr(ictx, global->value);
-        interpreter_stack_push(&ictx->global_storage, &value.value, MIN(global->data_type->size, value.type->size));
+        if(++ictx->recursion_depth > MAX_RECURSION_DEPTH)
+            throw_error(ictx->context, ERR_RECURSION_DEPTH, global->tok, "the value of `%s` depends on itself", global->id->callee);
+        value = interpreter_eval_expr(ictx, global->value).value;
+        ictx->recursion_depth--;
     }
-    else
-        interpreter_stack_grow(&ictx->global_storage, global->data_type->size);
+
+    global->offset = interpreter_stack_align_to(&ictx->global_storage, MAX(global->data_type->align, 1));
+    interpreter_stack_push(&ictx->global_storage, &value, sizeof value);
+    if(global->data_type->size > (i32) sizeof value)
+        interpreter_stack_grow(&ictx->global_storage, global->data_type->size - sizeof value);
 }
 
 static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTType_T* ty, Token_T* tok)
-- 
2.43.0


From 7a6edb1bf4009656f23d8f21097ebf20c52bd652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 64/72] fix: pointers, functions and types that cannot be read
 in constant expressions crashed the compiler

Only addresses inside of the interpreter's memory are dereferenced, values of data types that are not known are
rejected, the number of arguments is checked and string literals get their real address.
---
 src/compiler/interpreter/interpreter.c | 159 ++++++++++++++++---------
 1 file changed, 102 insertions(+), 57 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index f1dc6d4..afc4691 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -181,8 +181,10 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt);
 static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn, const InterpreterValueList_T* args);
 
 static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTType_T* ty, Token_T* tok);
-static InterpreterValue_T load_value(LValue_T lvalue);
+static InterpreterValue_T load_value(InterpreterContext_T* ictx, LValue_T lvalue, Token_T* tok);
 static LValue_T eval_lvalue(InterpreterContext_T* ictx, ASTNode_T* node);
+static LValue_T eval_deref(InterpreterContext_T* ictx, ASTNode_T* deref);
+static InterpreterValue_T cast_value(InterpreterContext_T* ictx, InterpreterValue_T value, const ASTType_T* to, Token_T* tok);
 static void assign_lvalue(LValue_T dest, InterpreterValue_T* value);
 
 void init_interpreter_context(InterpreterContext_T* ictx, Context_T* context, ASTProg_T* ast)
@@ -212,7 +214,7 @@ void free_interpreter_context(InterpreterContext_T* ictx)
 static inline InterpreterValue_T push_str_lit(InterpreterContext_T* ictx, const char* str_lit)
 {
     size_t stack_addr = interpreter_stack_push(&ictx->global_storage, str_lit, strlen(str_lit) + 1);
-    return PTR_VALUE(&ictx->global_storage[stack_addr], char_ptr_type);
+    return PTR_VALUE(&ictx->global_storage->data[stack_addr], char_ptr_type);
 }
 
 static inline InterpreterValue_T push_argv(InterpreterContext_T* ictx)
@@ -527,10 +529,10 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             uintptr_t offset = (uintptr_t) hashmap_get(ictx->string_literals, expr->str_val);
             if(offset)
-                return PTR_VALUE(offset, char_ptr_type);
+                return PTR_VALUE(&ictx->global_storage->data[offset], char_ptr_type);
 
             InterpreterValue_T addr = push_str_lit(ictx, expr->str_val);
-            hashmap_put(ictx->string_literals, expr->str_val, (void*) addr.value.ptr);
+            hashmap_put(ictx->string_literals, expr->str_val, (void*) (addr.value.ptr - (uintptr_t) ictx->global_storage->data));
             return addr;
         }
         case ND_FLOAT:
@@ -627,7 +629,10 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             ASTObj_T* obj = expr->referenced_obj;
             assert(obj != NULL);
 
-            return load_value(lvalue_from_id(ictx, obj, expr->data_type, expr->tok));
+            LValue_T lvalue = lvalue_from_id(ictx, obj, expr->data_type, expr->tok);
+            if(obj->kind == OBJ_FUNCTION)
+                return (InterpreterValue_T){.type = lvalue.type, .value = (InterpreterValueUnion_T){.fn_obj = obj} };
+            return load_value(ictx, lvalue, expr->tok);
         }
         // TODO: ND_MEMBER
         case ND_ARRAY:
@@ -638,22 +643,27 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         case ND_REF:
         {
             LValue_T lvalue = eval_lvalue(ictx, expr->right);
-            return PTR_VALUE(lvalue.ptr, expr->data_type);
+            if(expr->data_type)
+                return PTR_VALUE(lvalue.ptr, unpack(expr->data_type));
+
+            // not validated yet
+            ASTType_T* type = init_ast_type(&ictx->context->raw_allocator, TY_PTR, expr->tok);
+            type->base = (ASTType_T*) lvalue.type;
+            type->size = PTR_S;
+            return PTR_VALUE(lvalue.ptr, type);
         } 
         case ND_DEREF:
-        {
-            InterpreterValue_T value = interpreter_eval_expr(ictx, expr->right);
-            if(!value.value.ptr)
-                throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "dereferencing `nil` in constant expression");
-            return load_value((LValue_T) {
-                .type = expr->data_type,
-                .ptr = (void*) value.value.ptr
-            });
-        }
+            return load_value(ictx, eval_deref(ictx, expr), expr->tok);
         case ND_ASSIGN:
         {
-            LValue_T dest = eval_lvalue(ictx, expr->left);
             InterpreterValue_T value = interpreter_eval_expr(ictx, expr->right);
+            LValue_T dest = eval_lvalue(ictx, expr->left);
+            dest.type = unpack((ASTType_T*) dest.type);
+            if(!dest.type)
+                throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "the data type of this expression is not known yet");
+            // the body might not be validated yet
+            if(dest.type->kind != value.type->kind)
+                value = cast_value(ictx, value, dest.type, expr->tok);
             assign_lvalue(dest, &value);
             return value;
         }
@@ -662,33 +672,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         case ND_CAST:
         {
             InterpreterValue_T value = interpreter_eval_expr(ictx, expr->left);
-            const ASTType_T* to = unpack(expr->data_type), *from = value.type;
-
-            if(to->kind == TY_PTR)
-                return cast_to_ptr(ictx, &value, to, expr->tok);
-
-            InterpreterValue_T (*const cast_fn)(InterpreterContext_T*, InterpreterValue_T*) = type_cast_map[from->kind][to->kind];
-            switch((uintptr_t) cast_fn) {
-                case 0: // no cast possible
-                {
-                    char* buf1 = malloc(BUFSIZ);
-                    char* buf2 = malloc(BUFSIZ);
-                    *buf1 = *buf2 = '\0';
-
-                    throw_error(ictx->context, ERR_INTERNAL, expr->tok, "(interpreter) cannot cast from `%s` to `%s`", 
-                        ast_type_to_str(ictx->context, buf1, from, BUFSIZ),
-                        ast_type_to_str(ictx->context, buf2, to, BUFSIZ)
-                    );
-                    
-                    free(buf1);
-                    free(buf2);
-                    return VOID_VALUE;
-                }
-                case NO_CAST_INT: // no cast needed
-                    return value;
-                default:
-                    return cast_fn(ictx, &value);
-            }
+            return cast_value(ictx, value, unpack(expr->data_type), expr->tok);
         }
         case ND_NOT:
             return BOOL_VALUE(interpreter_value_is_falsy(interpreter_eval_expr(ictx, expr->right)));
@@ -725,12 +709,18 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         COMPARISON_OP_CASE(ND_GE, >=);
         case ND_CALL: {
             InterpreterValue_T callee = interpreter_eval_expr(ictx, expr->expr);
-            if(callee.type->kind != TY_FN)
+            if(callee.type->kind != TY_FN || !callee.value.fn_obj)
                 throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "cannot call this value in a constant expression");
+            if(callee.value.fn_obj->args->size != expr->args->size)
+                throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "wrong number of arguments in constant expression");
             InterpreterValueList_T* args = init_interpreter_value_list(expr->args->size);
             for(size_t i = 0; i < expr->args->size; i++)
             {
                 InterpreterValue_T arg = interpreter_eval_expr(ictx, expr->args->items[i]);
+                const ASTType_T* arg_type = unpack(((ASTObj_T*) callee.value.fn_obj->args->items[i])->data_type);
+                // the call might not be validated yet
+                if(arg_type && arg_type->kind != arg.type->kind && type_cast_map[arg.type->kind][arg_type->kind])
+                    arg = cast_value(ictx, arg, arg_type, expr->tok);
                 interpreter_value_list_push(&args, &arg);
             }
 
@@ -805,6 +795,62 @@ static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn
     return VOID_VALUE;
 }
 
+static InterpreterValue_T cast_value(InterpreterContext_T* ictx, InterpreterValue_T value, const ASTType_T* to, Token_T* tok)
+{
+    const ASTType_T* from = value.type;
+
+    if(to->kind == TY_PTR)
+        return cast_to_ptr(ictx, &value, to, tok);
+
+    InterpreterValue_T (*const cast_fn)(InterpreterContext_T*, InterpreterValue_T*) = type_cast_map[from->kind][to->kind];
+    switch((uintptr_t) cast_fn) {
+        case 0: // no cast possible
+        {
+            char* buf1 = malloc(BUFSIZ);
+            char* buf2 = malloc(BUFSIZ);
+            *buf1 = *buf2 = '\0';
+
+            throw_error(ictx->context, ERR_INTERNAL, tok, "(interpreter) cannot cast from `%s` to `%s`", 
+                ast_type_to_str(ictx->context, buf1, from, BUFSIZ),
+                ast_type_to_str(ictx->context, buf2, to, BUFSIZ)
+            );
+            
+            free(buf1);
+            free(buf2);
+            return VOID_VALUE;
+        }
+        case NO_CAST_INT: // no cast needed
+            return value;
+        default:
+            return cast_fn(ictx, &value);
+    }
+}
+
+static bool is_in_stack(const InterpreterStack_T* stack, uintptr_t ptr, size_t size)
+{
+    uintptr_t start = (uintptr_t) stack->data;
+    return ptr >= start && ptr <= start + stack->size && size <= start + stack->size - ptr;
+}
+
+static LValue_T eval_deref(InterpreterContext_T* ictx, ASTNode_T* deref)
+{
+    InterpreterValue_T ptr = interpreter_eval_expr(ictx, deref->right);
+    if(ptr.type->kind != TY_PTR)
+        throw_error(ictx->context, ERR_CONSTEXPR, deref->tok, "can only dereference pointers in constant expression");
+    if(!ptr.value.ptr)
+        throw_error(ictx->context, ERR_CONSTEXPR, deref->tok, "dereferencing `nil` in constant expression");
+
+    // only what belongs to the interpreter can be accessed
+    ASTType_T* type = unpack(deref->data_type ? deref->data_type : ptr.type->base);
+    if(!type || (!is_in_stack(ictx->stack, ptr.value.ptr, MAX(type->size, 1)) && !is_in_stack(ictx->global_storage, ptr.value.ptr, MAX(type->size, 1))))
+        throw_error(ictx->context, ERR_CONSTEXPR, deref->tok, "dereferencing invalid pointer in constant expression");
+
+    return (LValue_T) {
+        .type = type,
+        .ptr = (void*) ptr.value.ptr
+    };
+}
+
 static LValue_T eval_lvalue(InterpreterContext_T* ictx, ASTNode_T* node) 
 {
     switch(node->kind) {
@@ -812,10 +858,7 @@ static LValue_T eval_lvalue(InterpreterContext_T* ictx, ASTNode_T* node)
             assert(node->referenced_obj != NULL);
             return lvalue_from_id(ictx, node->referenced_obj, node->data_type, node->tok);
         case ND_DEREF:
-            return (LValue_T) {
-                .type = node->data_type,
-                .ptr = (void*) interpreter_eval_expr(ictx, node->right).value.ptr
-            };
+            return eval_deref(ictx, node);
         default:
             throw_error(ictx->context, ERR_INTERNAL, node->tok, "interpreting this lvalue not implemented yet");
     }
@@ -881,13 +924,15 @@ static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTTyp
             };
         }
         default:
-            fprintf(stderr, "not implemented: load %s.\n", obj_kind_to_str(obj->kind));
-            unreachable();
+            throw_error(ictx->context, ERR_CONSTEXPR, tok, "%s `%s` is not a compile-time constant", obj_kind_to_str(obj->kind), obj->id->callee);
     }
 }
 
-static InterpreterValue_T load_value(LValue_T lvalue)
+static InterpreterValue_T load_value(InterpreterContext_T* ictx, LValue_T lvalue, Token_T* tok)
 { 
+    if(!(lvalue.type = unpack((ASTType_T*) lvalue.type)))
+        throw_error(ictx->context, ERR_CONSTEXPR, tok, "the data type of this expression is not known yet");
+
     switch(lvalue.type->kind) {
         case TY_I8:
             return INT_VALUE(TY_I8, i8, *(i8*) lvalue.ptr);
@@ -918,17 +963,17 @@ static InterpreterValue_T load_value(LValue_T lvalue)
         case TY_VOID:
             return VOID_VALUE;
         case TY_PTR:
-            return PTR_VALUE(*(void**) lvalue.ptr, lvalue.type->base);
+            return PTR_VALUE(*(void**) lvalue.ptr, lvalue.type);
         case TY_FN:
-            return (InterpreterValue_T){.type = lvalue.type, .value = (InterpreterValueUnion_T){.fn_obj = lvalue.ptr} };
+            return (InterpreterValue_T){.type = lvalue.type, .value = (InterpreterValueUnion_T){.fn_obj = *(void**) lvalue.ptr} };
         default:
-            fprintf(stderr, "not implemented: load type %s.\n", type_kind_to_str(lvalue.type->kind));
-            unreachable();
+            throw_error(ictx->context, ERR_CONSTEXPR, tok, "cannot read value of type `%s` in constant expression", type_kind_to_str(lvalue.type->kind));
     }
 }
 
 static void assign_lvalue(LValue_T dest, InterpreterValue_T* value) {
-    assert(dest.type->size == value->type->size);
-    memcpy(dest.ptr, &value->value, dest.type->size);
+    // the size of pointers might not be calculated yet
+    size_t size = dest.type->kind == TY_PTR || dest.type->kind == TY_FN ? PTR_S : dest.type->size;
+    memcpy(dest.ptr, &value->value, MIN(size, sizeof value->value));
 }
 
-- 
2.43.0


From 0b6b5f518d8852fd071d910c7d96917133c7f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 65/72] fix: array literal in an enum crashed the compiler

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 2601408..da63995 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -101,7 +101,7 @@ static ASTObj_T* in_function(Validator_T* v)
     for(ssize_t i = v->obj_stack->size - 1; i >= 0; i--)
     {
         ASTObj_T* obj = v->obj_stack->items[i];
-        if(obj->kind == OBJ_FUNCTION || obj->kind == OBJ_LAMBDA)
+        if(obj && (obj->kind == OBJ_FUNCTION || obj->kind == OBJ_LAMBDA))
             return obj;
     }
     return NULL;
-- 
2.43.0


From c28a719fd2778101b864da0bf10710fa48eb1ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 66/72] fix: string assigned to a global of another size
 aborted the compiler

---
 src/compiler/parser/validator.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index da63995..c67bb7c 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1107,6 +1107,16 @@ static void iter_leave_global(ASTObj_T* global, va_list args)
         break;
     }
 
+    // the address of a string can only be stored in full
+    if(global->value && global->value->kind == ND_STR && get_type_size(v, type) != PTR_S)
+    {
+        char* buf = malloc(BUFSIZ * sizeof(char));
+        *buf = '\0';
+        throw_error(v->context, ERR_TYPE_ERROR_UNCR, global->value->tok, "assignment type missmatch: cannot assign `&char` to `%s`",
+            ast_type_to_str(v->context, buf, global->data_type, BUFSIZ));
+        free(buf);
+    }
+
     typecheck_obj(&v->typechecker, global);
 }
 
-- 
2.43.0


From 503483eda3fb429eb00e7738c74f908dff531cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 67/72] fix: calling a casted expression crashed the compiler

---
 src/compiler/parser/validator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index c67bb7c..c5c2ab9 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1269,7 +1269,8 @@ static void iter_validate_call(ASTNode_T* call, va_list args)
             call->data_type = call_type->base;
         else
             call->data_type = (ASTType_T*) primitives[TY_VOID];
-        call->called_obj = call->expr->referenced_obj;
+        // only identifiers refer to an object
+        call->called_obj = call->expr->kind == ND_ID ? call->expr->referenced_obj : NULL;
         if(call->expr->kind == ND_MEMBER && call->expr->body && call->expr->body->referenced_obj && call->expr->body->referenced_obj->interface_func) {
             list_insert(call->args, call->expr->left, 0);
         }
-- 
2.43.0


From 116447ecb05a310529c759821fa5d45c9f7b44b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:57 +0000
Subject: [PATCH 68/72] fix: string results of constant functions became
 characters

---
 src/compiler/interpreter/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index 3c84f0b..2674f11 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -215,7 +215,7 @@ ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_
         case TY_PTR:
             if(unpack(node->data_type->base)->kind == TY_CHAR)
             {
-                node->kind = ND_CHAR;
+                node->kind = ND_STR;
                 node->str_val = strdup((const char*) value->value.ptr);
                 break;
             }
-- 
2.43.0


From 21b94de8a7cb62a3102abd7297e23be3967cff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:57 +0000
Subject: [PATCH 69/72] fix: call inside of a typeof crashed the type checker

---
 src/compiler/parser/typechecker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index b98e3e4..64ecb92 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -141,6 +141,8 @@ static void typecheck_call(ASTNode_T* call, va_list args)
 {
     GET_TYPECHECKER(args);
     ASTType_T* call_type = unpack(call->expr->data_type);
+    if(!call_type || call_type->kind != TY_FN)
+        return; // inside of a `typeof` that was not validated
     size_t expected_arg_num = call_type->arg_types->size;
 
     for(size_t i = 0; i < MIN(expected_arg_num, call->args->size); i++)
-- 
2.43.0


From 3d527daf0992e283e2a55f28853a031576b60c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:57 +0000
Subject: [PATCH 70/72] fix: array lengths are 0 in the C backend without an
 initializer

---
 src/compiler/codegen/transpiler/c_codegen.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 6066f9b..28d663f 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -39,6 +39,7 @@ static void c_gen_typedefs(CCodegenData_T* cg, List_T* objs);
 static void c_gen_structs(CCodegenData_T* cg, List_T* objs);
 static void c_gen_vtables(CCodegenData_T* cg, List_T* impls);
 static void c_gen_globals(CCodegenData_T* cg, List_T* objs);
+static void c_init_zero(CCodegenData_T* cg, ASTType_T* ty);
 static void c_gen_function_definitions(CCodegenData_T* cg, List_T* objs);
 static void c_gen_functions(CCodegenData_T* cg, List_T* objs);
 static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts);
@@ -916,6 +917,12 @@ static void c_gen_globals(CCodegenData_T* cg, List_T* objs)
                     c_gen_expr(cg, obj->value, false);
                     c_println(cg, ";");
                 }
+                else if(!obj->is_extern && unpack(obj->data_type)->kind == TY_ARRAY)
+                {
+                    c_print(cg, " = ");
+                    c_init_zero(cg, obj->data_type);
+                    c_println(cg, ";");
+                }
                 else
                     c_println(cg, ";");
             } break;
@@ -1671,7 +1678,9 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
 static void c_init_zero(CCodegenData_T* cg, ASTType_T* ty)
 {
     const char* init = default_type_init[unpack(ty)->kind];
-    if(init)
+    if(unpack(ty)->kind == TY_ARRAY)
+        c_print(cg, "{%lu}", unpack(ty)->num_indices); // arrays start with their length
+    else if(init)
         c_print(cg, init);
     else
         unreachable();
-- 
2.43.0


From 8cdec381a05b94332da9090bdcf9a2da579da97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:57 +0000
Subject: [PATCH 71/72] fix: return inside of a type declaration crashed the
 parser

---
 src/compiler/parser/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 785dd15..4f8217c 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -1292,7 +1292,7 @@ static ASTNode_T* parse_return(Parser_T* p, bool needs_semicolon)
 
     if(!tok_is(p, TOKEN_SEMICOLON) && !tok_is(p, TOKEN_UNLESS) && !tok_is(p, TOKEN_WHILE))
     {
-        if((p->cur_obj && p->cur_obj->return_type->kind == TY_VOID))
+        if((p->cur_obj && p->cur_obj->return_type && p->cur_obj->return_type->kind == TY_VOID))
             throw_error(p->context, ERR_TYPE_ERROR_UNCR, ret->tok, "cannot return value from function with type `void`, expect `;`");
         ret->return_val = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);
     }
-- 
2.43.0


From 199a6eb70b50aa9618c56d471a4a431d53022ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:57 +0000
Subject: [PATCH 72/72] fix: character literals in enums and array sizes
 crashed the compiler

They were evaluated by the validator, which does not visit (or visits twice) the expressions in types.
---
 src/compiler/optimizer/constexpr.c |  4 +--
 src/compiler/parser/parser.c       | 52 +++++++++++++++++++++++++---
 src/compiler/parser/validator.c    | 55 ------------------------------
 3 files changed, 49 insertions(+), 62 deletions(-)

diff --git a/src/compiler/optimizer/constexpr.c b/src/compiler/optimizer/constexpr.c
index cb6b2d6..52b3340 100644
--- a/src/compiler/optimizer/constexpr.c
+++ b/src/compiler/optimizer/constexpr.c
@@ -133,7 +133,7 @@ u64 const_u64(Context_T* context, ASTNode_T* node)
         case ND_BOOL:
             return node->bool_val;
         case ND_CHAR:
-            return node->str_val[0];
+            return (char) node->int_val;
         case ND_NIL:
             return 0;
         case ND_ADD...ND_MOD:
@@ -231,7 +231,7 @@ i64 const_i64(Context_T* context, ASTNode_T* node)
         case ND_BOOL:
             return node->bool_val;
         case ND_CHAR:
-            return node->str_val[0];
+            return (char) node->int_val;
         case ND_NIL:
             return 0;
         case ND_ADD...ND_MOD:
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 4f8217c..a597f15 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2012,11 +2012,53 @@ static ASTNode_T* parse_char_lit(Parser_T* p)
 {
     ASTNode_T* char_lit = init_ast_node(&p->context->raw_allocator, ND_CHAR, p->tok);
 
-    if(strlen(p->tok->value) > 1)
-        char_lit->str_val = strdup((char[]){'\\', p->tok->value[1], '\0'});
-    else 
-        char_lit->str_val = strdup((char[]){p->tok->value[0], '\0'});
-    
+    // check for invalid escape sequences and evaluate them
+    char c = p->tok->value[0];
+
+    if(c == '\\')
+    {
+        switch(p->tok->value[1])
+        {
+            case 'a':
+                c = '\a';
+                break;
+            case 'b':
+                c = '\b';
+                break;
+            case 't':
+                c = '\t';
+                break;
+            case 'v':
+                c = '\v';
+                break;
+            case 'n':
+                c = '\n';
+                break;
+            case 'r':
+                c = '\r';
+                break;
+            case 'f':
+                c = '\f';
+                break;
+            case '\'':
+                c = '\'';
+                break;
+            case '"':
+                c = '"';
+                break;
+            case '\\':
+                c = '\\';
+                break;  
+            case '0':
+                c = '\0';
+                break;
+            default:
+                throw_error(p->context, ERR_SYNTAX_ERROR_UNCR, p->tok, "invalid escape sequence `\\%c` found in char literal", p->tok->value[1]);
+                break;
+        }
+    }
+
+    char_lit->int_val = c;
     char_lit->is_constant = true; 
     char_lit->data_type = (ASTType_T*) primitives[TY_CHAR];
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index c5c2ab9..92dca3f 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1965,60 +1965,6 @@ static void iter_validate_string_lit(ASTNode_T* str, va_list args)
     }
 }
 
-static void iter_validate_char_lit(ASTNode_T* ch, va_list args)
-{
-     GET_VALIDATOR(args);
-
-    // check for invalid escape sequences and evaluate them
-    char c = ch->str_val[0];
-
-    if(c == '\\')
-    {
-        switch(ch->str_val[1])
-        {
-            case 'a':
-                c = '\a';
-                break;
-            case 'b':
-                c = '\b';
-                break;
-            case 't':
-                c = '\t';
-                break;
-            case 'v':
-                c = '\v';
-                break;
-            case 'n':
-                c = '\n';
-                break;
-            case 'r':
-                c = '\r';
-                break;
-            case 'f':
-                c = '\f';
-                break;
-            case '\'':
-                c = '\'';
-                break;
-            case '"':
-                c = '"';
-                break;
-            case '\\':
-                c = '\\';
-                break;  
-            case '0':
-                c = '\0';
-                break;
-            default:
-                throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, ch->tok, "invalid escape sequence `\\%c` found in char literal", ch->str_val[1]);
-                return;
-        }
-    }
-    
-    free(ch->str_val);
-    ch->int_val = c;
-}
-
 static void iter_validate_sizeof(ASTNode_T* expr, va_list args)
 {
     GET_VALIDATOR(args);
@@ -2204,7 +2150,6 @@ static void validate_deep(Validator_T* v, ASTObj_T* obj, ASTType_T* type)
             [ND_HOLE] = iter_validate_hole,
             [ND_LAMBDA] = iter_leave_lambda,
             [ND_STR] = iter_validate_string_lit,
-            [ND_CHAR] = iter_validate_char_lit,
             [ND_SIZEOF] = iter_validate_sizeof,
             [ND_TYPE_EXPR] = iter_validate_type_expr,
         },
-- 
2.43.0

