From 699e825b27ea0b0d8ca689612895e9bd40c99f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:29 +0000
Subject: [PATCH 01/30] fix: do not require a config file when the design is
 given with -c

---
 src/boxes.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 90f046e..05be8b7 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -206,11 +206,11 @@ static void handle_command_line(int argc, char *argv[])
  */
 static void handle_config_parsing()
 {
-    bxstr_t *config_file = discover_config_file(0);
-    if (config_file == NULL) {
-        exit(EXIT_FAILURE);
-    }
     if (opt.cld == NULL) {
+        bxstr_t *config_file = discover_config_file(0);
+        if (config_file == NULL) {
+            exit(EXIT_FAILURE);
+        }
         size_t r_num_designs = 0;
         designs = parse_config_files(config_file, &r_num_designs);
         if (designs == NULL) {
-- 
2.43.0


From 0231e9f223e884aaf9a6cac64d009a7332e7a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:29 +0000
Subject: [PATCH 02/30] fix: detect read errors on the actual input file, not
 on stdin

---
 src/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input.c b/src/input.c
index 1442d6e..80d7730 100644
--- a/src/input.c
+++ b/src/input.c
@@ -263,7 +263,7 @@ input_t *read_all_input()
         ++result->num_lines;
     }
 
-    if (ferror(stdin)) {
+    if (ferror(opt.infile)) {
         perror(PROJECT);
         BFREE(result->lines);
         return NULL;
-- 
2.43.0


From b29da5129e12bb1720222943d3bc0fec02fdcb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 03/30] fix: exit with an error when the output could not be
 written

---
 src/boxes.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index 05be8b7..44ea7f8 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -176,6 +176,21 @@ static int build_design(design_t **adesigns, const char *cld)
 
 
 
+/**
+ * Write out everything that is still buffered, and exit with an error if any of the output could not be written.
+ * @param outfile the stream to which the output was written
+ */
+static void flush_output(FILE *outfile)
+{
+    int failed = ferror(outfile);
+    if (fflush(outfile) != 0 || failed) {
+        perror(PROJECT);
+        exit(EXIT_FAILURE);
+    }
+}
+
+
+
 /**
  * Process command line options and store the result in the global `opt` struct. May exit the program.
  */
@@ -189,10 +204,12 @@ static void handle_command_line(int argc, char *argv[])
     }
     if (parsed_opts->help) {
         usage_long(stdout);
+        flush_output(stdout);
         exit(EXIT_SUCCESS);
     }
     if (parsed_opts->version_requested) {
         printf("%s version %s\n", PROJECT, VERSION);
+        flush_output(stdout);
         exit(EXIT_SUCCESS);
     }
     memcpy(&opt, parsed_opts, sizeof(opt_t));
@@ -372,7 +389,10 @@ static void handle_generate_box()
     if (rc) {
         exit(EXIT_FAILURE);
     }
-    output_box(thebox);
+    rc = output_box(thebox);
+    if (rc) {
+        exit(EXIT_FAILURE);
+    }
 }
 
 
@@ -524,12 +544,14 @@ int main(int argc, char *argv[])
     /* If "-l" option was given, list designs and exit. */
     if (opt.l) {
         rc = list_designs();
+        flush_output(opt.outfile);
         exit(rc);
     }
 
     /* If "-q" option was given, print results of tag query and exit. */
     if (opt.query != NULL && opt.query[0] != NULL) {
         rc = query_by_tag();
+        flush_output(opt.outfile);
         exit(rc);
     }
 
@@ -560,6 +582,7 @@ int main(int argc, char *argv[])
         }
     } while (opt.mend > 0);
 
+    flush_output(opt.outfile);
     return EXIT_SUCCESS;
 }
 
-- 
2.43.0


From a12e01f1ec27ed77a2caba70c8eb4009f81bbaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:28 +0000
Subject: [PATCH 04/30] fix: do not fall back to a default config if the path
 of the given one is unusable

---
 src/discovery.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/discovery.c b/src/discovery.c
index e92e5dd..4e85d01 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -248,6 +248,9 @@ bxstr_t *discover_config_file(const int global_only)
     if (!global_only) {
         char *common_config = locate_config_common(&error_printed);
         result = utf8_to_bxs(common_config);
+        if (common_config != NULL && result == NULL) {
+            error_printed = 1;    /* explicitly given, but the path is not usable, so don't fall back to other locations */
+        }
         BFREE(common_config);
     }
 
-- 
2.43.0


From 5f97000224f8e81d86d8f9bb434607a50bbc3003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:28 +0000
Subject: [PATCH 05/30] fix: heap overflow when the argument of -c contains
 multi-byte characters

---
 src/boxes.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index 44ea7f8..4a01abb 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -122,7 +122,12 @@ static int build_design(design_t **adesigns, const char *cld)
     }
     bxs_free(dp->shape[W].mbcs[0]);
     dp->shape[W].mbcs[0] = cldW;
-    strcpy(dp->shape[W].chars[0], cld);
+    BFREE(dp->shape[W].chars[0]);
+    dp->shape[W].chars[0] = (char *) strdup(cldW->ascii);
+    if (dp->shape[W].chars[0] == NULL) {
+        perror(PROJECT);
+        return 1;
+    }
 
     for (i = 0; i < NUM_SHAPES; ++i) {
         c = dp->shape + i;
-- 
2.43.0


From 1a0a277da001d102b897e47d0d00278de3d88300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:29 +0000
Subject: [PATCH 06/30] fix: crash when the argument of -c contains control
 characters

---
 src/boxes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/boxes.c b/src/boxes.c
index 4a01abb..cd29090 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -111,6 +111,9 @@ static int build_design(design_t **adesigns, const char *cld)
     uint32_t *cld_u32 = u32_strconv_from_arg(cld, "UTF-8");
     bxstr_t *cldW = bxs_from_unicode(cld_u32);
     BFREE(cld_u32);
+    if (cldW == NULL) {
+        return 1;
+    }
 
     dp->shape[W].name = W;
     dp->shape[W].height = 1;
-- 
2.43.0


From 398b6ae58592ae6b4096c5dc3f820fc7328cdaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 07/30] fix: escape sequences were printed by -r even when
 color was disabled

---
 src/remove.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 3081894..bd71ce6 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1214,7 +1214,9 @@ void output_input(const int trim_only)
             indent = 0;
         }
 
-        char *outtext = u32_strconv_to_output(bxs_first_char_ptr(input.lines[j].text, indent));
+        bxstr_t *unindented = bxs_cut_front(input.lines[j].text, indent);
+        char *outtext = bxs_to_output(unindented);
+        bxs_free(unindented);
         fprintf(opt.outfile, "%s%s%s", indentspc, outtext,
                 (input.final_newline || j < input.num_lines - 1 ? opt.eol : ""));
         BFREE(outtext);
-- 
2.43.0


From b5b225b54045875edcf779f4cbdab978de3d8ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 08/30] fix: crash when the input or a substitution result
 contains control characters

---
 src/input.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/input.c b/src/input.c
index 80d7730..e070cf8 100644
--- a/src/input.c
+++ b/src/input.c
@@ -159,6 +159,9 @@ int apply_substitutions(input_t *result, const int mode)
 
             bxs_free(result->lines[k].text);
             result->lines[k].text = bxs_from_unicode(newtext);
+            if (result->lines[k].text == NULL) {
+                return 1;
+            }
 
             analyze_line_ascii(result, result->lines + k);   /* update maxline value */
 
@@ -254,6 +257,11 @@ input_t *read_all_input()
             }
             result->lines[result->num_lines].text = bxs_from_unicode(temp);
             BFREE(temp);
+            if (result->lines[result->num_lines].text == NULL) {
+                BFREE(mbtemp);
+                BFREE(result->lines);
+                return NULL;
+            }
         }
         else {
             result->lines[result->num_lines].text = bxs_new_empty_string();
-- 
2.43.0


From 012264a141cb1a2f248a6fc4f3a67085f1ae7e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 09/30] fix: heap overflow in bxs_from_unicode() when the
 string contains tabs

---
 src/bxstring.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bxstring.c b/src/bxstring.c
index 27abdea..0fcc99f 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -91,6 +91,11 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
     result->memory = u32_strdup(pInput);
     result->num_chars = u32_strlen(pInput);
     size_t ascii_len = ((size_t) u32_strwidth(pInput, encoding)) + 1;
+    for (size_t i = 0; i < result->num_chars; i++) {
+        if (pInput[i] == char_tab) {
+            ascii_len++;    /* tabs have no width, but will be represented by a space */
+        }
+    }
     result->ascii = (char *) calloc(ascii_len, sizeof(char));
     size_t map_size = 5;
     result->first_char = (size_t *) calloc(map_size, sizeof(size_t));
-- 
2.43.0


From a0b1f7b98991799709812fabc9879441bfab98ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:00 +0000
Subject: [PATCH 10/30] fix: when mending, padding reduced for the removal
 phase was also used for the redrawn box

---
 src/boxes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/boxes.c b/src/boxes.c
index cd29090..f4c61e1 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -533,6 +533,7 @@ int main(int argc, char *argv[])
     int rc;                           /* general return code */
     int saved_designwidth;            /* opt.design->minwith backup, used for mending */
     int saved_designheight;           /* opt.design->minheight backup, used for mending */
+    int saved_padding[NUM_SIDES];     /* opt.design->padding backup, used for mending */
 
     /* Temporarily set the system encoding, for proper output of --help text etc. */
     activateSystemEncoding();
@@ -569,6 +570,7 @@ int main(int argc, char *argv[])
     }
     saved_designwidth = opt.design->minwidth;
     saved_designheight = opt.design->minheight;
+    memcpy(saved_padding, opt.design->padding, sizeof(saved_padding));
 
     do {
         if (opt.mend == 1) {  /* Mending a box works in two phases: */
@@ -577,6 +579,7 @@ int main(int argc, char *argv[])
         --opt.mend;           /* opt.mend == 1: add it back         */
         opt.design->minwidth = saved_designwidth;
         opt.design->minheight = saved_designheight;
+        memcpy(opt.design->padding, saved_padding, sizeof(saved_padding));
 
         handle_input();
 
-- 
2.43.0


From b35bea8ca28e1005b094ff2d0ced4af0d5d11cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:02 +0000
Subject: [PATCH 11/30] fix: a design without SAMPLE or ELASTIC was accepted
 when another mandatory entry was given twice

---
 src/parsecode.c | 10 +++++-----
 src/parsecode.h |  5 +++++
 src/parser.y    |  5 +++--
 src/parsing.c   |  2 +-
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 9d5eb1c..0e1ea0c 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -255,7 +255,7 @@ static void init_design(pass_to_bison *bison_args, design_t *design)
  */
 void recover(pass_to_bison *bison_args)
 {
-    bison_args->num_mandatory = 0;
+    bison_args->mandatory = 0;
     bison_args->time_for_se_check = 0;
     bison_args->num_shapespec = 0;
 
@@ -537,7 +537,7 @@ int action_finalize_shapes(pass_to_bison *bison_args)
         return RC_ERROR;
     }
 
-    ++(bison_args->num_mandatory);
+    bison_args->mandatory |= MANDATORY_SHAPES;
     if (++(bison_args->time_for_se_check) > 1) {
         if (perform_se_check(bison_args) != 0) {
             return RC_ERROR;
@@ -695,7 +695,7 @@ int action_add_design(pass_to_bison *bison_args, char *design_primary_name, char
         yyerror(bison_args, "box design name differs at BOX and END");
         return RC_ERROR;
     }
-    if (bison_args->num_mandatory < 3) {
+    if (bison_args->mandatory != MANDATORY_ALL) {
         yyerror(bison_args, "entries SAMPLE, SHAPES, and ELASTIC are mandatory");
         return RC_ERROR;
     }
@@ -704,7 +704,7 @@ int action_add_design(pass_to_bison *bison_args, char *design_primary_name, char
         return RC_ERROR;
     }
 
-    bison_args->num_mandatory = 0;
+    bison_args->mandatory = 0;
     bison_args->time_for_se_check = 0;
     bison_args->num_shapespec = 0;
 
@@ -919,7 +919,7 @@ int action_sample_block(pass_to_bison *bison_args, bxstr_t *sample)
     }
 
     curdes.sample = line;
-    ++(bison_args->num_mandatory);
+    bison_args->mandatory |= MANDATORY_SAMPLE;
     return RC_SUCCESS;
 }
 
diff --git a/src/parsecode.h b/src/parsecode.h
index a1e72bc..d94e40c 100644
--- a/src/parsecode.h
+++ b/src/parsecode.h
@@ -29,6 +29,11 @@
 #define RC_ABORT 2
 #define RC_ACCEPT 3
 
+#define MANDATORY_SAMPLE 1
+#define MANDATORY_SHAPES 2
+#define MANDATORY_ELASTIC 4
+#define MANDATORY_ALL (MANDATORY_SAMPLE | MANDATORY_SHAPES | MANDATORY_ELASTIC)
+
 /** the current design being parsed */
 #define curdes (bison_args->designs[bison_args->design_idx])
 
diff --git a/src/parser.y b/src/parser.y
index 7c54018..fd078fb 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -43,7 +43,8 @@ typedef struct {
     /** the path to the config file we are parsing */
     bxstr_t *config_file;
 
-    int num_mandatory;
+    /** the mandatory entries found in the current design, a set of `MANDATORY_*` */
+    int mandatory;
 
     int time_for_se_check;
 
@@ -304,7 +305,7 @@ block: YSAMPLE STRING YENDSAMPLE
 
 | YELASTIC '(' elist ')'
     {
-        ++(bison_args->num_mandatory);
+        bison_args->mandatory |= MANDATORY_ELASTIC;
         if (++(bison_args->time_for_se_check) > 1) {
             if (perform_se_check(bison_args) != 0) {
                 YYERROR;
diff --git a/src/parsing.c b/src/parsing.c
index 65d21be..345eb4c 100644
--- a/src/parsing.c
+++ b/src/parsing.c
@@ -136,7 +136,7 @@ static pass_to_bison new_bison_args(bxstr_t *config_file)
     bison_args.num_designs = 0;
     bison_args.design_idx = 0;
     bison_args.config_file = config_file;
-    bison_args.num_mandatory = 0;
+    bison_args.mandatory = 0;
     bison_args.time_for_se_check = 0;
     bison_args.num_shapespec = 0;
     bison_args.skipping = 0;
-- 
2.43.0


From e0b61ad0c3a8bcb40b4553d8080cd3140ac27f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:14 +0000
Subject: [PATCH 12/30] fix: indent mode of a design was not recognized unless
 written in lower case

---
 src/parsecode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 0e1ea0c..cee33b1 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -19,6 +19,7 @@
 
 #include "config.h"
 
+#include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -767,7 +768,7 @@ int action_record_keyword(pass_to_bison *bison_args, char *keyword, bxstr_t *val
     else if (strcasecmp(keyword, "indent") == 0) {
         char *val = value->ascii;
         if (strcasecmp(val, "text") == 0 || strcasecmp(val, "box") == 0 || strcasecmp(val, "none") == 0) {
-            curdes.indentmode = val[0];
+            curdes.indentmode = (char) tolower((unsigned char) val[0]);
         }
         else {
             yyerror(bison_args, "indent keyword must be followed by \"text\", \"box\", or \"none\"");
-- 
2.43.0


From 59a79b39573f12660491792da7981333f7b3f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:36 +0000
Subject: [PATCH 13/30] fix: a design was refused when ELASTIC came before
 SHAPES

---
 src/parser.y | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.y b/src/parser.y
index fd078fb..a1e44c1 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -362,7 +362,9 @@ slist_entry: SHAPE shape_def
                 shape_name[$1], (int) $2.width, (int) $2.height);
 
         if (isempty (curdes.shape + $1)) {
+            int elastic = curdes.shape[$1].elastic;    /* may have been set already, if ELASTIC came before SHAPES */
             curdes.shape[$1] = $2;
+            curdes.shape[$1].elastic = elastic;
             if (!isdeepempty(&($2))) {
                 ++(bison_args->num_shapespec);
             }
-- 
2.43.0


From 5f07049fb2248ee2a9a33dc24b4de822298e5d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:58 +0000
Subject: [PATCH 14/30] fix: a design was refused when a line of its SAMPLE
 ended in 'ends'

---
 src/lexer.l | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index e8f14f1..2389ca8 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -97,6 +97,7 @@ static int change_string_delimiters(pass_to_flex *extra, char *delim_expr);
 
 %x BOX
 %x SAMPLE
+%x SAMPLE_END
 %x SHAPES
 %x ELASTIC
 %x DELIMSPEC
@@ -255,6 +256,7 @@ PFILENAME [^\r\n]+
 
     len = p - yytext;                    /* yyless(n): push back all but the first n */
     yyless (len);                        /* allow the lexer to return YENDSAMPLE */
+    BEGIN(SAMPLE_END);
 
     sample[len] = '\n';                  /* replace 'e' with newline */
     btrim(sample, &len);
@@ -283,7 +285,7 @@ PFILENAME [^\r\n]+
 
 <SAMPLE>. yymore();
 
-<SAMPLE>ends[ \t\r]*$ {
+<SAMPLE_END>ends[ \t\r]*$ {
     /* reached because the other rule pushes it back so a proper end token can be returned */
     BEGIN(BOX);
     report_state("YENDSAM", yytext, "BOX");
-- 
2.43.0


From edbfb64dc22106f97ff69a4fba3e33a5a4b5edfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:38 +0000
Subject: [PATCH 15/30] fix: scanner jammed when PARENT was followed by a lone
 carriage return

---
 src/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index 2389ca8..6e6b931 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -221,7 +221,7 @@ PFILENAME [^\r\n]+
     return FILENAME;
 }
 
-<PARENT>\r?\n {
+<PARENT>\r?\n|\r {
     /* This is triggered only when no parent filename was specified. */
     BEGIN(INITIAL);
     report_state("     NL", "", "INITIAL");
-- 
2.43.0


From ea144452e44932ad25a23b16285718b24b2308e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:58 +0000
Subject: [PATCH 16/30] fix: a comment on the last line was a syntax error when
 the line break was missing

---
 src/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index 6e6b931..83c8d71 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -432,7 +432,7 @@ PFILENAME [^\r\n]+
 }
 
 
-<INITIAL,BOX,SHAPES,ELASTIC>#.*$ {
+<INITIAL,BOX,SHAPES,ELASTIC>#.* {
     /* ignore comments */
     log_debug(__FILE__, LEXER, "COMMENT: %s\n", yytext + 1);
 }
-- 
2.43.0


From c189ccb1909c86ff2c2853de46e97ff4209e2977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:52 +0000
Subject: [PATCH 17/30] fix: -m without -d redrew the box with the size and
 padding of another design, or never ended

---
 src/boxes.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index f4c61e1..9a44421 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -531,9 +531,10 @@ void enable_ansi_mode() {
 int main(int argc, char *argv[])
 {
     int rc;                           /* general return code */
-    int saved_designwidth;            /* opt.design->minwith backup, used for mending */
-    int saved_designheight;           /* opt.design->minheight backup, used for mending */
-    int saved_padding[NUM_SIDES];     /* opt.design->padding backup, used for mending */
+    int saved_designwidth = 0;        /* opt.design->minwith backup, used for mending */
+    int saved_designheight = 0;       /* opt.design->minheight backup, used for mending */
+    int saved_padding[NUM_SIDES] = {0}; /* opt.design->padding backup, used for mending */
+    design_t *saved_design = NULL;    /* the design which the above backups belong to */
 
     /* Temporarily set the system encoding, for proper output of --help text etc. */
     activateSystemEncoding();
@@ -564,19 +565,21 @@ int main(int argc, char *argv[])
         exit(rc);
     }
 
-    apply_expected_size();
-    if (opt.indentmode) {
-        opt.design->indentmode = opt.indentmode;
-    }
-    saved_designwidth = opt.design->minwidth;
-    saved_designheight = opt.design->minheight;
-    memcpy(saved_padding, opt.design->padding, sizeof(saved_padding));
-
     do {
         if (opt.mend == 1) {  /* Mending a box works in two phases: */
             opt.r = 0;        /* opt.mend == 2: remove box          */
         }
         --opt.mend;           /* opt.mend == 1: add it back         */
+        if (opt.design != saved_design) {  /* first phase, or design was detected in the first phase */
+            apply_expected_size();
+            if (opt.indentmode) {
+                opt.design->indentmode = opt.indentmode;
+            }
+            saved_designwidth = opt.design->minwidth;
+            saved_designheight = opt.design->minheight;
+            memcpy(saved_padding, opt.design->padding, sizeof(saved_padding));
+            saved_design = opt.design;
+        }
         opt.design->minwidth = saved_designwidth;
         opt.design->minheight = saved_designheight;
         memcpy(opt.design->padding, saved_padding, sizeof(saved_padding));
-- 
2.43.0


From e0788ae82d671b005dd4cae76d5e2685edddf23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:23 +0000
Subject: [PATCH 18/30] fix: debug messages longer than 1023 bytes overflowed a
 heap buffer

---
 src/logging.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index cc3d30d..a92ec81 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -118,14 +118,35 @@ int is_debug_activated()
 
 
 
+static char *format_message(const char *format, va_list va)
+{
+    va_list va_len;
+    va_copy(va_len, va);
+    int len = vsnprintf(NULL, 0, format, va_len);
+    va_end(va_len);
+    if (len < 0) {
+        return NULL;
+    }
+
+    char *msg = (char *) malloc(len + 1);
+    if (msg != NULL) {
+        vsnprintf(msg, len + 1, format, va);
+    }
+    return msg;
+}
+
+
+
 void log_debug(const char *module, log_area_t log_area, const char *format, ...)
 {
     if (is_debug_logging(log_area)) {
-        char *msg = (char *) malloc(1024);
         va_list va;
         va_start(va, format);
-        vsprintf(msg, format, va);
+        char *msg = format_message(format, va);
         va_end(va);
+        if (msg == NULL) {
+            return;
+        }
 
         char *short_module = shorten_module(module);
         bx_fprintf(stderr, "[%-9s] %s", short_module, msg);
@@ -139,11 +160,13 @@ void log_debug(const char *module, log_area_t log_area, const char *format, ...)
 void log_debug_cont(log_area_t log_area, const char *format, ...)
 {
     if (is_debug_logging(log_area)) {
-        char *msg = (char *) malloc(1024);
         va_list va;
         va_start(va, format);
-        vsprintf(msg, format, va);
+        char *msg = format_message(format, va);
         va_end(va);
+        if (msg == NULL) {
+            return;
+        }
 
         bx_fprintf(stderr, "%s", msg);
         BFREE(msg);
-- 
2.43.0


From 7779a1c1c86f9a133ab153c6e579764816ae89ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:42 +0000
Subject: [PATCH 19/30] fix: empty input line read in front of its buffer when
 removing a box

trim_trailing_ws_carefully() looked for a carriage return at index len-1 even after the line feed
was the only character of the line, i.e. at index -1.
---
 src/input.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input.c b/src/input.c
index e070cf8..fbd02b9 100644
--- a/src/input.c
+++ b/src/input.c
@@ -199,11 +199,11 @@ static void trim_trailing_ws_carefully(uint32_t *mbtemp, size_t *len_chars)
 {
     if (opt.r) {
         /* remove only trailing line breaks, but keep the space */
-        if (is_char_at(mbtemp, *len_chars - 1, char_newline)) {
+        if (*len_chars > 0 && is_char_at(mbtemp, *len_chars - 1, char_newline)) {
             set_char_at(mbtemp, *len_chars - 1, char_nul);
             --(*len_chars);
         }
-        if (is_char_at(mbtemp, *len_chars - 1, char_cr)) {
+        if (*len_chars > 0 && is_char_at(mbtemp, *len_chars - 1, char_cr)) {
             set_char_at(mbtemp, *len_chars - 1, char_nul);
             --(*len_chars);
         }
-- 
2.43.0


From acda348c932f27afcc72a4ad72a1d069e7f2a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:42 +0000
Subject: [PATCH 20/30] fix: indentation doubled (or retained with -i none)
 where a removed box has no left side

---
 src/remove.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/remove.c b/src/remove.c
index bd71ce6..d37cedc 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -983,10 +983,11 @@ static size_t calculate_start_idx(remove_ctx_t *ctx, size_t body_line_idx)
     line_ctx_t *lctx = ctx->body + body_line_idx;
     bxstr_t *org_line = input.lines[input_line_idx].text;
 
-    size_t s_idx = 0;
-    if (lctx->west_quality > 0) {
-        s_idx = lctx->west_end + confirmed_padding(org_line, ctx->comp_type, lctx->west_end, opt.design->padding[BLEF]);
+    if (lctx->west_quality == 0) {
+        /* no left side in front of the text, so what precedes the text is the indentation of the box */
+        return org_line->first_char[BMIN(org_line->indent, input.indent)];
     }
+    size_t s_idx = lctx->west_end + confirmed_padding(org_line, ctx->comp_type, lctx->west_end, opt.design->padding[BLEF]);
     if (ctx->comp_type == ignore_invisible_input || ctx->comp_type == ignore_invisible_all) {
         /* our line context worked with visible characters only, convert back to org_line */
         s_idx = org_line->first_char[s_idx];
-- 
2.43.0


From a8da413bb2f7dc5dc7b1e129c71aef0210341447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:42 +0000
Subject: [PATCH 21/30] fix: crash when removing a box with a line on which
 left and right side overlap

---
 src/remove.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index d37cedc..ed55931 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1018,7 +1018,7 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
         size_t input_line_idx = ctx->top_end_idx + body_line_idx;
         bxstr_t *org_line = input.lines[input_line_idx].text;
         size_t s_idx = calculate_start_idx(ctx, body_line_idx);
-        size_t e_idx = calculate_end_idx(ctx, body_line_idx);
+        size_t e_idx = BMAX(calculate_end_idx(ctx, body_line_idx), s_idx);  /* sides may overlap in damaged boxes */
         log_debug(__FILE__, MAIN, "remove_vertical_from_input(): body_line_idx=%d, input_line_idx=%d, s_idx=%d, "
                 "e_idx=%d, input.indent=%d\n", (int) body_line_idx, (int) input_line_idx, (int) s_idx, (int) e_idx,
                 (int) input.indent);
-- 
2.43.0


From 7bb8acb85403410854727f846d63df906ae27c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:42 +0000
Subject: [PATCH 22/30] fix: crash when removing a box of which a line matches
 both top and bottom side

---
 src/remove.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/remove.c b/src/remove.c
index ed55931..f9b64d9 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1139,12 +1139,12 @@ int remove_box()
     log_debug(__FILE__, MAIN, "ctx->top_start_idx = %d, ctx->top_end_idx = %d\n", (int) ctx->top_start_idx,
             (int) ctx->top_end_idx);
 
-    ctx->bottom_end_idx = find_last_line() + 1;
+    ctx->bottom_end_idx = BMAX(find_last_line() + 1, ctx->top_end_idx);
     if (ctx->empty_side[BBOT]) {
         ctx->bottom_start_idx = ctx->bottom_end_idx;
     }
     else {
-        ctx->bottom_start_idx = find_bottom_side(ctx);
+        ctx->bottom_start_idx = BMAX(find_bottom_side(ctx), ctx->top_end_idx); /* a line can only be part of one side */
     }
     log_debug(__FILE__, MAIN, "ctx->bottom_start_idx = %d, ctx->bottom_end_idx = %d\n", (int) ctx->bottom_start_idx,
             (int) ctx->bottom_end_idx);
-- 
2.43.0


From de6e70cf25be81122b1407efc7ea0db58b0980d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:42 +0000
Subject: [PATCH 23/30] fix: indentation too short when tabs are kept (-t k)
 and a line starts with several tabs

---
 src/tools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.c b/src/tools.c
index 2960f62..8ac568e 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -391,7 +391,7 @@ uint32_t *tabbify_indent(const size_t lineno, uint32_t *indentspc, const size_t
         if (tpos + nspc > input.indent) {
             break;
         }
-        set_char_at(result, tpos, char_tab);
+        set_char_at(result, tpos - (indentspc_len - result_len), char_tab); /* tabs set before shortened the result */
         result_len -= nspc - 1;
         set_char_at(result, result_len, char_nul);
     }
-- 
2.43.0


From eed23bf08fea04507d00a6493dcd7b5bf26c1967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:03 +0000
Subject: [PATCH 24/30] fix: mending a box containing a blank line made it
 wider each time

---
 src/remove.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index f9b64d9..add2e40 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1183,7 +1183,13 @@ void output_input(const int trim_only)
         if (input.lines[j].text == NULL) {
             continue;
         }
-        bxstr_t *temp = bxs_rtrim(input.lines[j].text);
+        bxstr_t *temp = NULL;
+        if (trim_only && bxs_is_blank(input.lines[j].text)) {
+            temp = bxs_new_empty_string();   /* the remains of a blank line must not widen the mended box */
+        }
+        else {
+            temp = bxs_rtrim(input.lines[j].text);
+        }
         bxs_free(input.lines[j].text);
         input.lines[j].text = temp;
         if (trim_only) {
-- 
2.43.0


From b45e69002ff96e87144d48a34d95fd1b5b6f6ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:28 +0000
Subject: [PATCH 25/30] fix: endless loop when the shapes of opposing sides
 cannot add up to the same size

---
 src/generate.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index ea937d7..7e6a7a6 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -34,6 +34,24 @@
 
 
 
+/**
+ * Two opposing sides of a box are filled with elastic shapes in turns until they are of equal size. If that did not
+ * happen after this many steps, then the sizes of the shapes do not permit it, and it will never happen.
+ * @param sarr Array of shapes from the current design
+ * @param target_size the minimum size of either side
+ * @return the maximum number of steps
+ */
+static size_t max_fill_steps(const sentry_t *sarr, const size_t target_size)
+{
+    size_t total_size = target_size;
+    for (int i = 0; i < NUM_SHAPES; ++i) {
+        total_size += sarr[i].width + sarr[i].height;
+    }
+    return 16 * (total_size + 1);
+}
+
+
+
 static int horiz_precalc(const sentry_t *sarr,
                          size_t *topiltf, size_t *botiltf, size_t *hspace)
 /*
@@ -106,6 +124,8 @@ static int horiz_precalc(const sentry_t *sarr,
     btoggle = 1;                         /* can be 1 or 3 */
     ttoggle = 1;
 
+    size_t steps_left = max_fill_steps(sarr, target_width);
+
     do {
         shape_t *seite;                  /* ptr to north_side or south_side */
         size_t *iltf;                    /* ptr to botiltf or topiltf */
@@ -113,6 +133,12 @@ static int horiz_precalc(const sentry_t *sarr,
         int *stoggle;                    /* ptr to btoggle or ttoggle */
         int numsh;                       /* either bnumsh or tnumsh */
 
+        if (steps_left-- == 0) {
+            bx_fprintf(stderr, "%s: the top and bottom sides of box design \"%s\" can never have the same width\n",
+                    PROJECT, opt.design->name);
+            return 1;
+        }
+
         /*
          *  Set pointers to the side which is currently shorter,
          *  so it will be advanced in this step.
@@ -290,6 +316,8 @@ static int vert_precalc(const sentry_t *sarr,
     rtoggle = 1;                         /* can be 1 or 3 */
     ltoggle = 1;
 
+    size_t steps_left = max_fill_steps(sarr, target_height);
+
     do {
         shape_t *seite;                  /* ptr to west_side or east_side */
         size_t *iltf;                    /* ptr to rightiltf or leftiltf */
@@ -297,6 +325,12 @@ static int vert_precalc(const sentry_t *sarr,
         int *stoggle;                    /* ptr to rtoggle or ltoggle */
         int numsh;                       /* either rnumsh or lnumsh */
 
+        if (steps_left-- == 0) {
+            bx_fprintf(stderr, "%s: the left and right sides of box design \"%s\" can never have the same height\n",
+                    PROJECT, opt.design->name);
+            return 1;
+        }
+
         /*
          *  Set pointers to the side which is currently shorter,
          *  so it will be advanced in this step.
-- 
2.43.0


From 93393381da9a3454cbc3ea3f35c3a704489aae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:32 +0000
Subject: [PATCH 26/30] fix: arguments of messages match the conversions of
 their formats

---
 src/detect.c    | 2 +-
 src/lexer.l     | 2 +-
 src/parsecode.c | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/detect.c b/src/detect.c
index aad1fe5..3b97c0f 100644
--- a/src/detect.c
+++ b/src/detect.c
@@ -143,7 +143,7 @@ uint32_t *prepare_comp_shape(
     sentry_t shape_def = design->shape[shape];
     if (shape_line_idx >= shape_def.height) {
         bx_fprintf(stderr, "%s: prepare_comp_shape(\"%s\", %s, %d, %s, %d, %d): Index out of bounds\n", PROJECT,
-                design->name, shape, (int) shape_line_idx, comparison_name[comp_type], trim_left, trim_right);
+                design->name, shape_name[shape], (int) shape_line_idx, comparison_name[comp_type], trim_left, trim_right);
         return NULL;
     }
 
diff --git a/src/lexer.l b/src/lexer.l
index 83c8d71..63ab6d1 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -487,7 +487,7 @@ static void report_state(char *symbol, char *text, char *expected_state_str)
                 text[text_len - 1] = '\0';
             }
         }
-        log_debug(__FILE__, LEXER, "%7s: %s (%d) -- STATE %s\n", symbol, text, text_len, expected_state_str);
+        log_debug(__FILE__, LEXER, "%7s: %s (%d) -- STATE %s\n", symbol, text, (int) text_len, expected_state_str);
     }
 }
 
diff --git a/src/parsecode.c b/src/parsecode.c
index cee33b1..a439250 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -77,8 +77,8 @@ static int check_sizes(pass_to_bison *bison_args)
                     if (curdes.shape[sides[i][j]].height != curdes.shape[sides[i][k]].height) {
                         yyerror(bison_args, "All shapes on horizontal sides must be of "
                                 "equal height (%s: %d, %s: %d)\n",
-                                shape_name[sides[i][j]], curdes.shape[sides[i][j]].height,
-                                shape_name[sides[i][k]], curdes.shape[sides[i][k]].height);
+                                shape_name[sides[i][j]], (int) curdes.shape[sides[i][j]].height,
+                                shape_name[sides[i][k]], (int) curdes.shape[sides[i][k]].height);
                         return 1;
                     }
                 }
@@ -99,8 +99,8 @@ static int check_sizes(pass_to_bison *bison_args)
                     if (curdes.shape[sides[i][j]].width != curdes.shape[sides[i][k]].width) {
                         yyerror(bison_args, "All shapes on vertical sides must be of "
                                 "equal width (%s: %d, %s: %d)\n",
-                                shape_name[sides[i][j]], curdes.shape[sides[i][j]].width,
-                                shape_name[sides[i][k]], curdes.shape[sides[i][k]].width);
+                                shape_name[sides[i][j]], (int) curdes.shape[sides[i][j]].width,
+                                shape_name[sides[i][k]], (int) curdes.shape[sides[i][k]].width);
                         return 1;
                     }
                 }
-- 
2.43.0


From 2193d94e3610c8fbcbae4f19ba176676bc843846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:08 +0000
Subject: [PATCH 27/30] fix: message about an illegal character is not lost in
 a locale which cannot display it

---
 src/bxstring.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index 0fcc99f..f68762d 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -50,7 +50,8 @@ bxstr_t *bxs_from_ascii(char *pAscii)
     size_t error_pos = 0;
     if (!bxs_valid_anywhere(result, &error_pos)) {
         ucs4_t c = result->memory[error_pos];
-        bx_fprintf(stderr, "%s: illegal character '%lc' (%#010x) encountered in string\n", PROJECT, c, (int) c);
+        bx_fprintf(stderr, "%s: illegal character '%c' (%#010x) encountered in string\n", PROJECT,
+                c < 0x80 ? (int) c : '?', (int) c);
         bxs_free(result);
         return NULL;
     }
@@ -118,7 +119,8 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
         }
 
         if (!is_allowed_anywhere(c)) { /* currently used for config only, reconsider when using on input data */
-            bx_fprintf(stderr, "%s: illegal character '%lc' (%#010x) encountered in string\n", PROJECT, c, (int) c);
+            bx_fprintf(stderr, "%s: illegal character '%c' (%#010x) encountered in string\n", PROJECT,
+                    c < 0x80 ? (int) c : '?', (int) c);
             bxs_free(result);
             return NULL;
         }
-- 
2.43.0


From 84c68d98d752520c7e8155908fa5f4c8628bb9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:39 +0000
Subject: [PATCH 28/30] fix: strings with illegal characters in the
 configuration do not crash the program

---
 src/lexer.l | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lexer.l b/src/lexer.l
index 63ab6d1..a850cdd 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -189,6 +189,10 @@ PFILENAME [^\r\n]+
             yylval->s = bxs_from_unicode(utf8);
             BFREE(utf8);
             BFREE(str);
+            if (yylval->s == NULL) {
+                ++(yyextra->yyerrcnt);   /* reported already */
+                return YUNREC;
+            }
             return STRING;
         }
         --rest_len;
@@ -217,6 +221,10 @@ PFILENAME [^\r\n]+
     bxs_free(bxstr);
 
     BEGIN(INITIAL);
+    if (yylval->s == NULL) {
+        ++(yyextra->yyerrcnt);           /* reported already */
+        return YUNREC;
+    }
     report_state("FILENAM", bxs_to_output(yylval->s), "INITIAL");
     return FILENAME;
 }
@@ -264,6 +272,13 @@ PFILENAME [^\r\n]+
         uint32_t *utf8 = u32_strconv_from_arg(sample, CONFIG_FILE_ENCODING);
         uint32_t *nl = u32_strconv_from_arg("\n", CONFIG_FILE_ENCODING);
         bxstr_t *bxstr = bxs_from_unicode(utf8);
+        if (bxstr == NULL) {
+            ++(yyextra->yyerrcnt);       /* reported already */
+            BFREE(nl);
+            BFREE(utf8);
+            BFREE(sample);
+            return YUNREC;
+        }
         bxstr_t *bxstr2 = bxs_rtrim(bxstr);
         bxs_free(bxstr);
         bxstr = bxs_strcat(bxstr2, nl);
-- 
2.43.0


From 21ff4fe1196bc2d116e34ad838ed51c8f2cc1a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:35 +0000
Subject: [PATCH 29/30] fix: corner between the left and bottom side, or the
 top side, is sized after the adjoining shapes

---
 src/parsecode.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index a439250..fe946ae 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -468,27 +468,31 @@ int action_finalize_shapes(pass_to_bison *bison_args)
     }
 
     for (sc = 0, side = fside; sc < NUM_SIDES; ++sc, side = (side + 1) % NUM_SIDES) {
-        shape_t nshape; /* next shape */
         sentry_t *c;    /* corner to be processed */
         c = curdes.shape + sides[side][SHAPES_PER_SIDE - 1];
 
         if (isempty(c)) {
-            nshape = findshape(c, SHAPES_PER_SIDE);
+            sentry_t *next = NULL;    /* first shape on the side which begins at this corner */
+            for (i = 1; i < SHAPES_PER_SIDE && next == NULL; ++i) {
+                if (!isempty(curdes.shape + sides[(side + 1) % NUM_SIDES][i])) {
+                    next = curdes.shape + sides[(side + 1) % NUM_SIDES][i];
+                }
+            }
             if (side == BLEF || side == BRIG) {
-                if (nshape == SHAPES_PER_SIDE) {
+                if (next == NULL) {
                     c->height = 1;
                 }
                 else {
-                    c->height = c[nshape].height;
+                    c->height = next->height;
                 }
                 c->width = curdes.shape[fshape].width;
             }
             else {
-                if (nshape == SHAPES_PER_SIDE) {
+                if (next == NULL) {
                     c->width = 1;
                 }
                 else {
-                    c->width = c[nshape].width;
+                    c->width = next->width;
                 }
                 c->height = curdes.shape[fshape].height;
             }
-- 
2.43.0


From a69bbfdc23be33398de2e1e26a0c0acced1ca438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:35 +0000
Subject: [PATCH 30/30] fix: the size of the buffer for messages of the regular
 expression library is given in code units

---
 src/regulex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/regulex.c b/src/regulex.c
index e4b204d..092dbc8 100644
--- a/src/regulex.c
+++ b/src/regulex.c
@@ -61,7 +61,7 @@ pcre2_code *u32_compile_pattern(uint32_t *pattern)
 
     if (re == NULL) {
         PCRE2_UCHAR buffer[256];
-        pcre2_get_error_message(errornumber, buffer, sizeof(buffer));
+        pcre2_get_error_message(errornumber, buffer, sizeof(buffer) / sizeof(PCRE2_UCHAR));
         bx_fprintf(stderr, "Regular expression pattern \"%s\" failed to compile at position %d: %s\n",
                 u32_strconv_to_output(pattern), (int) erroroffset, u32_strconv_to_output(buffer));
     }
@@ -144,7 +144,7 @@ uint32_t *u32_regex_replace(pcre2_code *search, uint32_t *replace, uint32_t *inp
 
     if (pcre2_rc < 0) {
         PCRE2_UCHAR buffer[256];
-        pcre2_get_error_message(pcre2_rc, buffer, sizeof(buffer));
+        pcre2_get_error_message(pcre2_rc, buffer, sizeof(buffer) / sizeof(PCRE2_UCHAR));
         /* buffer will normally contain "invalid replacement string" */
         bx_fprintf(stderr, "Error substituting \"%s\": %s\n", u32_strconv_to_output(replace),
                 u32_strconv_to_output(buffer));
-- 
2.43.0

