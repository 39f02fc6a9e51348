From bfa392d1ac5a8edb299d53e6801c4db130b71dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:57 +0000
Subject: [PATCH 01/89] fix: keep the detector's line buffers inside their 81
 bytes

A first line (or a line examined by a disambiguator) of 81 bytes or more was
terminated at index 81 of an 81-byte buffer.
---
 src/detector.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 1611c5b..af17017 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -146,7 +146,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
     while (pe < eof) {
       // Get the contents of the first line.
       while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-      length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+      length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
       strncpy(line, p, length);
       line[length] = '\0';
       if (*line == '#' && *(line + 1) == '!') {
@@ -166,7 +166,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
       }
       pe = p;
       while (!isspace(*pe) && *pe != ';' && pe != strstr(pe, "-*-")) pe++;
-      length = (pe - p <= sizeof(buf)) ? pe - p : sizeof(buf);
+      length = (pe - p < sizeof(buf)) ? pe - p : sizeof(buf) - 1;
       strncpy(buf, p, length);
       buf[length] = '\0';
 
@@ -323,7 +323,7 @@ const char *disambiguate_basic(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *line_end = pe;
@@ -572,7 +572,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
@@ -741,7 +741,7 @@ const char *disambiguate_m(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
@@ -1029,7 +1029,7 @@ const char *disambiguate_st(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
-- 
2.43.0


From e25b3157809e0dac55f7c04a6e31a462a0859a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:57 +0000
Subject: [PATCH 02/89] fix: leave room for the terminator in the detector's
 variable length buffers

---
 src/detector.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index af17017..11d2b0a 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -236,7 +236,7 @@ const char *disambiguate_aspx(SourceFile *sourcefile) {
     if (p && pe) {
       p += 3;
       const int length = pe - p;
-      char buf[length];
+      char buf[length + 1];
       strncpy(buf, p, length);
       buf[length] = '\0';
       char *eol = buf + strlen(buf);
@@ -550,7 +550,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
   // If the directory contains a matching *.m file, likely Objective C.
   length = strlen(sourcefile->filename);
   if (strcmp(sourcefile->ext, "h") == 0) {
-    char path[length];
+    char path[length + 1];
     strncpy(path, sourcefile->filename, length);
     path[length] = '\0';
     *(path + length - 1) = 'm';
@@ -650,7 +650,7 @@ const char *disambiguate_in(SourceFile *sourcefile) {
   if (strstr(p, ".") <= pe) {
     // Only if the filename has an extension prior to the .in
     length = pe - p;
-    char buf[length];
+    char buf[length + 1];
     strncpy(buf, p, length);
     buf[length] = '\0';
     p = ohcount_sourcefile_get_contents(sourcefile);
@@ -1066,7 +1066,7 @@ int ohcount_is_binary_filename(const char *filename) {
     re = ohcount_hash_language_from_ext(p, length);
     if (re) return ISBINARY(re->value);
     // Try the lower-case version of this extension.
-    char lowerext[length];
+    char lowerext[length + 1];
     strncpy(lowerext, p, length);
     lowerext[length] = '\0';
     for (p = lowerext; p < lowerext + length; p++) *p = tolower(*p);
-- 
2.43.0


From 467144d878c40cc3b63106abe6920e9816b8a5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:57 +0000
Subject: [PATCH 03/89] fix: leave room for the terminator when splitting a
 diff buffer into lines

---
 src/diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diff.c b/src/diff.c
index bbb96ab..a10741e 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -315,7 +315,7 @@ static int hash(char *line) {
 void prepare(int i, const char *buf) {
   struct line *p;
   int j;
-  char bufcpy[strlen(buf)];
+  char bufcpy[strlen(buf) + 1];
   char *l;
 
   p = malloc(3*sizeof(struct line));
-- 
2.43.0


From b0d76ac305aa288200e507220c9b4514441b1f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 04/89] fix: limbo entity parser reports its own 'any' entity

It used C's constant, which indexes past the end of limbo_entities.
---
 src/parsers/limbo.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/limbo.rl b/src/parsers/limbo.rl
index 8cd8650..227cb9c 100644
--- a/src/parsers/limbo.rl
+++ b/src/parsers/limbo.rl
@@ -109,7 +109,7 @@ enum {
     limbo_keyword_entity ${ entity = LIMBO_KEYWORD; } => limbo_ecallback;
     limbo_identifier_entity ${ entity = LIMBO_IDENTIFIER; } => limbo_ecallback;
     limbo_operator_entity ${ entity = LIMBO_OPERATOR; } => limbo_ecallback;
-    ^(space | digit)     ${ entity = C_ANY;         } => limbo_ecallback;
+    ^(space | digit)     ${ entity = LIMBO_ANY;     } => limbo_ecallback;
   *|;
 }%%
 
-- 
2.43.0


From 55939c6f43a4497cab50345151fae1241900124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 05/89] fix: leave room for the terminator in annotated lines

---
 src/ohcount.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ohcount.c b/src/ohcount.c
index ccf7c35..88c04f9 100644
--- a/src/ohcount.c
+++ b/src/ohcount.c
@@ -13,7 +13,7 @@ void annotate_callback(const char *language, const char *entity, int start,
                        int end, void *userdata) {
   SourceFile *sf = (SourceFile *)userdata;
   int length = end - start;
-  char buf[length];
+  char buf[length + 1];
   strncpy(buf, (const char*)sf->contents + start, length); // field exists
   buf[length] = '\0';
   printf("%s\t%s\t%s", language, entity, buf);
-- 
2.43.0


From 9621314473f4d068a3489ca7dc1d6b6dfe153b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 06/89] fix: do not read before a path that has no dot or
 separator

---
 src/sourcefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 27a7327..39921b8 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -30,7 +30,8 @@ SourceFile *ohcount_sourcefile_new(const char *filepath) {
 
   while (p > sourcefile->filepath && *(p - 1) != '.' &&
          *(p - 1) != '/' && *(p - 1) != '\\') p--;
-  sourcefile->ext = (*(p - 1) == '.') ? p : sourcefile->filepath + length;
+  sourcefile->ext = (p > sourcefile->filepath && *(p - 1) == '.') ?
+    p : sourcefile->filepath + length;
 
   while (p > sourcefile->filepath &&
          *(p - 1) != '/' && *(p - 1) != '\\') p--;
-- 
2.43.0


From 779ccc0d450d5482a9ba238d3b6d0d570d260dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 07/89] fix: keep going when the log file cannot be opened

---
 src/log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log.c b/src/log.c
index d28686d..99116d4 100644
--- a/src/log.c
+++ b/src/log.c
@@ -4,6 +4,7 @@
 #define LOG_FILE "/tmp/ohcount.log"
 void log_it(char *log) {
 	FILE *f = fopen(LOG_FILE, "a");
+	if (!f) return;
 	fputs(log, f);
 	fclose(f);
 }
-- 
2.43.0


From 845f41082d0f4975947c8eaf876b48be7a4b1c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:49 +0000
Subject: [PATCH 08/89] fix: look for the language in every entry of a
 LocDeltaList

The lookup compared the head entry on every step, so deltas of any language
but the first were never merged.
---
 src/loc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loc.c b/src/loc.c
index bd43934..af2e7d8 100644
--- a/src/loc.c
+++ b/src/loc.c
@@ -258,7 +258,7 @@ void ohcount_loc_delta_list_add_loc_delta(LocDeltaList *list, LocDelta *delta) {
   } else {
     LocDeltaList *iter = list->head;
     while (iter) {
-      if (list->delta && strcmp(list->delta->language, delta->language) == 0) break;
+      if (iter->delta && strcmp(iter->delta->language, delta->language) == 0) break;
       iter = iter->next;
     }
     if (iter == NULL) { // new language
-- 
2.43.0


From b3eaea6e0b6cb42ca601d9ed16e4323dea7d8086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:34 +0000
Subject: [PATCH 09/89] fix: find coffeescript and tex_dtx by their own names

Neither language could be looked up or set by the name it is reported as:
one key was misspelled and the other only existed as 'dtx'.
---
 src/hash/languages.gperf | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hash/languages.gperf b/src/hash/languages.gperf
index 20e57c0..c55f6f4 100755
--- a/src/hash/languages.gperf
+++ b/src/hash/languages.gperf
@@ -24,7 +24,7 @@ clearsilver, LANG_CLEARSILVER, "ClearSilver", 0
 clearsilver_template, LANG_CLEARSILVER_TEMPLATE, "ClearSilver", 0
 clojure, LANG_CLOJURE, "Clojure", 0
 cmake, LANG_CMAKE, "Cmake script", 2
-coffescript, LANG_COFFEESCRIPT, "CoffeeScript", 0
+coffeescript, LANG_COFFEESCRIPT, "CoffeeScript", 0
 coq, LANG_COQ, "Coq", 0
 cpp, LANG_CPP, "C++", 0
 crystal, LANG_CRYSTAL, "Crystal", 0
@@ -36,6 +36,7 @@ dart, LANG_DART, "Dart", 0
 dcl, LANG_DCL, "DCL", 0
 dmd, LANG_DMD, "D", 0
 dtx, LANG_TEX_DTX, "DTX for TeX/LaTeX", 1
+tex_dtx, LANG_TEX_DTX, "DTX for TeX/LaTeX", 1
 dylan, LANG_DYLAN, "Dylan", 0
 ebuild, LANG_EBUILD, "Ebuild", 0
 ec, LANG_EC, "eC", 0
-- 
2.43.0


From 28923e2c29b2c10605a9d1bfb823a94c3e0987e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 10/89] fix: stop at the end of the line when reading an
 unterminated Emacs mode

---
 src/detector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 11d2b0a..00bb33e 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -165,7 +165,8 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
         while (*p == ' ' || *p == '\t' || *p == ':') p++;
       }
       pe = p;
-      while (!isspace(*pe) && *pe != ';' && pe != strstr(pe, "-*-")) pe++;
+      while (*pe != '\0' && !isspace(*pe) && *pe != ';' &&
+             pe != strstr(pe, "-*-")) pe++;
       length = (pe - p < sizeof(buf)) ? pe - p : sizeof(buf) - 1;
       strncpy(buf, p, length);
       buf[length] = '\0';
-- 
2.43.0


From 26e972f2b7bd70ee65f83458082514434e75f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 11/89] fix: do not look before the line for C++ keywords in
 headers

The keyword scan works on a copy of the line, so the test against the start of
the file never stopped it from reading the byte before the copy.
---
 src/detector.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 00bb33e..316d42e 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -545,7 +545,7 @@ const char *disambiguate_fortran(SourceFile *sourcefile) {
 }
 
 const char *disambiguate_h(SourceFile *sourcefile) {
-  char *p, *pe, *bof;
+  char *p, *pe;
   int length;
 
   // If the directory contains a matching *.m file, likely Objective C.
@@ -566,8 +566,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
 
   // Attempt to detect based on file contents.
   char line[81], buf[81];
-  bof = ohcount_sourcefile_get_contents(sourcefile);
-  p = bof;
+  p = ohcount_sourcefile_get_contents(sourcefile);
   pe = p;
   char *eof = p + ohcount_sourcefile_get_contents_size(sourcefile);
   while (pe < eof) {
@@ -614,7 +613,8 @@ const char *disambiguate_h(SourceFile *sourcefile) {
     // Look for C++ keywords.
     p = line;
     while (p < eol) {
-      if (islower(*p) && p != bof && !isalnum(*(p - 1)) && *(p - 1) != '_') {
+      if (islower(*p) &&
+          (p == line || (!isalnum(*(p - 1)) && *(p - 1) != '_'))) {
         pe = p;
         while (islower(*pe)) pe++;
         if (!isalnum(*pe) && *pe != '_') {
-- 
2.43.0


From b7dd0fe9be3cf88f36191fa92d2260195daee8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:47 +0000
Subject: [PATCH 12/89] fix: free the stripped comment buffer after looking for
 licenses

---
 src/licenses.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/licenses.c b/src/licenses.c
index 6cbaae6..16c9b56 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -853,6 +853,7 @@ LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
           }
         }
       }
+      free(buffer);
       iter_language = iter_language->next;
     }
 
-- 
2.43.0


From e1f050c569879acb076c33a7368c139ef55c7677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:47 +0000
Subject: [PATCH 13/89] fix: report licenses found in every language of a file

The matches were reset for each language, so only licenses in the comments of
the last one were kept.
---
 src/licenses.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/licenses.c b/src/licenses.c
index 16c9b56..761f795 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -767,7 +767,7 @@ void compile_regexps() {
 #define OVERRIDE_LICENSE(l, with) { \
   if (strcmp(license_map[i].name, l) == 0) { \
     for (j = 0; j < license_map_length; j++) \
-      if (potential_licenses_s[j] > -1 && \
+      if (detected_licenses[j] && \
           strcmp(license_map[j].name, with) == 0) { \
         overridden = 1; \
         break; \
@@ -794,6 +794,8 @@ LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
   if (iter_language) {
     int potential_licenses_s[license_map_length];
     int potential_licenses_e[license_map_length];
+    int detected_licenses[license_map_length]; // in any language of the file
+    for (i = 0; i < license_map_length; i++) detected_licenses[i] = 0;
 
     while (iter_language) {
       // Before looking for licenses, strip whitespace and newlines
@@ -853,13 +855,15 @@ LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
           }
         }
       }
+      for (j = 0; j < license_map_length; j++)
+        if (potential_licenses_s[j] > -1) detected_licenses[j] = 1;
       free(buffer);
       iter_language = iter_language->next;
     }
 
     // Create the list of licenses from potential licenses.
     for (i = 0; i < license_map_length; i++) {
-      if (potential_licenses_s[i] > -1) {
+      if (detected_licenses[i]) {
         int overridden = 0;
         OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3);
         OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3_OR_LATER);
-- 
2.43.0


From a88e29851bbea95b00053ad005c8ad873448d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:47 +0000
Subject: [PATCH 14/89] fix: close the libmagic cookie when a file has no
 contents

---
 src/detector.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 316d42e..196a22b 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -98,7 +98,10 @@ const char *detect_language_magic(SourceFile *sourcefile) {
     line[sizeof(line)-1] = '\0';
   } else {
     char *p = ohcount_sourcefile_get_contents(sourcefile);
-    if (!p) return NULL;
+    if (!p) {
+      magic_close(cookie);
+      return NULL;
+    }
 
     const char *magic = magic_buffer(cookie, p, strlen(p));
     if (magic == NULL) {
-- 
2.43.0


From b2b3cfdf1dc15599cd2ab068b15243ef8ed8bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:11 +0000
Subject: [PATCH 15/89] fix: free the regular expressions compiled to
 disambiguate .pp and .pl

---
 src/detector.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 196a22b..010c6a7 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -918,7 +918,9 @@ const char *disambiguate_pp(SourceFile *sourcefile) {
 	keyword = pcre_compile("^\\s*(ensure|content|notify|require|source)\\s+=>",
 			PCRE_MULTILINE, &error, &erroffset, NULL);
 
-	if (pcre_exec(keyword, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1)
+	int matched = pcre_exec(keyword, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0);
+	pcre_free(keyword);
+	if (matched > -1)
 		return LANG_PUPPET;
 
 	/* check for standard puppet constructs */
@@ -926,7 +928,9 @@ const char *disambiguate_pp(SourceFile *sourcefile) {
 	construct = pcre_compile("^\\s*(define\\s+[\\w:-]+\\s*\\(|class\\s+[\\w:-]+(\\s+inherits\\s+[\\w:-]+)?\\s*[\\({]|node\\s+\\'?[\\w:\\.-]+\\'?\\s*{|import\\s+\"|include\\s+[\"']?[\\w:-][\"']?)",
 			PCRE_MULTILINE, &error, &erroffset, NULL);
 
-	if (pcre_exec(construct, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1)
+	matched = pcre_exec(construct, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0);
+	pcre_free(construct);
+	if (matched > -1)
 		return LANG_PUPPET;
 
 	return LANG_PASCAL;
@@ -941,7 +945,9 @@ const char *disambiguate_pl(SourceFile *sourcefile) {
 	const char *error;
 	int erroffset;
 	pcre *re = pcre_compile("#![^\\n]*perl", PCRE_CASELESS, &error, &erroffset, NULL);
-  if (pcre_exec(re, NULL, contents, mystrnlen(contents, 100), 0, PCRE_ANCHORED, NULL, 0) > -1)
+  int matched = pcre_exec(re, NULL, contents, mystrnlen(contents, 100), 0, PCRE_ANCHORED, NULL, 0);
+  pcre_free(re);
+  if (matched > -1)
     return LANG_PERL;
 
   // Check for prolog :- rules
-- 
2.43.0


From ea137c400a8186b0b7f56a289406010b6701a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:10 +0000
Subject: [PATCH 16/89] fix: free the empty language used while computing a
 delta

---
 src/sourcefile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 39921b8..ee98fe6 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -321,6 +321,8 @@ LocDelta *ohcount_sourcefile_calc_loc_delta(SourceFile *from_file,
   else
     delta->blanks_added = to->blanks_count - from->blanks_count;
 
+  ohcount_parsed_language_free(blank);
+
   return delta;
 }
 
-- 
2.43.0


From 8316aa85aa122d551f731215dd8b02bd049dd841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:12 +0000
Subject: [PATCH 17/89] fix: treat the vertical tab as white space when
 counting lines

No line machine accepted it, so counting stopped at the first one and the rest
of the file was lost.
---
 src/parsers/common.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index 23a8398..51d1466 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -4,8 +4,8 @@ machine common;
 # common definitions
 
 # whitespace, non-printables
-ws = [\t ];
-spaces = [\t ]+;
+ws = [\t\v ];
+spaces = [\t\v ]+;
 newline = ('\r\n' | '\n' | '\f' | '\r' when { p+1 < pe && *(p+1) != '\n' });
 escaped_newline = '\\' newline;
 nonnewline = any - [\r\n\f];
-- 
2.43.0


From d3b82a91ee2744b5a45e6e05df9e21ab8b74e5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:41 +0000
Subject: [PATCH 18/89] fix: count a last line that ends in the opening of an
 embedded language

Without a newline after it, the line was neither the parent's nor the child's.
---
 src/parser_macros.h | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index 4ff2988..6e29cb2 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -259,25 +259,6 @@ void free_queue() {
   } \
 }
 
-/**
- * Determines whether or not the rest of the line is blank.
- * This is typically used when entering an embedded language.
- * @param p The position of entry into the emebedded language.
- * @return 0 if the rest of the line is not blank, the position at the end of
- *   the newline otherwise (inclusive).
- * @note Applies only to line counting parsers.
- */
-int is_blank_entry(char **p) {
-  char *pos = *p+1;
-  while (*pos != '\n' && *pos != '\r' && *pos != '\f') {
-    if (*pos != '\t' && *pos != ' ') return 0;
-    pos++;
-  }
-  if (*pos == '\r' && *(pos+1) == '\n') pos++;
-  *p = pos;
-  return 1;
-}
-
 /**
  * If there is a transition into an embedded language and there is only parent
  * language code on the line (the rest of the line is blank with no child code),
@@ -335,6 +316,26 @@ char *pe;
 /** Required by Ragel. */
 char *eof;
 
+/**
+ * Determines whether or not the rest of the line is blank.
+ * This is typically used when entering an embedded language.
+ * @param p The position of entry into the emebedded language.
+ * @return 0 if the rest of the line is not blank, the position at the end of
+ *   the newline (or of the buffer, if the line has none) otherwise (inclusive).
+ * @note Applies only to line counting parsers.
+ */
+int is_blank_entry(char **p) {
+  char *pos = *p+1;
+  while (pos < pe && *pos != '\n' && *pos != '\r' && *pos != '\f') {
+    if (*pos != '\t' && *pos != ' ') return 0;
+    pos++;
+  }
+  if (pos == pe) pos--;
+  else if (*pos == '\r' && *(pos+1) == '\n') pos++;
+  *p = pos;
+  return 1;
+}
+
 /** Required by Ragel. */
 char *ts;
 
-- 
2.43.0


From b172ea8e5000c2c06177a7b61de3b4de22327f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:10 +0000
Subject: [PATCH 19/89] fix: give a line its beginning when nothing on it was
 recorded

An embedded language returning inside a parent's string or comment leaves
line_start unset; the next line event then started at a wild offset, which
ohcount_sourcefile_parse dereferences.
---
 src/parser_macros.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index 6e29cb2..4414995 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -167,6 +167,7 @@ void free_queue() {
  * @note Applies only to line counting parsers.
  */
 #define std_internal_newline(lang) { \
+  if (!line_start) line_start = line_beginning(p); \
   if (callback && p > line_start) { \
     if (line_contains_code) { \
       if (inqueue) \
@@ -251,6 +252,7 @@ void free_queue() {
  * @note Applies only to line counting parsers.
  */
 #define process_last_line(lang) {\
+  if (!line_start) line_start = line_beginning(pe); \
   if ((whole_line_comment || line_contains_code) && callback) { \
     if (line_contains_code) \
       callback(lang, "lcode", cint(line_start), cint(pe), userdata); \
@@ -377,6 +379,22 @@ int line_contains_code;
  */
 char *line_start;
 
+/**
+ * Finds the beginning of the line that ends at a position, for lines that end
+ * before anything on them has set line_start.
+ * @param pos The position just past the end of the line (and its newline).
+ * @note This is only used for line counting parsers.
+ */
+static char *line_beginning(char *pos) {
+  if (pos > buffer_start && *(pos-1) == '\n') {
+    pos--;
+    if (pos > buffer_start && *(pos-1) == '\r') pos--;
+  } else if (pos > buffer_start && (*(pos-1) == '\r' || *(pos-1) == '\f')) pos--;
+  while (pos > buffer_start && *(pos-1) != '\n' && *(pos-1) != '\r' &&
+         *(pos-1) != '\f') pos--;
+  return pos;
+}
+
 /** State variable for the current entity being matched. */
 int entity;
 
-- 
2.43.0


From 0c8f05ee0c68f1dad1ad25481b6a14be45e04612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:41 +0000
Subject: [PATCH 20/89] fix: modelica entity parser no longer runs
 line-counting actions

---
 src/parsers/modelica.rl | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/parsers/modelica.rl b/src/parsers/modelica.rl
index f6c5cd2..6fd20f5 100644
--- a/src/parsers/modelica.rl
+++ b/src/parsers/modelica.rl
@@ -79,24 +79,19 @@ enum {
     callback(MODELICA_LANG, modelica_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  modelica_eline_comment = '//' @comment nonnewline*;
+  modelica_eline_comment = '//' nonnewline*;
 
-  modelica_eblock_comment =
-    '/*' @comment (
-      newline %{ entity = INTERNAL_NL; } %modelica_ccallback
-      |
-      ws
-      |
-      (nonnewline - ws) @comment
-    )* :>> '*/';
+  modelica_eblock_comment = '/*' any* :>> '*/';
+
+  modelica_ecomment = modelica_eline_comment | modelica_eblock_comment;
 
-  modelica_ecomment = modelica_line_comment | modelica_block_comment;
+  modelica_estring = dq_str_with_escapes;
 
   modelica_entity := |*
     space+             ${ entity = MODELICA_SPACE;   } => modelica_ecallback;
     modelica_ecomment ${ entity = MODELICA_COMMENT; } => modelica_ecallback;
     identifier   ${ entity = MODELICA_ANY; } => modelica_ecallback;
-    string       ${ entity = MODELICA_ANY; } => modelica_ecallback;
+    modelica_estring ${ entity = MODELICA_ANY; } => modelica_ecallback;
     ^space;
   *|;
 }%%
-- 
2.43.0


From dfa9b81eb05db087311e8d4730c411a5b2f49e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:41 +0000
Subject: [PATCH 21/89] fix: entity parsing reports only entities when a
 closing tag holds a newline

---
 src/parsers/clearsilverhtml.rl | 4 ++--
 src/parsers/cs_aspx.rl         | 6 +++---
 src/parsers/html.rl            | 4 ++--
 src/parsers/jsp.rl             | 4 ++--
 src/parsers/phphtml.rl         | 4 ++--
 src/parsers/rhtml.rl           | 4 ++--
 src/parsers/vb_aspx.rl         | 6 +++---
 7 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 2ff8dee..412dff7 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -157,7 +157,7 @@ enum {
   }
 
   cshtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  cshtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  cshtml_css_outry_entity = '</' /style/i (ws | newline)* '>';
   cshtml_css_entity := |*
     cshtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -168,7 +168,7 @@ enum {
   *|;
 
   cshtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  cshtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  cshtml_js_outry_entity = '</' /script/i (ws | newline)* '>';
   cshtml_js_entity := |*
     cshtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 911b730..cf960af 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -155,7 +155,7 @@ enum {
   }
 
   cs_aspx_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  cs_aspx_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  cs_aspx_css_outry_entity = '</' /style/i (ws | newline)* '>';
   cs_aspx_css_entity := |*
     cs_aspx_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -166,7 +166,7 @@ enum {
   *|;
 
   cs_aspx_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  cs_aspx_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  cs_aspx_js_outry_entity = '</' /script/i (ws | newline)* '>';
   cs_aspx_js_entity := |*
     cs_aspx_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
@@ -177,7 +177,7 @@ enum {
   *|;
 
   cs_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  cs_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  cs_aspx_cs_outry_entity = ('%>' | '</' /script/i (ws | newline)* '>' @check_blank_outry) @code;
   cs_aspx_cs_entity := |*
     cs_aspx_cs_outry_entity @{ fret; };
     # unmodified C patterns
diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index 13a155a..c7591ef 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -113,7 +113,7 @@ enum {
   }
 
   html_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  html_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  html_css_outry_entity = '</' /style/i (ws | newline)* '>';
   html_css_entity := |*
     html_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -124,7 +124,7 @@ enum {
   *|;
 
   html_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  html_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  html_js_outry_entity = '</' /script/i (ws | newline)* '>';
   html_js_entity := |*
     html_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index f197d40..63a5cc6 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -156,7 +156,7 @@ enum {
   }
 
   jsp_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  jsp_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  jsp_css_outry_entity = '</' /style/i (ws | newline)* '>';
   jsp_css_entity := |*
     jsp_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -167,7 +167,7 @@ enum {
   *|;
 
   jsp_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  jsp_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  jsp_js_outry_entity = '</' /script/i (ws | newline)* '>';
   jsp_js_entity := |*
     jsp_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 9dfe21e..c411672 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -156,7 +156,7 @@ enum {
   }
 
   phtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  phtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  phtml_css_outry_entity = '</' /style/i (ws | newline)* '>';
   phtml_css_entity := |*
     phtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -167,7 +167,7 @@ enum {
   *|;
 
   phtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  phtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  phtml_js_outry_entity = '</' /script/i (ws | newline)* '>';
   phtml_js_entity := |*
     phtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 16b4b50..1e956e7 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -156,7 +156,7 @@ enum {
   }
 
   rhtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  rhtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  rhtml_css_outry_entity = '</' /style/i (ws | newline)* '>';
   rhtml_css_entity := |*
     rhtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -167,7 +167,7 @@ enum {
   *|;
 
   rhtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  rhtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  rhtml_js_outry_entity = '</' /script/i (ws | newline)* '>';
   rhtml_js_entity := |*
     rhtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 37dd9a0..c0a41fa 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -155,7 +155,7 @@ enum {
   }
 
   vb_aspx_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  vb_aspx_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  vb_aspx_css_outry_entity = '</' /style/i (ws | newline)* '>';
   vb_aspx_css_entity := |*
     vb_aspx_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -166,7 +166,7 @@ enum {
   *|;
 
   vb_aspx_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  vb_aspx_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  vb_aspx_js_outry_entity = '</' /script/i (ws | newline)* '>';
   vb_aspx_js_entity := |*
     vb_aspx_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
@@ -177,7 +177,7 @@ enum {
   *|;
 
   vb_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  vb_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  vb_aspx_cs_outry_entity = ('%>' | '</' /script/i (ws | newline)* '>' @check_blank_outry) @code;
   vb_aspx_cs_entity := |*
     vb_aspx_cs_outry_entity @{ fret; };
     # unmodified C patterns
-- 
2.43.0


From e3542a72227b8a07450b54f47dd74cb0e8a7573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:46 +0000
Subject: [PATCH 22/89] fix: look past the opening quote of a Limbo include

---
 src/detector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/detector.c b/src/detector.c
index 010c6a7..838e68d 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -296,6 +296,7 @@ const char *disambiguate_b(SourceFile *sourcefile) {
       p += 7;
       while (*p == ' ' || *p == '\t') p++;
       if (*p == '"') {
+        p++;
         while (*p != '"' && p < eof) p++;
         if (*p == '"' && *(p + 1) == ';')
           return LANG_LIMBO;
@@ -784,6 +785,7 @@ const char *disambiguate_m(SourceFile *sourcefile) {
       if (*p == ' ' || *p == '\t') {
         while (*p == ' ' || *p == '\t') p++;
         if (*p == '"') {
+          p++;
           while (*p != '"' && p < eol) p++;
           if (*p == '"' && *(p - 2) == '.' && *(p - 1) == 'm')
             limbo_score++;
-- 
2.43.0


From 711318e9e5e008e12d59958498ed07266e21b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:46 +0000
Subject: [PATCH 23/89] fix: hash lines so that different ones are not taken
 for the same when diffing

---
 src/diff.c | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index a10741e..512256c 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -279,32 +279,22 @@ struct cand *clist; // merely a free storage pot for candidates
 int clen;
 int *J; // will be overlaid on class
 
-#define HALFLONG 16
-#define low(x)  (x&((1L<<HALFLONG)-1))
-#define high(x) (x>>HALFLONG)
-
 /**
  * Returns a computed hash for a given string.
- * Hashing has the effect of arranging line in 7-bit bytes and then summing 1-s
- * complement in 16-bit hunks.
+ * Matches are not checked against the lines themselves afterwards, so different
+ * lines must not share a hash: this is FNV-1a, which takes the order of the
+ * bytes into account. The result is positive, because 0 and negative values
+ * have a meaning of their own for equiv().
  * @param line The line of a buffer to hash.
  */
 static int hash(char *line) {
-  long sum;
-  unsigned shift;
-  char *p;
-  int len;
-
-  sum = 1;
-  shift = 0;
-  len = strlen(line);
-  p = line;
-  while (len--) {
-    sum += (long)*p++ << (shift &= (HALFLONG-1));
-    shift += 7;
+  unsigned long long sum = 14695981039346656037ULL;
+  for (; *line; line++) {
+    sum ^= (unsigned char)*line;
+    sum *= 1099511628211ULL;
   }
-  sum = low(sum) + high(sum);
-  return ((short)low(sum) + (short)high(sum));
+  int value = (int)((sum ^ (sum >> 32)) & 0x7fffffff);
+  return value ? value : 1;
 }
 
 /**
-- 
2.43.0


From 1fea384138c0b85907c1f7f12ba529fd75d4c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:46 +0000
Subject: [PATCH 24/89] fix: count a long changed line once when diffing on
 disk

---
 src/diff.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index 512256c..5d49957 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -642,14 +642,16 @@ void ohcount_calc_diff_with_disk(
 	FILE *f = popen(command, "r");
 	if (f) {
 		char line[10000];
+		int line_start = 1; // a long line is read in several pieces
 		while(fgets(line, sizeof(line), f)) {
-			if (line[0] == '>')
+			if (line_start && line[0] == '>')
 			 	(*added)++;
-			if (line[0] == '<')
+			if (line_start && line[0] == '<')
 				(*removed)++;
+			line_start = strchr(line, '\n') != NULL;
 		}
+		pclose(f);
 	}
-	pclose(f);
 	if (unlink(from_tmp)) {
 		printf("error unlinking %s: %d", from_tmp, errno);
 	}
-- 
2.43.0


From bfc85873c8adae1d566a1b9463df07fe02a93363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:46 +0000
Subject: [PATCH 25/89] fix: skip directory entries whose path is too long

---
 src/sourcefile.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index ee98fe6..f1d6682 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -373,6 +373,9 @@ void ohcount_sourcefile_list_add_file(SourceFileList *list,
 void ohcount_sourcefile_list_add_directory(SourceFileList *list,
                                            const char *directory) {
   char filepath[FILENAME_MAX];
+  // Paths that do not fit cannot be opened either.
+  if (strlen(directory) + 2 > FILENAME_MAX)
+    return;
   strncpy(filepath, directory, strlen(directory));
   *(filepath + strlen(directory)) = '/';
   char *f_p = filepath + strlen(directory) + 1;
@@ -384,10 +387,13 @@ void ohcount_sourcefile_list_add_directory(SourceFileList *list,
     while ((file = readdir(d))) {
       struct stat st;
       int length = strlen(file->d_name);
+      if (f_p - filepath + length + 1 > FILENAME_MAX)
+        continue;
       strncpy(f_p, (const char *)file->d_name, length);
       *(f_p + length) = '\0';
 
-      lstat(filepath, &st);
+      if (lstat(filepath, &st) != 0)
+        continue;
       if(S_ISLNK(st.st_mode))
         continue;
 
-- 
2.43.0


From fd7411ad539dca520b8f42fef496380fb0b8059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:29 +0000
Subject: [PATCH 26/89] fix: see .h, .c and .cc files of any name beside a .m
 file

---
 src/detector.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 838e68d..d3bc91c 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -719,12 +719,14 @@ const char *disambiguate_m(SourceFile *sourcefile) {
           has_c_files = 1;
           break; // short circuit
         }
-      } else if (pe - p >= 3) {
+      }
+      if (pe - p >= 3) {
         if (*(pe - 3) == '.' && *(pe - 2) == 'c' && *(pe - 1) == 'c') {
           has_c_files = 1;
           break; // short circuit
         }
-      } else if (pe - p >= 2) {
+      }
+      if (pe - p >= 2) {
         if (*(pe - 2) == '.') {
           if (*(pe - 1) == 'h')
             has_h_headers = 1;
-- 
2.43.0


From 948a35ed0c8a7c634e3575128e9502725e09b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:05 +0000
Subject: [PATCH 27/89] fix: count the lines of a block comment as comment in
 matlab, octave, pascal and puppet

---
 src/parsers/matlab.rl | 2 +-
 src/parsers/octave.rl | 2 +-
 src/parsers/pascal.rl | 2 +-
 src/parsers/puppet.rl | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/matlab.rl b/src/parsers/matlab.rl
index 94862b4..74b1324 100644
--- a/src/parsers/matlab.rl
+++ b/src/parsers/matlab.rl
@@ -52,7 +52,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '%}';
   matlab_comment = matlab_line_comment | matlab_block_comment;
 
diff --git a/src/parsers/octave.rl b/src/parsers/octave.rl
index 6261af3..4d9255c 100644
--- a/src/parsers/octave.rl
+++ b/src/parsers/octave.rl
@@ -54,7 +54,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '%}';
   octave_comment = octave_line_comment | octave_block_comment;
 
diff --git a/src/parsers/pascal.rl b/src/parsers/pascal.rl
index 4dfdf17..e3c42eb 100644
--- a/src/parsers/pascal.rl
+++ b/src/parsers/pascal.rl
@@ -51,7 +51,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '*)';
   pascal_turbo_block_comment =
     '{' @comment (
diff --git a/src/parsers/puppet.rl b/src/parsers/puppet.rl
index d862f7f..d1ed391 100644
--- a/src/parsers/puppet.rl
+++ b/src/parsers/puppet.rl
@@ -52,7 +52,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '*/';
   puppet_comment = puppet_line_comment | puppet_block_comment;
 
-- 
2.43.0


From e7b860dcfb2d53458ed76dd647e26b0033f7bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:05 +0000
Subject: [PATCH 28/89] fix: end a single quoted string at the next single
 quote in modula2 and oberon

---
 src/parsers/modula2.rl | 2 +-
 src/parsers/oberon.rl  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/modula2.rl b/src/parsers/modula2.rl
index 27d6156..96e5efb 100644
--- a/src/parsers/modula2.rl
+++ b/src/parsers/modula2.rl
@@ -69,7 +69,7 @@ enum {
 
   # Modula-2 string literals
 
-  modula2_singlequoted_string = '\'' @code [^\r\n\f"]* '\'';
+  modula2_singlequoted_string = '\'' @code [^\r\n\f']* '\'';
   modula2_doublequoted_string = '"' @code [^\r\n\f"]* '"';
 
   modula2_string = modula2_singlequoted_string | modula2_doublequoted_string;
diff --git a/src/parsers/oberon.rl b/src/parsers/oberon.rl
index ee0e30e..f9953a2 100644
--- a/src/parsers/oberon.rl
+++ b/src/parsers/oberon.rl
@@ -69,7 +69,7 @@ enum {
 
   # Oberon string literals
 
-  oberon_singlequoted_string = '\'' @code [^\r\n\f"]* '\'';
+  oberon_singlequoted_string = '\'' @code [^\r\n\f']* '\'';
   oberon_doublequoted_string = '"' @code [^\r\n\f"]* '"';
 
   oberon_string = oberon_singlequoted_string | oberon_doublequoted_string;
-- 
2.43.0


From f9093dcfeffee37a9f38ac50e7d9d46e82a1a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:53 +0000
Subject: [PATCH 29/89] fix: count a line that holds only the end of a string
 or comment

---
 src/parsers/autoconf.rl     | 2 +-
 src/parsers/bfpp.rl         | 2 +-
 src/parsers/c.rl            | 4 ++--
 src/parsers/chaiscript.rl   | 4 ++--
 src/parsers/coq.rl          | 2 +-
 src/parsers/css.rl          | 4 ++--
 src/parsers/d.rl            | 6 +++---
 src/parsers/elm.rl          | 2 +-
 src/parsers/factor.rl       | 2 +-
 src/parsers/forth.rl        | 2 +-
 src/parsers/fortranfree.rl  | 4 ++--
 src/parsers/fsharp.rl       | 4 ++--
 src/parsers/glsl.rl         | 4 ++--
 src/parsers/golang.rl       | 4 ++--
 src/parsers/grace.rl        | 2 +-
 src/parsers/groovy.rl       | 4 ++--
 src/parsers/haskell.rl      | 2 +-
 src/parsers/jam.rl          | 4 ++--
 src/parsers/javascript.rl   | 4 ++--
 src/parsers/lisp.rl         | 2 +-
 src/parsers/lua.rl          | 4 ++--
 src/parsers/modula3.rl      | 4 ++--
 src/parsers/mxml.rl         | 4 ++--
 src/parsers/pascal.rl       | 4 ++--
 src/parsers/powershell.rl   | 4 ++--
 src/parsers/puppet.rl       | 2 +-
 src/parsers/rust.rl         | 2 +-
 src/parsers/shell.rl        | 4 ++--
 src/parsers/smalltalk.rl    | 2 +-
 src/parsers/sql.rl          | 2 +-
 src/parsers/stratego.rl     | 2 +-
 src/parsers/tcl.rl          | 2 +-
 src/parsers/unrealscript.rl | 4 ++--
 33 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/src/parsers/autoconf.rl b/src/parsers/autoconf.rl
index 98721d1..065807a 100644
--- a/src/parsers/autoconf.rl
+++ b/src/parsers/autoconf.rl
@@ -61,7 +61,7 @@ enum {
       ']' @ac_str_nc_dec @code
       |
       (nonnewline - ws - [\[\]]) @code
-    )* :>> (']' when { nest_count == 0 });
+    )* :>> (']' when { nest_count == 0 }) @code;
 
   ac_line := |*
     spaces      ${ entity = AC_SPACE; } => ac_ccallback;
diff --git a/src/parsers/bfpp.rl b/src/parsers/bfpp.rl
index fcb029e..141db71 100644
--- a/src/parsers/bfpp.rl
+++ b/src/parsers/bfpp.rl
@@ -58,7 +58,7 @@ enum {
       ws
       |
       (nonnewline - ws) @code
-    )* :>> ')';
+    )* :>> ')' @code;
 
   bfpp_line := |*
     spaces             ${ entity = BFPP_SPACE;    } => bfpp_ccallback;
diff --git a/src/parsers/c.rl b/src/parsers/c.rl
index 0ba4008..d0da598 100755
--- a/src/parsers/c.rl
+++ b/src/parsers/c.rl
@@ -73,7 +73,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   c_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %c_ccallback
@@ -83,7 +83,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   c_string = c_sq_str | c_dq_str;
 
   c_line := |*
diff --git a/src/parsers/chaiscript.rl b/src/parsers/chaiscript.rl
index 5491e36..b83cc4a 100644
--- a/src/parsers/chaiscript.rl
+++ b/src/parsers/chaiscript.rl
@@ -69,7 +69,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   chai_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %chai_ccallback
@@ -79,7 +79,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   chai_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   chai_string = chai_sq_str | chai_dq_str | chai_regex_str;
 
diff --git a/src/parsers/coq.rl b/src/parsers/coq.rl
index eaa3330..f1e141e 100644
--- a/src/parsers/coq.rl
+++ b/src/parsers/coq.rl
@@ -68,7 +68,7 @@ enum {
       ws
       |
       [^"] @code
-    )* '"';
+    )* '"' @code;
 
   coq_line := |*
     spaces          ${ entity = COQ_SPACE; } => coq_ccallback;
diff --git a/src/parsers/css.rl b/src/parsers/css.rl
index 12cd5e8..14736d9 100644
--- a/src/parsers/css.rl
+++ b/src/parsers/css.rl
@@ -64,7 +64,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   css_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %css_ccallback
@@ -74,7 +74,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   css_string = css_sq_str | css_dq_str;
 
   css_line := |*
diff --git a/src/parsers/d.rl b/src/parsers/d.rl
index 9ca52b8..1dac49d 100644
--- a/src/parsers/d.rl
+++ b/src/parsers/d.rl
@@ -87,7 +87,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   d_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
@@ -97,7 +97,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   d_bt_str =
     '`' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
@@ -107,7 +107,7 @@ enum {
       [^\t `\\] @code
       |
       '\\' nonnewline @code
-    )* '`';
+    )* '`' @code;
   d_string = d_sq_str | d_dq_str | d_bt_str;
 
   d_line := |*
diff --git a/src/parsers/elm.rl b/src/parsers/elm.rl
index 1d71ab2..bbc0ac5 100644
--- a/src/parsers/elm.rl
+++ b/src/parsers/elm.rl
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   elm_string = elm_char | elm_dq_str;
 
   elm_line := |*
diff --git a/src/parsers/factor.rl b/src/parsers/factor.rl
index c16aee9..06a11da 100644
--- a/src/parsers/factor.rl
+++ b/src/parsers/factor.rl
@@ -56,7 +56,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   factor_line := |*
     spaces        ${ entity = FACTOR_SPACE; } => factor_ccallback;
diff --git a/src/parsers/forth.rl b/src/parsers/forth.rl
index c7c53c0..ebfa526 100644
--- a/src/parsers/forth.rl
+++ b/src/parsers/forth.rl
@@ -53,7 +53,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> ')';
+    )* :>> ')' @comment;
   forth_comment = forth_line_comment | forth_block_comment;
 
   forth_string = '"' @code ([^\r\n\f"])* '"';
diff --git a/src/parsers/fortranfree.rl b/src/parsers/fortranfree.rl
index 0f1def1..f805a31 100644
--- a/src/parsers/fortranfree.rl
+++ b/src/parsers/fortranfree.rl
@@ -53,7 +53,7 @@ enum {
       ws
       |
       [^\r\n\f\t '] @code
-    )* '\'';
+    )* '\'' @code;
   ffree_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %ffree_ccallback
@@ -61,7 +61,7 @@ enum {
       ws
       |
       [^\r\n\f\t "] @code
-    )* '"';
+    )* '"' @code;
   ffree_string = ffree_sq_str | ffree_dq_str;
 
   ffree_line := |*
diff --git a/src/parsers/fsharp.rl b/src/parsers/fsharp.rl
index 64c85b1..cb6e492 100644
--- a/src/parsers/fsharp.rl
+++ b/src/parsers/fsharp.rl
@@ -74,7 +74,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   fsharp_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
@@ -84,7 +84,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   fsharp_string = fsharp_sq_str | fsharp_dq_str;
 
   fsharp_line := |*
diff --git a/src/parsers/glsl.rl b/src/parsers/glsl.rl
index 167364c..64e0cda 100644
--- a/src/parsers/glsl.rl
+++ b/src/parsers/glsl.rl
@@ -75,7 +75,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   glsl_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %glsl_ccallback
@@ -85,7 +85,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   glsl_string = glsl_sq_str | glsl_dq_str;
 
   glsl_line := |*
diff --git a/src/parsers/golang.rl b/src/parsers/golang.rl
index f845ca0..fa9a227 100644
--- a/src/parsers/golang.rl
+++ b/src/parsers/golang.rl
@@ -73,7 +73,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   golang_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %golang_ccallback
@@ -83,7 +83,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   golang_string = golang_sq_str | golang_dq_str;
 
   golang_line := |*
diff --git a/src/parsers/grace.rl b/src/parsers/grace.rl
index daf60dd..1d85813 100644
--- a/src/parsers/grace.rl
+++ b/src/parsers/grace.rl
@@ -54,7 +54,7 @@ enum {
       ws
       |
       [^\r\n\f\t "\\] @code
-    )* '"' @commit;
+    )* '"' @commit @code;
 
   grace_line := |*
     spaces         ${ entity = GRACE_SPACE; } => grace_ccallback;
diff --git a/src/parsers/groovy.rl b/src/parsers/groovy.rl
index e1a6da4..caf6730 100644
--- a/src/parsers/groovy.rl
+++ b/src/parsers/groovy.rl
@@ -71,7 +71,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   groovy_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %groovy_ccallback
@@ -81,7 +81,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   groovy_string = groovy_sq_str | groovy_dq_str;
 
   groovy_line := |*
diff --git a/src/parsers/haskell.rl b/src/parsers/haskell.rl
index 1bb062d..9f4b445 100644
--- a/src/parsers/haskell.rl
+++ b/src/parsers/haskell.rl
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   haskell_string = haskell_char | haskell_dq_str;
 
   haskell_line := |*
diff --git a/src/parsers/jam.rl b/src/parsers/jam.rl
index 3b4ccc7..0806347 100644
--- a/src/parsers/jam.rl
+++ b/src/parsers/jam.rl
@@ -55,7 +55,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @commit @code;
   jam_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %jam_ccallback
@@ -65,7 +65,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @commit @code;
   # TODO: heredocs; see ruby.rl for details
   jam_string = jam_sq_str | jam_dq_str;
 
diff --git a/src/parsers/javascript.rl b/src/parsers/javascript.rl
index 172989e..723fbcf 100644
--- a/src/parsers/javascript.rl
+++ b/src/parsers/javascript.rl
@@ -68,7 +68,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   js_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %js_ccallback
@@ -78,7 +78,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   js_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   js_string = js_sq_str | js_dq_str | js_regex_str;
 
diff --git a/src/parsers/lisp.rl b/src/parsers/lisp.rl
index 0698964..08bf62e 100644
--- a/src/parsers/lisp.rl
+++ b/src/parsers/lisp.rl
@@ -71,7 +71,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   lisp_string = lisp_empty_string | lisp_char_string | lisp_regular_string;
 
diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 4092ecf..067413f 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -78,7 +78,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   lua_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %lua_ccallback
@@ -88,7 +88,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   lua_string = lua_sq_str | lua_dq_str | lua_long_string;
 
   lua_line := |*
diff --git a/src/parsers/modula3.rl b/src/parsers/modula3.rl
index 2166f0f..198b62c 100644
--- a/src/parsers/modula3.rl
+++ b/src/parsers/modula3.rl
@@ -78,7 +78,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   modula3_doublequoted_string =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %modula3_ccallback
@@ -88,7 +88,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   modula3_string = modula3_singlequoted_string | modula3_doublequoted_string;
 
 
diff --git a/src/parsers/mxml.rl b/src/parsers/mxml.rl
index 7afe23b..f3604c0 100644
--- a/src/parsers/mxml.rl
+++ b/src/parsers/mxml.rl
@@ -72,7 +72,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   mxml_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %mxml_ccallback
@@ -82,7 +82,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   mxml_string = mxml_sq_str | mxml_dq_str;
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %mxml_ccallback);
diff --git a/src/parsers/pascal.rl b/src/parsers/pascal.rl
index e3c42eb..a4eae58 100644
--- a/src/parsers/pascal.rl
+++ b/src/parsers/pascal.rl
@@ -60,7 +60,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> '}';
+    )* :>> '}' @comment;
   pascal_comment = pascal_line_comment | pascal_old_block_comment |
                    pascal_turbo_block_comment;
 
@@ -73,7 +73,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
 
   pascal_line := |*
     spaces          ${ entity = PASCAL_SPACE; } => pascal_ccallback;
diff --git a/src/parsers/powershell.rl b/src/parsers/powershell.rl
index 6b3947a..c309222 100644
--- a/src/parsers/powershell.rl
+++ b/src/parsers/powershell.rl
@@ -64,7 +64,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @commit @code;
   powershell_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %powershell_ccallback
@@ -76,7 +76,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @commit @code;
   # TODO: heredoc; see ruby.rl for details.
   powershell_string = powershell_sq_str | powershell_dq_str;
 
diff --git a/src/parsers/puppet.rl b/src/parsers/puppet.rl
index d1ed391..7d924bd 100644
--- a/src/parsers/puppet.rl
+++ b/src/parsers/puppet.rl
@@ -65,7 +65,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
 
   puppet_line := |*
     spaces          ${ entity = PUPPET_SPACE; } => puppet_ccallback;
diff --git a/src/parsers/rust.rl b/src/parsers/rust.rl
index e3b17c3..0dedd14 100644
--- a/src/parsers/rust.rl
+++ b/src/parsers/rust.rl
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   rust_string = rust_dq_str;
 
   rust_line := |*
diff --git a/src/parsers/shell.rl b/src/parsers/shell.rl
index 567afa1..ecfaf97 100644
--- a/src/parsers/shell.rl
+++ b/src/parsers/shell.rl
@@ -57,7 +57,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @commit @code;
   shell_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %shell_ccallback
@@ -69,7 +69,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @commit @code;
   # TODO: heredocs; see ruby.rl for details
   shell_string = shell_sq_str | shell_dq_str;
 
diff --git a/src/parsers/smalltalk.rl b/src/parsers/smalltalk.rl
index bffb167..fd59f35 100644
--- a/src/parsers/smalltalk.rl
+++ b/src/parsers/smalltalk.rl
@@ -51,7 +51,7 @@ enum {
       ws
       |
       [^\r\n\f\t "] @comment
-    )* '"';
+    )* '"' @comment;
 
   smalltalk_string = '\'' @code [^\r\n\f']* '\'';
 
diff --git a/src/parsers/sql.rl b/src/parsers/sql.rl
index 8f20433..09eb40d 100644
--- a/src/parsers/sql.rl
+++ b/src/parsers/sql.rl
@@ -60,7 +60,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> '}';
+    )* :>> '}' @comment;
   sql_comment = sql_line_comment | sql_c_block_comment | sql_block_comment;
 
   sql_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline)* '\'';
diff --git a/src/parsers/stratego.rl b/src/parsers/stratego.rl
index 56d76c6..976480d 100644
--- a/src/parsers/stratego.rl
+++ b/src/parsers/stratego.rl
@@ -71,7 +71,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   stratego_char_str =
     '\'' (
diff --git a/src/parsers/tcl.rl b/src/parsers/tcl.rl
index cef3df1..79fb391 100644
--- a/src/parsers/tcl.rl
+++ b/src/parsers/tcl.rl
@@ -62,7 +62,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   tcl_line := |*
     spaces       ${ entity = TCL_SPACE; } => tcl_ccallback;
diff --git a/src/parsers/unrealscript.rl b/src/parsers/unrealscript.rl
index 7e6d8e4..13d2aee 100644
--- a/src/parsers/unrealscript.rl
+++ b/src/parsers/unrealscript.rl
@@ -64,7 +64,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   unrealscript_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   unrealscript_string = unrealscript_sq_str | unrealscript_dq_str;
 
   unrealscript_line := |*
-- 
2.43.0


From 08eb1bb5427ce41e9117941cea52a28985c0a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:41 +0000
Subject: [PATCH 30/89] fix: end a kotlin raw string at the next triple quote

---
 src/parsers/kotlin.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/kotlin.rl b/src/parsers/kotlin.rl
index 38ef112..f556269 100644
--- a/src/parsers/kotlin.rl
+++ b/src/parsers/kotlin.rl
@@ -75,8 +75,8 @@ enum {
       |
       ws
       |
-      [^\t ] @code
-    )* '"""';
+      (nonnewline - ws) @code
+    )* :>> '"""' @code;
   kotlin_string = kotlin_dq_str | kotlin_raw_str;
 
   kotlin_line := |*
-- 
2.43.0


From de345a6e179b97c55e6e986916ff489c17d3c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:41 +0000
Subject: [PATCH 31/89] fix: count code after a block comment on one line in
 coffeescript, julia and lua

---
 src/parsers/coffeescript.rl | 2 +-
 src/parsers/julia.rl        | 2 +-
 src/parsers/lua.rl          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/coffeescript.rl b/src/parsers/coffeescript.rl
index b08a653..aa7b640 100644
--- a/src/parsers/coffeescript.rl
+++ b/src/parsers/coffeescript.rl
@@ -45,7 +45,7 @@ enum {
     }
   }
 
-  coffeescript_line_comment = ('#') @comment nonnewline*;
+  coffeescript_line_comment = '#' @comment (nonnewline* - ('##' any*));
   coffeescript_block_comment =
     '###' @comment (
       newline %{ entity = INTERNAL_NL; } %coffeescript_ccallback
diff --git a/src/parsers/julia.rl b/src/parsers/julia.rl
index d700570..5e75a2e 100644
--- a/src/parsers/julia.rl
+++ b/src/parsers/julia.rl
@@ -42,7 +42,7 @@ enum {
     }
   }
 
-  julia_line_comment = '#' @comment nonnewline*;
+  julia_line_comment = '#' @comment (nonnewline* - ('=' any*));
   julia_block_comment =
     '#=' @comment (
       newline %{ entity = INTERNAL_NL; } %julia_ccallback
diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 067413f..9de8946 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -58,7 +58,7 @@ enum {
       |
       (nonnewline - ws) @comment
     )* :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 }) @commit;
-  lua_line_comment = '--' @comment nonnewline*;
+  lua_line_comment = '--' @comment (nonnewline* - ('[' '='* '[' any*));
   lua_comment = lua_long_comment | lua_line_comment;
 
   lua_long_string =
-- 
2.43.0


From edc3075816bc1bcac677bf737a40bd018063020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:41 +0000
Subject: [PATCH 32/89] fix: let a grace string hold a backslash

---
 src/parsers/grace.rl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parsers/grace.rl b/src/parsers/grace.rl
index 1d85813..a6d39ee 100644
--- a/src/parsers/grace.rl
+++ b/src/parsers/grace.rl
@@ -54,6 +54,8 @@ enum {
       ws
       |
       [^\r\n\f\t "\\] @code
+      |
+      '\\' nonnewline @code
     )* '"' @commit @code;
 
   grace_line := |*
-- 
2.43.0


From bff7b687d11c21a2756234197a514c65b4d3c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:16 +0000
Subject: [PATCH 33/89] fix: take each closing bracket of a lua long comment or
 string on its own

---
 src/parsers/lua.rl | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 9de8946..ba2f8d0 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -48,7 +48,8 @@ enum {
 
   action lua_long_ec_res { equal_count = 0; }
   action lua_long_ec_inc { equal_count++; }
-  action lua_long_ec_dec { equal_count--; }
+  action lua_long_ec_beg { equal_left = equal_count; }
+  action lua_long_ec_dec { equal_left--; }
 
   lua_long_comment =
     '--' ('[' >lua_long_ec_res '='* $lua_long_ec_inc '[') @enqueue @comment (
@@ -57,7 +58,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 }) @commit;
+    )* :>> (']' @lua_long_ec_beg '='* $lua_long_ec_dec ']' when { equal_left == 0 }) @commit;
   lua_line_comment = '--' @comment (nonnewline* - ('[' '='* '[' any*));
   lua_comment = lua_long_comment | lua_line_comment;
 
@@ -68,7 +69,7 @@ enum {
       ws
       |
       (nonnewline - ws) @code
-    )* :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 }) @commit;
+    )* :>> (']' @lua_long_ec_beg '='* $lua_long_ec_dec ']' when { equal_left == 0 }) @commit;
   lua_sq_str =
     '\'' @code (
       newline %{ entity = INTERNAL_NL; } %lua_ccallback
@@ -107,7 +108,7 @@ enum {
 
   lua_block_comment_entity =
     '--[' >lua_long_ec_res '='* $lua_long_ec_inc '[' any*
-    :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 });
+    :>> (']' @lua_long_ec_beg '='* $lua_long_ec_dec ']' when { equal_left == 0 });
   lua_line_comment_entity = '--' (nonnewline)*;
   lua_comment_entity = lua_block_comment_entity | lua_line_comment_entity;
 
@@ -157,7 +158,7 @@ void parse_lua(char *buffer, int length, int count,
   ) {
   init
 
-  int equal_count = 0;
+  int equal_count = 0, equal_left = 0;
 
   %% write init;
   cs = (count) ? lua_en_lua_line : lua_en_lua_entity;
-- 
2.43.0


From c7ba48acbba829269195532cd477b1e98854019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:09 +0000
Subject: [PATCH 34/89] fix: modelica strings with escapes and with other
 newlines

---
 src/parsers/modelica.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/modelica.rl b/src/parsers/modelica.rl
index 6fd20f5..d6049c4 100644
--- a/src/parsers/modelica.rl
+++ b/src/parsers/modelica.rl
@@ -60,8 +60,8 @@ enum {
   string = '\"' @code
     (newline %{ entity = INTERNAL_NL; } %modelica_ccallback
     |ws
-    |[^ \t\n"\\] @code
-    |'\\\"' @code
+    |[^\r\n\f\t "\\] @code
+    |'\\' nonnewline @code
     )* '\"' @code;
 
   modelica_line := |*
-- 
2.43.0


From a5cc7bf7cfba75b156a3266b4887a10a18dd1be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:34 +0000
Subject: [PATCH 35/89] fix: name each entity by what it is, not by what it
 begins like

---
 src/parsers/c.rl      | 18 +++++++++---------
 src/parsers/fsharp.rl | 18 +++++++++---------
 src/parsers/glsl.rl   | 18 +++++++++---------
 src/parsers/golang.rl | 18 +++++++++---------
 src/parsers/kotlin.rl | 16 ++++++++--------
 src/parsers/limbo.rl  | 18 +++++++++---------
 src/parsers/lua.rl    | 16 ++++++++--------
 src/parsers/rust.rl   | 16 ++++++++--------
 8 files changed, 69 insertions(+), 69 deletions(-)

diff --git a/src/parsers/c.rl b/src/parsers/c.rl
index d0da598..5cbad8d 100755
--- a/src/parsers/c.rl
+++ b/src/parsers/c.rl
@@ -137,15 +137,15 @@ enum {
   c_operator_entity = [+\-/*%<>!=^&|?~:;.,()\[\]{}];
 
   c_entity := |*
-    space+              ${ entity = C_SPACE;      } => c_ecallback;
-    c_comment_entity    ${ entity = C_COMMENT;    } => c_ecallback;
-    c_string_entity     ${ entity = C_STRING;     } => c_ecallback;
-    c_number_entity     ${ entity = C_NUMBER;     } => c_ecallback;
-    c_preproc_entity    ${ entity = C_PREPROC;    } => c_ecallback;
-    c_identifier_entity ${ entity = C_IDENTIFIER; } => c_ecallback;
-    c_keyword_entity    ${ entity = C_KEYWORD;    } => c_ecallback;
-    c_operator_entity   ${ entity = C_OPERATOR;   } => c_ecallback;
-    ^(space | digit)    ${ entity = C_ANY;        } => c_ecallback;
+    space+              @{ entity = C_SPACE;      } => c_ecallback;
+    c_comment_entity    @{ entity = C_COMMENT;    } => c_ecallback;
+    c_string_entity     @{ entity = C_STRING;     } => c_ecallback;
+    c_number_entity     @{ entity = C_NUMBER;     } => c_ecallback;
+    c_preproc_entity    @{ entity = C_PREPROC;    } => c_ecallback;
+    c_identifier_entity @{ entity = C_IDENTIFIER; } => c_ecallback;
+    c_keyword_entity    @{ entity = C_KEYWORD;    } => c_ecallback;
+    c_operator_entity   @{ entity = C_OPERATOR;   } => c_ecallback;
+    ^(space | digit | alpha | '_') @{ entity = C_ANY;        } => c_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/fsharp.rl b/src/parsers/fsharp.rl
index cb6e492..9d2b890 100644
--- a/src/parsers/fsharp.rl
+++ b/src/parsers/fsharp.rl
@@ -138,15 +138,15 @@ enum {
   fsharp_operator_entity = [+\-/*%<>!=^&|?~:;.,()\[\]{}];
 
   fsharp_entity := |*
-    space+              ${ entity = FSHARP_SPACE;      } => fsharp_ecallback;
-    fsharp_comment_entity    ${ entity = FSHARP_COMMENT;    } => fsharp_ecallback;
-    fsharp_string_entity     ${ entity = FSHARP_STRING;     } => fsharp_ecallback;
-    fsharp_number_entity     ${ entity = FSHARP_NUMBER;     } => fsharp_ecallback;
-    fsharp_preproc_entity    ${ entity = FSHARP_PREPROC;    } => fsharp_ecallback;
-    fsharp_identifier_entity ${ entity = FSHARP_IDENTIFIER; } => fsharp_ecallback;
-    fsharp_keyword_entity    ${ entity = FSHARP_KEYWORD;    } => fsharp_ecallback;
-    fsharp_operator_entity   ${ entity = FSHARP_OPERATOR;   } => fsharp_ecallback;
-    ^(space | digit)    ${ entity = FSHARP_ANY;        } => fsharp_ecallback;
+    space+              @{ entity = FSHARP_SPACE;      } => fsharp_ecallback;
+    fsharp_comment_entity    @{ entity = FSHARP_COMMENT;    } => fsharp_ecallback;
+    fsharp_string_entity     @{ entity = FSHARP_STRING;     } => fsharp_ecallback;
+    fsharp_number_entity     @{ entity = FSHARP_NUMBER;     } => fsharp_ecallback;
+    fsharp_preproc_entity    @{ entity = FSHARP_PREPROC;    } => fsharp_ecallback;
+    fsharp_identifier_entity @{ entity = FSHARP_IDENTIFIER; } => fsharp_ecallback;
+    fsharp_keyword_entity    @{ entity = FSHARP_KEYWORD;    } => fsharp_ecallback;
+    fsharp_operator_entity   @{ entity = FSHARP_OPERATOR;   } => fsharp_ecallback;
+    ^(space | digit | alpha | '_') @{ entity = FSHARP_ANY;        } => fsharp_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/glsl.rl b/src/parsers/glsl.rl
index 64e0cda..7d9a630 100644
--- a/src/parsers/glsl.rl
+++ b/src/parsers/glsl.rl
@@ -140,15 +140,15 @@ enum {
   glsl_operator_entity = [+\-/*%<>!=^&|?~:;.,()\[\]{}];
 
   glsl_entity := |*
-    space+                 ${ entity = GLSL_SPACE;      } => glsl_ecallback;
-    glsl_comment_entity    ${ entity = GLSL_COMMENT;    } => glsl_ecallback;
-    glsl_string_entity     ${ entity = GLSL_STRING;     } => glsl_ecallback;
-    glsl_number_entity     ${ entity = GLSL_NUMBER;     } => glsl_ecallback;
-    glsl_preproc_entity    ${ entity = GLSL_PREPROC;    } => glsl_ecallback;
-    glsl_identifier_entity ${ entity = GLSL_IDENTIFIER; } => glsl_ecallback;
-    glsl_keyword_entity    ${ entity = GLSL_KEYWORD;    } => glsl_ecallback;
-    glsl_operator_entity   ${ entity = GLSL_OPERATOR;   } => glsl_ecallback;
-    ^(space | digit)       ${ entity = GLSL_ANY;        } => glsl_ecallback;
+    space+                 @{ entity = GLSL_SPACE;      } => glsl_ecallback;
+    glsl_comment_entity    @{ entity = GLSL_COMMENT;    } => glsl_ecallback;
+    glsl_string_entity     @{ entity = GLSL_STRING;     } => glsl_ecallback;
+    glsl_number_entity     @{ entity = GLSL_NUMBER;     } => glsl_ecallback;
+    glsl_preproc_entity    @{ entity = GLSL_PREPROC;    } => glsl_ecallback;
+    glsl_identifier_entity @{ entity = GLSL_IDENTIFIER; } => glsl_ecallback;
+    glsl_keyword_entity    @{ entity = GLSL_KEYWORD;    } => glsl_ecallback;
+    glsl_operator_entity   @{ entity = GLSL_OPERATOR;   } => glsl_ecallback;
+    ^(space | digit | alpha | '_') @{ entity = GLSL_ANY;        } => glsl_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/golang.rl b/src/parsers/golang.rl
index fa9a227..066b139 100644
--- a/src/parsers/golang.rl
+++ b/src/parsers/golang.rl
@@ -137,15 +137,15 @@ enum {
   golang_operator_entity = [+\-/*%<>!=^&|?~:;.,()\[\]{}];
 
   golang_entity := |*
-    space+              ${ entity = GOLANG_SPACE;      } => golang_ecallback;
-    golang_comment_entity    ${ entity = GOLANG_COMMENT;    } => golang_ecallback;
-    golang_string_entity     ${ entity = GOLANG_STRING;     } => golang_ecallback;
-    golang_number_entity     ${ entity = GOLANG_NUMBER;     } => golang_ecallback;
-    golang_preprogolang_entity    ${ entity = GOLANG_PREPROC;    } => golang_ecallback;
-    golang_identifier_entity ${ entity = GOLANG_IDENTIFIER; } => golang_ecallback;
-    golang_keyword_entity    ${ entity = GOLANG_KEYWORD;    } => golang_ecallback;
-    golang_operator_entity   ${ entity = GOLANG_OPERATOR;   } => golang_ecallback;
-    ^(space | digit)    ${ entity = GOLANG_ANY;        } => golang_ecallback;
+    space+              @{ entity = GOLANG_SPACE;      } => golang_ecallback;
+    golang_comment_entity    @{ entity = GOLANG_COMMENT;    } => golang_ecallback;
+    golang_string_entity     @{ entity = GOLANG_STRING;     } => golang_ecallback;
+    golang_number_entity     @{ entity = GOLANG_NUMBER;     } => golang_ecallback;
+    golang_preprogolang_entity    @{ entity = GOLANG_PREPROC;    } => golang_ecallback;
+    golang_identifier_entity @{ entity = GOLANG_IDENTIFIER; } => golang_ecallback;
+    golang_keyword_entity    @{ entity = GOLANG_KEYWORD;    } => golang_ecallback;
+    golang_operator_entity   @{ entity = GOLANG_OPERATOR;   } => golang_ecallback;
+    ^(space | digit | alpha | '_') @{ entity = GOLANG_ANY;        } => golang_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/kotlin.rl b/src/parsers/kotlin.rl
index f556269..96497ca 100644
--- a/src/parsers/kotlin.rl
+++ b/src/parsers/kotlin.rl
@@ -129,14 +129,14 @@ enum {
   kotlin_operator_entity = [+\-/*%<>!=^&|?~:;.,()\[\]{}];
 
   kotlin_entity := |*
-    space+                   ${ entity = KOTLIN_SPACE;      } => kotlin_ecallback;
-    kotlin_comment_entity    ${ entity = KOTLIN_COMMENT;    } => kotlin_ecallback;
-    kotlin_string_entity     ${ entity = KOTLIN_STRING;     } => kotlin_ecallback;
-    kotlin_number_entity     ${ entity = KOTLIN_NUMBER;     } => kotlin_ecallback;
-    kotlin_identifier_entity ${ entity = KOTLIN_IDENTIFIER; } => kotlin_ecallback;
-    kotlin_keyword_entity    ${ entity = KOTLIN_KEYWORD;    } => kotlin_ecallback;
-    kotlin_operator_entity   ${ entity = KOTLIN_OPERATOR;   } => kotlin_ecallback;
-    ^(space | digit)         ${ entity = KOTLIN_ANY;        } => kotlin_ecallback;
+    space+                   @{ entity = KOTLIN_SPACE;      } => kotlin_ecallback;
+    kotlin_comment_entity    @{ entity = KOTLIN_COMMENT;    } => kotlin_ecallback;
+    kotlin_string_entity     @{ entity = KOTLIN_STRING;     } => kotlin_ecallback;
+    kotlin_number_entity     @{ entity = KOTLIN_NUMBER;     } => kotlin_ecallback;
+    kotlin_identifier_entity @{ entity = KOTLIN_IDENTIFIER; } => kotlin_ecallback;
+    kotlin_keyword_entity    @{ entity = KOTLIN_KEYWORD;    } => kotlin_ecallback;
+    kotlin_operator_entity   @{ entity = KOTLIN_OPERATOR;   } => kotlin_ecallback;
+    ^(space | digit | alpha | '_') @{ entity = KOTLIN_ANY;        } => kotlin_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/limbo.rl b/src/parsers/limbo.rl
index 227cb9c..87a4e91 100644
--- a/src/parsers/limbo.rl
+++ b/src/parsers/limbo.rl
@@ -89,7 +89,7 @@ enum {
   limbo_identifier_entity = (alpha | '_') (alnum | '_')*;
 
   limbo_keyword_entity =
-    'alt' | 'break' | 'continue' | 'exit' | 'return' | 'spawn' | 'implement' | 'import' | 'load' | 'raise' | 'raises'
+    'alt' | 'break' | 'continue' | 'exit' | 'return' | 'spawn' | 'implement' | 'import' | 'load' | 'raise' | 'raises' |
     'include' | 'array' | 'big' | 'byte' | 'chan' | 'con' | 'int' | 'list' | 'real' | 'string' | 'fn' |
     'adt' | 'pick' | 'module' |
     'for' | 'while' | 'do' |
@@ -102,14 +102,14 @@ enum {
   limbo_operator_entity = [+\-/*%!=^&|~:;.,()\[\]{}>];
 
   limbo_entity := |*
-    space+               ${ entity = LIMBO_SPACE;   } => limbo_ecallback;
-    limbo_comment_entity ${ entity = LIMBO_COMMENT; } => limbo_ecallback;
-    limbo_string_entity  ${ entity = LIMBO_STRING;  } => limbo_ecallback;
-    limbo_number_entity  ${ entity = LIMBO_NUMBER;  } => limbo_ecallback;
-    limbo_keyword_entity ${ entity = LIMBO_KEYWORD; } => limbo_ecallback;
-    limbo_identifier_entity ${ entity = LIMBO_IDENTIFIER; } => limbo_ecallback;
-    limbo_operator_entity ${ entity = LIMBO_OPERATOR; } => limbo_ecallback;
-    ^(space | digit)     ${ entity = LIMBO_ANY;     } => limbo_ecallback;
+    space+               @{ entity = LIMBO_SPACE;   } => limbo_ecallback;
+    limbo_comment_entity @{ entity = LIMBO_COMMENT; } => limbo_ecallback;
+    limbo_string_entity  @{ entity = LIMBO_STRING;  } => limbo_ecallback;
+    limbo_number_entity  @{ entity = LIMBO_NUMBER;  } => limbo_ecallback;
+    limbo_identifier_entity @{ entity = LIMBO_IDENTIFIER; } => limbo_ecallback;
+    limbo_keyword_entity @{ entity = LIMBO_KEYWORD; } => limbo_ecallback;
+    limbo_operator_entity @{ entity = LIMBO_OPERATOR; } => limbo_ecallback;
+    ^(space | digit | alpha | '_' | '#') @{ entity = LIMBO_ANY;     } => limbo_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index ba2f8d0..d8a13ce 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -127,14 +127,14 @@ enum {
   lua_operator_entity = '~=' | [+\-*/%^#=<>;:,.{}\[\]()];
 
   lua_entity := |*
-    space+                ${ entity = LUA_SPACE;      } => lua_ecallback;
-    lua_comment_entity    ${ entity = LUA_COMMENT;    } => lua_ecallback;
-    lua_string_entity     ${ entity = LUA_STRING;     } => lua_ecallback;
-    lua_number_entity     ${ entity = LUA_NUMBER;     } => lua_ecallback;
-    lua_identifier_entity ${ entity = LUA_IDENTIFIER; } => lua_ecallback;
-    lua_keyword_entity    ${ entity = LUA_KEYWORD;    } => lua_ecallback;
-    lua_operator_entity   ${ entity = LUA_OPERATOR;   } => lua_ecallback;
-    ^space                ${ entity = LUA_ANY;        } => lua_ecallback;
+    space+                @{ entity = LUA_SPACE;      } => lua_ecallback;
+    lua_comment_entity    @{ entity = LUA_COMMENT;    } => lua_ecallback;
+    lua_string_entity     @{ entity = LUA_STRING;     } => lua_ecallback;
+    lua_number_entity     @{ entity = LUA_NUMBER;     } => lua_ecallback;
+    lua_identifier_entity @{ entity = LUA_IDENTIFIER; } => lua_ecallback;
+    lua_keyword_entity    @{ entity = LUA_KEYWORD;    } => lua_ecallback;
+    lua_operator_entity   @{ entity = LUA_OPERATOR;   } => lua_ecallback;
+    ^(space | alpha | '_') @{ entity = LUA_ANY;        } => lua_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/rust.rl b/src/parsers/rust.rl
index 0dedd14..705fcc3 100644
--- a/src/parsers/rust.rl
+++ b/src/parsers/rust.rl
@@ -128,14 +128,14 @@ enum {
   rust_operator_entity = [+\-/*%<>!=^&|?~:;.,()\[\]{}@];
 
   rust_entity := |*
-    space+                 ${ entity = RUST_SPACE;      } => rust_ecallback;
-    rust_comment_entity    ${ entity = RUST_COMMENT;    } => rust_ecallback;
-    rust_string_entity     ${ entity = RUST_STRING;     } => rust_ecallback;
-    rust_number_entity     ${ entity = RUST_NUMBER;     } => rust_ecallback;
-    rust_identifier_entity ${ entity = RUST_IDENTIFIER; } => rust_ecallback;
-    rust_keyword_entity    ${ entity = RUST_KEYWORD;    } => rust_ecallback;
-    rust_operator_entity   ${ entity = RUST_OPERATOR;   } => rust_ecallback;
-    ^(space | digit)       ${ entity = RUST_ANY;        } => rust_ecallback;
+    space+                 @{ entity = RUST_SPACE;      } => rust_ecallback;
+    rust_comment_entity    @{ entity = RUST_COMMENT;    } => rust_ecallback;
+    rust_string_entity     @{ entity = RUST_STRING;     } => rust_ecallback;
+    rust_number_entity     @{ entity = RUST_NUMBER;     } => rust_ecallback;
+    rust_identifier_entity @{ entity = RUST_IDENTIFIER; } => rust_ecallback;
+    rust_keyword_entity    @{ entity = RUST_KEYWORD;    } => rust_ecallback;
+    rust_operator_entity   @{ entity = RUST_OPERATOR;   } => rust_ecallback;
+    ^(space | digit | alpha | '_') @{ entity = RUST_ANY;        } => rust_ecallback;
   *|;
 }%%
 
-- 
2.43.0


From 992eaab15b4dc585c2780724ee3acfc9292f483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:31 +0000
Subject: [PATCH 36/89] fix: a single percent sign begins an Erlang comment

---
 src/parsers/erlang.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/erlang.rl b/src/parsers/erlang.rl
index e1294b6..eceaeaa 100644
--- a/src/parsers/erlang.rl
+++ b/src/parsers/erlang.rl
@@ -44,7 +44,7 @@ enum {
     }
   }
 
-  erlang_comment = '%%' @comment nonnewline*;
+  erlang_comment = '%' @comment nonnewline*;
 
   erlang_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline)* '\'';
   erlang_dq_str = '"' @code ([^\r\n\f"\\] | '\\' nonnewline)* '"';
-- 
2.43.0


From 8c47ed82db52325121fc7849357c2498b1861f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:31 +0000
Subject: [PATCH 37/89] fix: report the same comments and strings as entities
 as when counting lines

---
 src/parsers/autoconf.rl      |  2 +-
 src/parsers/blitzmax.rl      | 10 ++--------
 src/parsers/boo.rl           |  4 +++-
 src/parsers/classic_basic.rl |  2 +-
 src/parsers/coffeescript.rl  |  2 +-
 src/parsers/julia.rl         |  2 +-
 src/parsers/kotlin.rl        |  8 +++++++-
 src/parsers/lisp.rl          |  2 +-
 src/parsers/lua.rl           |  9 ++++++---
 src/parsers/nsis.rl          |  2 +-
 src/parsers/rebol.rl         |  2 +-
 11 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/parsers/autoconf.rl b/src/parsers/autoconf.rl
index 065807a..fb8d0f5 100644
--- a/src/parsers/autoconf.rl
+++ b/src/parsers/autoconf.rl
@@ -77,7 +77,7 @@ enum {
     callback(AC_LANG, ac_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  ac_comment_entity = 'dnl' ws+ nonnewline*;
+  ac_comment_entity = 'dnl' (ws+ nonnewline*)?;
 
   ac_entity := |*
     space+            ${ entity = AC_SPACE;   } => ac_ecallback;
diff --git a/src/parsers/blitzmax.rl b/src/parsers/blitzmax.rl
index f3da548..dd1ffaa 100644
--- a/src/parsers/blitzmax.rl
+++ b/src/parsers/blitzmax.rl
@@ -75,15 +75,9 @@ enum {
 
   blitzmax_line_comment_entity = '\'' nonnewline*;
   blitzmax_rem_block_comment_entity =
-    /rem/i (
-      newline %{ entity = INTERNAL_NL; } %blitzmax_ecallback
-      |
-      ws
-      |
-      (nonnewline - ws)
-    )* :>> (/end rem/i | /endrem/i);
+    /rem/i any* :>> (/end rem/i | /endrem/i);
 
-  blitzmax_comment_entity = blitzmax_line_comment_entity | blitzmax_line_comment_entity;
+  blitzmax_comment_entity = blitzmax_line_comment_entity | blitzmax_rem_block_comment_entity;
 
   blitzmax_entity := |*
     space+                ${ entity = BLITZMAX_SPACE;   } => blitzmax_ecallback;
diff --git a/src/parsers/boo.rl b/src/parsers/boo.rl
index 961b18a..ec6af38 100644
--- a/src/parsers/boo.rl
+++ b/src/parsers/boo.rl
@@ -100,7 +100,9 @@ enum {
     |
     any
   )* :>> ('*/' when { nest_count == 0 });
-  boo_comment_entity = boo_line_comment_entity | boo_block_comment_entity;
+  boo_doc_comment_entity = '"""' any* :>> '"""';
+  boo_comment_entity = boo_line_comment_entity | boo_block_comment_entity |
+                       boo_doc_comment_entity;
 
   boo_entity := |*
     space+             ${ entity = BOO_SPACE;   } => boo_ecallback;
diff --git a/src/parsers/classic_basic.rl b/src/parsers/classic_basic.rl
index be3d5f9..974d735 100644
--- a/src/parsers/classic_basic.rl
+++ b/src/parsers/classic_basic.rl
@@ -60,7 +60,7 @@ enum {
     callback(CB_LANG, cb_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  cb_comment_entity = ("'" | /rem/i ws+) nonnewline*;
+  cb_comment_entity = "'" nonnewline* | /rem/i (ws+ nonnewline*)?;
 
   cb_entity := |*
     space+            ${ entity = CB_SPACE;   } => cb_ecallback;
diff --git a/src/parsers/coffeescript.rl b/src/parsers/coffeescript.rl
index aa7b640..894a708 100644
--- a/src/parsers/coffeescript.rl
+++ b/src/parsers/coffeescript.rl
@@ -124,7 +124,7 @@ enum {
              userdata);
   }
 
-  coffeescript_line_comment_entity = ('#') nonnewline*;
+  coffeescript_line_comment_entity = '#' (nonnewline* - ('##' any*));
   coffeescript_block_comment_entity = '###' any* :>> '###';
   coffeescript_comment_entity = coffeescript_line_comment_entity |
     coffeescript_block_comment_entity;
diff --git a/src/parsers/julia.rl b/src/parsers/julia.rl
index 5e75a2e..60a1497 100644
--- a/src/parsers/julia.rl
+++ b/src/parsers/julia.rl
@@ -93,7 +93,7 @@ enum {
     callback(JULIA_LANG, julia_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  julia_line_comment_entity = '#' nonnewline*;
+  julia_line_comment_entity = '#' (nonnewline* - ('=' any*));
   julia_block_comment_entity = '#=' any* :>> '=#';
   julia_sq_doc_str_entity = '\'\'\'' any* :>> '\'\'\'';
   julia_dq_doc_str_entity = '"""' any* :>> '"""';
diff --git a/src/parsers/kotlin.rl b/src/parsers/kotlin.rl
index 96497ca..74c5718 100644
--- a/src/parsers/kotlin.rl
+++ b/src/parsers/kotlin.rl
@@ -94,7 +94,13 @@ enum {
   }
 
   kotlin_line_comment_entity = '//' nonnewline*;
-  kotlin_block_comment_entity = '/*' any* :>> '*/';
+  kotlin_block_comment_entity = '/*' >kotlin_comment_nc_res (
+    '/*' @kotlin_comment_nc_inc
+    |
+    '*/' @kotlin_comment_nc_dec
+    |
+    any
+  )* :>> ('*/' when { kotlin_comment_nest_count == 0 });
   kotlin_comment_entity = kotlin_line_comment_entity | kotlin_block_comment_entity;
 
   kotlin_raw_string_entity = '"""' any* :>> '"""';
diff --git a/src/parsers/lisp.rl b/src/parsers/lisp.rl
index 08bf62e..d45bd25 100644
--- a/src/parsers/lisp.rl
+++ b/src/parsers/lisp.rl
@@ -89,7 +89,7 @@ enum {
     callback(LISP_LANG, lisp_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  lisp_comment_entity = ';' nonnewline*;
+  lisp_comment_entity = ';' nonnewline* | '"""' any* :>> '"""';
 
   lisp_entity := |*
     space+              ${ entity = LISP_SPACE;   } => lisp_ecallback;
diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index d8a13ce..87fd87e 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -109,10 +109,13 @@ enum {
   lua_block_comment_entity =
     '--[' >lua_long_ec_res '='* $lua_long_ec_inc '[' any*
     :>> (']' @lua_long_ec_beg '='* $lua_long_ec_dec ']' when { equal_left == 0 });
-  lua_line_comment_entity = '--' (nonnewline)*;
+  lua_line_comment_entity = '--' (nonnewline* - ('[' '='* '[' any*));
   lua_comment_entity = lua_block_comment_entity | lua_line_comment_entity;
 
-  lua_string_entity = sq_str_with_escapes | dq_str_with_escapes;
+  lua_long_string_entity =
+    '[' >lua_long_ec_res '='* $lua_long_ec_inc '[' any*
+    :>> (']' @lua_long_ec_beg '='* $lua_long_ec_dec ']' when { equal_left == 0 });
+  lua_string_entity = sq_str_with_escapes | dq_str_with_escapes | lua_long_string_entity;
 
   lua_integer = '-'? (dec_num | hex_num);
   lua_number_entity = float | lua_integer;
@@ -122,7 +125,7 @@ enum {
     'function' | 'if' | 'in' | 'local' | 'nil' | 'not' | 'or' | 'repeat' |
     'return' | 'then' | 'true' | 'until' | 'while';
 
-  lua_identifier_entity = (alpha | '_') alnum*;
+  lua_identifier_entity = (alpha | '_') (alnum | '_')*;
 
   lua_operator_entity = '~=' | [+\-*/%^#=<>;:,.{}\[\]()];
 
diff --git a/src/parsers/nsis.rl b/src/parsers/nsis.rl
index 8b21586..18ae37c 100644
--- a/src/parsers/nsis.rl
+++ b/src/parsers/nsis.rl
@@ -74,7 +74,7 @@ enum {
     callback(NSIS_LANG, nsis_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  nsis_line_comment_entity = ('#' | '//') nonnewline*;
+  nsis_line_comment_entity = ('#' | ';') nonnewline*;
   nsis_block_comment_entity = '/*' any* :>> '*/';
   nsis_comment_entity = nsis_line_comment_entity | nsis_block_comment_entity;
 
diff --git a/src/parsers/rebol.rl b/src/parsers/rebol.rl
index eb7fc59..79563c6 100644
--- a/src/parsers/rebol.rl
+++ b/src/parsers/rebol.rl
@@ -86,7 +86,7 @@ enum {
     space+                  ${ entity = REBOL_SPACE; }      => rebol_ecallback;
     rebol_comment_entity    ${ entity = REBOL_COMMENT; }    => rebol_ecallback;
     rebol_string_entiy      ${ entity = REBOL_STRING; }     => rebol_ecallback;
-    ^space                  ${ entity = REBOL_ANY; }        => rebol_ecallback;
+    ^(space | ';')          ${ entity = REBOL_ANY; }        => rebol_ecallback;
   *|;
 
 }%%
-- 
2.43.0


From 440c99c6ae389f6149a16ffbd2dbbf426d7f629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:53 +0000
Subject: [PATCH 38/89] fix: take a carriage return at the very end as a
 newline

---
 src/parsers/common.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index 51d1466..e519d1d 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -6,7 +6,7 @@ machine common;
 # whitespace, non-printables
 ws = [\t\v ];
 spaces = [\t\v ]+;
-newline = ('\r\n' | '\n' | '\f' | '\r' when { p+1 < pe && *(p+1) != '\n' });
+newline = ('\r\n' | '\n' | '\f' | '\r' when { p+1 >= pe || *(p+1) != '\n' });
 escaped_newline = '\\' newline;
 nonnewline = any - [\r\n\f];
 nonprintable_char = cntrl - [\r\n\f];
-- 
2.43.0


From 44f7999c9af0adc9c8646c2c32f4356f40538d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:56 +0000
Subject: [PATCH 39/89] fix: report each line once when a comment or string
 never ends

---
 src/parser.c        | 46 ++++++++++++++++++++++++++++++++++++++++++++-
 src/parser_macros.h | 33 +++++++++++++++++++++++++++++---
 2 files changed, 75 insertions(+), 4 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 358113e..b0e8dea 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1,6 +1,7 @@
 // parser.c written by Mitchell Foral. mitchell<att>caladbolg.net.
 // See COPYING for license information.
 
+#include <stdlib.h>
 #include <string.h>
 
 #include "sourcefile.h"
@@ -9,6 +10,41 @@
 
 struct ParserMap * ohcount_hash_parser_from_language (register const char *str, register size_t len);
 
+/* A line reported by a line counting machine. */
+typedef struct {
+  const char *lang;
+  const char *entity;
+  int s;
+  int e;
+} Line;
+
+/*
+ * The lines reported so far. They are held until the machine is done because
+ * when it finds a comment or string has no end, it goes back to where that
+ * began and reports the lines from there again.
+ */
+typedef struct {
+  Line *lines;
+  int count;
+  int size;
+} Lines;
+
+static void hold_line(const char *lang, const char *entity, int s, int e,
+                      void *userdata) {
+  Lines *held = (Lines *) userdata;
+  while (held->count > 0 && held->lines[held->count-1].e > s) {
+    // It may have gone back to the middle of a line.
+    if (held->lines[held->count-1].s < s) s = held->lines[held->count-1].s;
+    held->count--;
+  }
+  if (held->count == held->size) {
+    held->size = held->size ? held->size * 2 : 256;
+    held->lines = realloc(held->lines, held->size * sizeof(Line));
+  }
+  Line line = { lang, entity, s, e };
+  held->lines[held->count++] = line;
+}
+
 int ohcount_parse(SourceFile *sourcefile, int count,
                   void (*callback) (const char *, const char *, int, int,
                                     void *),
@@ -20,7 +56,15 @@ int ohcount_parse(SourceFile *sourcefile, int count,
     if (rp) {
       char *buffer = ohcount_sourcefile_get_contents(sourcefile);
       int buffer_len = ohcount_sourcefile_get_contents_size(sourcefile);
-      if (callback)
+      if (callback && count) {
+        Lines held = { NULL, 0, 0 };
+        int i;
+        rp->parser(buffer, buffer_len, count, hold_line, &held);
+        for (i = 0; i < held.count; i++)
+          callback(held.lines[i].lang, held.lines[i].entity, held.lines[i].s,
+                   held.lines[i].e, userdata);
+        free(held.lines);
+      } else if (callback)
         rp->parser(buffer, buffer_len, count, callback, userdata);
       return 1;
     }
diff --git a/src/parser_macros.h b/src/parser_macros.h
index 4414995..c6cbc2e 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -161,12 +161,25 @@ void free_queue() {
 }
 
 /**
- * Executes standard line counting actions for INTERNAL_NL entities.
- * This is typically used in the main action for the INTERNAL_NL entity.
+ * Counts the beginning of what looked like an entity as code.
+ * When there is no end to an entity, Ragel jumps back to its beginning and
+ * takes only the first character. If the entity had internal newlines, these
+ * are no longer those of the current line and INTERNAL_NL is what is left in
+ * the entity variable.
+ * @note Applies only to line counting parsers.
+ */
+#define not_an_entity { \
+  if (inqueue) { dequeue; } \
+  line_start = line_beginning(ts + 1); \
+  line_contains_code = 1; \
+}
+
+/**
+ * Reports the line that ends at an internal newline.
  * @param lang The language name string.
  * @note Applies only to line counting parsers.
  */
-#define std_internal_newline(lang) { \
+#define internal_newline(lang) { \
   if (!line_start) line_start = line_beginning(p); \
   if (callback && p > line_start) { \
     if (line_contains_code) { \
@@ -191,6 +204,20 @@ void free_queue() {
   line_start = p; \
 }
 
+/**
+ * Executes standard line counting actions for INTERNAL_NL entities.
+ * This is typically used in the main action for the INTERNAL_NL entity.
+ * @param lang The language name string.
+ * @note Applies only to line counting parsers.
+ */
+#define std_internal_newline(lang) { \
+  if (p == ts) { \
+    not_an_entity; \
+  } else { \
+    internal_newline(lang); \
+  } \
+}
+
 /**
  * Executes emebedded language line counting actions for INTERNAL_NL entities
  * based on whether or not the embedded language's code has been seen in a
-- 
2.43.0


From bf7af2b39ebbb439f06708f053a135c89ec915c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:56 +0000
Subject: [PATCH 40/89] fix: vertical tab is blank and a blank last line is
 reported

---
 src/parser_macros.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index c6cbc2e..bc820e3 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -279,6 +279,10 @@ void free_queue() {
  * @note Applies only to line counting parsers.
  */
 #define process_last_line(lang) {\
+  if (callback && !whole_line_comment && !line_contains_code && line_start && \
+      line_start < pe && (*(pe-1) == '\n' || *(pe-1) == '\r' || \
+      *(pe-1) == '\f')) \
+    callback(lang, "lblank", cint(line_start), cint(pe), userdata); \
   if (!line_start) line_start = line_beginning(pe); \
   if ((whole_line_comment || line_contains_code) && callback) { \
     if (line_contains_code) \
@@ -356,7 +360,7 @@ char *eof;
 int is_blank_entry(char **p) {
   char *pos = *p+1;
   while (pos < pe && *pos != '\n' && *pos != '\r' && *pos != '\f') {
-    if (*pos != '\t' && *pos != ' ') return 0;
+    if (*pos != '\t' && *pos != '\v' && *pos != ' ') return 0;
     pos++;
   }
   if (pos == pe) pos--;
-- 
2.43.0


From 030be8d12d6b9302ad106e3aecd405e3f2011047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:56 +0000
Subject: [PATCH 41/89] fix: hyphens in markup comments and backslashes in
 attribute values

---
 src/parsers/clearsilverhtml.rl | 25 +++++++++++++------------
 src/parsers/cs_aspx.rl         | 25 +++++++++++++------------
 src/parsers/jsp.rl             | 25 +++++++++++++------------
 src/parsers/phphtml.rl         | 25 +++++++++++++------------
 src/parsers/rhtml.rl           | 25 +++++++++++++------------
 src/parsers/vb_aspx.rl         | 25 +++++++++++++------------
 6 files changed, 78 insertions(+), 72 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 412dff7..3f1332c 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -61,11 +61,10 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    (nonnewline - ws) @comment
     |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
-    |
-    '<' !'?cs'
+    '<?cs' @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
+      @{ saw(CS_LANG); fcall cshtml_cs_line; }
   )* :>> '-->' @comment @{ fgoto cshtml_line; };
 
   cshtml_sq_str := (
@@ -73,27 +72,29 @@ enum {
     |
     ws
     |
-    [^\r\n\f\t '\\<] @code
+    [^\r\n\f\t '\\] @code
     |
     '\\' nonnewline @code
     |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
+    '\\' @code newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
     |
-    '<' !'?cs'
-  )* '\'' @{ fgoto cshtml_line; };
+    '<?cs' @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
+      @{ saw(CS_LANG); fcall cshtml_cs_line; }
+  )* '\'' @code @{ fgoto cshtml_line; };
   cshtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
     |
     ws
     |
-    [^\r\n\f\t "\\<] @code
+    [^\r\n\f\t "\\] @code
     |
     '\\' nonnewline @code
     |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
+    '\\' @code newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
     |
-    '<' !'?cs'
-  )* '"' @{ fgoto cshtml_line; };
+    '<?cs' @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
+      @{ saw(CS_LANG); fcall cshtml_cs_line; }
+  )* '"' @code @{ fgoto cshtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cshtml_ccallback);
 
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index cf960af..b9cdf9f 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -59,11 +59,10 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    (nonnewline - ws) @comment
     |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
-    |
-    '<' !'%'
+    '<%' @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
+      @{ saw(C_LANG); fcall cs_aspx_cs_line; }
   )* :>> '-->' @comment @{ fgoto cs_aspx_line; };
 
   cs_aspx_sq_str := (
@@ -71,27 +70,29 @@ enum {
     |
     ws
     |
-    [^\r\n\f\t '\\<] @code
+    [^\r\n\f\t '\\] @code
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
+    '\\' @code newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
     |
-    '<' !'%'
-  )* '\'' @{ fgoto cs_aspx_line; };
+    '<%' @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
+      @{ saw(C_LANG); fcall cs_aspx_cs_line; }
+  )* '\'' @code @{ fgoto cs_aspx_line; };
   cs_aspx_dq_str := (
     newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
     |
     ws
     |
-    [^\r\n\f\t "\\<] @code
+    [^\r\n\f\t "\\] @code
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
+    '\\' @code newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
     |
-    '<' !'%'
-  )* '"' @{ fgoto cs_aspx_line; };
+    '<%' @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
+      @{ saw(C_LANG); fcall cs_aspx_cs_line; }
+  )* '"' @code @{ fgoto cs_aspx_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cs_aspx_ccallback);
 
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index 63a5cc6..4f04d6c 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -61,11 +61,10 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    (nonnewline - ws) @comment
     |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
-    |
-    '<' !'%'
+    '<%' @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
+      @{ saw(JAVA_LANG); fcall jsp_java_line; }
   )* :>> '-->' @comment @{ fgoto jsp_line; };
 
   jsp_sq_str := (
@@ -73,27 +72,29 @@ enum {
     |
     ws
     |
-    [^\r\n\f\t '\\<] @code
+    [^\r\n\f\t '\\] @code
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
+    '\\' @code newline %{ entity = INTERNAL_NL; } %jsp_ccallback
     |
-    '<' !'%'
-  )* '\'' @{ fgoto jsp_line; };
+    '<%' @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
+      @{ saw(JAVA_LANG); fcall jsp_java_line; }
+  )* '\'' @code @{ fgoto jsp_line; };
   jsp_dq_str := (
     newline %{ entity = INTERNAL_NL; } %jsp_ccallback
     |
     ws
     |
-    [^\r\n\f\t "\\<] @code
+    [^\r\n\f\t "\\] @code
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
+    '\\' @code newline %{ entity = INTERNAL_NL; } %jsp_ccallback
     |
-    '<' !'%'
-  )* '"' @{ fgoto jsp_line; };
+    '<%' @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
+      @{ saw(JAVA_LANG); fcall jsp_java_line; }
+  )* '"' @code @{ fgoto jsp_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %jsp_ccallback);
 
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index c411672..b529ce6 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -61,11 +61,10 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    (nonnewline - ws) @comment
     |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
-    |
-    '<' !'?php'
+    '<?php' @{ entity = CHECK_BLANK_ENTRY; } @phtml_ccallback
+      @{ saw(PHP_LANG); fcall phtml_php_line; }
   )* :>> '-->' @comment @{ fgoto phtml_line; };
 
   phtml_sq_str := (
@@ -73,27 +72,29 @@ enum {
     |
     ws
     |
-    [^\r\n\f\t '\\<] @code
+    [^\r\n\f\t '\\] @code
     |
     '\\' nonnewline @code
     |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
+    '\\' @code newline %{ entity = INTERNAL_NL; } %phtml_ccallback
     |
-    '<' !'?php'
-  )* '\'' @{ fgoto phtml_line; };
+    '<?php' @{ entity = CHECK_BLANK_ENTRY; } @phtml_ccallback
+      @{ saw(PHP_LANG); fcall phtml_php_line; }
+  )* '\'' @code @{ fgoto phtml_line; };
   phtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %phtml_ccallback
     |
     ws
     |
-    [^\r\n\f\t "\\<] @code
+    [^\r\n\f\t "\\] @code
     |
     '\\' nonnewline @code
     |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
+    '\\' @code newline %{ entity = INTERNAL_NL; } %phtml_ccallback
     |
-    '<' !'?php'
-  )* '"' @{ fgoto phtml_line; };
+    '<?php' @{ entity = CHECK_BLANK_ENTRY; } @phtml_ccallback
+      @{ saw(PHP_LANG); fcall phtml_php_line; }
+  )* '"' @code @{ fgoto phtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %phtml_ccallback);
 
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 1e956e7..180848f 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -61,11 +61,10 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    (nonnewline - ws) @comment
     |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
-    |
-    '<' !'%'
+    '<%' @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
+      @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
   )* :>> '-->' @comment @{ fgoto rhtml_line; };
 
   rhtml_sq_str := (
@@ -73,27 +72,29 @@ enum {
     |
     ws
     |
-    [^\r\n\f\t '\\<] @code
+    [^\r\n\f\t '\\] @code
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
+    '\\' @code newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
     |
-    '<' !'%'
-  )* '\'' @{ fgoto rhtml_line; };
+    '<%' @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
+      @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
+  )* '\'' @code @{ fgoto rhtml_line; };
   rhtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
     |
     ws
     |
-    [^\r\n\f\t "\\<] @code
+    [^\r\n\f\t "\\] @code
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
+    '\\' @code newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
     |
-    '<' !'%'
-  )* '"' @{ fgoto rhtml_line; };
+    '<%' @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
+      @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
+  )* '"' @code @{ fgoto rhtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %rhtml_ccallback);
 
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index c0a41fa..55ec2a9 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -59,11 +59,10 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    (nonnewline - ws) @comment
     |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
-    |
-    '<' !'%'
+    '<%' @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
+      @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
   )* :>> '-->' @comment @{ fgoto vb_aspx_line; };
 
   vb_aspx_sq_str := (
@@ -71,27 +70,29 @@ enum {
     |
     ws
     |
-    [^\r\n\f\t '\\<] @code
+    [^\r\n\f\t '\\] @code
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
+    '\\' @code newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
     |
-    '<' !'%'
-  )* '\'' @{ fgoto vb_aspx_line; };
+    '<%' @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
+      @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
+  )* '\'' @code @{ fgoto vb_aspx_line; };
   vb_aspx_dq_str := (
     newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
     |
     ws
     |
-    [^\r\n\f\t "\\<] @code
+    [^\r\n\f\t "\\] @code
     |
     '\\' nonnewline @code
     |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
+    '\\' @code newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
     |
-    '<' !'%'
-  )* '"' @{ fgoto vb_aspx_line; };
+    '<%' @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
+      @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
+  )* '"' @code @{ fgoto vb_aspx_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %vb_aspx_ccallback);
 
-- 
2.43.0


From 21c37546a6c17a07250f4f009dc5c2ea7fcc4a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:56 +0000
Subject: [PATCH 42/89] fix: a question mark in PHP code does not end PHP

---
 src/parsers/phphtml.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index b529ce6..1dc26d2 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -123,9 +123,9 @@ enum {
   *|;
 
   phtml_php_entry = ('<?' 'php'?) @code;
-  phtml_php_outry = '?>' @check_blank_outry @code;
+  phtml_php_outry = '?>';
   phtml_php_line := |*
-    phtml_php_outry ${ p = ts; fret; };
+    phtml_php_outry @{ p = ts; fret; };
     # unmodified PHP patterns
     spaces       ${ entity = PHP_SPACE; } => php_ccallback;
     php_comment;
-- 
2.43.0


From 4552854bc7ef980ad4b799b94c102d32a357cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:56 +0000
Subject: [PATCH 43/89] fix: count each line of a style or script tag over
 several lines

---
 src/parsers/clearsilverhtml.rl | 11 +++++++++--
 src/parsers/cs_aspx.rl         | 13 ++++++++++---
 src/parsers/html.rl            | 11 +++++++++--
 src/parsers/jsp.rl             | 11 +++++++++--
 src/parsers/phphtml.rl         | 11 +++++++++--
 src/parsers/rhtml.rl           | 11 +++++++++--
 src/parsers/vb_aspx.rl         | 13 ++++++++++---
 7 files changed, 65 insertions(+), 16 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 3f1332c..61f295a 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -98,7 +98,14 @@ enum {
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cshtml_ccallback);
 
-  cshtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
+  cshtml_tag_text =
+    newline %{ entity = INTERNAL_NL; emb_internal_newline(CSHTML_LANG) }
+    |
+    ws
+    |
+    ^(space | '>') @code;
+
+  cshtml_css_entry = '<' /style/i @code cshtml_tag_text+ :>> 'text/css' cshtml_tag_text+ '>' @code;
   cshtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
   cshtml_css_line := |*
     cshtml_css_outry @{ p = ts; fret; };
@@ -110,7 +117,7 @@ enum {
     ^space       ${ entity = CSS_ANY;   } => css_ccallback;
   *|;
 
-  cshtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
+  cshtml_js_entry = '<' /script/i @code cshtml_tag_text+ :>> 'text/javascript' cshtml_tag_text+ '>' @code;
   cshtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
   cshtml_js_line := |*
     cshtml_js_outry @{ p = ts; fret; };
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index b9cdf9f..80acc9d 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -96,7 +96,14 @@ enum {
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cs_aspx_ccallback);
 
-  cs_aspx_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
+  cs_aspx_tag_text =
+    newline %{ entity = INTERNAL_NL; emb_internal_newline(CS_ASPX_LANG) }
+    |
+    ws
+    |
+    ^(space | '>') @code;
+
+  cs_aspx_css_entry = '<' /style/i @code cs_aspx_tag_text+ :>> 'text/css' cs_aspx_tag_text+ '>' @code;
   cs_aspx_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
   cs_aspx_css_line := |*
     cs_aspx_css_outry @{ p = ts; fret; };
@@ -108,7 +115,7 @@ enum {
     ^space      ${ entity = CSS_ANY;   } => css_ccallback;
   *|;
 
-  cs_aspx_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
+  cs_aspx_js_entry = '<' /script/i @code cs_aspx_tag_text+ :>> 'text/javascript' cs_aspx_tag_text+ '>' @code;
   cs_aspx_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
   cs_aspx_js_line := |*
     cs_aspx_js_outry @{ p = ts; fret; };
@@ -120,7 +127,7 @@ enum {
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
   *|;
 
-  cs_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
+  cs_aspx_cs_entry = ('<%' | '<' /script/i @code cs_aspx_tag_text+ :>> 'server' cs_aspx_tag_text+ '>') @code;
   cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
   cs_aspx_cs_line := |*
     cs_aspx_cs_outry @{ p = ts; fret; };
diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index c7591ef..76cc1b0 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -69,7 +69,14 @@ enum {
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %html_ccallback);
 
-  html_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
+  html_tag_text =
+    newline %{ entity = INTERNAL_NL; std_internal_newline(HTML_LANG) }
+    |
+    ws
+    |
+    ^(space | '>') @code;
+
+  html_css_entry = '<' /style/i @code html_tag_text+ :>> 'text/css' html_tag_text+ '>' @code;
   html_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
   html_css_line := |*
     html_css_outry @{ p = ts; fret; };
@@ -81,7 +88,7 @@ enum {
     ^space      ${ entity = CSS_ANY;   } => css_ccallback;
   *|;
 
-  html_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
+  html_js_entry = '<' /script/i @code html_tag_text+ :>> 'text/javascript' html_tag_text+ '>' @code;
   html_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
   html_js_line := |*
     html_js_outry @{ p = ts; fret; };
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index 4f04d6c..93a1257 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -98,7 +98,14 @@ enum {
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %jsp_ccallback);
 
-  jsp_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
+  jsp_tag_text =
+    newline %{ entity = INTERNAL_NL; emb_internal_newline(JSP_LANG) }
+    |
+    ws
+    |
+    ^(space | '>') @code;
+
+  jsp_css_entry = '<' /style/i @code jsp_tag_text+ :>> 'text/css' jsp_tag_text+ '>' @code;
   jsp_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
   jsp_css_line := |*
     jsp_css_outry @{ p = ts; fret; };
@@ -110,7 +117,7 @@ enum {
     ^space      ${ entity = CSS_ANY;   } => css_ccallback;
   *|;
 
-  jsp_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
+  jsp_js_entry = '<' /script/i @code jsp_tag_text+ :>> 'text/javascript' jsp_tag_text+ '>' @code;
   jsp_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
   jsp_js_line := |*
     jsp_js_outry @{ p = ts; fret; };
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 1dc26d2..ea07fb5 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -98,7 +98,14 @@ enum {
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %phtml_ccallback);
 
-  phtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
+  phtml_tag_text =
+    newline %{ entity = INTERNAL_NL; emb_internal_newline(PHTML_LANG) }
+    |
+    ws
+    |
+    ^(space | '>') @code;
+
+  phtml_css_entry = '<' /style/i @code phtml_tag_text+ :>> 'text/css' phtml_tag_text+ '>' @code;
   phtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
   phtml_css_line := |*
     phtml_css_outry @{ p = ts; fret; };
@@ -110,7 +117,7 @@ enum {
     ^space      ${ entity = CSS_ANY;   } => css_ccallback;
   *|;
 
-  phtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
+  phtml_js_entry = '<' /script/i @code phtml_tag_text+ :>> 'text/javascript' phtml_tag_text+ '>' @code;
   phtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
   phtml_js_line := |*
     phtml_js_outry @{ p = ts; fret; };
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 180848f..bb47ac4 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -98,7 +98,14 @@ enum {
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %rhtml_ccallback);
 
-  rhtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
+  rhtml_tag_text =
+    newline %{ entity = INTERNAL_NL; emb_internal_newline(RHTML_LANG) }
+    |
+    ws
+    |
+    ^(space | '>') @code;
+
+  rhtml_css_entry = '<' /style/i @code rhtml_tag_text+ :>> 'text/css' rhtml_tag_text+ '>' @code;
   rhtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
   rhtml_css_line := |*
     rhtml_css_outry @{ p = ts; fret; };
@@ -110,7 +117,7 @@ enum {
     ^space      ${ entity = CSS_ANY;   } => css_ccallback;
   *|;
 
-  rhtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
+  rhtml_js_entry = '<' /script/i @code rhtml_tag_text+ :>> 'text/javascript' rhtml_tag_text+ '>' @code;
   rhtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
   rhtml_js_line := |*
     rhtml_js_outry @{ p = ts; fret; };
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 55ec2a9..7ef481f 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -96,7 +96,14 @@ enum {
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %vb_aspx_ccallback);
 
-  vb_aspx_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
+  vb_aspx_tag_text =
+    newline %{ entity = INTERNAL_NL; emb_internal_newline(VB_ASPX_LANG) }
+    |
+    ws
+    |
+    ^(space | '>') @code;
+
+  vb_aspx_css_entry = '<' /style/i @code vb_aspx_tag_text+ :>> 'text/css' vb_aspx_tag_text+ '>' @code;
   vb_aspx_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
   vb_aspx_css_line := |*
     vb_aspx_css_outry @{ p = ts; fret; };
@@ -108,7 +115,7 @@ enum {
     ^space      ${ entity = CSS_ANY;   } => css_ccallback;
   *|;
 
-  vb_aspx_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
+  vb_aspx_js_entry = '<' /script/i @code vb_aspx_tag_text+ :>> 'text/javascript' vb_aspx_tag_text+ '>' @code;
   vb_aspx_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
   vb_aspx_js_line := |*
     vb_aspx_js_outry @{ p = ts; fret; };
@@ -120,7 +127,7 @@ enum {
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
   *|;
 
-  vb_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
+  vb_aspx_cs_entry = ('<%' | '<' /script/i @code vb_aspx_tag_text+ :>> 'server' vb_aspx_tag_text+ '>') @code;
   vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
   vb_aspx_cs_line := |*
     vb_aspx_cs_outry @{ p = ts; fret; };
-- 
2.43.0


From 0f6b103d096f9e4e6a347f21e5a94e62a665fd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:57 +0000
Subject: [PATCH 44/89] fix: literals that end with the line do not swallow
 newlines

---
 src/parsers/c.rl            | 4 ++--
 src/parsers/chaiscript.rl   | 6 +++---
 src/parsers/d.rl            | 6 +++---
 src/parsers/elm.rl          | 2 +-
 src/parsers/fsharp.rl       | 4 ++--
 src/parsers/glsl.rl         | 4 ++--
 src/parsers/golang.rl       | 4 ++--
 src/parsers/groovy.rl       | 4 ++--
 src/parsers/haskell.rl      | 2 +-
 src/parsers/javascript.rl   | 6 +++---
 src/parsers/mathematica.rl  | 2 +-
 src/parsers/modula3.rl      | 4 ++--
 src/parsers/rebol.rl        | 2 +-
 src/parsers/rust.rl         | 2 +-
 src/parsers/stratego.rl     | 4 ++--
 src/parsers/unrealscript.rl | 4 ++--
 16 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/parsers/c.rl b/src/parsers/c.rl
index 5cbad8d..109da2a 100755
--- a/src/parsers/c.rl
+++ b/src/parsers/c.rl
@@ -70,7 +70,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -80,7 +80,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/chaiscript.rl b/src/parsers/chaiscript.rl
index b83cc4a..1eaa6cf 100644
--- a/src/parsers/chaiscript.rl
+++ b/src/parsers/chaiscript.rl
@@ -66,7 +66,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -76,11 +76,11 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
-  chai_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
+  chai_regex_str = '/' [^\r\n\f/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   chai_string = chai_sq_str | chai_dq_str | chai_regex_str;
 
   chai_line := |*
diff --git a/src/parsers/d.rl b/src/parsers/d.rl
index 1dac49d..b71a3c1 100644
--- a/src/parsers/d.rl
+++ b/src/parsers/d.rl
@@ -84,7 +84,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -94,7 +94,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
@@ -104,7 +104,7 @@ enum {
       |
       ws
       |
-      [^\t `\\] @code
+      [^\r\n\f\t `\\] @code
       |
       '\\' nonnewline @code
     )* '`' @code;
diff --git a/src/parsers/elm.rl b/src/parsers/elm.rl
index bbc0ac5..ddf711d 100644
--- a/src/parsers/elm.rl
+++ b/src/parsers/elm.rl
@@ -71,7 +71,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/fsharp.rl b/src/parsers/fsharp.rl
index 9d2b890..8125d19 100644
--- a/src/parsers/fsharp.rl
+++ b/src/parsers/fsharp.rl
@@ -71,7 +71,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -81,7 +81,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/glsl.rl b/src/parsers/glsl.rl
index 7d9a630..5110640 100644
--- a/src/parsers/glsl.rl
+++ b/src/parsers/glsl.rl
@@ -72,7 +72,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -82,7 +82,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/golang.rl b/src/parsers/golang.rl
index 066b139..4b9ab37 100644
--- a/src/parsers/golang.rl
+++ b/src/parsers/golang.rl
@@ -70,7 +70,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -80,7 +80,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/groovy.rl b/src/parsers/groovy.rl
index caf6730..6650e06 100644
--- a/src/parsers/groovy.rl
+++ b/src/parsers/groovy.rl
@@ -68,7 +68,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -78,7 +78,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/haskell.rl b/src/parsers/haskell.rl
index 9f4b445..5b4e469 100644
--- a/src/parsers/haskell.rl
+++ b/src/parsers/haskell.rl
@@ -71,7 +71,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/javascript.rl b/src/parsers/javascript.rl
index 723fbcf..52f6990 100644
--- a/src/parsers/javascript.rl
+++ b/src/parsers/javascript.rl
@@ -65,7 +65,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -75,11 +75,11 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
-  js_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
+  js_regex_str = '/' [^\r\n\f/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   js_string = js_sq_str | js_dq_str | js_regex_str;
 
   js_line := |*
diff --git a/src/parsers/mathematica.rl b/src/parsers/mathematica.rl
index 72b5957..0fee918 100644
--- a/src/parsers/mathematica.rl
+++ b/src/parsers/mathematica.rl
@@ -63,7 +63,7 @@ enum {
 
   mathematica_comment = mathematica_nested_block_comment;
 
-  mathematica_string = '"' @code ([^"]) '"';
+  mathematica_string = '"' @code ([^\r\n\f"]) '"';
 
   mathematica_line := |*
     spaces               ${ entity = MATHEMATICA_SPACE; } => mathematica_ccallback;
diff --git a/src/parsers/modula3.rl b/src/parsers/modula3.rl
index 198b62c..5633f91 100644
--- a/src/parsers/modula3.rl
+++ b/src/parsers/modula3.rl
@@ -75,7 +75,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -85,7 +85,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/rebol.rl b/src/parsers/rebol.rl
index 79563c6..f926920 100644
--- a/src/parsers/rebol.rl
+++ b/src/parsers/rebol.rl
@@ -54,7 +54,7 @@ enum {
   rebol_line_comment = ';' @comment nonnewline*;
   rebol_comment = rebol_line_comment;
 
-  rebol_dq_str = '"' @code ([^\r\n\f"] | '^"')* [\r\n\f"];
+  rebol_dq_str = '"' @code ([^\r\n\f"] | '^"')* '"';
   rebol_cb_str_inner = [^{}] | '^{' | '^}'
                      | newline %{ entity = INTERNAL_NL; } %rebol_ccallback
                      | rebol_cb_str_nest;
diff --git a/src/parsers/rust.rl b/src/parsers/rust.rl
index 705fcc3..befd030 100644
--- a/src/parsers/rust.rl
+++ b/src/parsers/rust.rl
@@ -71,7 +71,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/stratego.rl b/src/parsers/stratego.rl
index 976480d..5d4107c 100644
--- a/src/parsers/stratego.rl
+++ b/src/parsers/stratego.rl
@@ -68,7 +68,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
@@ -77,7 +77,7 @@ enum {
     '\'' (
       ('\\' [.] '\'') @code
       |
-      ([^'\\] '\'') @code
+      ([^\r\n\f'\\] '\'') @code
     );
 
   stratego_string = stratego_dq_str | stratego_char_str;
diff --git a/src/parsers/unrealscript.rl b/src/parsers/unrealscript.rl
index 13d2aee..4e753ff 100644
--- a/src/parsers/unrealscript.rl
+++ b/src/parsers/unrealscript.rl
@@ -61,7 +61,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -71,7 +71,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
-- 
2.43.0


From 6d7af21b9308036e6bb74a86c100a21af50e7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:57 +0000
Subject: [PATCH 45/89] fix: a line of a string holding only a backslash is
 code

---
 src/parsers/c.rl            | 4 ++--
 src/parsers/chaiscript.rl   | 4 ++--
 src/parsers/d.rl            | 6 +++---
 src/parsers/elm.rl          | 2 +-
 src/parsers/fsharp.rl       | 4 ++--
 src/parsers/glsl.rl         | 4 ++--
 src/parsers/golang.rl       | 4 ++--
 src/parsers/groovy.rl       | 4 ++--
 src/parsers/haskell.rl      | 2 +-
 src/parsers/javascript.rl   | 4 ++--
 src/parsers/modula3.rl      | 4 ++--
 src/parsers/powershell.rl   | 4 ++--
 src/parsers/rust.rl         | 2 +-
 src/parsers/shell.rl        | 4 ++--
 src/parsers/stratego.rl     | 2 +-
 src/parsers/tcl.rl          | 2 +-
 src/parsers/unrealscript.rl | 4 ++--
 17 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/parsers/c.rl b/src/parsers/c.rl
index 109da2a..8c7f8a2 100755
--- a/src/parsers/c.rl
+++ b/src/parsers/c.rl
@@ -66,7 +66,7 @@ enum {
 
   c_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %c_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %c_ccallback
       |
       ws
       |
@@ -76,7 +76,7 @@ enum {
     )* '\'' @code;
   c_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %c_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %c_ccallback
       |
       ws
       |
diff --git a/src/parsers/chaiscript.rl b/src/parsers/chaiscript.rl
index 1eaa6cf..9600f69 100644
--- a/src/parsers/chaiscript.rl
+++ b/src/parsers/chaiscript.rl
@@ -62,7 +62,7 @@ enum {
   # I can't find a definitive answer.
   chai_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %chai_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %chai_ccallback
       |
       ws
       |
@@ -72,7 +72,7 @@ enum {
     )* '\'' @code;
   chai_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %chai_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %chai_ccallback
       |
       ws
       |
diff --git a/src/parsers/d.rl b/src/parsers/d.rl
index b71a3c1..7cafce0 100644
--- a/src/parsers/d.rl
+++ b/src/parsers/d.rl
@@ -80,7 +80,7 @@ enum {
 
   d_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
@@ -90,7 +90,7 @@ enum {
     )* '\'' @code;
   d_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
@@ -100,7 +100,7 @@ enum {
     )* '"' @code;
   d_bt_str =
     '`' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
diff --git a/src/parsers/elm.rl b/src/parsers/elm.rl
index ddf711d..3a05803 100644
--- a/src/parsers/elm.rl
+++ b/src/parsers/elm.rl
@@ -67,7 +67,7 @@ enum {
   elm_char = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline) '\'';
   elm_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %elm_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %elm_ccallback
       |
       ws
       |
diff --git a/src/parsers/fsharp.rl b/src/parsers/fsharp.rl
index 8125d19..cfc9fc9 100644
--- a/src/parsers/fsharp.rl
+++ b/src/parsers/fsharp.rl
@@ -67,7 +67,7 @@ enum {
 
   fsharp_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
       |
       ws
       |
@@ -77,7 +77,7 @@ enum {
     )* '\'' @code;
   fsharp_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
       |
       ws
       |
diff --git a/src/parsers/glsl.rl b/src/parsers/glsl.rl
index 5110640..dd85c9a 100644
--- a/src/parsers/glsl.rl
+++ b/src/parsers/glsl.rl
@@ -68,7 +68,7 @@ enum {
 
   glsl_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %glsl_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %glsl_ccallback
       |
       ws
       |
@@ -78,7 +78,7 @@ enum {
     )* '\'' @code;
   glsl_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %glsl_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %glsl_ccallback
       |
       ws
       |
diff --git a/src/parsers/golang.rl b/src/parsers/golang.rl
index 4b9ab37..33717b0 100644
--- a/src/parsers/golang.rl
+++ b/src/parsers/golang.rl
@@ -66,7 +66,7 @@ enum {
 
   golang_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %golang_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %golang_ccallback
       |
       ws
       |
@@ -76,7 +76,7 @@ enum {
     )* '\'' @code;
   golang_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %golang_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %golang_ccallback
       |
       ws
       |
diff --git a/src/parsers/groovy.rl b/src/parsers/groovy.rl
index 6650e06..febda71 100644
--- a/src/parsers/groovy.rl
+++ b/src/parsers/groovy.rl
@@ -64,7 +64,7 @@ enum {
 
   groovy_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %groovy_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %groovy_ccallback
       |
       ws
       |
@@ -74,7 +74,7 @@ enum {
     )* '\'' @code;
   groovy_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %groovy_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %groovy_ccallback
       |
       ws
       |
diff --git a/src/parsers/haskell.rl b/src/parsers/haskell.rl
index 5b4e469..459e949 100644
--- a/src/parsers/haskell.rl
+++ b/src/parsers/haskell.rl
@@ -67,7 +67,7 @@ enum {
   haskell_char = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline) '\'';
   haskell_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %haskell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %haskell_ccallback
       |
       ws
       |
diff --git a/src/parsers/javascript.rl b/src/parsers/javascript.rl
index 52f6990..caca8f0 100644
--- a/src/parsers/javascript.rl
+++ b/src/parsers/javascript.rl
@@ -61,7 +61,7 @@ enum {
   # I can't find a definitive answer.
   js_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %js_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %js_ccallback
       |
       ws
       |
@@ -71,7 +71,7 @@ enum {
     )* '\'' @code;
   js_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %js_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %js_ccallback
       |
       ws
       |
diff --git a/src/parsers/modula3.rl b/src/parsers/modula3.rl
index 5633f91..e250811 100644
--- a/src/parsers/modula3.rl
+++ b/src/parsers/modula3.rl
@@ -71,7 +71,7 @@ enum {
 
   modula3_singlequoted_string =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %modula3_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %modula3_ccallback
       |
       ws
       |
@@ -81,7 +81,7 @@ enum {
     )* '\'' @code;
   modula3_doublequoted_string =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %modula3_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %modula3_ccallback
       |
       ws
       |
diff --git a/src/parsers/powershell.rl b/src/parsers/powershell.rl
index c309222..518c684 100644
--- a/src/parsers/powershell.rl
+++ b/src/parsers/powershell.rl
@@ -57,7 +57,7 @@ enum {
     '\'' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %powershell_ccallback
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %powershell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %powershell_ccallback
       |
       ws
       |
@@ -69,7 +69,7 @@ enum {
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %powershell_ccallback
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %powershell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %powershell_ccallback
       |
       ws
       |
diff --git a/src/parsers/rust.rl b/src/parsers/rust.rl
index befd030..eb26355 100644
--- a/src/parsers/rust.rl
+++ b/src/parsers/rust.rl
@@ -67,7 +67,7 @@ enum {
 
   rust_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %rust_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %rust_ccallback
       |
       ws
       |
diff --git a/src/parsers/shell.rl b/src/parsers/shell.rl
index ecfaf97..c30350d 100644
--- a/src/parsers/shell.rl
+++ b/src/parsers/shell.rl
@@ -50,7 +50,7 @@ enum {
     '\'' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %shell_ccallback
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %shell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %shell_ccallback
       |
       ws
       |
@@ -62,7 +62,7 @@ enum {
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %shell_ccallback
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %shell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %shell_ccallback
       |
       ws
       |
diff --git a/src/parsers/stratego.rl b/src/parsers/stratego.rl
index 5d4107c..1d3c4c7 100644
--- a/src/parsers/stratego.rl
+++ b/src/parsers/stratego.rl
@@ -64,7 +64,7 @@ enum {
 
   stratego_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %stratego_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %stratego_ccallback
       |
       ws
       |
diff --git a/src/parsers/tcl.rl b/src/parsers/tcl.rl
index 79fb391..7db30a6 100644
--- a/src/parsers/tcl.rl
+++ b/src/parsers/tcl.rl
@@ -55,7 +55,7 @@ enum {
 
   tcl_string =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %tcl_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %tcl_ccallback
       |
       ws
       |
diff --git a/src/parsers/unrealscript.rl b/src/parsers/unrealscript.rl
index 4e753ff..dbba895 100644
--- a/src/parsers/unrealscript.rl
+++ b/src/parsers/unrealscript.rl
@@ -57,7 +57,7 @@ enum {
 
   unrealscript_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
       |
       ws
       |
@@ -67,7 +67,7 @@ enum {
     )* '\'' @code;
   unrealscript_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
       |
       ws
       |
-- 
2.43.0


From 8365c586ec18e7c1fa6b70eada1859dac78fc41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:57 +0000
Subject: [PATCH 46/89] fix: coffeescript line that only opens embedded
 javascript

---
 src/parsers/coffeescript.rl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsers/coffeescript.rl b/src/parsers/coffeescript.rl
index 894a708..091af75 100644
--- a/src/parsers/coffeescript.rl
+++ b/src/parsers/coffeescript.rl
@@ -42,6 +42,9 @@ enum {
       break;
     case NEWLINE:
       std_newline(COFFEESCRIPT_LANG)
+      break;
+    case CHECK_BLANK_ENTRY:
+      check_blank_entry(COFFEESCRIPT_LANG)
     }
   }
 
@@ -108,7 +111,7 @@ enum {
   *|;
 
   coffeescript_line := |*
-		coffeescript_js_entry @coffeescript_ccallback
+		coffeescript_js_entry @{ entity = CHECK_BLANK_ENTRY; } @coffeescript_ccallback
 			@{ saw(JS_LANG); } => { fcall coffeescript_js_line; };
     spaces          ${ entity = COFFEESCRIPT_SPACE; } => coffeescript_ccallback;
     coffeescript_comment;
-- 
2.43.0


From c120f565b50e72b326c6474533a9bd61b2c3f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:57 +0000
Subject: [PATCH 47/89] fix: report lines continued with a bar in haml

---
 src/parsers/haml.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/haml.rl b/src/parsers/haml.rl
index d65ce2c..d07a2e2 100644
--- a/src/parsers/haml.rl
+++ b/src/parsers/haml.rl
@@ -119,7 +119,7 @@ enum {
       - "#"
       - "%"
       - [ ]) @code
-    (nonnewline @code | ("|" @code newline %{ entity = INTERNAL_NL;}))*;
+    (nonnewline @code | ("|" @code newline %{ entity = INTERNAL_NL; } %haml_ccallback))*;
 
   haml_ruby_entry =
     ([ ]{2})*
-- 
2.43.0


From bfb26a00029730019c4647cf8deef9d0ffe259ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:57 +0000
Subject: [PATCH 48/89] fix: a quote in embedded shell comments does not drop
 nix lines

---
 src/parsers/nix.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/nix.rl b/src/parsers/nix.rl
index a95c071..f77747f 100644
--- a/src/parsers/nix.rl
+++ b/src/parsers/nix.rl
@@ -64,7 +64,7 @@ enum {
   nix_dq_shell_entry = '"' @code;
   nix_dq_shell_outry = '"' @check_blank_outry @code;
   nix_dq_shell_line := |*
-    nix_dq_shell_outry @{ p = ts; fret; };
+    nix_dq_shell_outry @{ p = ts; inqueue = 0; fret; };
     # TODO: Add embeded Nix between '${' and '}'
     # unmodified SHELL patterns
     spaces         ${ entity = SHELL_SPACE; } => shell_ccallback;
@@ -77,7 +77,7 @@ enum {
   nix_dsq_shell_entry = "''" @code;
   nix_dsq_shell_outry = "''" @check_blank_outry @code;
   nix_dsq_shell_line := |*
-    nix_dsq_shell_outry @{ p = ts; fret; };
+    nix_dsq_shell_outry @{ p = ts; inqueue = 0; fret; };
     # TODO: Add embeded Nix between '${' and '}'
     # unmodified SHELL patterns
     spaces         ${ entity = SHELL_SPACE; } => shell_ccallback;
-- 
2.43.0


From 3ddcb1b322e2ac6fa26b2eb9c34466fe656f575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:57 +0000
Subject: [PATCH 49/89] fix: an equals sign alone does not stop the perl parser

---
 src/parsers/perl.rl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parsers/perl.rl b/src/parsers/perl.rl
index b3bebc4..6211b2b 100644
--- a/src/parsers/perl.rl
+++ b/src/parsers/perl.rl
@@ -99,8 +99,7 @@ enum {
     perl_comment;
     perl_string;
     newline        ${ entity = NEWLINE;    } => perl_ccallback;
-    '=' when !starts_line;
-    ^(space | '=') ${ entity = PERL_ANY;   } => perl_ccallback;
+    ^space         ${ entity = PERL_ANY;   } => perl_ccallback;
   *|;
 
   # Entity machine
-- 
2.43.0


From f14414fe9696468318210d695f81e163a49436a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:57 +0000
Subject: [PATCH 50/89] fix: a quote after vim code does not stop the parser

---
 src/parsers/vim.rl | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parsers/vim.rl b/src/parsers/vim.rl
index 3d278f2..3c52d1c 100644
--- a/src/parsers/vim.rl
+++ b/src/parsers/vim.rl
@@ -46,8 +46,8 @@ enum {
 
   vim_comment = '"' when no_code  @comment nonnewline*;
 
-  vim_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' any)* '\'';
-  vim_dq_str = '"' when !no_code @code ([^\r\n\f"\\] | '\\' any)* '"';
+  vim_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline)* '\'';
+  vim_dq_str = '"' when !no_code @code ([^\r\n\f"\\] | '\\' nonnewline)* '"';
   vim_string = vim_sq_str | vim_dq_str;
 
   vim_line := |*
@@ -55,9 +55,7 @@ enum {
     vim_comment;
     vim_string;
     newline        ${ entity = NEWLINE;   } => vim_ccallback;
-    #'"';
-    ^(space | '"') ${ entity = VIM_ANY;   } => vim_ccallback;
-
+    ^space         ${ entity = VIM_ANY;   } => vim_ccallback;
   *|;
 
   # Entity machine
-- 
2.43.0


From eefc4a0dcd0a10150a3e23dc5f56fa77417fecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:57 +0000
Subject: [PATCH 51/89] fix: lisp strings are code on every line

---
 src/parsers/lisp.rl | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/parsers/lisp.rl b/src/parsers/lisp.rl
index d45bd25..acabd6f 100644
--- a/src/parsers/lisp.rl
+++ b/src/parsers/lisp.rl
@@ -59,11 +59,8 @@ enum {
   lisp_empty_string =
     '"'{2} [^"] @{fhold;} @code;
 
-  lisp_char_string =
-    '"' [^"] '"' @code;
-
   lisp_regular_string =
-    '"' ([^"]{2}) @code (
+    '"' [^"] @code @{ fhold; } (
       newline %{ entity = INTERNAL_NL; } %lisp_ccallback
       |
       ws
@@ -73,7 +70,7 @@ enum {
       '\\' nonnewline @code
     )* '"' @code;
 
-  lisp_string = lisp_empty_string | lisp_char_string | lisp_regular_string;
+  lisp_string = lisp_empty_string | lisp_regular_string;
 
   lisp_line := |*
     spaces        ${ entity = LISP_SPACE; } => lisp_ccallback;
-- 
2.43.0


From 9b53f1feb952d56739c6eec6bced930eb6967442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:31 +0000
Subject: [PATCH 52/89] fix: what belongs to a haml comment depends on its own
 indentation

---
 src/parsers/haml.rl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsers/haml.rl b/src/parsers/haml.rl
index d07a2e2..68f59cf 100644
--- a/src/parsers/haml.rl
+++ b/src/parsers/haml.rl
@@ -54,7 +54,10 @@ enum {
 
 	action haml_indent_level_inc { current_indent_level++; }
 	action haml_indent_level_res { current_indent_level = 0; }
-  action haml_indent_level_set { prior_indent_level = current_indent_level; }
+  action haml_indent_level_set {
+    // the indentation is where this comment begins, not what came before it
+    prior_indent_level = current_indent_level = (p - ts) / 2;
+  }
   action bracket_inc { bracket_level++; }
   action bracket_dec { bracket_level--; }
   action bracket_level_res { bracket_level = 0; }
-- 
2.43.0


From af1831c1b46beeadb33d49d1eddff96f70469859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:32 +0000
Subject: [PATCH 53/89] fix: an unterminated long comment does not lose Lua
 lines

---
 src/parsers/lua.rl | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 87fd87e..dbb9d0f 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -60,7 +60,13 @@ enum {
       (nonnewline - ws) @comment
     )* :>> (']' @lua_long_ec_beg '='* $lua_long_ec_dec ']' when { equal_left == 0 }) @commit;
   lua_line_comment = '--' @comment (nonnewline* - ('[' '='* '[' any*));
-  lua_comment = lua_long_comment | lua_line_comment;
+
+  # The long comment may not have had an end.
+  action lua_not_long {
+    if (inqueue) { dequeue; }
+    if (!line_contains_code) whole_line_comment = 1;
+    if (!line_start) line_start = ts;
+  }
 
   lua_long_string =
     ('[' >lua_long_ec_res '='* $lua_long_ec_inc '[') @enqueue @code (
@@ -94,7 +100,8 @@ enum {
 
   lua_line := |*
     spaces      ${ entity = LUA_SPACE; } => lua_ccallback;
-    lua_comment;
+    lua_long_comment;
+    lua_line_comment => lua_not_long;
     lua_string;
     newline     ${ entity = NEWLINE;   } => lua_ccallback;
     ^space      ${ entity = LUA_ANY;   } => lua_ccallback;
-- 
2.43.0


From 18ea1a28a6607ad3af062aa71c84dd0f14416ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:32 +0000
Subject: [PATCH 54/89] fix: white space lines in PHP strings are blank like in
 other strings

---
 src/parsers/php.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/php.rl b/src/parsers/php.rl
index e949794..b8076ee 100644
--- a/src/parsers/php.rl
+++ b/src/parsers/php.rl
@@ -65,7 +65,7 @@ enum {
       |
       ws
       |
-      [^\r\n\f'\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @commit @code;
@@ -75,7 +75,7 @@ enum {
       |
       ws
       |
-      [^\r\n\f"\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @commit @code;
-- 
2.43.0


From 4eb54ccb03deb91e60dfdbea8de5e925a8204302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:32 +0000
Subject: [PATCH 55/89] fix: count each line of a style or script end tag over
 several lines

---
 src/parsers/clearsilverhtml.rl | 4 ++--
 src/parsers/cs_aspx.rl         | 6 +++---
 src/parsers/html.rl            | 4 ++--
 src/parsers/jsp.rl             | 4 ++--
 src/parsers/phphtml.rl         | 4 ++--
 src/parsers/rhtml.rl           | 4 ++--
 src/parsers/vb_aspx.rl         | 6 +++---
 7 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 61f295a..bae36c2 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -106,7 +106,7 @@ enum {
     ^(space | '>') @code;
 
   cshtml_css_entry = '<' /style/i @code cshtml_tag_text+ :>> 'text/css' cshtml_tag_text+ '>' @code;
-  cshtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  cshtml_css_outry = '</' /style/i @check_blank_outry @code ws_or_inl* '>' @code;
   cshtml_css_line := |*
     cshtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -118,7 +118,7 @@ enum {
   *|;
 
   cshtml_js_entry = '<' /script/i @code cshtml_tag_text+ :>> 'text/javascript' cshtml_tag_text+ '>' @code;
-  cshtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  cshtml_js_outry = '</' /script/i @check_blank_outry @code ws_or_inl* '>' @code;
   cshtml_js_line := |*
     cshtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 80acc9d..59e2c91 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -104,7 +104,7 @@ enum {
     ^(space | '>') @code;
 
   cs_aspx_css_entry = '<' /style/i @code cs_aspx_tag_text+ :>> 'text/css' cs_aspx_tag_text+ '>' @code;
-  cs_aspx_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  cs_aspx_css_outry = '</' /style/i @check_blank_outry @code ws_or_inl* '>' @code;
   cs_aspx_css_line := |*
     cs_aspx_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -116,7 +116,7 @@ enum {
   *|;
 
   cs_aspx_js_entry = '<' /script/i @code cs_aspx_tag_text+ :>> 'text/javascript' cs_aspx_tag_text+ '>' @code;
-  cs_aspx_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  cs_aspx_js_outry = '</' /script/i @check_blank_outry @code ws_or_inl* '>' @code;
   cs_aspx_js_line := |*
     cs_aspx_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -128,7 +128,7 @@ enum {
   *|;
 
   cs_aspx_cs_entry = ('<%' | '<' /script/i @code cs_aspx_tag_text+ :>> 'server' cs_aspx_tag_text+ '>') @code;
-  cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  cs_aspx_cs_outry = ('%>' | '</' /script/i @check_blank_outry @code ws_or_inl* '>') @code;
   cs_aspx_cs_line := |*
     cs_aspx_cs_outry @{ p = ts; fret; };
     # unmodified C patterns
diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index 76cc1b0..108263e 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -77,7 +77,7 @@ enum {
     ^(space | '>') @code;
 
   html_css_entry = '<' /style/i @code html_tag_text+ :>> 'text/css' html_tag_text+ '>' @code;
-  html_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  html_css_outry = '</' /style/i @check_blank_outry @code ws_or_inl* '>' @code;
   html_css_line := |*
     html_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -89,7 +89,7 @@ enum {
   *|;
 
   html_js_entry = '<' /script/i @code html_tag_text+ :>> 'text/javascript' html_tag_text+ '>' @code;
-  html_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  html_js_outry = '</' /script/i @check_blank_outry @code ws_or_inl* '>' @code;
   html_js_line := |*
     html_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index 93a1257..710f3ab 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -106,7 +106,7 @@ enum {
     ^(space | '>') @code;
 
   jsp_css_entry = '<' /style/i @code jsp_tag_text+ :>> 'text/css' jsp_tag_text+ '>' @code;
-  jsp_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  jsp_css_outry = '</' /style/i @check_blank_outry @code ws_or_inl* '>' @code;
   jsp_css_line := |*
     jsp_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -118,7 +118,7 @@ enum {
   *|;
 
   jsp_js_entry = '<' /script/i @code jsp_tag_text+ :>> 'text/javascript' jsp_tag_text+ '>' @code;
-  jsp_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  jsp_js_outry = '</' /script/i @check_blank_outry @code ws_or_inl* '>' @code;
   jsp_js_line := |*
     jsp_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index ea07fb5..1ddaec7 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -106,7 +106,7 @@ enum {
     ^(space | '>') @code;
 
   phtml_css_entry = '<' /style/i @code phtml_tag_text+ :>> 'text/css' phtml_tag_text+ '>' @code;
-  phtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  phtml_css_outry = '</' /style/i @check_blank_outry @code ws_or_inl* '>' @code;
   phtml_css_line := |*
     phtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -118,7 +118,7 @@ enum {
   *|;
 
   phtml_js_entry = '<' /script/i @code phtml_tag_text+ :>> 'text/javascript' phtml_tag_text+ '>' @code;
-  phtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  phtml_js_outry = '</' /script/i @check_blank_outry @code ws_or_inl* '>' @code;
   phtml_js_line := |*
     phtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index bb47ac4..c0a1c55 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -106,7 +106,7 @@ enum {
     ^(space | '>') @code;
 
   rhtml_css_entry = '<' /style/i @code rhtml_tag_text+ :>> 'text/css' rhtml_tag_text+ '>' @code;
-  rhtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  rhtml_css_outry = '</' /style/i @check_blank_outry @code ws_or_inl* '>' @code;
   rhtml_css_line := |*
     rhtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -118,7 +118,7 @@ enum {
   *|;
 
   rhtml_js_entry = '<' /script/i @code rhtml_tag_text+ :>> 'text/javascript' rhtml_tag_text+ '>' @code;
-  rhtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  rhtml_js_outry = '</' /script/i @check_blank_outry @code ws_or_inl* '>' @code;
   rhtml_js_line := |*
     rhtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 7ef481f..30e21ab 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -104,7 +104,7 @@ enum {
     ^(space | '>') @code;
 
   vb_aspx_css_entry = '<' /style/i @code vb_aspx_tag_text+ :>> 'text/css' vb_aspx_tag_text+ '>' @code;
-  vb_aspx_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  vb_aspx_css_outry = '</' /style/i @check_blank_outry @code ws_or_inl* '>' @code;
   vb_aspx_css_line := |*
     vb_aspx_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -116,7 +116,7 @@ enum {
   *|;
 
   vb_aspx_js_entry = '<' /script/i @code vb_aspx_tag_text+ :>> 'text/javascript' vb_aspx_tag_text+ '>' @code;
-  vb_aspx_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  vb_aspx_js_outry = '</' /script/i @check_blank_outry @code ws_or_inl* '>' @code;
   vb_aspx_js_line := |*
     vb_aspx_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -128,7 +128,7 @@ enum {
   *|;
 
   vb_aspx_cs_entry = ('<%' | '<' /script/i @code vb_aspx_tag_text+ :>> 'server' vb_aspx_tag_text+ '>') @code;
-  vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  vb_aspx_cs_outry = ('%>' | '</' /script/i @check_blank_outry @code ws_or_inl* '>') @code;
   vb_aspx_cs_line := |*
     vb_aspx_cs_outry @{ p = ts; fret; };
     # unmodified VB patterns
-- 
2.43.0


From 3edc97dd7ad6c9fac29894e9e8e29a339ac170a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 56/89] fix: hexadecimal and octal numbers begin with the digit
 0, not with NUL

---
 src/parsers/common.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index e519d1d..8375d6c 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -13,8 +13,8 @@ nonprintable_char = cntrl - [\r\n\f];
 
 # numbers
 dec_num = digit+;
-hex_num = 0 [xX] [a-fA-F0-9]+;
-oct_num = 0 [0-7]+;
+hex_num = '0' [xX] [a-fA-F0-9]+;
+oct_num = '0' [0-7]+;
 integer = [+\-]? (hex_num | oct_num | dec_num);
 float = [+\-]? ((digit* '.' digit+) | (digit+ '.' digit*) | digit+)
         [eE] [+\-]? digit+;
-- 
2.43.0


From 807f2ac796b075e4c741c3aea82f9f667590cd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 57/89] fix: an operator that may begin another token is still
 an operator

---
 src/parsers/c.rl      | 2 +-
 src/parsers/fsharp.rl | 2 +-
 src/parsers/glsl.rl   | 2 +-
 src/parsers/golang.rl | 2 +-
 src/parsers/kotlin.rl | 2 +-
 src/parsers/limbo.rl  | 2 +-
 src/parsers/lua.rl    | 5 +++--
 src/parsers/rust.rl   | 2 +-
 8 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/parsers/c.rl b/src/parsers/c.rl
index 8c7f8a2..00c555d 100755
--- a/src/parsers/c.rl
+++ b/src/parsers/c.rl
@@ -145,7 +145,7 @@ enum {
     c_identifier_entity @{ entity = C_IDENTIFIER; } => c_ecallback;
     c_keyword_entity    @{ entity = C_KEYWORD;    } => c_ecallback;
     c_operator_entity   @{ entity = C_OPERATOR;   } => c_ecallback;
-    ^(space | digit | alpha | '_') @{ entity = C_ANY;        } => c_ecallback;
+    ^(space | digit | alpha | '_' | c_operator_entity) @{ entity = C_ANY;        } => c_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/fsharp.rl b/src/parsers/fsharp.rl
index cfc9fc9..cf7ad48 100644
--- a/src/parsers/fsharp.rl
+++ b/src/parsers/fsharp.rl
@@ -146,7 +146,7 @@ enum {
     fsharp_identifier_entity @{ entity = FSHARP_IDENTIFIER; } => fsharp_ecallback;
     fsharp_keyword_entity    @{ entity = FSHARP_KEYWORD;    } => fsharp_ecallback;
     fsharp_operator_entity   @{ entity = FSHARP_OPERATOR;   } => fsharp_ecallback;
-    ^(space | digit | alpha | '_') @{ entity = FSHARP_ANY;        } => fsharp_ecallback;
+    ^(space | digit | alpha | '_' | fsharp_operator_entity) @{ entity = FSHARP_ANY;        } => fsharp_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/glsl.rl b/src/parsers/glsl.rl
index dd85c9a..e0104e4 100644
--- a/src/parsers/glsl.rl
+++ b/src/parsers/glsl.rl
@@ -148,7 +148,7 @@ enum {
     glsl_identifier_entity @{ entity = GLSL_IDENTIFIER; } => glsl_ecallback;
     glsl_keyword_entity    @{ entity = GLSL_KEYWORD;    } => glsl_ecallback;
     glsl_operator_entity   @{ entity = GLSL_OPERATOR;   } => glsl_ecallback;
-    ^(space | digit | alpha | '_') @{ entity = GLSL_ANY;        } => glsl_ecallback;
+    ^(space | digit | alpha | '_' | glsl_operator_entity) @{ entity = GLSL_ANY;        } => glsl_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/golang.rl b/src/parsers/golang.rl
index 33717b0..12d4766 100644
--- a/src/parsers/golang.rl
+++ b/src/parsers/golang.rl
@@ -145,7 +145,7 @@ enum {
     golang_identifier_entity @{ entity = GOLANG_IDENTIFIER; } => golang_ecallback;
     golang_keyword_entity    @{ entity = GOLANG_KEYWORD;    } => golang_ecallback;
     golang_operator_entity   @{ entity = GOLANG_OPERATOR;   } => golang_ecallback;
-    ^(space | digit | alpha | '_') @{ entity = GOLANG_ANY;        } => golang_ecallback;
+    ^(space | digit | alpha | '_' | golang_operator_entity) @{ entity = GOLANG_ANY;        } => golang_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/kotlin.rl b/src/parsers/kotlin.rl
index 74c5718..68ab577 100644
--- a/src/parsers/kotlin.rl
+++ b/src/parsers/kotlin.rl
@@ -142,7 +142,7 @@ enum {
     kotlin_identifier_entity @{ entity = KOTLIN_IDENTIFIER; } => kotlin_ecallback;
     kotlin_keyword_entity    @{ entity = KOTLIN_KEYWORD;    } => kotlin_ecallback;
     kotlin_operator_entity   @{ entity = KOTLIN_OPERATOR;   } => kotlin_ecallback;
-    ^(space | digit | alpha | '_') @{ entity = KOTLIN_ANY;        } => kotlin_ecallback;
+    ^(space | digit | alpha | '_' | kotlin_operator_entity) @{ entity = KOTLIN_ANY;        } => kotlin_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/limbo.rl b/src/parsers/limbo.rl
index 87a4e91..74ac918 100644
--- a/src/parsers/limbo.rl
+++ b/src/parsers/limbo.rl
@@ -109,7 +109,7 @@ enum {
     limbo_identifier_entity @{ entity = LIMBO_IDENTIFIER; } => limbo_ecallback;
     limbo_keyword_entity @{ entity = LIMBO_KEYWORD; } => limbo_ecallback;
     limbo_operator_entity @{ entity = LIMBO_OPERATOR; } => limbo_ecallback;
-    ^(space | digit | alpha | '_' | '#') @{ entity = LIMBO_ANY;     } => limbo_ecallback;
+    ^(space | digit | alpha | '_' | '#' | limbo_operator_entity) @{ entity = LIMBO_ANY;     } => limbo_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index dbb9d0f..8afb712 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -134,7 +134,8 @@ enum {
 
   lua_identifier_entity = (alpha | '_') (alnum | '_')*;
 
-  lua_operator_entity = '~=' | [+\-*/%^#=<>;:,.{}\[\]()];
+  lua_operator_char = [+\-*/%^#=<>;:,.{}\[\]()];
+  lua_operator_entity = '~=' | lua_operator_char;
 
   lua_entity := |*
     space+                @{ entity = LUA_SPACE;      } => lua_ecallback;
@@ -144,7 +145,7 @@ enum {
     lua_identifier_entity @{ entity = LUA_IDENTIFIER; } => lua_ecallback;
     lua_keyword_entity    @{ entity = LUA_KEYWORD;    } => lua_ecallback;
     lua_operator_entity   @{ entity = LUA_OPERATOR;   } => lua_ecallback;
-    ^(space | alpha | '_') @{ entity = LUA_ANY;        } => lua_ecallback;
+    ^(space | digit | alpha | '_' | lua_operator_char) @{ entity = LUA_ANY;        } => lua_ecallback;
   *|;
 }%%
 
diff --git a/src/parsers/rust.rl b/src/parsers/rust.rl
index eb26355..d4cda69 100644
--- a/src/parsers/rust.rl
+++ b/src/parsers/rust.rl
@@ -135,7 +135,7 @@ enum {
     rust_identifier_entity @{ entity = RUST_IDENTIFIER; } => rust_ecallback;
     rust_keyword_entity    @{ entity = RUST_KEYWORD;    } => rust_ecallback;
     rust_operator_entity   @{ entity = RUST_OPERATOR;   } => rust_ecallback;
-    ^(space | digit | alpha | '_') @{ entity = RUST_ANY;        } => rust_ecallback;
+    ^(space | digit | alpha | '_' | rust_operator_entity) @{ entity = RUST_ANY;        } => rust_ecallback;
   *|;
 }%%
 
-- 
2.43.0


From cb8872f679fd0538646adb3c16db20f1b41b6619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:33 +0000
Subject: [PATCH 58/89] fix: the WTFPL is recognized by its written-out name

---
 src/licenses.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/licenses.c b/src/licenses.c
index 761f795..86e5e5a 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -724,7 +724,7 @@ License license_map[] = {
     LIC_WTFPL2,
     "",
     "WTF Public License",
-    "(\\bwtfpl\\b)|(\\bwtf\\s*public\\s*license\\b)|(\\b(do\\s*)?what\\s*the\\s*\\fuck\\s*public\\s*license\\b)",
+    "(\\bwtfpl\\b)|(\\bwtf\\s*public\\s*license\\b)|(\\b(do\\s*)?what\\s*the\\s*fuck\\s*public\\s*license\\b)",
     PCRE_CASELESS,
     NULL,
     0,
-- 
2.43.0


From 59aac6fc92ddc97596b19c70814d392ce7825982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 59/89] fix: the Eiffel Forum License 2 is recognized with a
 comma before its version

---
 src/licenses.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/licenses.c b/src/licenses.c
index 86e5e5a..3a22902 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -224,7 +224,7 @@ License license_map[] = {
     LIC_EIFFEL2,
     "http://www.opensource.org/licenses/ver2_eiffel.php",
     "Eiffel Forum License V2.0",
-    "\\beiffel\\s*forum\\s*license [,V\\s]*2",
+    "\\beiffel\\s*forum\\s*license[,V\\s]*2",
     PCRE_CASELESS,
     NULL,
     0,
-- 
2.43.0


From a47c1ed9950cbb6ffd47a5593a5b579495bbfc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 60/89] fix: an Apache-style license ends at its first mention
 of license

---
 src/licenses.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/licenses.c b/src/licenses.c
index 3a22902..962cab8 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -694,7 +694,7 @@ License license_map[] = {
     LIC_APACHE_ISH,
     "",
     "Apache-ish License",
-    "(\\bapache-style.*license\\b)|(\\bapache-like.*license\\b)",
+    "(\\bapache-style.*?license\\b)|(\\bapache-like.*?license\\b)",
     PCRE_CASELESS,
     NULL,
     0,
-- 
2.43.0


From 311a5dcedca3a7f7393214e6ae38509ace4cea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 61/89] fix: REBOL and RenderScript headers are recognized at
 the very end of a file

---
 src/detector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index d3bc91c..ea52f63 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -992,7 +992,7 @@ const char *disambiguate_r(SourceFile *sourcefile) {
   // block.
   char *needle = "rebol";
   int len = strlen(needle);
-  for (; contents < eof - len; ++contents)
+  for (; contents <= eof - len; ++contents)
     if (tolower(*contents) == *needle &&
           !strncasecmp(contents, needle, len))
       return LANG_REBOL;
@@ -1020,7 +1020,7 @@ const char *disambiguate_rs(SourceFile *sourcefile) {
 
   char *eof = contents + ohcount_sourcefile_get_contents_size(sourcefile);
 
-  for (; contents < eof - len; ++contents) {
+  for (; contents <= eof - len; ++contents) {
     if (!strncmp(contents, needle, len)) {
       return NULL;
     }
-- 
2.43.0


From 0a2e5855fb1f0051a820a62ddeee32dc8b0e375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 62/89] fix: Fortran in fixed form may begin with empty lines

---
 src/detector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/detector.c b/src/detector.c
index ea52f63..fbfc3d9 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -485,6 +485,8 @@ const char *disambiguate_fortran(SourceFile *sourcefile) {
   // format if anything opposes this assumption.
   // Rules based on the Fortran standard, page 47:
   // ftp://ftp.nag.co.uk/sc22wg5/N1801-N1850/N1830.pdf
+  // Skip empty lines at the beginning
+  while (p < eof && (*p == '\r' || *p == '\n')) p++;
   while (p < eof) {
     int i = 1;
     int blanklabel;
-- 
2.43.0


From 4f6dd1df3af93856eb1e11c6ad2c993ce83d975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 63/89] fix: a companion file needs an extension to be a Visual
 Basic file

---
 src/detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index fbfc3d9..ffe4f45 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -361,7 +361,7 @@ const char *disambiguate_basic(SourceFile *sourcefile) {
       p = pe;
       while (p > filenames[i] && *(p - 1) != '.') p--;
       length = pe - p;
-      if (length == 3 &&
+      if (length == 3 && p > filenames[i] &&
           (strncmp(p, "frm", length) == 0 ||
            strncmp(p, "frx", length) == 0 ||
            strncmp(p, "vba", length) == 0 ||
-- 
2.43.0


From c448a5809c63b39440cdcfa97c63323d68d0fd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 64/89] fix: a Prolog rule may break the line after :- with CR
 LF as well

---
 src/detector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index ffe4f45..6a34940 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -957,7 +957,8 @@ const char *disambiguate_pl(SourceFile *sourcefile) {
     return LANG_PERL;
 
   // Check for prolog :- rules
-  if (strstr(contents, ":- ") || strstr(contents, ":-\n"))
+  if (strstr(contents, ":- ") || strstr(contents, ":-\n") ||
+      strstr(contents, ":-\r\n"))
     return LANG_PROLOG;
 
   // Perl by default.
-- 
2.43.0


From ac646005eee4598970622fa772def3446b85e8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 65/89] fix: every directive of an ASP.NET page is looked at,
 not only the first

---
 src/detector.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 6a34940..7d8f0bd 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -243,13 +243,13 @@ const char *disambiguate_aspx(SourceFile *sourcefile) {
       char buf[length + 1];
       strncpy(buf, p, length);
       buf[length] = '\0';
-      char *eol = buf + strlen(buf);
-      for (p = buf; p < eol; p++) *p = tolower(*p);
-      p = buf;
-      while (*p == ' ' || *p == '\t') p++;
-      if (strncmp(p, "page", 4) == 0) {
-        p += 4;
-        if (strstr(p, "language=\"vb\""))
+      char *eol = buf + strlen(buf), *b;
+      for (b = buf; b < eol; b++) *b = tolower(*b);
+      b = buf;
+      while (*b == ' ' || *b == '\t') b++;
+      if (strncmp(b, "page", 4) == 0) {
+        b += 4;
+        if (strstr(b, "language=\"vb\""))
           return LANG_VB_ASPX;
       }
     }
-- 
2.43.0


From 28bd269612bcfd091771194cc9820c5f5cf56da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:33 +0000
Subject: [PATCH 66/89] fix: the mode line of a mode whose name begins with
 mode, like Modelica

---
 src/detector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 7d8f0bd..f2fe3a4 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -163,7 +163,8 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
       p += 3;
       while (*p == ' ' || *p == '\t') p++;
       // detect "mode" (any capitalization)
-      if (strncasecmp(p, "mode", 4) == 0) {
+      if (strncasecmp(p, "mode", 4) == 0 &&
+          (*(p + 4) == ' ' || *(p + 4) == '\t' || *(p + 4) == ':')) {
         p += 4;
         while (*p == ' ' || *p == '\t' || *p == ':') p++;
       }
-- 
2.43.0


From 061b542bc9e89e4c4ecc6f3309b30b812c73bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 67/89] fix: annotate lines of any length, instead of copying
 each to the stack

---
 src/ohcount.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ohcount.c b/src/ohcount.c
index 88c04f9..86a9fcf 100644
--- a/src/ohcount.c
+++ b/src/ohcount.c
@@ -12,11 +12,8 @@
 void annotate_callback(const char *language, const char *entity, int start,
                        int end, void *userdata) {
   SourceFile *sf = (SourceFile *)userdata;
-  int length = end - start;
-  char buf[length + 1];
-  strncpy(buf, (const char*)sf->contents + start, length); // field exists
-  buf[length] = '\0';
-  printf("%s\t%s\t%s", language, entity, buf);
+  printf("%s\t%s\t", language, entity);
+  fwrite(sf->contents + start, 1, end - start, stdout); // field exists
 }
 
 void annotate(SourceFileList *list) {
-- 
2.43.0


From 3a740d0fd0f1e92e1cb3b8afe93a245745157de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 68/89] fix: tell the language of an ASP.NET page with a
 directive of many megabytes

---
 src/detector.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index f2fe3a4..f5fb8b2 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -241,18 +241,18 @@ const char *disambiguate_aspx(SourceFile *sourcefile) {
     if (p && pe) {
       p += 3;
       const int length = pe - p;
-      char buf[length + 1];
+      // A directive may be longer than what fits on the stack.
+      char *buf = malloc(length + 1);
       strncpy(buf, p, length);
       buf[length] = '\0';
       char *eol = buf + strlen(buf), *b;
       for (b = buf; b < eol; b++) *b = tolower(*b);
       b = buf;
       while (*b == ' ' || *b == '\t') b++;
-      if (strncmp(b, "page", 4) == 0) {
-        b += 4;
-        if (strstr(b, "language=\"vb\""))
-          return LANG_VB_ASPX;
-      }
+      int vb = strncmp(b, "page", 4) == 0 && strstr(b + 4, "language=\"vb\"");
+      free(buf);
+      if (vb)
+        return LANG_VB_ASPX;
     }
   }
   return LANG_CS_ASPX;
-- 
2.43.0


From bbc83308518ceb67b5eea8c695a88dd163520ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 69/89] fix: copy the file names given to a Ruby SourceFile,
 which Ruby may collect

---
 ruby/ohcount.i | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/ruby/ohcount.i b/ruby/ohcount.i
index 38212fa..6ce2eaa 100644
--- a/ruby/ohcount.i
+++ b/ruby/ohcount.i
@@ -10,6 +10,18 @@
 
 #if defined(SWIGRUBY)
 
+%{
+static void SourceFile_free_filenames(SourceFile *sourcefile) {
+  int i;
+  if (!sourcefile->filenames)
+    return;
+  for (i = 0; sourcefile->filenames[i] != NULL; i++)
+    free(sourcefile->filenames[i]);
+  free(sourcefile->filenames);
+  sourcefile->filenames = NULL;
+}
+%}
+
 %typemap(in) (register const char *str, register unsigned int len) {
   Check_Type($input, T_STRING);
   $1 = StringValuePtr($input);
@@ -111,11 +123,19 @@
   }
 #if defined(SWIGRUBY)
   void set_filenames(VALUE filenames) {
-    int i, length = RARRAY_LEN(filenames);
-    char **fnames = calloc(length + 1, sizeof(char *));
-    VALUE *iter = RARRAY_PTR(filenames);
-    for (i = 0; i < length; i++, iter++)
-      fnames[i] = StringValuePtr(*iter);
+    int i, length;
+    char **fnames;
+    Check_Type(filenames, T_ARRAY);
+    length = RARRAY_LEN(filenames);
+    for (i = 0; i < length; i++)
+      Check_Type(rb_ary_entry(filenames, i), T_STRING);
+    // The names are copied: Ruby may move or collect its strings.
+    fnames = calloc(length + 1, sizeof(char *));
+    for (i = 0; i < length; i++) {
+      VALUE name = rb_ary_entry(filenames, i);
+      fnames[i] = strdup(StringValuePtr(name));
+    }
+    SourceFile_free_filenames(self);
     self->filenames = fnames;
   }
   SourceFile(const char *filepath, VALUE opt_hash=NULL) {
@@ -203,8 +223,12 @@
 
 #endif
   ~SourceFile() {
+#if defined(SWIGRUBY)
+    SourceFile_free_filenames(self);
+#else
     if (self->filenames)
       free(self->filenames);
+#endif
     ohcount_sourcefile_free(self);
   }
 };
-- 
2.43.0


From 50fe1a8f60e32584fd741a0f074a9377d4de57ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 70/89] fix: a Ruby SourceFile without file names has none,
 instead of crashing

---
 ruby/ohcount.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/ohcount.i b/ruby/ohcount.i
index 6ce2eaa..25d675d 100644
--- a/ruby/ohcount.i
+++ b/ruby/ohcount.i
@@ -31,7 +31,7 @@ static void SourceFile_free_filenames(SourceFile *sourcefile) {
 %typemap(out) char ** {
   VALUE arr = rb_ary_new();
   int i;
-  for (i = 0; $1[i] != NULL; i++)
+  for (i = 0; $1 && $1[i] != NULL; i++)
     rb_ary_push(arr, rb_str_new2($1[i]));
   $result = arr;
 };
-- 
2.43.0


From 197fee4816d09f83c58961d787d66391dbda6a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 71/89] fix: keep alive the Ruby SourceFile or list whose parts
 are in use

---
 ruby/ohcount.rb | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ruby/ohcount.rb b/ruby/ohcount.rb
index 7596a69..0a326b2 100644
--- a/ruby/ohcount.rb
+++ b/ruby/ohcount.rb
@@ -62,7 +62,10 @@ module Ohcount
       array = Array.new
       iter = list.head
       while (iter)
-        array << iter.send(method)
+        item = iter.send(method)
+        # The item is part of this file's list: keep the file while it is in use.
+        item.instance_variable_set(:@owner, self)
+        array << item
         iter = iter.next
       end
       return array
@@ -73,7 +76,10 @@ module Ohcount
     def each_source_file
       iter = self.head
       while (iter)
-        yield iter.sf if iter.sf.polyglot
+        sf = iter.sf
+        # The source file is part of this list: keep the list while it is in use.
+        sf.instance_variable_set(:@owner, self)
+        yield sf if sf.polyglot
         iter = iter.next
       end
     end
-- 
2.43.0


From 0c6ed11014f383b903caf5a9772e3ee0720b2f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 72/89] fix: a Ruby SourceFile without contents answers nil
 when asked for them

---
 ruby/ohcount.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/ohcount.rb b/ruby/ohcount.rb
index 0a326b2..6822ac0 100644
--- a/ruby/ohcount.rb
+++ b/ruby/ohcount.rb
@@ -16,7 +16,7 @@ module Ohcount
 
     def contents
       data = get_contents()
-      data.force_encoding(Encoding.default_external)
+      data && data.force_encoding(Encoding.default_external)
     end
 
     def language_breakdowns
-- 
2.43.0


From a495cd4f74ddfaee32a9c8bc1b4d6db1e756c9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:50 +0000
Subject: [PATCH 73/89] fix: take the groupId and artifactId of a Maven
 dependency or plugin from itself, not from an element within it

---
 ruby/gestalt/rules/maven_parser.rb | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/ruby/gestalt/rules/maven_parser.rb b/ruby/gestalt/rules/maven_parser.rb
index 305468e..02403a7 100755
--- a/ruby/gestalt/rules/maven_parser.rb
+++ b/ruby/gestalt/rules/maven_parser.rb
@@ -5,15 +5,18 @@ require 'rexml/streamlistener'
 class MavenListener
 	include REXML::StreamListener
 
-	attr_accessor :group_id, :artifact_id, :text
-
 	attr_accessor :callback
 	def initialize(callback)
 		@callback = callback
 		@is_pom_file = false
+		@elements = []
 	end
 
 	def tag_start(name, attrs)
+		# A groupId or artifactId belongs to the element directly around it:
+		# dependencies contain exclusions, and plugins contain dependencies.
+		@elements.push({})
+		@text = ''
 		case name
 		when 'project'
 			@is_pom_file = true
@@ -21,21 +24,17 @@ class MavenListener
 				# False alarm -- it contains a project element, but of another namespace
 				@is_pom_file = false
 			end
-		when 'plugin', 'dependency'
-			@group_id = nil
-			@artifact_id = nil
 		end
 	end
 
 	def tag_end(name)
+		element = @elements.pop
 		case name
-		when 'groupId'
-			@group_id = clean(@text)
-		when 'artifactId'
-			@artifact_id = clean(@text)
-		when /^(plugin|dependency)$/
-			if @is_pom_file && @group_id && @artifact_id
-				@callback.call($1, @group_id, @artifact_id)
+		when 'groupId', 'artifactId'
+			@elements.last[name] = clean(@text) if @elements.any?
+		when 'plugin', 'dependency'
+			if @is_pom_file && element['groupId'] && element['artifactId']
+				@callback.call(name, element['groupId'], element['artifactId'])
 			end
 		end
 	end
-- 
2.43.0


From d484bc463009704291a2ec93f21a673e4c21c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:50 +0000
Subject: [PATCH 74/89] fix: go on after an XML project file of unknown
 encoding, with invalid bytes or invalid character references

---
 ruby/gestalt/rules/csproj_rule.rb | 2 +-
 ruby/gestalt/rules/maven_rule.rb  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruby/gestalt/rules/csproj_rule.rb b/ruby/gestalt/rules/csproj_rule.rb
index f519422..c6e9275 100644
--- a/ruby/gestalt/rules/csproj_rule.rb
+++ b/ruby/gestalt/rules/csproj_rule.rb
@@ -20,7 +20,7 @@ module Ohcount
 
 					begin
           	REXML::Document.parse_stream(source_file.language_breakdown('xml').code, CsprojListener.new(callback))
-					rescue REXML::ParseException
+					rescue REXML::ParseException, ArgumentError, RangeError
 						# Malformed XML! -- ignore and move on
 					end
         end
diff --git a/ruby/gestalt/rules/maven_rule.rb b/ruby/gestalt/rules/maven_rule.rb
index 7aed4c7..ab9f909 100644
--- a/ruby/gestalt/rules/maven_rule.rb
+++ b/ruby/gestalt/rules/maven_rule.rb
@@ -28,7 +28,7 @@ module Ohcount
         if source_file.filename =~ /\bpom\.xml$/ && source_file.language_breakdown('xml')
 					begin
           	REXML::Document.parse_stream(source_file.language_breakdown('xml').code, MavenListener.new(callback))
-					rescue REXML::ParseException
+					rescue REXML::ParseException, ArgumentError, RangeError
 						# Malformed XML! -- ignore and move on
 					end
         end
-- 
2.43.0


From 3bf39a96835770cb78d1f020f377d3d6c8973c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:50 +0000
Subject: [PATCH 75/89] fix: report OpenESB once, by defining it once

---
 ruby/gestalt/java_definitions.rb | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/ruby/gestalt/java_definitions.rb b/ruby/gestalt/java_definitions.rb
index 4a82a2d..7275de3 100644
--- a/ruby/gestalt/java_definitions.rb
+++ b/ruby/gestalt/java_definitions.rb
@@ -234,13 +234,6 @@ module Ohcount
 			end
 		end
 
-		define_platform 'openesb' do
-			_and do
-				gestalt(:platform, 'java')
-				java_import /^org\.openesb\b/
-			end
-		end
-
 		# Other Java Technologies
 
 		define_platform 'opensso' do
-- 
2.43.0


From fef77ab7dec1965907e5d21408865c05b51010ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:50 +0000
Subject: [PATCH 76/89] fix: know weblogic-cmp-rdbms-jar.xml by its name

---
 ruby/gestalt/java_definitions.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/gestalt/java_definitions.rb b/ruby/gestalt/java_definitions.rb
index 7275de3..9096713 100644
--- a/ruby/gestalt/java_definitions.rb
+++ b/ruby/gestalt/java_definitions.rb
@@ -27,7 +27,7 @@ module Ohcount
 			_and do
 				gestalt(:platform, 'java')
 				_or do
-					find_filenames /\bweblogic(\-ejb\-jar|\-ra|\-application|\-cmp\-rdbms\jar)\.xml\b/
+					find_filenames /\bweblogic(\-ejb\-jar|\-ra|\-application|\-cmp\-rdbms\-jar)\.xml\b/
 					maven_plugin /^org\.codehaus\.mojo\b/, /^weblogic\-maven\-plugin\b/
 				end
 			end
-- 
2.43.0


From 8ffe4141de67cad362f584a76b4270779b7f47a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:51 +0000
Subject: [PATCH 77/89] fix: find the gestalts of a source file list, in
 Gestalt::Base.find_gestalts

---
 ruby/gestalt/base.rb           | 2 +-
 ruby/gestalt/gestalt_engine.rb | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ruby/gestalt/base.rb b/ruby/gestalt/base.rb
index 7584c17..080adde 100644
--- a/ruby/gestalt/base.rb
+++ b/ruby/gestalt/base.rb
@@ -29,7 +29,7 @@ module Ohcount
 
       # will return an array of detected gestalts from a source_file_list
       def self.find_gestalts(source_file_list)
-        GestaltEngine.new.process(source_file_list).gestalts
+        GestaltEngine.new.process(source_file_list).calc_gestalts
       end
 
     end
diff --git a/ruby/gestalt/gestalt_engine.rb b/ruby/gestalt/gestalt_engine.rb
index a7ecae0..cf87651 100644
--- a/ruby/gestalt/gestalt_engine.rb
+++ b/ruby/gestalt/gestalt_engine.rb
@@ -27,8 +27,10 @@ module Ohcount
       end
 
       def process_source_files(source_file_list)
-        source_file_list.each_source_file do |source_file|
-          process_source_file source_file
+        iter = source_file_list.head
+        while iter
+          process_source_file iter.sf
+          iter = iter.next
         end
         self
       end
@@ -37,7 +39,7 @@ module Ohcount
         if what.is_a?(SourceFile)
           process_source_file(what)
         elsif what.is_a?(SourceFileList)
-          process_source_file_list(what)
+          process_source_files(what)
         else
           raise ArgumentError.new
         end
-- 
2.43.0


From 1e3597c8ef41238e0783ff9554f4dc6f41e55bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:10 +0000
Subject: [PATCH 78/89] fix: name D and Visual Basic in gestalt definitions as
 they are named elsewhere

---
 ruby/gestalt/definitions.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruby/gestalt/definitions.rb b/ruby/gestalt/definitions.rb
index 548d745..2dd6235 100644
--- a/ruby/gestalt/definitions.rb
+++ b/ruby/gestalt/definitions.rb
@@ -336,7 +336,7 @@ module Ohcount
     ############################ Windows CE ############################
 		define_platform 'windows_ce_incomplete' do
 			csharp_keywords 'Microsoft\.WindowsCE', 'Microsoft\.WindowsMobile'
-			vb_keywords 'Microsoft\.WindowsCE', 'Microsoft\.WindowsMobile'
+			visualbasic_keywords 'Microsoft\.WindowsCE', 'Microsoft\.WindowsMobile'
 		end
 
 		######################### Native Code ##############################
@@ -345,7 +345,7 @@ module Ohcount
 			language :cpp, :min_percent => 5
 			language :cncpp, :min_percent => 5
 			language :assembly, :min_percent => 5
-			language :d, :min_percent => 5
+			language :dmd, :min_percent => 5
 			language :fortran, :min_percent => 5
 			language :haskell, :min_percent => 5
 			language :cobol, :min_percent => 5
-- 
2.43.0


From f0920db6a0ca01dafb7244dcd78c64282fa5e8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:02 +0000
Subject: [PATCH 79/89] fix: the line of a closing %> in ASP.NET is HTML, as in
 JSP and RHTML

---
 src/parsers/cs_aspx.rl | 2 +-
 src/parsers/vb_aspx.rl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 59e2c91..d38684d 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -128,7 +128,7 @@ enum {
   *|;
 
   cs_aspx_cs_entry = ('<%' | '<' /script/i @code cs_aspx_tag_text+ :>> 'server' cs_aspx_tag_text+ '>') @code;
-  cs_aspx_cs_outry = ('%>' | '</' /script/i @check_blank_outry @code ws_or_inl* '>') @code;
+  cs_aspx_cs_outry = ('%>' @check_blank_outry | '</' /script/i @check_blank_outry @code ws_or_inl* '>') @code;
   cs_aspx_cs_line := |*
     cs_aspx_cs_outry @{ p = ts; fret; };
     # unmodified C patterns
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 30e21ab..0b8b673 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -128,7 +128,7 @@ enum {
   *|;
 
   vb_aspx_cs_entry = ('<%' | '<' /script/i @code vb_aspx_tag_text+ :>> 'server' vb_aspx_tag_text+ '>') @code;
-  vb_aspx_cs_outry = ('%>' | '</' /script/i @check_blank_outry @code ws_or_inl* '>') @code;
+  vb_aspx_cs_outry = ('%>' @check_blank_outry | '</' /script/i @check_blank_outry @code ws_or_inl* '>') @code;
   vb_aspx_cs_line := |*
     vb_aspx_cs_outry @{ p = ts; fret; };
     # unmodified VB patterns
-- 
2.43.0


From b1684e0111812b7944aa99cfe579ff5379e20903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:02 +0000
Subject: [PATCH 80/89] fix: a last line without a newline is of the language
 it is in

---
 src/parser.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index b0e8dea..fe98b64 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -45,6 +45,22 @@ static void hold_line(const char *lang, const char *entity, int s, int e,
   held->lines[held->count++] = line;
 }
 
+/*
+ * Returns a copy of a buffer whose last line has no newline with one added, or
+ * NULL if there is nothing to add. Only at a newline do the machines know which
+ * language a line is in when it follows the tag that begins an embedded one.
+ */
+static char *end_last_line(const char *buffer, int length) {
+  if (length == 0 || buffer[length-1] == '\n' || buffer[length-1] == '\r' ||
+      buffer[length-1] == '\f')
+    return NULL;
+  char *ended = malloc(length + 2);
+  memcpy(ended, buffer, length);
+  ended[length] = '\n';
+  ended[length+1] = '\0';
+  return ended;
+}
+
 int ohcount_parse(SourceFile *sourcefile, int count,
                   void (*callback) (const char *, const char *, int, int,
                                     void *),
@@ -58,12 +74,20 @@ int ohcount_parse(SourceFile *sourcefile, int count,
       int buffer_len = ohcount_sourcefile_get_contents_size(sourcefile);
       if (callback && count) {
         Lines held = { NULL, 0, 0 };
+        char *ended = end_last_line(buffer, buffer_len);
         int i;
-        rp->parser(buffer, buffer_len, count, hold_line, &held);
-        for (i = 0; i < held.count; i++)
-          callback(held.lines[i].lang, held.lines[i].entity, held.lines[i].s,
-                   held.lines[i].e, userdata);
+        if (ended)
+          rp->parser(ended, buffer_len + 1, count, hold_line, &held);
+        else
+          rp->parser(buffer, buffer_len, count, hold_line, &held);
+        for (i = 0; i < held.count; i++) {
+          Line *line = &held.lines[i];
+          if (line->e > buffer_len) line->e = buffer_len;
+          if (line->s < line->e)
+            callback(line->lang, line->entity, line->s, line->e, userdata);
+        }
         free(held.lines);
+        free(ended);
       } else if (callback)
         rp->parser(buffer, buffer_len, count, callback, userdata);
       return 1;
-- 
2.43.0


From 57c960a9ce104bfbfec0a6f31e7e951cc33540eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:35 +0000
Subject: [PATCH 81/89] fix: English names of Octave and Fortran

---
 src/hash/languages.gperf | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hash/languages.gperf b/src/hash/languages.gperf
index c55f6f4..92cd143 100755
--- a/src/hash/languages.gperf
+++ b/src/hash/languages.gperf
@@ -47,8 +47,8 @@ erlang, LANG_ERLANG, "Erlang", 0
 exheres, LANG_EXHERES, "Exheres", 0
 factor, LANG_FACTOR, "Factor", 0
 forth, LANG_FORTH, "Forth", 0
-fortranfixed, LANG_FORTRANFIXED, "Fortan (Fixed-format)", 0
-fortranfree, LANG_FORTRANFREE, "Fortan (Free-format)", 0
+fortranfixed, LANG_FORTRANFIXED, "Fortran (Fixed-format)", 0
+fortranfree, LANG_FORTRANFREE, "Fortran (Free-format)", 0
 fsharp, LANG_FSHARP, "F#", 0
 genie, LANG_GENIE, "Genie", 0
 glsl, LANG_GLSL, "OpenGL Shading Language", 0
@@ -87,7 +87,7 @@ oberon, LANG_OBERON, "Oberon", 0
 objective_c, LANG_OBJECTIVE_C, "Objective-C", 0
 objective_j, LANG_OBJECTIVE_J, "Objective-J", 0
 ocaml, LANG_OCAML, "Objective Caml", 0
-octave, LANG_OCTAVE, "", 0
+octave, LANG_OCTAVE, "Octave", 0
 pascal, LANG_PASCAL, "Pascal", 0
 perl, LANG_PERL, "Perl", 0
 php, LANG_PHP, "PHP", 0
-- 
2.43.0


From 43c9ca7be7868a2c197bcb7435d3fa44d5e25207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:24 +0000
Subject: [PATCH 82/89] fix: a directory given as a source file has no contents

---
 src/sourcefile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index f1d6682..389deca 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -89,6 +89,7 @@ char *ohcount_sourcefile_get_contents(SourceFile *sourcefile) {
     if (f) {
       fseek(f, 0, SEEK_END);
       int size = ftell(f);
+      if (size < 0) size = 0; // nothing of known size, such as a directory
       rewind(f);
       sourcefile->contents = malloc(size + 1);
       if (fread(sourcefile->contents, size, 1, f) != 1) {
-- 
2.43.0


From c810a051cad17609a619eeea9ad1ff2e1671e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:57 +0000
Subject: [PATCH 83/89] fix: brainfuck comments end at operators and white
 space as entities, too

---
 src/parsers/bfpp.rl      | 8 ++++----
 src/parsers/brainfuck.rl | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parsers/bfpp.rl b/src/parsers/bfpp.rl
index 141db71..fb17481 100644
--- a/src/parsers/bfpp.rl
+++ b/src/parsers/bfpp.rl
@@ -75,14 +75,14 @@ enum {
     callback(BFPP_LANG, bfpp_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  bfpp_operator_entity = [+\-<>.,\[\]%\#^;:];
+  bfpp_operator_entity = [+\-<>.,\[\]%!\#^;:];
 
   bfpp_include_entity = '@include(' any* :>> ')';
 
-  bfpp_line_comment_entity = '=' (escaped_newline | nonnewline)*;
+  bfpp_line_comment_entity = '=' nonnewline*;
 
-  bfpp_comment_entity = (bfpp_line_comment_entity |
-                      !(space | bfpp_operator_entity | bfpp_include_entity));
+  bfpp_comment_entity = bfpp_line_comment_entity | '@' |
+                        (any - space - bfpp_operator_entity - [@=])+;
 
   bfpp_entity := |*
     space+               ${ entity = BFPP_SPACE;    } => bfpp_ecallback;
diff --git a/src/parsers/brainfuck.rl b/src/parsers/brainfuck.rl
index fbebfea..7f66450 100644
--- a/src/parsers/brainfuck.rl
+++ b/src/parsers/brainfuck.rl
@@ -64,7 +64,7 @@ enum {
 
   brainfuck_operator_entity = [+\-<>.,\[\]];
 
-  brainfuck_comment_entity = !(space | brainfuck_operator_entity);
+  brainfuck_comment_entity = (any - space - brainfuck_operator_entity)+;
 
   brainfuck_entity := |*
     space+                    ${ entity = BRAINFUCK_SPACE;    } => brainfuck_ecallback;
-- 
2.43.0


From fa55484e1a22d876e4b0f68e5bc2d40cd8a26e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:34 +0000
Subject: [PATCH 84/89] fix: a lone @ of Brainfuck++ is a comment as an entity,
 too

---
 src/parsers/bfpp.rl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parsers/bfpp.rl b/src/parsers/bfpp.rl
index fb17481..b6534c4 100644
--- a/src/parsers/bfpp.rl
+++ b/src/parsers/bfpp.rl
@@ -87,8 +87,10 @@ enum {
   bfpp_entity := |*
     space+               ${ entity = BFPP_SPACE;    } => bfpp_ecallback;
     bfpp_operator_entity ${ entity = BFPP_OPERATOR; } => bfpp_ecallback;
-    bfpp_include_entity  ${ entity = BFPP_INCLUDE;  } => bfpp_ecallback;
-    bfpp_comment_entity  ${ entity = BFPP_COMMENT;  } => bfpp_ecallback;
+    # the scanner comes back to a '@' that opens no include: the entity is set
+    # once it is known which of the two it is
+    bfpp_include_entity  => { entity = BFPP_INCLUDE; callback(BFPP_LANG, bfpp_entities[entity], cint(ts), cint(te), userdata); };
+    bfpp_comment_entity  => { entity = BFPP_COMMENT; callback(BFPP_LANG, bfpp_entities[entity], cint(ts), cint(te), userdata); };
   *|;
 }%%
 
-- 
2.43.0


From 67921f40cc3999907e48f61df7b154423de868df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:45 +0000
Subject: [PATCH 85/89] fix: free the paths of the temporary files of a diff on
 disk

---
 src/diff.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diff.c b/src/diff.c
index 5d49957..d93b208 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -658,6 +658,8 @@ void ohcount_calc_diff_with_disk(
 	if (unlink(to_tmp)) {
 		printf("error unlinking %s: %d", from_tmp, errno);
 	}
+	free(from_tmp);
+	free(to_tmp);
 }
 
 #define USE_DISK_IF_LARGER 100000
-- 
2.43.0


From 56e886ee5d2526af149092935e3dfadff2fcc6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:58 +0000
Subject: [PATCH 86/89] fix: a puppet construct opens a line that follows a
 bare carriage return, too

---
 src/detector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index f5fb8b2..452c82b 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -922,7 +922,7 @@ const char *disambiguate_pp(SourceFile *sourcefile) {
 
 	/* try harder with optional spaces */
 	pcre *keyword;
-	keyword = pcre_compile("^\\s*(ensure|content|notify|require|source)\\s+=>",
+	keyword = pcre_compile("(*ANYCRLF)^\\s*(ensure|content|notify|require|source)\\s+=>",
 			PCRE_MULTILINE, &error, &erroffset, NULL);
 
 	int matched = pcre_exec(keyword, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0);
@@ -932,7 +932,7 @@ const char *disambiguate_pp(SourceFile *sourcefile) {
 
 	/* check for standard puppet constructs */
 	pcre *construct;
-	construct = pcre_compile("^\\s*(define\\s+[\\w:-]+\\s*\\(|class\\s+[\\w:-]+(\\s+inherits\\s+[\\w:-]+)?\\s*[\\({]|node\\s+\\'?[\\w:\\.-]+\\'?\\s*{|import\\s+\"|include\\s+[\"']?[\\w:-][\"']?)",
+	construct = pcre_compile("(*ANYCRLF)^\\s*(define\\s+[\\w:-]+\\s*\\(|class\\s+[\\w:-]+(\\s+inherits\\s+[\\w:-]+)?\\s*[\\({]|node\\s+\\'?[\\w:\\.-]+\\'?\\s*{|import\\s+\"|include\\s+[\"']?[\\w:-][\"']?)",
 			PCRE_MULTILINE, &error, &erroffset, NULL);
 
 	matched = pcre_exec(construct, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0);
-- 
2.43.0


From d6ffc26ec4e4466bb39b75e119483751f12421fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:58 +0000
Subject: [PATCH 87/89] fix: a prolog rule ends its line with a bare carriage
 return, too

---
 src/detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 452c82b..c9e2e3e 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -959,7 +959,7 @@ const char *disambiguate_pl(SourceFile *sourcefile) {
 
   // Check for prolog :- rules
   if (strstr(contents, ":- ") || strstr(contents, ":-\n") ||
-      strstr(contents, ":-\r\n"))
+      strstr(contents, ":-\r"))
     return LANG_PROLOG;
 
   // Perl by default.
-- 
2.43.0


From 1563264238a7243fe4b7908e02d04ad65d731440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:58 +0000
Subject: [PATCH 88/89] fix: a RenderScript pragma follows a bare carriage
 return, too

---
 src/detector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index c9e2e3e..168ea0d 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -1025,7 +1025,8 @@ const char *disambiguate_rs(SourceFile *sourcefile) {
   char *eof = contents + ohcount_sourcefile_get_contents_size(sourcefile);
 
   for (; contents <= eof - len; ++contents) {
-    if (!strncmp(contents, needle, len)) {
+    if ((*contents == '\n' || *contents == '\r') &&
+        !strncmp(contents + 1, needle + 1, len - 1)) {
       return NULL;
     }
   }
-- 
2.43.0


From 38a58de8ad2a00ac2b3b2581c1284562aef2c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:29 +0000
Subject: [PATCH 89/89] fix: a line that begins with the ?> of PHP in a string
 or comment keeps what follows it

---
 src/parsers/phphtml.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 1ddaec7..bdb0303 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -132,7 +132,7 @@ enum {
   phtml_php_entry = ('<?' 'php'?) @code;
   phtml_php_outry = '?>';
   phtml_php_line := |*
-    phtml_php_outry @{ p = ts; fret; };
+    phtml_php_outry @{ if (!line_start) line_start = ts + 1; p = ts; fret; };
     # unmodified PHP patterns
     spaces       ${ entity = PHP_SPACE; } => php_ccallback;
     php_comment;
-- 
2.43.0

