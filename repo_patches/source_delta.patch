From d7e703b31352bb44ed1c308b8758b1b6bc509fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 01/21] fix: count U+10FFFF, the last code point, instead of
 writing past the table

---
 src/text.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text.h b/src/text.h
index a82179b..3e5bdfe 100644
--- a/src/text.h
+++ b/src/text.h
@@ -53,7 +53,7 @@ typedef uint32_t Charvalue;
 /* Technically, there are far less *scalar values* (what you and I call
  * "characters") in Unicode, but using the max number of *code points* here
  * makes the implementation simpler. See: http://www.unicode.org/glossary/ */
-#define NUM_CHARVALUES  0x10FFFF
+#define NUM_CHARVALUES  0x110000
 
 /* Maximum char size of a single char_to_string() operation, including the
  * null-terminator. It's either the largetst size of an encoded non-graphic
-- 
2.43.0


From e2ea502831d0e87b7d70f70c9d6f4c2505a1a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 02/21] fix: make room for the suspect marker of a six-digit
 escape

---
 src/text.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/text.h b/src/text.h
index 3e5bdfe..f4e06c4 100644
--- a/src/text.h
+++ b/src/text.h
@@ -58,9 +58,9 @@ typedef uint32_t Charvalue;
 /* Maximum char size of a single char_to_string() operation, including the
  * null-terminator. It's either the largetst size of an encoded non-graphic
  * character (this happens to be U+10FFFF) OR the size of an astral (non-BMP)
- * combining character, that combines on top of U+25CC DOTTED CIRCLE
- * WITH a suspect marker! */
-#define STRING_SIZE (max(sizeof("^◌𐇽"), sizeof("<10FFFF>")))
+ * combining character, that combines on top of U+25CC DOTTED CIRCLE;
+ * either of them WITH a suspect marker! */
+#define STRING_SIZE (max(sizeof("^◌𐇽"), sizeof("^<10FFFF>")))
 
 BEGIN_ITEM(Char)
     Boolean suspect;
-- 
2.43.0


From f1fb547a9552b90aa6f4a63ecc00fb657a5c3808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 03/21] fix: tally words by length in characters, up to the
 longest length

---
 src/wordacc.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/wordacc.c b/src/wordacc.c
index 2eb744e..ac74e36 100644
--- a/src/wordacc.c
+++ b/src/wordacc.c
@@ -208,6 +208,18 @@ void obtain_matches()
 }
 /**********************************************************************/
 
+/* Length of a UTF-8 encoded word, in characters. */
+long word_length(string)
+char *string;
+{
+    long length = 0;
+    for (; *string; string++)
+	if ((*string & 0xC0) != 0x80)
+	    length++;
+    return(min(length, MAX_WORDLENGTH));
+}
+/**********************************************************************/
+
 void process_terms(termtable, length, occurs)
 Termtable *termtable;
 Wac length[], occurs[];
@@ -220,7 +232,8 @@ Wac length[], occurs[];
 	missed = termtable->array[i]->wac.missed;
 	increment_wac(&wacdata.total, count, missed);
 	increment_wac(&length[0], count, missed);
-	increment_wac(&length[strlen(termtable->array[i]->key)], count, missed);
+	increment_wac(&length[word_length(termtable->array[i]->key)], count,
+	missed);
 	if (occurs)
 	{
 	    increment_wac(&occurs[0], 1, (count == missed ? 1 : 0));
-- 
2.43.0


From e9eb473e983dea92b20a7d67c14c63d78bf1bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 04/21] fix: remove a repeated stopword only once

---
 src/nonstopacc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nonstopacc.c b/src/nonstopacc.c
index 43efa0c..fda4245 100644
--- a/src/nonstopacc.c
+++ b/src/nonstopacc.c
@@ -46,6 +46,7 @@ char *string;
     {
 	count  -= term->wac.count;
 	missed -= term->wac.missed;
+	term->wac.count = term->wac.missed = 0;
     }
 }
 /**********************************************************************/
-- 
2.43.0


From fad370e42580f1d4aa88221465b7f3849a16c932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 05/21] fix: accept more than 32767 arguments

---
 src/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.c b/src/util.c
index b946bc2..938dc9e 100644
--- a/src/util.c
+++ b/src/util.c
@@ -146,7 +146,7 @@ char *pathname;
 #else
     char delimiter = '\\';
 #endif
-    short i;
+    long i;
     for (i = strlen(pathname) - 1; i >= 0 && pathname[i] != delimiter; i--);
     return(&pathname[i + 1]);
 }
@@ -217,7 +217,7 @@ int *argc;
 char *argv[], *usage;
 Option option[];
 {
-    short i, j = 0;
+    int i, j = 0;
     if (*argc == 1 && usage_when_no_args)
 	show_usage(usage);
     for (i = 1; i < *argc; i++)
-- 
2.43.0


From 53cd235dd633ed4cebb8fe0e1a00303be60f0f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 06/21] fix: sort sorted arrays without deep recursion and
 quadratic time

---
 src/sort.c | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/sort.c b/src/sort.c
index f558dee..99b6519 100644
--- a/src/sort.c
+++ b/src/sort.c
@@ -32,25 +32,36 @@ long left, right;
 {
     long i, j;
     void *ref;
-    i = left;
-    j = right;
-    ref = a[i];
-    while (i < j)
+    while (left < right)
     {
-	while (i < j && (*cmp)(ref, a[j]) < 0)
-	    j--;
-	if (i != j)
-	    a[i++] = a[j];
-	while (i < j && (*cmp)(ref, a[i]) > 0)
-	    i++;
-	if (i != j)
-	    a[j--] = a[i];
+	i = left;
+	j = right;
+	ref = a[left + (right - left) / 2];
+	a[left + (right - left) / 2] = a[left];
+	while (i < j)
+	{
+	    while (i < j && (*cmp)(ref, a[j]) < 0)
+		j--;
+	    if (i != j)
+		a[i++] = a[j];
+	    while (i < j && (*cmp)(ref, a[i]) > 0)
+		i++;
+	    if (i != j)
+		a[j--] = a[i];
+	}
+	a[j] = ref;
+	/* Recurse into the smaller part only, so that the stack stays small. */
+	if (j - left < right - i)
+	{
+	    quicksort(left, j - 1);
+	    left = i + 1;
+	}
+	else
+	{
+	    quicksort(i + 1, right);
+	    right = j - 1;
+	}
     }
-    a[j] = ref;
-    if (left < --j)
-	quicksort(left, j);
-    if (++i < right)
-	quicksort(i, right);
 }
 /**********************************************************************/
 
-- 
2.43.0


From dc593192a564e265c0110ea793508ffea35439c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 07/21] fix: break between a leading combining mark and the
 word after it

---
 src/word.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/word.c b/src/word.c
index a229bbe..6ca7f85 100644
--- a/src/word.c
+++ b/src/word.c
@@ -137,11 +137,8 @@ static Char* skip_to_end_of_extend(from)
 static Char* find_next_boundary(start)
     Char *start;
 {
-    /* The first thing the loop does is advance, so we need a dummy "start of
-     * loop" character that does not participate in the search. */
-    Char dummy;
-    dummy.next = start;
-    Char *current = &dummy;
+    /* The first thing the loop does is advance. */
+    Char *current = NULL;
     wb_property left = sot, right, lookahead, lookbehind;
 
     /* WB1: Break at the start and end of text. */
@@ -152,9 +149,10 @@ static Char* find_next_boundary(start)
     /* Loop to find the next word break. */
 
     /* WB2: Break at the start and end of text. */
-    while (current->next != NULL) {
-        /* Advance all the pointers. */
-        current = skip_to_next(current);
+    while (current == NULL || current->next != NULL) {
+        /* Advance all the pointers; but nothing is skipped at the beginning of
+         * a region of text. */
+        current = current ? skip_to_next(current) : start;
         lookbehind = left;
         left = char_property(current);
         right = char_property(skip_to_next(current));
@@ -164,7 +162,7 @@ static Char* find_next_boundary(start)
         if (left == CR && right == LF) continue;
 
         /* WB3a: Otherwise break before and after newlines */
-        if (left == Newline || left == CR || left == LF) break;
+        if (left == Newline || left == CR || left == LF) return current;
         /* WB3b */
         if (right == Newline || right == CR || right == LF) break;
 
-- 
2.43.0


From 5e47f0136d92320037ee6eede37a179af7cacf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 08/21] fix: read texts from inputs that cannot be rewound

---
 src/text.c | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/text.c b/src/text.c
index 1837d88..13f2cb4 100644
--- a/src/text.c
+++ b/src/text.c
@@ -57,21 +57,38 @@ void append_char(text, suspect, value)
 }
 /**********************************************************************/
 
-static Boolean read_header(f)
+static Boolean read_header(f, text)
 	FILE *f;
+	Text *text;
 {
-	char line[100];
-	short divider_count = 0;
-	if (fgets(line, sizeof(line) - 1, f) &&
-			strncmp(line, TITLE, sizeof(TITLE) - 5) == 0)
+	short divider_count = 0, matched = 0, i;
+	int byte;
+	while (matched < sizeof(TITLE) - 5 && (byte = getc(f)) == TITLE[matched])
+		matched++;
+	if (matched < sizeof(TITLE) - 5)
+	{
+		/* Not a header after all, so it is text. */
+		if (byte != EOF)
+			ungetc(byte, f);
+		for (i = 0; i < matched; i++)
+			append_char(text, False, TITLE[i]);
+		return(False);
+	}
+	matched = -1;
+	while (divider_count < 2 && (byte = getc(f)) != EOF)
 	{
-		while (divider_count < 2 && fgets(line, sizeof(line) - 1, f))
-			if (strcmp(line, DIVIDER) == 0)
+		if (matched >= 0 && byte == DIVIDER[matched])
+			matched++;
+		else
+			matched = -1;
+		if (byte == NEWLINE)
+		{
+			if (matched == sizeof(DIVIDER) - 1)
 				divider_count++;
-		return(True);
+			matched = 0;
+		}
 	}
-	rewind(f);
-	return(False);
+	return(True);
 }
 /**********************************************************************/
 
@@ -225,7 +242,7 @@ void read_text(text, filename, textopt)
 	last = text->last;
 	f = open_file(filename, "r");
 	if (textopt->find_header)
-		textopt->found_header = read_header(f);
+		textopt->found_header = read_header(f, text);
 	read_contents(f, text, textopt->find_markers,
 			(textopt->suspect_marker ? textopt->suspect_marker : SUSPECT_MARKER));
 	close_file(f);
-- 
2.43.0


From 3a5e0911c109758bd6ff3e19e92062cd90f93daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 09/21] fix: read accuracy reports whose counts are wider than
 their columns

---
 src/accrpt.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 9146f66..4328dc7 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -37,9 +37,9 @@
 #define TITLE    "ocreval Accuracy Report Version " OCREVAL_VERSION "\n"
 #define DIVIDER  "-----------------------------------\n"
 
-#define CLASS_OFFSET  29
-#define CONF_OFFSET   20
-#define LINE_LENGTH   100
+#define CLASS_OFFSET  12
+#define CONF_OFFSET    3
+#define LINE_LENGTH   200
 
 static char line[LINE_LENGTH];
 
@@ -128,12 +128,20 @@ Accops *sum_ops;
 }
 /**********************************************************************/
 
-static Boolean read_two(f, value1, value2)
+/* Reads two values, which may be wider than their columns, and finds the string
+ * that is the given number of bytes after them. */
+static Boolean read_two(f, value1, value2, offset, string)
 FILE *f;
-long *value1, *value2;
+long *value1, *value2, offset;
+char **string;
 {
-    return(read_line(f) && sscanf(line, "%ld %ld", value1, value2) == 2 ?
-    True : False);
+    int length;
+    if (!read_line(f) ||
+    sscanf(line, "%ld %ld%n", value1, value2, &length) != 2)
+        return(False);
+    offset += length;
+    *string = (offset < strlen(line) ? &line[offset] : "");
+    return(True);
 }
 /**********************************************************************/
 
@@ -217,6 +225,7 @@ char *filename;
 {
     FILE *f;
     long characters, errors, value1, value2;
+    char *string;
     Charvalue value3;
     f = open_file(filename, "r");
     if (read_line(f) && strncmp(line, TITLE, sizeof(TITLE) - 3) == 0 &&
@@ -234,14 +243,14 @@ char *filename;
     {
         while (read_line(f) && line[0] != NEWLINE);
         if (errors > 0 && read_line(f))
-            while (read_two(f, &value1, &value2)) {
+            while (read_two(f, &value1, &value2, CONF_OFFSET, &string)) {
                 /* TODO: bug here: does not handle UTF-8 or <bracket>
                  * <escaped> or {<} properly... */
-                add_conf(accdata, &line[CONF_OFFSET], value1, value2);
+                add_conf(accdata, string, value1, value2);
             }
         if (characters > 0 && read_line(f))
-            while (read_two(f, &value1, &value2)) {
-                value3 = read_char(line + CLASS_OFFSET);
+            while (read_two(f, &value1, &value2, CLASS_OFFSET, &string)) {
+                value3 = read_char(string);
                 if (value3 == INVALID_CHARVALUE) {
                     error_string("invalid character in", (filename ? filename : "stdin"));
                 }
-- 
2.43.0


From 7b98044c94d92da31f68e38403925301e4899d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 10/21] fix: order confusions whose counts differ by more than
 an int

---
 src/accrpt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 4328dc7..56dc275 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -324,9 +324,9 @@ static int compare_conf(conf1, conf2)
 Conf *conf1, *conf2;
 {
     if (conf1->errors != conf2->errors)
-        return(conf2->errors - conf1->errors);
+        return(conf1->errors > conf2->errors ? -1 : 1);
     if (conf1->marked != conf2->marked)
-        return(conf2->marked - conf1->marked);
+        return(conf1->marked > conf2->marked ? -1 : 1);
     return(ustrcmp(conf1->key, conf2->key));
 }
 /**********************************************************************/
-- 
2.43.0


From 0ef47da15ba15d2efe62b7208cab0a3b3497f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 11/21] fix: read word accuracy reports with long words and
 wide counts whole

---
 src/wacrpt.c | 49 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/wacrpt.c b/src/wacrpt.c
index c28d5cd..1ec8ecf 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -30,9 +30,10 @@
 #define DIVIDER  "----------------------------------------\n"
 
 #define TOTAL    " Total\n"
-#define OFFSET   29
+#define OFFSET   12
 
-static char line[100];
+static char *line;
+static size_t line_size;
 
 /**********************************************************************/
 
@@ -62,10 +63,26 @@ long count, missed;
 }
 /**********************************************************************/
 
+/* Reads a line of any length. */
 static Boolean read_line(f)
 FILE *f;
 {
-    return(fgets(line, sizeof(line) - 1, f) ? True : False);
+    size_t length = 0;
+    do
+    {
+	if (line_size < length + 100)
+	{
+	    line_size = 2 * (length + 100);
+	    line = realloc(line, line_size);
+	    if (!line)
+		error("unable to allocate memory");
+	}
+	if (!fgets(&line[length], line_size - length, f))
+	    return(length > 0 ? True : False);
+	length += strlen(&line[length]);
+    }
+    while (length == line_size - 1 && line[length - 1] != '\n');
+    return(True);
 }
 /**********************************************************************/
 
@@ -77,12 +94,20 @@ long *value;
 }
 /**********************************************************************/
 
-static Boolean read_two(f, value1, value2)
+/* Reads two values, which may be wider than their columns, and finds the string
+ * that follows the percentage after them. */
+static Boolean read_two(f, value1, value2, string)
 FILE *f;
 long *value1, *value2;
+char **string;
 {
-    return(read_line(f) && sscanf(line, "%ld %ld", value1, value2) == 2 ?
-    True : False);
+    int offset;
+    if (!read_line(f) ||
+    sscanf(line, "%ld %ld%n", value1, value2, &offset) != 2)
+	return(False);
+    offset += OFFSET;
+    *string = (offset < strlen(line) ? &line[offset] : "");
+    return(True);
 }
 /**********************************************************************/
 
@@ -91,12 +116,13 @@ FILE *f;
 Wac wac[];
 {
     long count, missed, index, total_count = 0;
+    char *string;
     if (read_line(f) && read_line(f))
-	while (read_two(f, &count, &missed))
+	while (read_two(f, &count, &missed, &string))
 	{
-	    index = atoi(&line[OFFSET]);
+	    index = atoi(string);
 	    if (index == 0) {
-		if (strcmp(&line[OFFSET], TOTAL) == 0)
+		if (strcmp(string, TOTAL) == 0)
 		    total_count = count;
 		else /* excess */
 		    index = MAX_OCCURRENCES + 1;
@@ -112,11 +138,12 @@ FILE *f;
 Termtable *termtable;
 {
     long count, missed;
+    char *string;
     if (read_line(f) && read_line(f))
-	while (read_two(f, &count, &missed))
+	while (read_two(f, &count, &missed, &string))
 	{
 	    line[strlen(line) - 1] = '\0';
-	    add_term(termtable, &line[OFFSET], count, missed);
+	    add_term(termtable, string, count, missed);
 	}
 }
 /**********************************************************************/
-- 
2.43.0


From 1b0a7262a73986bb83a0bf238361a07ea77a2985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 12/21] fix: refuse reports with lengths and characters out of
 range

---
 src/accrpt.c |  2 +-
 src/edorpt.c |  5 +++++
 src/wacrpt.c | 18 +++++++++++++-----
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 56dc275..c731289 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -211,7 +211,7 @@ char *line;
     }
 
     /* Check for end delimiter. */
-    if (*next_byte == '}') {
+    if (*next_byte == '}' && value < NUM_CHARVALUES) {
         return value;
     }
 
diff --git a/src/edorpt.c b/src/edorpt.c
index d967684..74028d8 100644
--- a/src/edorpt.c
+++ b/src/edorpt.c
@@ -78,7 +78,12 @@ char *filename;
     {
 	if (moves > 0 && read_line(f) && read_line(f) && read_line(f))
 	    while (read_two(f, &value1, &value2))
+	    {
+		if (value2 < 1 || value2 > MAX_MOVE_LENGTH)
+		    error_string("invalid format in",
+		    (filename ? filename : "stdin"));
 		edodata->moves[value2] += value1;
+	    }
     }
     else
 	error_string("invalid format in", (filename ? filename : "stdin"));
diff --git a/src/wacrpt.c b/src/wacrpt.c
index 1ec8ecf..93f740b 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -111,9 +111,11 @@ char **string;
 }
 /**********************************************************************/
 
-static long read_numbers(f, wac)
+static long read_numbers(f, wac, limit, filename)
 FILE *f;
 Wac wac[];
+long limit;
+char *filename;
 {
     long count, missed, index, total_count = 0;
     char *string;
@@ -127,6 +129,9 @@ Wac wac[];
 		else /* excess */
 		    index = MAX_OCCURRENCES + 1;
 	    }
+	    if (index < 0 || index > limit)
+		error_string("invalid format in",
+		(filename ? filename : "stdin"));
 	    increment_wac(&wac[index], count, missed);
 	}
     return(total_count);
@@ -161,12 +166,15 @@ char *filename;
     read_line(f) && read_line(f))
     {
 	increment_wac(&wacdata->total, words, missed);
-	stopwords = read_numbers(f, wacdata->stopword);
-	non_stopwords = read_numbers(f, wacdata->non_stopword);
-	read_numbers(f, wacdata->distinct_non_stopword);
+	stopwords = read_numbers(f, wacdata->stopword, MAX_WORDLENGTH,
+	filename);
+	non_stopwords = read_numbers(f, wacdata->non_stopword, MAX_WORDLENGTH,
+	filename);
+	read_numbers(f, wacdata->distinct_non_stopword, MAX_OCCURRENCES + 1,
+	filename);
 	if (words > 0)
 	{
-	    read_numbers(f, wacdata->phrase);
+	    read_numbers(f, wacdata->phrase, MAX_PHRASELENGTH, filename);
 	    if (stopwords > 0)
 		read_terms(f, &wacdata->stopword_table);
 	    if (non_stopwords > 0)
-- 
2.43.0


From 637170eeff1edbb6ada3fc00c4187eab717946ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 13/21] fix: refuse reports with negative totals

---
 src/accrpt.c | 2 +-
 src/edorpt.c | 2 +-
 src/wacrpt.c | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index c731289..ab1a0a6 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -99,7 +99,7 @@ static Boolean read_value(f, value, sum_value)
 FILE *f;
 long *value, *sum_value;
 {
-    if (read_line(f) && sscanf(line, "%ld", value) == 1)
+    if (read_line(f) && sscanf(line, "%ld", value) == 1 && *value >= 0)
     {
         *sum_value += *value;
         return(True);
diff --git a/src/edorpt.c b/src/edorpt.c
index 74028d8..260d4a3 100644
--- a/src/edorpt.c
+++ b/src/edorpt.c
@@ -44,7 +44,7 @@ static Boolean read_value(f, value, sum_value)
 FILE *f;
 long *value, *sum_value;
 {
-    if (read_line(f) && sscanf(line, "%ld", value) == 1)
+    if (read_line(f) && sscanf(line, "%ld", value) == 1 && *value >= 0)
     {
 	*sum_value += *value;
 	return(True);
diff --git a/src/wacrpt.c b/src/wacrpt.c
index 93f740b..9dd9e9f 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -90,7 +90,8 @@ static Boolean read_one(f, value)
 FILE *f;
 long *value;
 {
-    return(read_line(f) && sscanf(line, "%ld", value) == 1 ? True : False);
+    return(read_line(f) && sscanf(line, "%ld", value) == 1 && *value >= 0 ?
+    True : False);
 }
 /**********************************************************************/
 
-- 
2.43.0


From 31ab79230f5b69d1d431781dcbfc39a526ce0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 14/21] fix: report input that could not be read and output
 that could not be written

---
 src/util.c | 11 +++++++++--
 src/util.h |  6 ++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/util.c b/src/util.c
index 938dc9e..6f3f602 100644
--- a/src/util.c
+++ b/src/util.c
@@ -90,8 +90,14 @@ char *filename, *mode;
 void close_file(f)
 FILE *f;
 {
-    if (f != stdin && f != stdout)
-	fclose(f);
+    Boolean failed;
+    if (f == stdout)
+	fflush(f);
+    failed = (ferror(f) ? True : False);
+    if (f != stdin && f != stdout && fclose(f) != 0)
+	failed = True;
+    if (failed)
+	error("unable to read or write file");
 }
 /**********************************************************************/
 
@@ -258,6 +264,7 @@ int status;
 
 void terminate()
 {
+    close_file(stdout);
     quit(0);
 }
 /**********************************************************************/
diff --git a/src/util.h b/src/util.h
index 9172619..2ab7b95 100644
--- a/src/util.h
+++ b/src/util.h
@@ -69,7 +69,8 @@ FILE *open_file(/* char *filename, char *mode */);
 			   depending on the mode */
 
 void close_file(/* FILE *f */);
-			/* closes the specified file */
+			/* closes the specified file; reports an error and quits
+			   if anything could not be read or written */
 
 Boolean file_exists(/* char *filename */);
 			/* returns True if the named file exists */
@@ -121,7 +122,8 @@ void initialize(/* int *argc, char *argv[], char *usage, Option option[] */);
 			   has been set; "option" may be NULL if there are no
 			   options */
 
-void terminate()	/* terminates the program with exit status 0 */
+void terminate()	/* terminates the program with exit status 0, or reports
+			   an error if stdout could not be written */
     __attribute__ ((noreturn));
 
 extern int errstatus;	/* status returned when exiting due to an error; this is
-- 
2.43.0


From ea02ccaaa2cf7b665cfd445c4c130e7eaadfa441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 15/21] fix: refuse word accuracy reports with unreadable
 lengths

---
 src/wacrpt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wacrpt.c b/src/wacrpt.c
index 9dd9e9f..f1d5596 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -127,8 +127,10 @@ char *filename;
 	    if (index == 0) {
 		if (strcmp(string, TOTAL) == 0)
 		    total_count = count;
-		else /* excess */
-		    index = MAX_OCCURRENCES + 1;
+		else if (limit == MAX_OCCURRENCES + 1 && strchr(string, '>'))
+		    index = limit; /* excess */
+		else
+		    index = -1;
 	    }
 	    if (index < 0 || index > limit)
 		error_string("invalid format in",
-- 
2.43.0


From f86e8048a14d5120b62731b566012eb00f580789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 16/21] fix: refuse accuracy reports cut off within a character

---
 src/accrpt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index ab1a0a6..8b0d464 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -190,7 +190,7 @@ char *line;
         /* Read at most 4 characters, and decode the utf-8 bytes. */
         int bytes_read = utf8proc_iterate((utf8proc_uint8_t *) next_byte,
                                           4, (utf8proc_int32_t *) &value);
-        if (bytes_read < 1) {
+        if (bytes_read < 1 || *next_byte == '\0') {
             return INVALID_CHARVALUE;
         }
         next_byte += bytes_read;
-- 
2.43.0


From 0947a14606b174acc210e6f95f702a5288125f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 17/21] Compile as GNU C90 (C_STANDARD), which accepts //
 comments

---
 use-libocreval-internal.mk | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/use-libocreval-internal.mk b/use-libocreval-internal.mk
index 92d237d..5d3094f 100644
--- a/use-libocreval-internal.mk
+++ b/use-libocreval-internal.mk
@@ -7,8 +7,11 @@ LOCAL_LINK_DIR := $(abspath $(TOP)lib)
 
 LIBOCREVAL = $(LOCAL_LINK_DIR)/libocreval.a
 
+# Language standard: C90, with // comments accepted. For strict C90, use
+# make C_STANDARD=-ansi
+C_STANDARD = -std=gnu89
 # Compilation flags for all files.
-override CFLAGS += -ansi
+override CFLAGS += $(C_STANDARD)
 # X/Open 6.0 standardizes features used in this K&R C source...
 CPPDEFINES = -D_XOPEN_SOURCE=600
 # Create dependency files.
-- 
2.43.0


From b6099d89d701263947b7016728b2ff414f59613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 18/21] fix: report memory that cannot be allocated for words
 and keys

---
 src/accrpt.c | 2 +-
 src/ngram.c  | 2 +-
 src/util.c   | 7 +++++++
 src/util.h   | 4 ++++
 src/vote.c   | 2 +-
 src/wacrpt.c | 2 +-
 src/word.c   | 5 ++++-
 7 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 8b0d464..2eb190c 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -80,7 +80,7 @@ long errors, marked;
     else
     {
         conf = NEW(Conf);
-        conf->key = strdup(key);
+        conf->key = copy_string(key);
         conf->errors = errors;
         conf->marked = marked;
         table_insert(&accdata->conftable, conf);
diff --git a/src/ngram.c b/src/ngram.c
index 72ddbdf..fb275d0 100644
--- a/src/ngram.c
+++ b/src/ngram.c
@@ -75,7 +75,7 @@ Boolean suspect;
     if (!sequence)
     {
 	sequence = NEW(Sequence);
-	sequence->key = strdup(key);
+	sequence->key = copy_string(key);
 	for (i = 0; i < n; i++)
 	    sequence->value[i] = value[i];
 	table_insert(&seqtable, sequence);
diff --git a/src/util.c b/src/util.c
index 6f3f602..eef42c6 100644
--- a/src/util.c
+++ b/src/util.c
@@ -59,6 +59,13 @@ size_t number, size;
 }
 /**********************************************************************/
 
+char *copy_string(string)
+char *string;
+{
+    return(strcpy(NEW_ARRAY(strlen(string) + 1, char), string));
+}
+/**********************************************************************/
+
 int ustrcmp(s1, s2)
 unsigned char *s1, *s2;
 {
diff --git a/src/util.h b/src/util.h
index 2ab7b95..7d44213 100644
--- a/src/util.h
+++ b/src/util.h
@@ -58,6 +58,10 @@ typedef char Boolean;
 			/* allocate an array of "type" */
 void *allocate(/* size_t number, size_t size */);
 
+char *copy_string(/* char *string */);
+			/* returns an allocated copy of the string; reports an
+			   error and quits if there is no memory for it */
+
 int ustrcmp(/* unsigned char *s1, unsigned char *s2 */);
 			/* compares strings like "strcmp" but treats characters
 			   as unsigned */
diff --git a/src/vote.c b/src/vote.c
index f8d2838..b348f49 100644
--- a/src/vote.c
+++ b/src/vote.c
@@ -137,7 +137,7 @@ short index;
     if (!sequence)
     {
 	sequence = NEW(Sequence);
-	sequence->key = strdup(key);
+	sequence->key = copy_string(key);
 	if (!reject)
 	    sequence->median = 1;
 	table_insert(&seqtable, sequence);
diff --git a/src/wacrpt.c b/src/wacrpt.c
index f1d5596..1a58082 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -56,7 +56,7 @@ long count, missed;
     if (!term)
     {
 	term = NEW(Term);
-	term->key = strdup(key);
+	term->key = copy_string(key);
 	table_insert(termtable, term);
     }
     increment_wac(&term->wac, count, missed);
diff --git a/src/word.c b/src/word.c
index 6ca7f85..3ee182a 100644
--- a/src/word.c
+++ b/src/word.c
@@ -282,12 +282,15 @@ static void append_word(wordlist, start, end)
     Word *word;
     Char *after = end->next;
     size_t len = find_utf8_length(start, after);
-    char *buffer = malloc(len + 1);
+    char *buffer = NEW_ARRAY(len + 1, char);
     copy_into_buffer(buffer, start, after);
 
     word = NEW(Word);
     /* Convert the null-terminated string to NFC. */
     word->string = (char *) utf8proc_NFC((const utf8proc_uint8_t *) buffer);
+    if (!word->string) {
+        error("unable to allocate memory");
+    }
     list_insert_last(wordlist, word);
     free(buffer);
 }
-- 
2.43.0


From a6dcb6fca73a88e8e561928ac636a44cea0794fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 19/21] fix: find suspect markers in text that begins like a
 header

---
 src/text.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/text.c b/src/text.c
index 13f2cb4..c10694b 100644
--- a/src/text.c
+++ b/src/text.c
@@ -57,11 +57,13 @@ void append_char(text, suspect, value)
 }
 /**********************************************************************/
 
-static Boolean read_header(f, text)
+/* Returns True if there is a header; otherwise, *matched_count is the number of
+ * bytes that were read because they match the beginning of the title. */
+static Boolean read_header(f, matched_count)
 	FILE *f;
-	Text *text;
+	short *matched_count;
 {
-	short divider_count = 0, matched = 0, i;
+	short divider_count = 0, matched = 0;
 	int byte;
 	while (matched < sizeof(TITLE) - 5 && (byte = getc(f)) == TITLE[matched])
 		matched++;
@@ -70,8 +72,7 @@ static Boolean read_header(f, text)
 		/* Not a header after all, so it is text. */
 		if (byte != EOF)
 			ungetc(byte, f);
-		for (i = 0; i < matched; i++)
-			append_char(text, False, TITLE[i]);
+		*matched_count = matched;
 		return(False);
 	}
 	matched = -1;
@@ -92,13 +93,17 @@ static Boolean read_header(f, text)
 }
 /**********************************************************************/
 
-static void read_contents(f, text, find_markers, suspect_marker)
+/* The text is the first title_count bytes of the title followed by the
+ * contents of the file. */
+static void read_contents(f, text, find_markers, suspect_marker, title_count)
 	FILE *f;
 	Text *text;
 	Boolean find_markers;
 	int suspect_marker;
+	short title_count;
 {
 	Boolean suspect = False;
+	short i = 0;
 
 	/* Buffer for one full UTF-8 code unit. */
 	utf8proc_uint8_t buffer[4];
@@ -106,7 +111,7 @@ static void read_contents(f, text, find_markers, suspect_marker)
 	int byte, read_status, decode_status;
 	size_t code_unit_size;
 	utf8proc_int32_t code_point;
-	byte = getc(f);
+	byte = (i < title_count ? TITLE[i++] : getc(f));
 
 	while (byte != EOF)
 	{
@@ -145,7 +150,7 @@ static void read_contents(f, text, find_markers, suspect_marker)
 			append_char(text, suspect, code_point);
 			suspect = False;
 		}
-		byte = getc(f);
+		byte = (i < title_count ? TITLE[i++] : getc(f));
 	}
 }
 /**********************************************************************/
@@ -237,14 +242,15 @@ void read_text(text, filename, textopt)
 {
 	Char *last;
 	FILE *f;
+	short title_count = 0;
 	if (textopt->find_header && !filename)
 		error_string("invalid call to", "read_text");
 	last = text->last;
 	f = open_file(filename, "r");
 	if (textopt->find_header)
-		textopt->found_header = read_header(f, text);
+		textopt->found_header = read_header(f, &title_count);
 	read_contents(f, text, textopt->find_markers,
-			(textopt->suspect_marker ? textopt->suspect_marker : SUSPECT_MARKER));
+			(textopt->suspect_marker ? textopt->suspect_marker : SUSPECT_MARKER), title_count);
 	close_file(f);
 	if (textopt->normalize)
 		compress_spacing(text, (last ? last->next : text->first));
-- 
2.43.0


From 9b993ffedb808e6853ad91bfd1929f5df2d53857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:44 +0000
Subject: [PATCH 20/21] fix: keep the last word of a report without a final
 newline whole

---
 src/wacrpt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wacrpt.c b/src/wacrpt.c
index 1a58082..c094ffd 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -150,7 +150,7 @@ Termtable *termtable;
     if (read_line(f) && read_line(f))
 	while (read_two(f, &count, &missed, &string))
 	{
-	    line[strlen(line) - 1] = '\0';
+	    line[strcspn(line, "\n")] = '\0';
 	    add_term(termtable, string, count, missed);
 	}
 }
-- 
2.43.0


From 355a29f1dea454873a29c03dc91dec3ea75ba0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:25 +0000
Subject: [PATCH 21/21] fix: end the last confusion of a report without a final
 newline

---
 src/accrpt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/accrpt.c b/src/accrpt.c
index 2eb190c..7d092ac 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -246,6 +246,8 @@ char *filename;
             while (read_two(f, &value1, &value2, CONF_OFFSET, &string)) {
                 /* TODO: bug here: does not handle UTF-8 or <bracket>
                  * <escaped> or {<} properly... */
+                if (string[0] && !strchr(string, NEWLINE))
+                    strcat(string, "\n");
                 add_conf(accdata, string, value1, value2);
             }
         if (characters > 0 && read_line(f))
-- 
2.43.0

