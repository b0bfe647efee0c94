From 0455c0d0d8008a365d52ae564faf287344b02e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:29 +0000
Subject: [PATCH 01/28] fix: size filter output buffers for the default
 translation and fixed replacements

An empty or short table, a default longer than every row, or an encoded NUL
made the iso8859_1, safe and utf_8 filters write past their output buffer.
---
 src/clean_string.c |  4 ++--
 src/clean_utf_8.c  |  8 +++++++-
 src/table.c        | 23 +++++++++++++++++++++++
 src/table.h        |  1 +
 4 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index b3cbeea..3b3da83 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -40,7 +40,7 @@ char *clean_iso8859_1(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_output(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
@@ -100,7 +100,7 @@ char *clean_safe(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_output(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/clean_utf_8.c b/src/clean_utf_8.c
index 56d9051..b1d90bf 100644
--- a/src/clean_utf_8.c
+++ b/src/clean_utf_8.c
@@ -65,6 +65,7 @@ char *clean_utf_8(char *filename, table_t *table)
     int characters_eaten;
     int utf_8_width;
     int failed;
+    size_t max_output;
 
     if (filename == NULL) {
         return NULL;
@@ -75,7 +76,12 @@ char *clean_utf_8(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    max_output = table_max_output(table);
+    if (max_output < strlen(null_replacement)) {
+        max_output = strlen(null_replacement);
+    }
+
+    output = wrapped_malloc((strlen(filename) * max_output) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/table.c b/src/table.c
index fefeac5..72d72a9 100644
--- a/src/table.c
+++ b/src/table.c
@@ -219,3 +219,26 @@ char *table_get(table_t *table, unsigned int key)
 
     return table->rows[offset].data;
 }
+
+/**
+ * Returns the largest number of bytes that a single input character can turn
+ * into: the longest row, the default translation, or the character itself.
+ *
+ * @param table The table to use.
+ *
+ * @return The number of bytes, always at least 1.
+ */
+size_t table_max_output(table_t *table)
+{
+    size_t ret = 1;
+
+    if (table->max_data_length > ret) {
+        ret = table->max_data_length;
+    }
+
+    if (table->default_translation != NULL && strlen(table->default_translation) > ret) {
+        ret = strlen(table->default_translation);
+    }
+
+    return ret;
+}
diff --git a/src/table.h b/src/table.h
index d2999ae..1699352 100644
--- a/src/table.h
+++ b/src/table.h
@@ -19,5 +19,6 @@ extern table_t *table_resize(table_t *table, int rows, int use_hash);
 extern void table_free(table_t *table);
 extern int table_put(table_t *table, unsigned int key, char *data);
 extern char *table_get(table_t *table, unsigned int key);
+extern size_t table_max_output(table_t *table);
 
 #endif /* __TABLE_H */
-- 
2.43.0


From 73318262259adacbd4f2e9ac2d881d774c291ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:51 +0000
Subject: [PATCH 02/28] fix: search the whole ignore list for every file

The list's position was left behind the previous match, so the entries before
it were not considered for the next file.
---
 src/file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file.c b/src/file.c
index 00a03cc..df15dbd 100644
--- a/src/file.c
+++ b/src/file.c
@@ -38,6 +38,9 @@ static int ignore_file(const char *filename, const options_t *options)
         return 1;
     }
 
+    // the previous search may have stopped in the middle of the list
+    filelist_reset(options->files_to_ignore);
+
     while ((file_walk = filelist_get(options->files_to_ignore))) {
         if (strcmp(filename, file_walk) == 0) {
             return 1;
-- 
2.43.0


From fe79dee9596808bd2a3acf715c0b077b1aa846dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:57 +0000
Subject: [PATCH 03/28] fix: never move a file to another directory

A cleaned name that held a slash (for example decoded by uncgi or from an
overlong UTF-8 sequence) was handed to rename() as a path.
---
 src/file.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/file.c b/src/file.c
index df15dbd..e6f81b7 100644
--- a/src/file.c
+++ b/src/file.c
@@ -116,6 +116,13 @@ char *parse_file(char *filename, options_t *options)
         return old_filename;
     }
 
+    /* the result has to be a name that stays in the same directory */
+    if (work[0] == '\0' || is_protected(work) || strchr(work, '/') != NULL) {
+        fprintf(stderr, "Cannot rename %s: \"%s\" is not a usable filename\n", old_filename, work);
+        free(work);
+        return old_filename;
+    }
+
     len = (old_filename_ptr - old_filename);
     new_filename = wrapped_malloc(len + strlen(work) + 1);
 
-- 
2.43.0


From 1f446d7a3a3abf238da646f2175a086a00b45fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:04 +0000
Subject: [PATCH 04/28] fix: release the cleaned name of files that do not
 change

parse_file() kept the working copy of unchanged and protected names, and the
names of file arguments were never freed.
---
 src/detox.c |  6 ++++--
 src/file.c  | 16 +++++-----------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/detox.c b/src/detox.c
index 111ad8e..72de8ae 100644
--- a/src/detox.c
+++ b/src/detox.c
@@ -103,9 +103,11 @@ int main(int argc, char **argv)
                     parse_dir(file_work, main_options);
                     free(file_work);
                 } else if (S_ISREG(stat_info.st_mode)) {
-                    parse_file(file_walk, main_options);
+                    file_work = parse_file(file_walk, main_options);
+                    free(file_work);
                 } else if (main_options->special) {
-                    parse_file(file_walk, main_options);
+                    file_work = parse_file(file_walk, main_options);
+                    free(file_work);
                 }
             }
         }
diff --git a/src/file.c b/src/file.c
index e6f81b7..badf131 100644
--- a/src/file.c
+++ b/src/file.c
@@ -72,7 +72,7 @@ static int is_protected(const char *filename)
 char *parse_file(char *filename, options_t *options)
 {
     char *old_filename, *old_filename_ptr, *new_filename;
-    char *work, *hold;
+    char *work;
 
     struct stat stat_info_old;
     struct stat stat_info_new;
@@ -95,24 +95,18 @@ char *parse_file(char *filename, options_t *options)
      * Do the actual filename cleaning
      */
 
-    work = wrapped_strdup(old_filename_ptr);
-
-    if (is_protected(work)) {
-        work = NULL;
-    }
-
-    hold = sequence_run_filters(options->sequence_to_use, work);
-    if (work != NULL) {
-        free(work);
+    if (is_protected(old_filename_ptr)) {
+        return old_filename;
     }
-    work = hold;
 
+    work = sequence_run_filters(options->sequence_to_use, old_filename_ptr);
     if (work == NULL) {
         return old_filename;
     }
 
     /* check to see if nothing changed */
     if (strcmp(old_filename_ptr, work) == 0) {
+        free(work);
         return old_filename;
     }
 
-- 
2.43.0


From f51cccdb7fc7258a38f4742985457ea4bced4e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:07 +0000
Subject: [PATCH 05/28] fix: do not replace a file that appears right before
 the rename

The check for an existing file and the rename are two steps; a file created
in between was silently overwritten.
---
 src/file.c | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index badf131..e99654c 100644
--- a/src/file.c
+++ b/src/file.c
@@ -7,12 +7,17 @@
  * file that was distributed with this source code.
  */
 
+#ifndef _GNU_SOURCE
+#define _GNU_SOURCE // renameat2()
+#endif
+
 #include "config.h"
 
 #include <sys/stat.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <dirent.h>
+#include <fcntl.h>
 #include <string.h>
 #include <errno.h>
 
@@ -66,6 +71,33 @@ static int is_protected(const char *filename)
     return (filename[0] == '.' && (filename[1] == '\0' || (filename[1] == '.' && filename[2] == '\0')));
 }
 
+/**
+ * Renames a file, without replacing a file that showed up at the new name
+ * after it was checked, where the system supports this.
+ *
+ * @param old_filename The file to rename.
+ * @param new_filename The new name.
+ * @param same_file    Whether the new name is already known to refer to the
+ *                     same file, e.g. on a case insensitive file system.
+ *
+ * @return 0 on success, -1 (and errno) on failure
+ */
+static int rename_file(const char *old_filename, const char *new_filename, int same_file)
+{
+#ifdef RENAME_NOREPLACE
+    int err;
+
+    if (!same_file) {
+        err = renameat2(AT_FDCWD, old_filename, AT_FDCWD, new_filename, RENAME_NOREPLACE);
+        if (err == 0 || (errno != EINVAL && errno != ENOSYS)) {
+            return err;
+        }
+    }
+#endif
+
+    return rename(old_filename, new_filename);
+}
+
 /*
  * Renames file to a safe filename.
  */
@@ -77,6 +109,7 @@ char *parse_file(char *filename, options_t *options)
     struct stat stat_info_old;
     struct stat stat_info_new;
     int err;
+    int same_file;
     size_t len;
 
     len = strlen(filename) + 1;
@@ -131,6 +164,8 @@ char *parse_file(char *filename, options_t *options)
         return old_filename;
     }
 
+    same_file = 0;
+
     err = lstat(new_filename, &stat_info_new);
     if (err != -1) { // New file exists
         if (stat_info_old.st_dev != stat_info_new.st_dev || // Different device
@@ -141,6 +176,8 @@ char *parse_file(char *filename, options_t *options)
             free(new_filename);
             return old_filename;
         }
+
+        same_file = 1;
     }
 
     if (options->verbose || options->dry_run) {
@@ -152,7 +189,7 @@ char *parse_file(char *filename, options_t *options)
         return old_filename;
     }
 
-    err = rename(old_filename, new_filename);
+    err = rename_file(old_filename, new_filename, same_file);
     if (err == -1) {
         fprintf(stderr, "Cannot rename %s to %s: %s\n", old_filename, new_filename, strerror(errno));
         free(new_filename);
-- 
2.43.0


From 6903e034862311c36b66bb70ad36bdecf9eb6608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:13 +0000
Subject: [PATCH 06/28] fix: read a directory completely before renaming its
 entries

Renaming while reading can make the file system return an entry again under
its new name, and the entry was then cleaned twice.  Each level of recursion
also held a descriptor and a buffer, and an entry that could not be examined
was treated as if it had the type of the previous one.
---
 src/file.c     | 71 +++++++++++++++++++++++++++++++++-----------------
 src/filelist.c |  2 +-
 2 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/src/file.c b/src/file.c
index e99654c..459d24c 100644
--- a/src/file.c
+++ b/src/file.c
@@ -207,10 +207,11 @@ char *parse_file(char *filename, options_t *options)
 void parse_dir(char *filename, options_t *options)
 {
     char *new_file, *work;
+    char *file_walk;
     DIR *dir_handle;
     struct dirent *dir_entry;
     struct stat stat_info;
-    int check_file;
+    filelist_t *entries;
     int err;
     size_t new_file_length;
 
@@ -223,53 +224,75 @@ void parse_dir(char *filename, options_t *options)
         return;
     }
 
-    new_file_length = strlen(filename) + 1024;
-    new_file = wrapped_malloc(new_file_length);
-
     /*
      * Parse directory
      */
 
     dir_handle = opendir(filename);
     if (dir_handle == NULL) {
-        fprintf(stderr, "unable to parse: %s\n", strerror(errno));
-        free(new_file);
+        err = errno;
+        fprintf(stderr, "unable to parse: %s\n", strerror(err));
 
         // too many open files
-        if (errno == EMFILE) {
+        if (err == EMFILE) {
             exit(EXIT_FAILURE);
         }
 
         return;
     }
 
-    dir_entry = readdir(dir_handle);
+    /*
+     * Read the whole directory before renaming anything.  Renaming a file may
+     * cause the directory to return it again, under its new name.
+     */
 
-    while (dir_entry != NULL) {
+    entries = filelist_init();
+
+    errno = 0;
+    while ((dir_entry = readdir(dir_handle)) != NULL) {
 
         /*
          * Check for files that need to be ignored
          */
-        check_file = !ignore_file(dir_entry->d_name, options);
+        if (!ignore_file(dir_entry->d_name, options)) {
+            filelist_put(entries, dir_entry->d_name);
+        }
 
-        if (check_file) {
-            snprintf(new_file, new_file_length, "%s/%s", filename, dir_entry->d_name);
+        errno = 0;
+    }
 
-            lstat(new_file, &stat_info);
-            if (S_ISDIR(stat_info.st_mode)) {
-                work = parse_file(new_file, options);
-                if (options->recurse) {
-                    parse_dir(work, options);
-                }
-                free(work);
-            } else if (S_ISREG(stat_info.st_mode) || options->special) {
-                work = parse_file(new_file, options);
-                free(work);
+    if (errno != 0) {
+        fprintf(stderr, "unable to parse: %s\n", strerror(errno));
+    }
+
+    closedir(dir_handle);
+
+    new_file_length = strlen(filename) + 1024;
+    new_file = wrapped_malloc(new_file_length);
+
+    while ((file_walk = filelist_get(entries))) {
+        snprintf(new_file, new_file_length, "%s/%s", filename, file_walk);
+
+        err = lstat(new_file, &stat_info);
+        if (err == -1) {
+            fprintf(stderr, "%s: %s\n", new_file, strerror(errno));
+            continue;
+        }
+
+        if (S_ISDIR(stat_info.st_mode)) {
+            work = parse_file(new_file, options);
+            if (options->recurse) {
+                parse_dir(work, options);
             }
+            free(work);
+        } else if (S_ISREG(stat_info.st_mode) || options->special) {
+            work = parse_file(new_file, options);
+            free(work);
         }
-        dir_entry = readdir(dir_handle);
     }
-    closedir(dir_handle);
+
+    free(new_file);
+    filelist_free(entries);
 }
 
 /**
diff --git a/src/filelist.c b/src/filelist.c
index 9e288d1..8693b58 100644
--- a/src/filelist.c
+++ b/src/filelist.c
@@ -110,7 +110,7 @@ void filelist_put(filelist_t *list, const char *file)
         size_t new_size;
         int i;
 
-        new_max = list->max + FILELIST_CHUNK;
+        new_max = list->max * 2;
         new_size = sizeof(char *) * new_max;
         new_files = wrapped_malloc(new_size);
         memset(new_files, 0, new_size);
-- 
2.43.0


From 7ccf1fe70bde9787e1a0550860b540a203eaa2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:36 +0000
Subject: [PATCH 07/28] fix: report files and directories that cannot be
 examined

They were skipped without a message.
---
 src/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/file.c b/src/file.c
index 459d24c..d74aacb 100644
--- a/src/file.c
+++ b/src/file.c
@@ -160,6 +160,7 @@ char *parse_file(char *filename, options_t *options)
 
     err = lstat(old_filename, &stat_info_old);
     if (err == -1) {
+        fprintf(stderr, "%s: %s\n", old_filename, strerror(errno));
         free(new_filename);
         return old_filename;
     }
@@ -217,6 +218,7 @@ void parse_dir(char *filename, options_t *options)
 
     err = lstat(filename, &stat_info);
     if (err == -1) {
+        fprintf(stderr, "%s: %s\n", filename, strerror(errno));
         return;
     }
 
-- 
2.43.0


From 9f83abe83cbecf0244d795c1ae32d7feae05c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:02 +0000
Subject: [PATCH 08/28] fix: read inline input by line instead of in fixed size
 pieces

Lines over 1007 bytes were cleaned in pieces, which gave a different result
than cleaning the line; a stream starting with a continuation byte or a NUL
made the search for the start of a character read before the buffer, and a NUL
swallowed the end of its line.
---
 src/file.c | 148 +++++++++--------------------------------------------
 1 file changed, 23 insertions(+), 125 deletions(-)

diff --git a/src/file.c b/src/file.c
index d74aacb..a1eb436 100644
--- a/src/file.c
+++ b/src/file.c
@@ -21,7 +21,6 @@
 #include <string.h>
 #include <errno.h>
 
-#include "clean_utf_8.h"
 #include "file.h"
 #include "filelist.h"
 #include "sequence.h"
@@ -310,15 +309,12 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
     FILE *in_fp;
     FILE *out_fp;
     size_t buf_size;
-    size_t padding;
+    ssize_t length;
 
     char *base;
-    char *hold;
-    char *seek;
     char *work;
     int err;
     int has_newline;
-    int remaining;
 
     if (in_filename != NULL) {
         if (!(in_fp = fopen(in_filename, "r"))) {
@@ -338,133 +334,23 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
         out_fp = stdout;
     }
 
-    buf_size = INLINE_BUF_SIZE;
-    padding = INLINE_BUF_PADDING;
-    base = wrapped_malloc(buf_size);
+    base = NULL;
+    buf_size = 0;
 
-    while (fgets(base, buf_size - padding, in_fp)) {
-
-        hold = strrchr(base, '\n');
-
-        if (hold == NULL) {
-
-#ifdef DEBUG
-            fprintf(stderr, "detox: debug: fgets() didn't find a new line\n");
-#endif
-
-            //
-            // Check to see if we stopped in the middle of a UTF-8 character.
-            //
-
-            hold = seek = strchr(base, '\0');
-            seek--;
-
-#ifdef DEBUG
-            if (is_utf_8_cont(*seek)) {
-                fprintf(stderr, "detox: debug: looks like we're in the middle of a UTF-8 character\n");
-            }
-#endif
-
-            while (is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
-#ifdef DEBUG
-                fprintf(stderr, "detox: debug: at %02x, moving back one\n", (unsigned char) *seek);
-#endif
-                seek--;
-            }
-
-#ifdef DEBUG
-            fprintf(stderr, "detox: debug: now at %02x\n", (unsigned char) *seek);
-#endif
-
-            if (is_utf_8_start(*seek)) {
-#ifdef DEBUG
-                fprintf(stderr, "detox: debug: at %02x, this is the start of a UTF-8 char, seeking ahead\n", (unsigned char) *seek);
-#endif
-                remaining = get_utf_8_width(*seek);
-                do {
-#ifdef DEBUG
-                    fprintf(stderr, "detox: debug: at %02x\n", (unsigned char) *seek);
-#endif
-                    seek++;
-                    remaining--;
-                } while (remaining > 0 && is_utf_8_cont(*seek));
-
-#ifdef DEBUG
-                fprintf(stderr, "detox: debug: done with initial seek at %02x\n", (unsigned char) *seek);
-#endif
-
-                if (remaining > 0 && *seek == '\0') {
-#ifdef DEBUG
-                    fprintf(stderr, "detox: debug: we still need more data\n");
-#endif
-
-                    // try bringing bytes in one at a time
-                    while (remaining > 0) {
-                        err = fgetc(in_fp);
-                        if (err == EOF) {
-#ifdef DEBUG
-                            fprintf(stderr, "detox: debug: hit EOF\n");
-#endif
-                            break;
-                        }
-
-                        *seek = err;
-
-#ifdef DEBUG
-                        fprintf(stderr, "detox: debug: read %02x\n", (unsigned char) *seek);
-#endif
-
-                        // but if it isn't a UTF-8 continuation byte
-                        if (!is_utf_8_cont(*seek)) {
-#ifdef DEBUG
-                            fprintf(stderr, "detox: debug: %02x is not a UTF-8 continuation byte\n", (unsigned char) *seek);
-#endif
-                            // try to push it back on to the buffer
-                            err = ungetc(*seek, in_fp);
-                            if (err == EOF) {
-                                fprintf(stderr, "detox: warning: stream push back failed\n");
-                                seek++;
-                            }
-                            remaining = 0;
-                            break;
-                        }
-
-                        seek++;
-                        remaining--;
-                    }
-                    *seek = '\0';
-                }
-
-#ifdef DEBUG
-                fprintf(stderr, "detox: debug: done with secondary seek at %02x\n", (unsigned char) *seek);
-#endif
-            }
-        }
-
-        // if we did fgetc(), and ungetc() failed, this might return
-        // differently from before
-
-        hold = strrchr(base, '\n');
+    errno = 0;
+    while ((length = getline(&base, &buf_size, in_fp)) != -1) {
 
-        if (hold == NULL) {
-            has_newline = 0;
-        } else {
-            has_newline = 1;
-            *hold = '\0';
+        has_newline = (length > 0 && base[length - 1] == '\n');
+        if (has_newline) {
+            base[length - 1] = '\0';
         }
 
-        work = wrapped_strdup(base);
+        work = NULL;
 
-        if (is_protected(work)) {
-            work = NULL;
+        if (!is_protected(base)) {
+            work = sequence_run_filters(options->sequence_to_use, base);
         }
 
-        hold = sequence_run_filters(options->sequence_to_use, work);
-        if (work != NULL) {
-            free(work);
-        }
-        work = hold;
-
         //
         // we're using printf("%s", ...) because don't know what is in the
         // string...
@@ -480,6 +366,18 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
         if (has_newline) {
             fprintf(out_fp, "\n");
         }
+
+        errno = 0;
+    }
+
+    err = errno;
+    free(base);
+
+    if (!feof(in_fp)) {
+        fprintf(stderr, "%s: %s\n", (in_filename != NULL) ? in_filename : "standard input", strerror(err));
+        if (err == ENOMEM) {
+            exit(EXIT_FAILURE);
+        }
     }
 
     if (in_filename != NULL) {
-- 
2.43.0


From 48edfe0f01a1098887efd697523dad484296e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:07 +0000
Subject: [PATCH 09/28] fix: lower only changes ASCII characters

Reading a translation table sets the locale, after which lower corrupted
UTF-8 in locales with 8-bit character sets.
---
 src/clean_string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index 3b3da83..c055ba7 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -329,8 +329,9 @@ char *clean_lower(char *filename)
     output_walk = output;
 
     while (*input_walk != '\0') {
-        if (isupper((int) *input_walk)) {
-            *output_walk++ = tolower((int) *input_walk++);
+        // not isupper() and tolower(), which depend on the locale
+        if (*input_walk >= 'A' && *input_walk <= 'Z') {
+            *output_walk++ = *input_walk++ - 'A' + 'a';
         } else {
             *output_walk++ = *input_walk++;
         }
-- 
2.43.0


From 73f693d4dee4ada6c50e2c7ea83191ad46f31ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 10/28] fix: uncgi leaves an encoded NUL alone

Decoding %00 cut off the rest of the filename.
---
 src/clean_string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index c055ba7..e7a9a52 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -155,7 +155,8 @@ char *clean_uncgi(char *filename)
     output_walk = output;
 
     while (*input_walk != '\0') {
-        if (input_walk[0] == '%' && isxdigit((int) input_walk[1]) && isxdigit((int) input_walk[2])) {
+        // an encoded NUL can't be part of a filename, and would cut it short
+        if (input_walk[0] == '%' && isxdigit((int) input_walk[1]) && isxdigit((int) input_walk[2]) && strncmp(input_walk, "%00", 3) != 0) {
             conv[0] = input_walk[1];
             conv[1] = input_walk[2];
             conv[2] = 0;
-- 
2.43.0


From bc5bd3cad447779e08b5333fc00e141b125ba330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:19 +0000
Subject: [PATCH 11/28] fix: accept translation tables with short or repeated
 rows

The number of rows was estimated from the size of the file with six bytes per
row, so tables with shorter rows were rejected, and replacing a row counted
against the size of the table.
---
 src/check_table.c |  4 ++--
 src/parse_table.c |  4 ++--
 src/table.c       | 13 +++++++------
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/check_table.c b/src/check_table.c
index d837081..349dd3d 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -24,7 +24,7 @@
 #include "table.h"
 #include "wrapped.h"
 
-#define LINE_LENGTH 6
+#define LINE_LENGTH 3 // of the shortest row, including the newline
 
 enum {
     BASE_STATE,
@@ -58,7 +58,7 @@ static table_t *check_table(char *filename, int use_hash)
     size = 0;
 
     if (table_stat.st_size > 0) {
-        size = table_stat.st_size / LINE_LENGTH;
+        size = table_stat.st_size / LINE_LENGTH + 1;
     }
 #ifdef HAVE_STRUCT_STAT_ST_BLOCKS
     else {
diff --git a/src/parse_table.c b/src/parse_table.c
index e86851a..2a05622 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -17,7 +17,7 @@
 #include "table.h"
 #include "wrapped.h"
 
-#define LINE_LENGTH 6
+#define LINE_LENGTH 3 // of the shortest row, including the newline
 
 enum {
     BASE_STATE,
@@ -54,7 +54,7 @@ table_t *parse_table(char *filename)
     size = 0;
 
     if (table_stat.st_size > 0) {
-        size = table_stat.st_size / LINE_LENGTH;
+        size = table_stat.st_size / LINE_LENGTH + 1;
     }
 #ifdef HAVE_STRUCT_STAT_ST_BLOCKS
     else {
diff --git a/src/table.c b/src/table.c
index 72d72a9..01ca0f0 100644
--- a/src/table.c
+++ b/src/table.c
@@ -115,6 +115,7 @@ static int table_hash(int table_length, unsigned int key)
  */
 int table_put(table_t *table, unsigned int key, char *data)
 {
+    char *copy;
     int offset;
     int seek;
     int i;
@@ -123,10 +124,6 @@ int table_put(table_t *table, unsigned int key, char *data)
         return -1;
     }
 
-    if (table->length == table->used) {
-        return -1;
-    }
-
     offset = -1;
 
     if (table->use_hash) {
@@ -150,13 +147,17 @@ int table_put(table_t *table, unsigned int key, char *data)
         }
     }
 
+    copy = wrapped_strdup(data);
+
     if (table->rows[offset].key == key) {
         table->overwrites++;
+        free(table->rows[offset].data);
+    } else {
+        table->used++;
     }
 
     table->rows[offset].key = key;
-    table->rows[offset].data = wrapped_strdup(data);
-    table->used++;
+    table->rows[offset].data = copy;
 
     if (table->max_key < key) {
         table->max_key = key;
-- 
2.43.0


From 9eef02b329257699bd12a1a3c938629a17ef3c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:50 +0000
Subject: [PATCH 12/28] fix: an empty default in a translation table means no
 default

`default ""` replaced characters by the word "default", and `start ""` was
compared as the language "start".
---
 src/check_table.c | 11 +++++++++--
 src/parse_table.c | 13 +++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/check_table.c b/src/check_table.c
index 349dd3d..bed22da 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -135,11 +135,16 @@ static table_t *check_table(char *filename, int use_hash)
 
             if (strncasecmp(parsed, "default", 7) == 0) {
 
+                // the latest default counts, and an empty one means none
+                free(table->default_translation);
+                table->default_translation = NULL;
+
                 if (work[offset] == '\0') {
-                    table->default_translation = NULL;
                     continue;
                 }
 
+                parsed[0] = '\0';
+
                 if (work[offset] == '"') {
                     sscanf(work + offset + 1, "%[^\"]", parsed);
                 } else if (work[offset] == '\'') {
@@ -148,7 +153,9 @@ static table_t *check_table(char *filename, int use_hash)
                     sscanf(work + offset, "%s", parsed);
                 }
 
-                table->default_translation = wrapped_strdup(parsed);
+                if (parsed[0] != '\0') {
+                    table->default_translation = wrapped_strdup(parsed);
+                }
 
                 if (strlen(parsed) > check_max_data_length) {
                     check_max_data_length = strlen(parsed);
diff --git a/src/parse_table.c b/src/parse_table.c
index 2a05622..af1b4e8 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -110,6 +110,8 @@ table_t *parse_table(char *filename)
 
                 // check to see if a language specifier has been set
 
+                parsed[0] = '\0';
+
                 if (work[offset] == '"') {
                     sscanf(work + offset + 1, "%[^\"]", parsed);
                 } else if (work[offset] == '\'') {
@@ -128,11 +130,16 @@ table_t *parse_table(char *filename)
 
             if (strncasecmp(parsed, "default", 7) == 0) {
 
+                // the latest default counts, and an empty one means none
+                free(table->default_translation);
+                table->default_translation = NULL;
+
                 if (work[offset] == '\0') {
-                    table->default_translation = NULL;
                     continue;
                 }
 
+                parsed[0] = '\0';
+
                 if (work[offset] == '"') {
                     sscanf(work + offset + 1, "%[^\"]", parsed);
                 } else if (work[offset] == '\'') {
@@ -141,7 +148,9 @@ table_t *parse_table(char *filename)
                     sscanf(work + offset, "%s", parsed);
                 }
 
-                table->default_translation = wrapped_strdup(parsed);
+                if (parsed[0] != '\0') {
+                    table->default_translation = wrapped_strdup(parsed);
+                }
 
                 continue;
             }
-- 
2.43.0


From d8703c16a87d3359bde2cd230289a0d7df52bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:38 +0000
Subject: [PATCH 13/28] fix: spell the characters in the iso8859_1 and cp1252
 tables out

The tables held C escape sequences, which are only understood once they have
been compiled into the built-in tables.  With the installed table files, an
e acute became the text "\u00E9".
---
 bin/make-cp1252.sh    |   7 +-
 bin/make-iso8859-1.sh |   7 +-
 table/cp1252.tbl      |  54 ++++++------
 table/iso8859_1.tbl   | 188 +++++++++++++++++++++---------------------
 4 files changed, 131 insertions(+), 125 deletions(-)

diff --git a/bin/make-cp1252.sh b/bin/make-cp1252.sh
index b691fdf..ca2d39b 100755
--- a/bin/make-cp1252.sh
+++ b/bin/make-cp1252.sh
@@ -4,6 +4,9 @@
 # Wikipedia which lists Unicode equivalents for CP-1252 characters.
 #
 
+# needed by printf to write Unicode characters as UTF-8
+export LC_ALL=C.UTF-8
+
 PROJECT_ROOT=$(dirname "$(dirname "$(realpath "$0")")")
 TABLEPATH="$PROJECT_ROOT/table"
 
@@ -68,10 +71,10 @@ for CHAR in $CHARS ; do
 	else
 		CHECK=$(grep -c 0x"$CHAR" "$TABLE1")
 		if [ "$CHECK" -eq "1" ] ; then
-			echo -n "$CURRENT_HEX		\"\\u$CHAR\"	# "
+			printf "%s\t\t\"\u$CHAR\"\t# " "$CURRENT_HEX"
 			grep 0x"$CHAR" "$TABLE1" | sed -e"s/^.*# //"
 		else
-			echo -n "$CURRENT_HEX		\"\\u$CHAR\"	# "
+			printf "%s\t\t\"\u$CHAR\"\t# " "$CURRENT_HEX"
 			grep 0x"$CHAR" "$TABLE2" | sed -e"s/^.*# //"
 		fi
 	fi
diff --git a/bin/make-iso8859-1.sh b/bin/make-iso8859-1.sh
index 2b3b618..93dfcdb 100755
--- a/bin/make-iso8859-1.sh
+++ b/bin/make-iso8859-1.sh
@@ -4,6 +4,9 @@
 # Wikipedia which lists Unicode equivalents for CP-1252 characters.
 #
 
+# needed by printf to write Unicode characters as UTF-8
+export LC_ALL=C.UTF-8
+
 PROJECT_ROOT=$(dirname "$(dirname "$(realpath "$0")")")
 TABLEPATH="$PROJECT_ROOT/table"
 
@@ -130,10 +133,10 @@ for CHAR in $CHARS ; do
 	else
 		CHECK=$(grep -c 0x"$CHAR" "$TABLE1")
 		if [ "$CHECK" -eq "1" ] ; then
-			echo -n "$CURRENT_HEX		\"\\u$CHAR\"	# "
+			printf "%s\t\t\"\u$CHAR\"\t# " "$CURRENT_HEX"
 			grep ^0x"$CHAR" "$TABLE1" | sed -e"s/^.*# //"
 		else
-			echo -n "$CURRENT_HEX		\"\\u$CHAR\"	# "
+			printf "%s\t\t\"\u$CHAR\"\t# " "$CURRENT_HEX"
 			grep ^0x"$CHAR" "$TABLE2" | sed -e"s/^.*# //"
 		fi
 	fi
diff --git a/table/cp1252.tbl b/table/cp1252.tbl
index ef3da8d..b0c214c 100644
--- a/table/cp1252.tbl
+++ b/table/cp1252.tbl
@@ -27,38 +27,38 @@ start
 # CP-1252 Translation - 0x0080-0x009F
 #
 
-0x0080		"\u20AC"	# EURO SIGN
+0x0080		"€"	# EURO SIGN
 0x0081		"-"		# undefined, or control character
-0x0082		"\u201A"	# SINGLE LOW-9 QUOTATION MARK
-0x0083		"\u0192"	# LATIN SMALL LETTER F WITH HOOK
-0x0084		"\u201E"	# DOUBLE LOW-9 QUOTATION MARK
-0x0085		"\u2026"	# HORIZONTAL ELLIPSIS
-0x0086		"\u2020"	# DAGGER
-0x0087		"\u2021"	# DOUBLE DAGGER
-0x0088		"\u02C6"	# MODIFIER LETTER CIRCUMFLEX ACCENT
-0x0089		"\u2030"	# PER MILLE SIGN
-0x008A		"\u0160"	# LATIN CAPITAL LETTER S WITH CARON
-0x008B		"\u2039"	# SINGLE LEFT-POINTING ANGLE QUOTATION MARK
-0x008C		"\u0152"	# LATIN CAPITAL LIGATURE OE
+0x0082		"‚"	# SINGLE LOW-9 QUOTATION MARK
+0x0083		"ƒ"	# LATIN SMALL LETTER F WITH HOOK
+0x0084		"„"	# DOUBLE LOW-9 QUOTATION MARK
+0x0085		"…"	# HORIZONTAL ELLIPSIS
+0x0086		"†"	# DAGGER
+0x0087		"‡"	# DOUBLE DAGGER
+0x0088		"ˆ"	# MODIFIER LETTER CIRCUMFLEX ACCENT
+0x0089		"‰"	# PER MILLE SIGN
+0x008A		"Š"	# LATIN CAPITAL LETTER S WITH CARON
+0x008B		"‹"	# SINGLE LEFT-POINTING ANGLE QUOTATION MARK
+0x008C		"Œ"	# LATIN CAPITAL LIGATURE OE
 0x008D		"-"		# undefined, or control character
-0x008E		"\u017D"	# LATIN CAPITAL LETTER Z WITH CARON
+0x008E		"Ž"	# LATIN CAPITAL LETTER Z WITH CARON
 0x008F		"-"		# undefined, or control character
 
 0x0090		"-"		# undefined, or control character
-0x0091		"\u2018"	# LEFT SINGLE QUOTATION MARK
-0x0092		"\u2019"	# RIGHT SINGLE QUOTATION MARK
-0x0093		"\u201C"	# LEFT DOUBLE QUOTATION MARK
-0x0094		"\u201D"	# RIGHT DOUBLE QUOTATION MARK
-0x0095		"\u2022"	# BULLET
-0x0096		"\u2013"	# EN DASH
-0x0097		"\u2014"	# EM DASH
-0x0098		"\u02DC"	# SMALL TILDE
-0x0099		"\u2122"	# TRADE MARK SIGN
-0x009A		"\u0161"	# LATIN SMALL LETTER S WITH CARON
-0x009B		"\u203A"	# SINGLE RIGHT-POINTING ANGLE QUOTATION MARK
-0x009C		"\u0153"	# LATIN SMALL LIGATURE OE
+0x0091		"‘"	# LEFT SINGLE QUOTATION MARK
+0x0092		"’"	# RIGHT SINGLE QUOTATION MARK
+0x0093		"“"	# LEFT DOUBLE QUOTATION MARK
+0x0094		"”"	# RIGHT DOUBLE QUOTATION MARK
+0x0095		"•"	# BULLET
+0x0096		"–"	# EN DASH
+0x0097		"—"	# EM DASH
+0x0098		"˜"	# SMALL TILDE
+0x0099		"™"	# TRADE MARK SIGN
+0x009A		"š"	# LATIN SMALL LETTER S WITH CARON
+0x009B		"›"	# SINGLE RIGHT-POINTING ANGLE QUOTATION MARK
+0x009C		"œ"	# LATIN SMALL LIGATURE OE
 0x009D		"-"		# undefined, or control character
-0x009E		"\u017E"	# LATIN SMALL LETTER Z WITH CARON
-0x009F		"\u0178"	# LATIN CAPITAL LETTER Y WITH DIAERESIS
+0x009E		"ž"	# LATIN SMALL LETTER Z WITH CARON
+0x009F		"Ÿ"	# LATIN CAPITAL LETTER Y WITH DIAERESIS
 
 end
diff --git a/table/iso8859_1.tbl b/table/iso8859_1.tbl
index 05dca18..f23f665 100644
--- a/table/iso8859_1.tbl
+++ b/table/iso8859_1.tbl
@@ -26,105 +26,105 @@ start
 #
 
 0x00A0		" "		# NO-BREAK SPACE
-0x00A1		"\u00A1"	# INVERTED EXCLAMATION MARK
-0x00A2		"\u00A2"	# CENT SIGN
-0x00A3		"\u00A3"	# POUND SIGN
-0x00A4		"\u00A4"	# CURRENCY SIGN
-0x00A5		"\u00A5"	# YEN SIGN
-0x00A6		"\u00A6"	# BROKEN BAR
-0x00A7		"\u00A7"	# SECTION SIGN
-0x00A8		"\u00A8"	# DIAERESIS
-0x00A9		"\u00A9"	# COPYRIGHT SIGN
-0x00AA		"\u00AA"	# FEMININE ORDINAL INDICATOR
-0x00AB		"\u00AB"	# LEFT-POINTING DOUBLE ANGLE QUOTATION MARK
-0x00AC		"\u00AC"	# NOT SIGN
+0x00A1		"¡"	# INVERTED EXCLAMATION MARK
+0x00A2		"¢"	# CENT SIGN
+0x00A3		"£"	# POUND SIGN
+0x00A4		"¤"	# CURRENCY SIGN
+0x00A5		"¥"	# YEN SIGN
+0x00A6		"¦"	# BROKEN BAR
+0x00A7		"§"	# SECTION SIGN
+0x00A8		"¨"	# DIAERESIS
+0x00A9		"©"	# COPYRIGHT SIGN
+0x00AA		"ª"	# FEMININE ORDINAL INDICATOR
+0x00AB		"«"	# LEFT-POINTING DOUBLE ANGLE QUOTATION MARK
+0x00AC		"¬"	# NOT SIGN
 0x00AD		"-"		# SOFT HYPHEN
-0x00AE		"\u00AE"	# REGISTERED SIGN
-0x00AF		"\u00AF"	# MACRON
+0x00AE		"®"	# REGISTERED SIGN
+0x00AF		"¯"	# MACRON
 
-0x00B0		"\u00B0"	# DEGREE SIGN
-0x00B1		"\u00B1"	# PLUS-MINUS SIGN
-0x00B2		"\u00B2"	# SUPERSCRIPT TWO
-0x00B3		"\u00B3"	# SUPERSCRIPT THREE
-0x00B4		"\u00B4"	# ACUTE ACCENT
-0x00B5		"\u00B5"	# MICRO SIGN
-0x00B6		"\u00B6"	# PILCROW SIGN
-0x00B7		"\u00B7"	# MIDDLE DOT
-0x00B8		"\u00B8"	# CEDILLA
-0x00B9		"\u00B9"	# SUPERSCRIPT ONE
-0x00BA		"\u00BA"	# MASCULINE ORDINAL INDICATOR
-0x00BB		"\u00BB"	# RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK
-0x00BC		"\u00BC"	# VULGAR FRACTION ONE QUARTER
-0x00BD		"\u00BD"	# VULGAR FRACTION ONE HALF
-0x00BE		"\u00BE"	# VULGAR FRACTION THREE QUARTERS
-0x00BF		"\u00BF"	# INVERTED QUESTION MARK
+0x00B0		"°"	# DEGREE SIGN
+0x00B1		"±"	# PLUS-MINUS SIGN
+0x00B2		"²"	# SUPERSCRIPT TWO
+0x00B3		"³"	# SUPERSCRIPT THREE
+0x00B4		"´"	# ACUTE ACCENT
+0x00B5		"µ"	# MICRO SIGN
+0x00B6		"¶"	# PILCROW SIGN
+0x00B7		"·"	# MIDDLE DOT
+0x00B8		"¸"	# CEDILLA
+0x00B9		"¹"	# SUPERSCRIPT ONE
+0x00BA		"º"	# MASCULINE ORDINAL INDICATOR
+0x00BB		"»"	# RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK
+0x00BC		"¼"	# VULGAR FRACTION ONE QUARTER
+0x00BD		"½"	# VULGAR FRACTION ONE HALF
+0x00BE		"¾"	# VULGAR FRACTION THREE QUARTERS
+0x00BF		"¿"	# INVERTED QUESTION MARK
 
-0x00C0		"\u00C0"	# LATIN CAPITAL LETTER A WITH GRAVE
-0x00C1		"\u00C1"	# LATIN CAPITAL LETTER A WITH ACUTE
-0x00C2		"\u00C2"	# LATIN CAPITAL LETTER A WITH CIRCUMFLEX
-0x00C3		"\u00C3"	# LATIN CAPITAL LETTER A WITH TILDE
-0x00C4		"\u00C4"	# LATIN CAPITAL LETTER A WITH DIAERESIS
-0x00C5		"\u00C5"	# LATIN CAPITAL LETTER A WITH RING ABOVE
-0x00C6		"\u00C6"	# LATIN CAPITAL LETTER AE
-0x00C7		"\u00C7"	# LATIN CAPITAL LETTER C WITH CEDILLA
-0x00C8		"\u00C8"	# LATIN CAPITAL LETTER E WITH GRAVE
-0x00C9		"\u00C9"	# LATIN CAPITAL LETTER E WITH ACUTE
-0x00CA		"\u00CA"	# LATIN CAPITAL LETTER E WITH CIRCUMFLEX
-0x00CB		"\u00CB"	# LATIN CAPITAL LETTER E WITH DIAERESIS
-0x00CC		"\u00CC"	# LATIN CAPITAL LETTER I WITH GRAVE
-0x00CD		"\u00CD"	# LATIN CAPITAL LETTER I WITH ACUTE
-0x00CE		"\u00CE"	# LATIN CAPITAL LETTER I WITH CIRCUMFLEX
-0x00CF		"\u00CF"	# LATIN CAPITAL LETTER I WITH DIAERESIS
+0x00C0		"À"	# LATIN CAPITAL LETTER A WITH GRAVE
+0x00C1		"Á"	# LATIN CAPITAL LETTER A WITH ACUTE
+0x00C2		"Â"	# LATIN CAPITAL LETTER A WITH CIRCUMFLEX
+0x00C3		"Ã"	# LATIN CAPITAL LETTER A WITH TILDE
+0x00C4		"Ä"	# LATIN CAPITAL LETTER A WITH DIAERESIS
+0x00C5		"Å"	# LATIN CAPITAL LETTER A WITH RING ABOVE
+0x00C6		"Æ"	# LATIN CAPITAL LETTER AE
+0x00C7		"Ç"	# LATIN CAPITAL LETTER C WITH CEDILLA
+0x00C8		"È"	# LATIN CAPITAL LETTER E WITH GRAVE
+0x00C9		"É"	# LATIN CAPITAL LETTER E WITH ACUTE
+0x00CA		"Ê"	# LATIN CAPITAL LETTER E WITH CIRCUMFLEX
+0x00CB		"Ë"	# LATIN CAPITAL LETTER E WITH DIAERESIS
+0x00CC		"Ì"	# LATIN CAPITAL LETTER I WITH GRAVE
+0x00CD		"Í"	# LATIN CAPITAL LETTER I WITH ACUTE
+0x00CE		"Î"	# LATIN CAPITAL LETTER I WITH CIRCUMFLEX
+0x00CF		"Ï"	# LATIN CAPITAL LETTER I WITH DIAERESIS
 
-0x00D0		"\u00D0"	# LATIN CAPITAL LETTER ETH (Icelandic)
-0x00D1		"\u00D1"	# LATIN CAPITAL LETTER N WITH TILDE
-0x00D2		"\u00D2"	# LATIN CAPITAL LETTER O WITH GRAVE
-0x00D3		"\u00D3"	# LATIN CAPITAL LETTER O WITH ACUTE
-0x00D4		"\u00D4"	# LATIN CAPITAL LETTER O WITH CIRCUMFLEX
-0x00D5		"\u00D5"	# LATIN CAPITAL LETTER O WITH TILDE
-0x00D6		"\u00D6"	# LATIN CAPITAL LETTER O WITH DIAERESIS
-0x00D7		"\u00D7"	# MULTIPLICATION SIGN
-0x00D8		"\u00D8"	# LATIN CAPITAL LETTER O WITH STROKE
-0x00D9		"\u00D9"	# LATIN CAPITAL LETTER U WITH GRAVE
-0x00DA		"\u00DA"	# LATIN CAPITAL LETTER U WITH ACUTE
-0x00DB		"\u00DB"	# LATIN CAPITAL LETTER U WITH CIRCUMFLEX
-0x00DC		"\u00DC"	# LATIN CAPITAL LETTER U WITH DIAERESIS
-0x00DD		"\u00DD"	# LATIN CAPITAL LETTER Y WITH ACUTE
-0x00DE		"\u00DE"	# LATIN CAPITAL LETTER THORN (Icelandic)
-0x00DF		"\u00DF"	# LATIN SMALL LETTER SHARP S (German)
+0x00D0		"Ð"	# LATIN CAPITAL LETTER ETH (Icelandic)
+0x00D1		"Ñ"	# LATIN CAPITAL LETTER N WITH TILDE
+0x00D2		"Ò"	# LATIN CAPITAL LETTER O WITH GRAVE
+0x00D3		"Ó"	# LATIN CAPITAL LETTER O WITH ACUTE
+0x00D4		"Ô"	# LATIN CAPITAL LETTER O WITH CIRCUMFLEX
+0x00D5		"Õ"	# LATIN CAPITAL LETTER O WITH TILDE
+0x00D6		"Ö"	# LATIN CAPITAL LETTER O WITH DIAERESIS
+0x00D7		"×"	# MULTIPLICATION SIGN
+0x00D8		"Ø"	# LATIN CAPITAL LETTER O WITH STROKE
+0x00D9		"Ù"	# LATIN CAPITAL LETTER U WITH GRAVE
+0x00DA		"Ú"	# LATIN CAPITAL LETTER U WITH ACUTE
+0x00DB		"Û"	# LATIN CAPITAL LETTER U WITH CIRCUMFLEX
+0x00DC		"Ü"	# LATIN CAPITAL LETTER U WITH DIAERESIS
+0x00DD		"Ý"	# LATIN CAPITAL LETTER Y WITH ACUTE
+0x00DE		"Þ"	# LATIN CAPITAL LETTER THORN (Icelandic)
+0x00DF		"ß"	# LATIN SMALL LETTER SHARP S (German)
 
-0x00E0		"\u00E0"	# LATIN SMALL LETTER A WITH GRAVE
-0x00E1		"\u00E1"	# LATIN SMALL LETTER A WITH ACUTE
-0x00E2		"\u00E2"	# LATIN SMALL LETTER A WITH CIRCUMFLEX
-0x00E3		"\u00E3"	# LATIN SMALL LETTER A WITH TILDE
-0x00E4		"\u00E4"	# LATIN SMALL LETTER A WITH DIAERESIS
-0x00E5		"\u00E5"	# LATIN SMALL LETTER A WITH RING ABOVE
-0x00E6		"\u00E6"	# LATIN SMALL LETTER AE
-0x00E7		"\u00E7"	# LATIN SMALL LETTER C WITH CEDILLA
-0x00E8		"\u00E8"	# LATIN SMALL LETTER E WITH GRAVE
-0x00E9		"\u00E9"	# LATIN SMALL LETTER E WITH ACUTE
-0x00EA		"\u00EA"	# LATIN SMALL LETTER E WITH CIRCUMFLEX
-0x00EB		"\u00EB"	# LATIN SMALL LETTER E WITH DIAERESIS
-0x00EC		"\u00EC"	# LATIN SMALL LETTER I WITH GRAVE
-0x00ED		"\u00ED"	# LATIN SMALL LETTER I WITH ACUTE
-0x00EE		"\u00EE"	# LATIN SMALL LETTER I WITH CIRCUMFLEX
-0x00EF		"\u00EF"	# LATIN SMALL LETTER I WITH DIAERESIS
+0x00E0		"à"	# LATIN SMALL LETTER A WITH GRAVE
+0x00E1		"á"	# LATIN SMALL LETTER A WITH ACUTE
+0x00E2		"â"	# LATIN SMALL LETTER A WITH CIRCUMFLEX
+0x00E3		"ã"	# LATIN SMALL LETTER A WITH TILDE
+0x00E4		"ä"	# LATIN SMALL LETTER A WITH DIAERESIS
+0x00E5		"å"	# LATIN SMALL LETTER A WITH RING ABOVE
+0x00E6		"æ"	# LATIN SMALL LETTER AE
+0x00E7		"ç"	# LATIN SMALL LETTER C WITH CEDILLA
+0x00E8		"è"	# LATIN SMALL LETTER E WITH GRAVE
+0x00E9		"é"	# LATIN SMALL LETTER E WITH ACUTE
+0x00EA		"ê"	# LATIN SMALL LETTER E WITH CIRCUMFLEX
+0x00EB		"ë"	# LATIN SMALL LETTER E WITH DIAERESIS
+0x00EC		"ì"	# LATIN SMALL LETTER I WITH GRAVE
+0x00ED		"í"	# LATIN SMALL LETTER I WITH ACUTE
+0x00EE		"î"	# LATIN SMALL LETTER I WITH CIRCUMFLEX
+0x00EF		"ï"	# LATIN SMALL LETTER I WITH DIAERESIS
 
-0x00F0		"\u00F0"	# LATIN SMALL LETTER ETH (Icelandic)
-0x00F1		"\u00F1"	# LATIN SMALL LETTER N WITH TILDE
-0x00F2		"\u00F2"	# LATIN SMALL LETTER O WITH GRAVE
-0x00F3		"\u00F3"	# LATIN SMALL LETTER O WITH ACUTE
-0x00F4		"\u00F4"	# LATIN SMALL LETTER O WITH CIRCUMFLEX
-0x00F5		"\u00F5"	# LATIN SMALL LETTER O WITH TILDE
-0x00F6		"\u00F6"	# LATIN SMALL LETTER O WITH DIAERESIS
-0x00F7		"\u00F7"	# DIVISION SIGN
-0x00F8		"\u00F8"	# LATIN SMALL LETTER O WITH STROKE
-0x00F9		"\u00F9"	# LATIN SMALL LETTER U WITH GRAVE
-0x00FA		"\u00FA"	# LATIN SMALL LETTER U WITH ACUTE
-0x00FB		"\u00FB"	# LATIN SMALL LETTER U WITH CIRCUMFLEX
-0x00FC		"\u00FC"	# LATIN SMALL LETTER U WITH DIAERESIS
-0x00FD		"\u00FD"	# LATIN SMALL LETTER Y WITH ACUTE
-0x00FE		"\u00FE"	# LATIN SMALL LETTER THORN (Icelandic)
-0x00FF		"\u00FF"	# LATIN SMALL LETTER Y WITH DIAERESIS
+0x00F0		"ð"	# LATIN SMALL LETTER ETH (Icelandic)
+0x00F1		"ñ"	# LATIN SMALL LETTER N WITH TILDE
+0x00F2		"ò"	# LATIN SMALL LETTER O WITH GRAVE
+0x00F3		"ó"	# LATIN SMALL LETTER O WITH ACUTE
+0x00F4		"ô"	# LATIN SMALL LETTER O WITH CIRCUMFLEX
+0x00F5		"õ"	# LATIN SMALL LETTER O WITH TILDE
+0x00F6		"ö"	# LATIN SMALL LETTER O WITH DIAERESIS
+0x00F7		"÷"	# DIVISION SIGN
+0x00F8		"ø"	# LATIN SMALL LETTER O WITH STROKE
+0x00F9		"ù"	# LATIN SMALL LETTER U WITH GRAVE
+0x00FA		"ú"	# LATIN SMALL LETTER U WITH ACUTE
+0x00FB		"û"	# LATIN SMALL LETTER U WITH CIRCUMFLEX
+0x00FC		"ü"	# LATIN SMALL LETTER U WITH DIAERESIS
+0x00FD		"ý"	# LATIN SMALL LETTER Y WITH ACUTE
+0x00FE		"þ"	# LATIN SMALL LETTER THORN (Icelandic)
+0x00FF		"ÿ"	# LATIN SMALL LETTER Y WITH DIAERESIS
 
 end
-- 
2.43.0


From 30aa4993182d4fdde2c34030944403f3f838c957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:44 +0000
Subject: [PATCH 14/28] fix: escape everything the generator writes into a C
 string

A default holding a quote or backslash, or a backslash followed by u, gave
a built-in table that did not match its table file.
---
 src/generate_builtin_table.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/generate_builtin_table.c b/src/generate_builtin_table.c
index dcb03e2..15fe883 100644
--- a/src/generate_builtin_table.c
+++ b/src/generate_builtin_table.c
@@ -41,10 +41,7 @@ static char *escape_string(char *in)
                 break;
 
             case '\\':
-                // leave \u and \U alone
-                if (*(in + 1) != 'u' && *(in + 1) != 'U') {
-                    *work++ = '\\';
-                }
+                *work++ = '\\';
                 *work++ = *in++;
                 break;
 
@@ -131,7 +128,7 @@ static void generate_loader(char *filename)
     } else {
         printf(
             "    .default_translation = \"%s\",\n",
-            table->default_translation
+            escape_string(table->default_translation)
         );
     }
 
-- 
2.43.0


From 6b41921cf99db8e440bf0896be6f3bbb0788f578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:59 +0000
Subject: [PATCH 15/28] fix: count lines from the start of each config file

A syntax error in the second or third file was reported with a line number
that included the lines of the files before it.
---
 src/config_file_yacc.c | 1 +
 src/config_file_yacc.y | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/config_file_yacc.c b/src/config_file_yacc.c
index 39d67f2..a5977a7 100644
--- a/src/config_file_yacc.c
+++ b/src/config_file_yacc.c
@@ -1630,6 +1630,7 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
     config_file_t *ret = NULL;
 
     current_filename = filename;
+    config_file_lineno = 1;
 
     /*
      * XXX - Should we be closing the default yyin/yyout?  If so, should we
diff --git a/src/config_file_yacc.y b/src/config_file_yacc.y
index 5164f8c..19d8c37 100644
--- a/src/config_file_yacc.y
+++ b/src/config_file_yacc.y
@@ -181,6 +181,7 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
     config_file_t *ret = NULL;
 
     current_filename = filename;
+    config_file_lineno = 1;
 
     /*
      * XXX - Should we be closing the default yyin/yyout?  If so, should we
-- 
2.43.0


From 0490bf50930967dd693c8ebd625553161565a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:16 +0000
Subject: [PATCH 16/28] fix: check for a failed allocation when reading a
 config file

The strings of a config file were copied without checking the result.
---
 src/config_file_lex.c | 61 ++++++++++++++++++++++---------------------
 src/config_file_lex.l |  5 ++--
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index b3f4c70..07ac578 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -556,11 +556,12 @@ char *yytext;
 
 #include "config_file_yacc.h"
 #include "config_file.h"
+#include "wrapped.h"
 
 int config_file_lineno = 1;
 
-#line 563 "config_file_lex.c"
 #line 564 "config_file_lex.c"
+#line 565 "config_file_lex.c"
 
 #define INITIAL 0
 
@@ -777,10 +778,10 @@ YY_DECL
 		}
 
 	{
-#line 20 "config_file_lex.l"
+#line 21 "config_file_lex.l"
 
 
-#line 784 "config_file_lex.c"
+#line 785 "config_file_lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -839,101 +840,101 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 22 "config_file_lex.l"
+#line 23 "config_file_lex.l"
 { /* ignore whitespace */ }
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 24 "config_file_lex.l"
+#line 25 "config_file_lex.l"
 { /* ignore comments */ }
 	YY_BREAK
 case 3:
 /* rule 3 can match eol */
 YY_RULE_SETUP
-#line 26 "config_file_lex.l"
+#line 27 "config_file_lex.l"
 { config_file_lineno++; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 28 "config_file_lex.l"
+#line 29 "config_file_lex.l"
 { return BUILTIN; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 29 "config_file_lex.l"
+#line 30 "config_file_lex.l"
 { return FILENAME; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 30 "config_file_lex.l"
+#line 31 "config_file_lex.l"
 { return IGNORE; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 31 "config_file_lex.l"
+#line 32 "config_file_lex.l"
 { return ISO8859_1; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 32 "config_file_lex.l"
+#line 33 "config_file_lex.l"
 { return LENGTH; }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 33 "config_file_lex.l"
+#line 34 "config_file_lex.l"
 { return LOWER; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 34 "config_file_lex.l"
+#line 35 "config_file_lex.l"
 { return MAX_LENGTH; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 35 "config_file_lex.l"
+#line 36 "config_file_lex.l"
 { return REMOVE_TRAILING; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 36 "config_file_lex.l"
+#line 37 "config_file_lex.l"
 { return SAFE; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 37 "config_file_lex.l"
+#line 38 "config_file_lex.l"
 { return SEQUENCE; }
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 38 "config_file_lex.l"
+#line 39 "config_file_lex.l"
 { return UNCGI; }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 39 "config_file_lex.l"
+#line 40 "config_file_lex.l"
 { return UTF_8; }
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 40 "config_file_lex.l"
+#line 41 "config_file_lex.l"
 { return WIPEUP; }
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 42 "config_file_lex.l"
+#line 43 "config_file_lex.l"
 { return OPEN; }
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 43 "config_file_lex.l"
+#line 44 "config_file_lex.l"
 { return CLOSE; }
 	YY_BREAK
 case 19:
 /* rule 19 can match eol */
 YY_RULE_SETUP
-#line 45 "config_file_lex.l"
+#line 46 "config_file_lex.l"
 {
-    yylval.string = strdup(yytext+1);
+    yylval.string = wrapped_strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
         printf("Unterminated character string\n");
     }
@@ -945,15 +946,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 56 "config_file_lex.l"
+#line 57 "config_file_lex.l"
 {
-    yylval.string = strdup(yytext);
+    yylval.string = wrapped_strdup(yytext);
     return ID;
 }
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 61 "config_file_lex.l"
+#line 62 "config_file_lex.l"
 {
     yylval.nvalue = atoi(yytext);
     return NVALUE;
@@ -961,15 +962,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 66 "config_file_lex.l"
+#line 67 "config_file_lex.l"
 { return EOL; }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 68 "config_file_lex.l"
+#line 69 "config_file_lex.l"
 ECHO;
 	YY_BREAK
-#line 973 "config_file_lex.c"
+#line 974 "config_file_lex.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1974,6 +1975,6 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 68 "config_file_lex.l"
+#line 69 "config_file_lex.l"
 
 
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index f38ed29..2dc6a9e 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -10,6 +10,7 @@
 
 #include "config_file_yacc.h"
 #include "config_file.h"
+#include "wrapped.h"
 
 int config_file_lineno = 1;
 
@@ -43,7 +44,7 @@ wipeup             { return WIPEUP; }
 [}]     { return CLOSE; }
 
 \"[^\"\n]*[\"\n] {
-    yylval.string = strdup(yytext+1);
+    yylval.string = wrapped_strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
         printf("Unterminated character string\n");
     }
@@ -54,7 +55,7 @@ wipeup             { return WIPEUP; }
 }
 
 [a-zA-Z][a-zA-Z0-9_]* {
-    yylval.string = strdup(yytext);
+    yylval.string = wrapped_strdup(yytext);
     return ID;
 }
 
-- 
2.43.0


From 07bf87b4a8e2de350154cf1a235cecde79f9c9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:11 +0000
Subject: [PATCH 17/28] fix: look up bytes with the high bit set in a safe
 table

Where char is signed they were looked up as huge numbers, so a custom table's
rows for 0x80 to 0xFF had no effect.
---
 src/clean_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index e7a9a52..57ab42c 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -106,7 +106,7 @@ char *clean_safe(char *filename, table_t *table)
     output_walk = output;
 
     while (*input_walk != '\0') {
-        replace_walk = table_get(table, *input_walk);
+        replace_walk = table_get(table, (unsigned char) *input_walk);
         if (replace_walk == NULL) {
             if (table->default_translation == NULL) {
 
-- 
2.43.0


From 12091c6eaaa61c7f084e66a27a3db962ae5d02b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:20 +0000
Subject: [PATCH 18/28] fix: don't write past a quoted string that contains a
 NUL byte

---
 src/config_file_lex.c | 4 +++-
 src/config_file_lex.l | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index 07ac578..467cb4f 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -934,7 +934,9 @@ case 19:
 YY_RULE_SETUP
 #line 46 "config_file_lex.l"
 {
-    yylval.string = wrapped_strdup(yytext+1);
+    /* the string may contain NULs, so copy it by its length */
+    yylval.string = wrapped_malloc(yyleng);
+    memcpy(yylval.string, yytext + 1, yyleng);
     if (yylval.string[yyleng-2] != '"') {
         printf("Unterminated character string\n");
     }
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index 2dc6a9e..c3380a9 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -44,7 +44,9 @@ wipeup             { return WIPEUP; }
 [}]     { return CLOSE; }
 
 \"[^\"\n]*[\"\n] {
-    yylval.string = wrapped_strdup(yytext+1);
+    /* the string may contain NULs, so copy it by its length */
+    yylval.string = wrapped_malloc(yyleng);
+    memcpy(yylval.string, yytext + 1, yyleng);
     if (yylval.string[yyleng-2] != '"') {
         printf("Unterminated character string\n");
     }
-- 
2.43.0


From 7d45697e108a19f76df4f0ba8d4fc6d53e4f9833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:44 +0000
Subject: [PATCH 19/28] fix: refuse a config file with an unterminated string

---
 src/config_file_lex.c | 4 +++-
 src/config_file_lex.l | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index 467cb4f..427840c 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -560,6 +560,8 @@ char *yytext;
 
 int config_file_lineno = 1;
 
+void yyerror(char *s);
+
 #line 564 "config_file_lex.c"
 #line 565 "config_file_lex.c"
 
@@ -938,7 +940,7 @@ YY_RULE_SETUP
     yylval.string = wrapped_malloc(yyleng);
     memcpy(yylval.string, yytext + 1, yyleng);
     if (yylval.string[yyleng-2] != '"') {
-        printf("Unterminated character string\n");
+        yyerror("unterminated character string");
     }
     else {
         yylval.string[yyleng-2] = '\0';
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index c3380a9..5e19952 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -14,6 +14,8 @@
 
 int config_file_lineno = 1;
 
+void yyerror(char *s);
+
 %}
 
 %option noyywrap
@@ -48,7 +50,7 @@ wipeup             { return WIPEUP; }
     yylval.string = wrapped_malloc(yyleng);
     memcpy(yylval.string, yytext + 1, yyleng);
     if (yylval.string[yyleng-2] != '"') {
-        printf("Unterminated character string\n");
+        yyerror("unterminated character string");
     }
     else {
         yylval.string[yyleng-2] = '\0';
-- 
2.43.0


From 0f0332fd3b7196cf32ed09c8d7ff67757d2c6d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:36 +0000
Subject: [PATCH 20/28] fix: escape-utf-8 output that C reads back as the input

---
 src/escape_utf_8.c | 67 ++++++++++++++++++++++++++--------------------
 table/c_escape.tbl | 50 +++++++++++++++++-----------------
 2 files changed, 63 insertions(+), 54 deletions(-)

diff --git a/src/escape_utf_8.c b/src/escape_utf_8.c
index 74f92a9..a9d1a88 100644
--- a/src/escape_utf_8.c
+++ b/src/escape_utf_8.c
@@ -28,12 +28,12 @@
  * Generated from c_escape.tbl
  */
 static table_row_t builtin_c_escape_rows[36] = {
-    { .key  = 0x0001, .data = "\\x01" },
-    { .key  = 0x0002, .data = "\\x02" },
-    { .key  = 0x0003, .data = "\\x03" },
-    { .key  = 0x0004, .data = "\\x04" },
-    { .key  = 0x0005, .data = "\\x05" },
-    { .key  = 0x0006, .data = "\\x06" },
+    { .key  = 0x0001, .data = "\\001" },
+    { .key  = 0x0002, .data = "\\002" },
+    { .key  = 0x0003, .data = "\\003" },
+    { .key  = 0x0004, .data = "\\004" },
+    { .key  = 0x0005, .data = "\\005" },
+    { .key  = 0x0006, .data = "\\006" },
     { .key  = 0x0007, .data = "\\a" },
     { .key  = 0x0008, .data = "\\b" },
     { .key  = 0x0009, .data = "\\t" },
@@ -41,29 +41,29 @@ static table_row_t builtin_c_escape_rows[36] = {
     { .key  = 0x000b, .data = "\\v" },
     { .key  = 0x000c, .data = "\\f" },
     { .key  = 0x000d, .data = "\\r" },
-    { .key  = 0x000e, .data = "\\x0e" },
-    { .key  = 0x000f, .data = "\\x0f" },
-    { .key  = 0x0010, .data = "\\x10" },
-    { .key  = 0x0011, .data = "\\x11" },
-    { .key  = 0x0012, .data = "\\x12" },
-    { .key  = 0x0013, .data = "\\x13" },
-    { .key  = 0x0014, .data = "\\x14" },
-    { .key  = 0x0015, .data = "\\x15" },
-    { .key  = 0x0016, .data = "\\x16" },
-    { .key  = 0x0017, .data = "\\x17" },
-    { .key  = 0x0018, .data = "\\x18" },
-    { .key  = 0x0019, .data = "\\x19" },
-    { .key  = 0x001a, .data = "\\x1a" },
-    { .key  = 0x001b, .data = "\\x1b" },
-    { .key  = 0x001c, .data = "\\x1c" },
-    { .key  = 0x001d, .data = "\\x1d" },
-    { .key  = 0x001e, .data = "\\x1e" },
-    { .key  = 0x001f, .data = "\\x1f" },
+    { .key  = 0x000e, .data = "\\016" },
+    { .key  = 0x000f, .data = "\\017" },
+    { .key  = 0x0010, .data = "\\020" },
+    { .key  = 0x0011, .data = "\\021" },
+    { .key  = 0x0012, .data = "\\022" },
+    { .key  = 0x0013, .data = "\\023" },
+    { .key  = 0x0014, .data = "\\024" },
+    { .key  = 0x0015, .data = "\\025" },
+    { .key  = 0x0016, .data = "\\026" },
+    { .key  = 0x0017, .data = "\\027" },
+    { .key  = 0x0018, .data = "\\030" },
+    { .key  = 0x0019, .data = "\\031" },
+    { .key  = 0x001a, .data = "\\032" },
+    { .key  = 0x001b, .data = "\\033" },
+    { .key  = 0x001c, .data = "\\034" },
+    { .key  = 0x001d, .data = "\\035" },
+    { .key  = 0x001e, .data = "\\036" },
+    { .key  = 0x001f, .data = "\\037" },
     { .key  = 0x0022, .data = "\\\"" },
     { .key  = 0x0027, .data = "\\'" },
     { .key  = 0x003f, .data = "\\?" },
     { .key  = 0x005c, .data = "\\\\" },
-    { .key  = 0x007f, .data = "\\x7f" },
+    { .key  = 0x007f, .data = "\\177" },
 };
 
 static table_t builtin_c_escape_table = {
@@ -85,10 +85,14 @@ static table_t builtin_c_escape_table = {
  * Generates a translation table that escapes everything not between 0x20 and
  * 0x7E (inclusive).
  *
- * For characters 0x01-0x1F and 0x7F, a \x escape sequence is used.  This could
- * be improved, e.g. use \n instead of \x0A and \t instead of \x09.
+ * For characters 0x01-0x1F and 0x7F, a three digit octal escape sequence is
+ * used where no letter exists.  A \x escape sequence would swallow the hex
+ * digits that follow it.
  *
- * For characters 0x80-
+ * For characters 0x80-0x9F, the octal escape sequences of the UTF-8 bytes are
+ * used; C doesn't allow \u for these.
+ *
+ * For characters 0xA0-0x10FFFF, a \u or \U escape sequence is used.
  */
 table_t *generate_c_escape_table(void)
 {
@@ -107,7 +111,12 @@ table_t *generate_c_escape_table(void)
         }
     }
 
-    for (i = 0x80; i < 0x10000; i++) {
+    for (i = 0x80; i < 0xA0; i++) {
+        snprintf(work, MAX_LENGTH, "\\%03o\\%03o", 0xC0 | (i >> 6), 0x80 | (i & 0x3F));
+        table_put(table, i, work);
+    }
+
+    for (; i < 0x10000; i++) {
         snprintf(work, MAX_LENGTH, "\\u%04X", i);
         table_put(table, i, work);
     }
diff --git a/table/c_escape.tbl b/table/c_escape.tbl
index 7da0d85..6254dc6 100644
--- a/table/c_escape.tbl
+++ b/table/c_escape.tbl
@@ -12,12 +12,12 @@
 
 start
 
-0x01		\x01	#  SOH (start of heading)
-0x02		\x02	#  STX (start of text)
-0x03		\x03	#  ETX (end of text)
-0x04		\x04	#  EOT (end of transmission)
-0x05		\x05	#  ENQ (enquiry)
-0x06		\x06	#  ACK (acknowledge)
+0x01		\001	#  SOH (start of heading)
+0x02		\002	#  STX (start of text)
+0x03		\003	#  ETX (end of text)
+0x04		\004	#  EOT (end of transmission)
+0x05		\005	#  ENQ (enquiry)
+0x06		\006	#  ACK (acknowledge)
 0x07		\a	#  BEL '\a' (bell)
 0x08		\b	#  BS  '\b' (backspace)
 0x09		\t	#  HT  '\t' (horizontal tab)
@@ -25,24 +25,24 @@ start
 0x0b		\v	#  VT  '\v' (vertical tab)
 0x0c		\f	#  FF  '\f' (form feed)
 0x0d		\r	#  CR  '\r' (carriage ret)
-0x0e		\x0e	#  SO  (shift out)
-0x0f		\x0f	#  SI  (shift in)
-0x10		\x10	#  DLE (data link escape)
-0x11		\x11	#  DC1 (device control 1)
-0x12		\x12	#  DC2 (device control 2)
-0x13		\x13	#  DC3 (device control 3)
-0x14		\x14	#  DC4 (device control 4)
-0x15		\x15	#  NAK (negative ack.)
-0x16		\x16	#  SYN (synchronous idle)
-0x17		\x17	#  ETB (end of trans. blk)
-0x18		\x18	#  CAN (cancel)
-0x19		\x19	#  EM  (end of medium)
-0x1a		\x1a	#  SUB (substitute)
-0x1b		\x1b	#  ESC (escape)
-0x1c		\x1c	#  FS  (file separator)
-0x1d		\x1d	#  GS  (group separator)
-0x1e		\x1e	#  RS  (record separator)
-0x1f		\x1f	#  US  (unit separator)
+0x0e		\016	#  SO  (shift out)
+0x0f		\017	#  SI  (shift in)
+0x10		\020	#  DLE (data link escape)
+0x11		\021	#  DC1 (device control 1)
+0x12		\022	#  DC2 (device control 2)
+0x13		\023	#  DC3 (device control 3)
+0x14		\024	#  DC4 (device control 4)
+0x15		\025	#  NAK (negative ack.)
+0x16		\026	#  SYN (synchronous idle)
+0x17		\027	#  ETB (end of trans. blk)
+0x18		\030	#  CAN (cancel)
+0x19		\031	#  EM  (end of medium)
+0x1a		\032	#  SUB (substitute)
+0x1b		\033	#  ESC (escape)
+0x1c		\034	#  FS  (file separator)
+0x1d		\035	#  GS  (group separator)
+0x1e		\036	#  RS  (record separator)
+0x1f		\037	#  US  (unit separator)
 
 0x22		'\"'	# "
 
@@ -52,6 +52,6 @@ start
 
 0x5c		\\	# \
 
-0x7f		\x7f	#  DEL
+0x7f		\177	#  DEL
 
 end
-- 
2.43.0


From d2a5c3482835c6d55588aaaf08e33da07a9a702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 21/28] fix: read table lines of any length

Lines over 1023 bytes were taken apart: the end of a long comment was taken
for a row, and a long translation was cut.
---
 src/check_table.c | 58 ++++++++++++++++++++++++++++++++++++++++++-----
 src/parse_table.c | 29 +++++++++++++++++++++---
 2 files changed, 78 insertions(+), 9 deletions(-)

diff --git a/src/check_table.c b/src/check_table.c
index bed22da..072fd7d 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -35,9 +35,11 @@ static table_t *check_table(char *filename, int use_hash)
 {
     FILE *table_file;
     char *work;
+    size_t work_size;
     int code;
     int offset;
     char *parsed;
+    size_t parsed_size;
     int err;
     int size;
     int check_max_data_length;
@@ -84,16 +86,24 @@ static table_t *check_table(char *filename, int use_hash)
         return NULL;
     }
 
-    work = wrapped_malloc(1024);
+    work = NULL;
+    work_size = 0;
 
-    parsed = wrapped_malloc(1024);
+    parsed = NULL;
+    parsed_size = 0;
 
     last = 0;
 
     check_max_data_length = 1;
     state = BASE_STATE;
 
-    while (fgets(work, 1024, table_file) != NULL) {
+    while (getline(&work, &work_size, table_file) != -1) {
+        if (parsed_size < work_size) {
+            free(parsed);
+            parsed = wrapped_malloc(work_size);
+            parsed_size = work_size;
+        }
+
         if (*work == '#') {
 
             /*
@@ -233,6 +243,19 @@ static table_t *check_table(char *filename, int use_hash)
         last = code;
     }
 
+    if (!feof(table_file)) {
+        err = errno;
+        fprintf(stderr, "Unable to read translation table: %s\n", strerror(err));
+        if (err == ENOMEM) {
+            exit(EXIT_FAILURE);
+        }
+        table_free(table);
+        fclose(table_file);
+        free(work);
+        free(parsed);
+        return NULL;
+    }
+
     if (table->max_data_length != check_max_data_length) {
         printf("warning - table max length (%d) doesn't match our calculation (%d)\n", table->max_data_length, check_max_data_length);
     }
@@ -248,9 +271,11 @@ static table_t *check_table_again(char *filename, table_t *source)
 {
     FILE *table_file;
     char *work;
+    size_t work_size;
     int code;
     int offset;
     char *parsed;
+    size_t parsed_size;
     int err;
     int ret;
     int state;
@@ -277,13 +302,21 @@ static table_t *check_table_again(char *filename, table_t *source)
         return NULL;
     }
 
-    work = wrapped_malloc(1024);
+    work = NULL;
+    work_size = 0;
 
-    parsed = wrapped_malloc(1024);
+    parsed = NULL;
+    parsed_size = 0;
 
     state = BASE_STATE;
 
-    while (fgets(work, 1024, table_file) != NULL) {
+    while (getline(&work, &work_size, table_file) != -1) {
+        if (parsed_size < work_size) {
+            free(parsed);
+            parsed = wrapped_malloc(work_size);
+            parsed_size = work_size;
+        }
+
         if (*work == '#') {
 
             /*
@@ -373,6 +406,19 @@ static table_t *check_table_again(char *filename, table_t *source)
         }
     }
 
+    if (!feof(table_file)) {
+        err = errno;
+        fprintf(stderr, "Unable to read translation table: %s\n", strerror(err));
+        if (err == ENOMEM) {
+            exit(EXIT_FAILURE);
+        }
+        table_free(table);
+        fclose(table_file);
+        free(work);
+        free(parsed);
+        return NULL;
+    }
+
     free(work);
     free(parsed);
     fclose(table_file);
diff --git a/src/parse_table.c b/src/parse_table.c
index af1b4e8..93c940b 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -28,9 +28,11 @@ table_t *parse_table(char *filename)
 {
     FILE *table_file;
     char *work;
+    size_t work_size;
     int code;
     int offset;
     char *parsed;
+    size_t parsed_size;
     int err;
     int size;
     int ret;
@@ -77,13 +79,21 @@ table_t *parse_table(char *filename)
         return NULL;
     }
 
-    work = wrapped_malloc(1024);
+    work = NULL;
+    work_size = 0;
 
-    parsed = wrapped_malloc(1024);
+    parsed = NULL;
+    parsed_size = 0;
 
     state = BASE_STATE;
 
-    while (fgets(work, 1024, table_file) != NULL) {
+    while (getline(&work, &work_size, table_file) != -1) {
+        if (parsed_size < work_size) {
+            free(parsed);
+            parsed = wrapped_malloc(work_size);
+            parsed_size = work_size;
+        }
+
         if (*work == '#') {
 
             /*
@@ -203,6 +213,19 @@ table_t *parse_table(char *filename)
         }
     }
 
+    if (!feof(table_file)) {
+        err = errno;
+        fprintf(stderr, "Unable to read translation table: %s\n", strerror(err));
+        if (err == ENOMEM) {
+            exit(EXIT_FAILURE);
+        }
+        table_free(table);
+        fclose(table_file);
+        free(work);
+        free(parsed);
+        return NULL;
+    }
+
     free(work);
     free(parsed);
     fclose(table_file);
-- 
2.43.0


From 6db6729205da03369d5544b41fd3b025d7b0edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:59 +0000
Subject: [PATCH 22/28] fix: read the user's configuration below long
 directories

---
 src/detox_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detox_struct.h b/src/detox_struct.h
index 0df2647..3f57fae 100644
--- a/src/detox_struct.h
+++ b/src/detox_struct.h
@@ -12,7 +12,7 @@
 
 #include <stdlib.h>
 
-#define MAX_PATH_LEN 256
+#define MAX_PATH_LEN 4096
 
 enum {
     FILTER_ISO8859_1 = 1,
-- 
2.43.0


From be018f863e79ba0e0b4c11445ce1b4afa868acf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:50 +0000
Subject: [PATCH 23/28] fix: check-table -b on tables with repeated codes

---
 src/check_table.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/check_table.c b/src/check_table.c
index 072fd7d..6b5834f 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -280,6 +280,7 @@ static table_t *check_table_again(char *filename, table_t *source)
     int ret;
     int state;
     char *check;
+    char *expected;
 
     table_t *table;
 
@@ -395,8 +396,10 @@ static table_t *check_table_again(char *filename, table_t *source)
             sscanf(work + offset, "%s", parsed);
         }
 
+        // a later row may have replaced this one
+        expected = table_get(source, code);
         check = table_get(table, code);
-        if (check == NULL || strcmp(parsed, check) != 0) {
+        if (check == NULL || expected == NULL || strcmp(expected, check) != 0) {
             fprintf(stderr, "Failed to retrieve row 0x%04x \"%s\" in resized translation table\n", code, parsed);
             table_free(table);
             fclose(table_file);
-- 
2.43.0


From 38bccd75aa0ccd3ab95b752c27965c0a8c2c0a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 24/28] fix: report tables that can't be read in check-table
 and generate-builtin-table

---
 src/check_table.c            | 14 ++++++++------
 src/generate_builtin_table.c |  4 ++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/check_table.c b/src/check_table.c
index 6b5834f..4b57a7c 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -476,13 +476,15 @@ int main(int argc, char **argv)
             table = new_table;
             new_table = NULL;
         }
-        if (table) {
-            if (dump) {
-                table_dump(table, verbose);
-            }
-            table_stats(table);
-            table_free(table);
+        if (table == NULL) {
+            fprintf(stderr, "unable to parse file: \"%s\"\n", argv[optind]);
+            return -1;
         }
+        if (dump) {
+            table_dump(table, verbose);
+        }
+        table_stats(table);
+        table_free(table);
     } else {
         printf("please specify a file to operate on\n");
         return -1;
diff --git a/src/generate_builtin_table.c b/src/generate_builtin_table.c
index 15fe883..8328a86 100644
--- a/src/generate_builtin_table.c
+++ b/src/generate_builtin_table.c
@@ -62,6 +62,10 @@ static void generate_loader(char *filename)
     int i;
 
     hold_table = parse_table(filename);
+    if (hold_table == NULL) {
+        fprintf(stderr, "unable to parse file: \"%s\"\n", filename);
+        exit(EXIT_FAILURE);
+    }
 
     table = table_resize(hold_table, hold_table->max_key + 1, 1);
 
-- 
2.43.0


From 1ed8d6f9edaa56334151b679c5ca0a942f5d8af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 25/28] fix: check-table -b crashed on tables that can't be
 read

---
 src/check_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/check_table.c b/src/check_table.c
index 4b57a7c..0a5ce4d 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -470,7 +470,7 @@ int main(int argc, char **argv)
     if (optind < argc) {
         printf("checking: %s\n", argv[optind]);
         table = check_table(argv[optind], use_hash);
-        if (builtin) {
+        if (builtin && table != NULL) {
             new_table = check_table_again(argv[optind], table);
             table_free(table);
             table = new_table;
-- 
2.43.0


From 4335e35effaff0168f432a0787715fc5c94a2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 26/28] fix: generate-builtin-table lost rows, or ran out of
 memory, for tables with very large codes

---
 src/generate_builtin_table.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/generate_builtin_table.c b/src/generate_builtin_table.c
index 8328a86..d653ac3 100644
--- a/src/generate_builtin_table.c
+++ b/src/generate_builtin_table.c
@@ -12,6 +12,7 @@
  */
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <math.h>
 #include <libgen.h>
@@ -55,6 +56,17 @@ static char *escape_string(char *in)
     return ret;
 }
 
+/**
+ * Compares two table rows by key.
+ */
+static int compare_rows(const void *a, const void *b)
+{
+    const table_row_t *left = a;
+    const table_row_t *right = b;
+
+    return (left->key > right->key) - (left->key < right->key);
+}
+
 static void generate_loader(char *filename)
 {
     table_t *table;
@@ -67,7 +79,9 @@ static void generate_loader(char *filename)
         exit(EXIT_FAILURE);
     }
 
-    table = table_resize(hold_table, hold_table->max_key + 1, 1);
+    table = table_resize(hold_table, hold_table->length, 1);
+
+    qsort(table->rows, table->length, sizeof(table_row_t), compare_rows);
 
     printf(
         "\n"
-- 
2.43.0


From 796a00a9aa6407e78b1cebadb4ab541c92bd4d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:18 +0000
Subject: [PATCH 27/28] fix: the output was closed if /dev/null could not be
 opened while reading a configuration

---
 src/config_file_lex.l  | 2 ++
 src/config_file_yacc.y | 7 ++-----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index 5e19952..5be3c35 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -70,4 +70,6 @@ wipeup             { return WIPEUP; }
 
 [;]     { return EOL; }
 
+.       { /* ignore anything else, instead of echoing it */ }
+
 %%
diff --git a/src/config_file_yacc.y b/src/config_file_yacc.y
index 19d8c37..6a1d69d 100644
--- a/src/config_file_yacc.y
+++ b/src/config_file_yacc.y
@@ -175,7 +175,6 @@ string: QSTRING         { $$ = $1; }
 %%
 
 extern FILE *yyin;
-extern FILE *yyout;
 
 config_file_t *parse_config_file(char *filename, config_file_t *previous_results, options_t *main_options) {
     config_file_t *ret = NULL;
@@ -184,15 +183,14 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
     config_file_lineno = 1;
 
     /*
-     * XXX - Should we be closing the default yyin/yyout?  If so, should we
-     * be setting them to NULL at the end of this function?
+     * XXX - Should we be closing the default yyin?  If so, should we be
+     * setting it to NULL at the end of this function?
      */
 
     yyin = fopen(filename, "r");
     if (yyin == NULL) {
         return previous_results;
     }
-    yyout = fopen("/dev/null", "w");
 
     /*
      * Initialize the return variable
@@ -243,7 +241,6 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
     while (!feof(yyin));
 
     fclose(yyin);
-    fclose(yyout);
 
     /*
      * Populate returns
-- 
2.43.0


From ae53de70573543d3b80fc734e4155db43125e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:36 +0000
Subject: [PATCH 28/28] fix: report output that could not be written

---
 src/detox.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/detox.c b/src/detox.c
index 72de8ae..0f0efc4 100644
--- a/src/detox.c
+++ b/src/detox.c
@@ -22,6 +22,27 @@
 #include "parse_options.h"
 #include "sequence.h"
 
+/**
+ * Writes out whatever is left of the output, and fails if any of it could not
+ * be written.
+ */
+static void finish_output(void)
+{
+    int failed;
+
+    failed = ferror(stdout);
+    errno = 0;
+
+    if (fflush(stdout) != 0 || failed) {
+        if (errno != 0) {
+            fprintf(stderr, "detox: unable to write: %s\n", strerror(errno));
+        } else {
+            fprintf(stderr, "detox: unable to write\n");
+        }
+        exit(EXIT_FAILURE);
+    }
+}
+
 int main(int argc, char **argv)
 {
     struct stat stat_info;
@@ -64,6 +85,7 @@ int main(int argc, char **argv)
      */
     if (main_options->list_sequences) {
         dump_config_file(config_file, main_options);
+        finish_output();
         exit(EXIT_SUCCESS);
     }
 
@@ -130,5 +152,7 @@ int main(int argc, char **argv)
         }
     }
 
+    finish_output();
+
     return 0;
 }
-- 
2.43.0

