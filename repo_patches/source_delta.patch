From 73754c7aef474168d7b0c80868151f34766c9d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 01/17] fix: restore setuid and setgid bits when the owner or
 the content changed

chown(2) clears these bits, for root too, and write(2) does so for other
users. A file whose owner was restored ended up without them.
---
 src/restore.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index 44f138d..560af90 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -393,7 +393,8 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
         sChown(node->path, state->uid, state->gid);
       }
     }
-    if(node->hint & BH_permissions_changed)
+    /* Changing the owner may clear the setuid and setgid bits. */
+    if(node->hint & (BH_permissions_changed | BH_owner_changed))
     {
       if(state->type == PST_regular_file)
       {
@@ -410,6 +411,8 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
       if(state->type == PST_regular_file)
       {
         restoreFile(node->path, &state->metadata.file_info, repo_path);
+        /* Writing to a file may clear its setuid and setgid bits. */
+        sChmod(node->path, state->metadata.file_info.permission_bits);
         sUtime(node->path, state->metadata.file_info.modification_time);
       }
       else if(state->type == PST_symlink)
-- 
2.43.0


From ed040fcd93a5c5ab216f026e8c264bedfd02690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 02/17] fix: do not restore files through symlinks

Restoring a file which was replaced by a symlink overwrote the target of the
symlink instead of replacing the symlink itself, and failed if the target
did not exist. The same failure happened for directories.
---
 src/restore.c       | 24 ++++++++++++++++++++++--
 src/safe-wrappers.c | 21 +++++++++++++++++++++
 src/safe-wrappers.h |  1 +
 3 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/restore.c b/src/restore.c
index 560af90..025c4d9 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -117,6 +117,27 @@ static void handleFiletypeChanges(PathNode *node, const PathState *state,
   }
 }
 
+/** Returns the stats of the given path. Symlinks will only be followed if
+  they lead to a directory and a directory is expected. This is the case
+  for symlinks to parent directories of configured paths.
+
+  @param path The path to an existing file.
+  @param expected_type The type which the path should have.
+*/
+static struct stat getStatsForType(StringView path,
+                                   const PathStateType expected_type)
+{
+  const struct stat stats = sLStat(path);
+
+  if(expected_type == PST_directory && S_ISLNK(stats.st_mode) &&
+     sPathLeadsToDirectory(path))
+  {
+    return sStat(path);
+  }
+
+  return stats;
+}
+
 /** Checks the nodes path for changes.
 
   @param node The node representing the path. Its backup hint may be
@@ -131,8 +152,7 @@ static void checkAndHandleChanges(AllocatorPair *allocator_pair,
 {
   if(could_exist && sPathExists(node->path))
   {
-    const struct stat stats =
-      state->type == PST_symlink ? sLStat(node->path) : sStat(node->path);
+    const struct stat stats = getStatsForType(node->path, state->type);
 
     handleFiletypeChanges(node, state, stats);
     if(backupHintNoPol(node->hint) == BH_none)
diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index f03495a..9873411 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -396,6 +396,27 @@ bool sPathExists(StringView path)
   return exists;
 }
 
+/** Returns true if the given path is a directory, or a symlink leading to
+  one. Terminates the program on any unexpected errors. */
+bool sPathLeadsToDirectory(StringView path)
+{
+  const int old_errno = errno;
+  struct stat stats;
+
+  if(stat(nullTerminate(path), &stats) != 0)
+  {
+    if(errno != ENOENT && errno != ENOTDIR && errno != ELOOP)
+    {
+      dieErrno("failed to access \"" PRI_STR "\"", STR_FMT(path));
+    }
+
+    errno = old_errno;
+    return false;
+  }
+
+  return S_ISDIR(stats.st_mode);
+}
+
 /** Safe wrapper around stat(). */
 struct stat sStat(StringView path)
 {
diff --git a/src/safe-wrappers.h b/src/safe-wrappers.h
index a46e615..817c898 100644
--- a/src/safe-wrappers.h
+++ b/src/safe-wrappers.h
@@ -40,6 +40,7 @@ extern StringView sDirGetNext(DirIterator *dir);
 extern void sDirClose(DirIterator *dir);
 
 extern bool sPathExists(StringView path);
+extern bool sPathLeadsToDirectory(StringView path);
 extern struct stat sStat(StringView path);
 extern struct stat sLStat(StringView path);
 extern void sMkdir(StringView path);
-- 
2.43.0


From 3dd9b095dc6c8ddec34dd7bc6dd5fc435f8324c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 03/17] fix: close the race between releasing and acquiring the
 repository lock

The lockfile was removed after it was unlocked. Another process which had
already opened it could lock it, while a third one created and locked a new
lockfile. Both worked on the repository at the same time.
---
 src/repository.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/repository.c b/src/repository.c
index 693f94b..5f72178 100644
--- a/src/repository.c
+++ b/src/repository.c
@@ -403,17 +403,27 @@ static void cleanupLockfile(void *lockfile_info_ptr)
   const int old_errno = errno;
   if(info->is_locked)
   {
-    (void)lockf(info->file_descriptor, F_ULOCK, 0);
-    (void)close(info->file_descriptor);
+    /* Must happen while the lock is still held. Otherwise this would remove
+       the lockfile of another process. */
     (void)remove(info->file_path);
   }
-  else
-  {
-    (void)close(info->file_descriptor);
-  }
+  (void)close(info->file_descriptor);
   errno = old_errno;
 }
 
+/** Returns true if the path of the given lockfile still refers to the file
+  which was opened. It may have been removed by its previous owner. */
+static bool lockfileIsValid(const LockfileInfo *info)
+{
+  struct stat opened_file;
+  struct stat current_file;
+
+  return fstat(info->file_descriptor, &opened_file) == 0 &&
+    lstat(info->file_path, &current_file) == 0 &&
+    opened_file.st_dev == current_file.st_dev &&
+    opened_file.st_ino == current_file.st_ino;
+}
+
 /** Lock the specified repository until the given region gets released. If
   the repository is already locked by another process, the program will be
   terminated with an error message. Calling this function twice from the
@@ -448,6 +458,10 @@ void repoLock(CR_Region *r, StringView repo_path,
 
   if(lockf(lockfile_info->file_descriptor, F_TLOCK, 0) == 0)
   {
+    if(!lockfileIsValid(lockfile_info))
+    {
+      die("repository is already being used by another process");
+    }
     lockfile_info->is_locked = true;
   }
   else if(errno == EACCES || errno == EAGAIN)
-- 
2.43.0


From 02deadc30969e0d91478ede7122f95d8d8f8202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 04/17] fix: do not silently skip a restore if its output
 cannot be written

If printing failed, for example because stdout was redirected to a full disk,
the restore was not done but the program reported success.
---
 src/nb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nb.c b/src/nb.c
index 41240d4..b2abf2f 100644
--- a/src/nb.c
+++ b/src/nb.c
@@ -350,8 +350,9 @@ static void restore(CR_Region *r, StringView repo_arg, const size_t id,
   initiateRestore(metadata, id, full_path);
 
   const ChangeSummary changes = printMetadataChanges(metadata, NULL);
-  if(containsChanges(&changes) && printf("\n") == 1)
+  if(containsChanges(&changes))
   {
+    printf("\n");
     ensureUserConsent("restore?", allocatorWrapOneSingleGrowableBuffer(r));
     finishRestore(metadata, id, repo_arg);
   }
-- 
2.43.0


From d78d3bbb0656802b26b0fe0888819745ee687361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:26 +0000
Subject: [PATCH 05/17] fix: reject an index with a path that has no history

---
 src/metadata.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metadata.c b/src/metadata.c
index 6cde6cf..d08182e 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -443,6 +443,11 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
     node->policy = read8(content, reader_position, metadata_path);
     node->history = readFullPathHistory(
       region_wrapper, content, reader_position, metadata_path, metadata);
+    if(node->history == NULL)
+    {
+      die("path without history in \"" PRI_STR "\": \"" PRI_STR "\"",
+          STR_FMT(metadata_path), STR_FMT(node->path));
+    }
 
     node->subnodes =
       readPathSubnodes(region_wrapper, content, reader_position,
-- 
2.43.0


From e6cc4c5ad8a1ebca755f9da69e6cea23368f877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:46 +0000
Subject: [PATCH 06/17] fix: reject an index with a path which never existed

---
 src/metadata.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/metadata.c b/src/metadata.c
index d08182e..ab6a04b 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -371,6 +371,22 @@ static void writePathHistoryList(const PathHistory *starting_point,
   }
 }
 
+/** @return True if at least one point in the given history represents an
+  existing path. */
+static bool containsExistingState(const PathHistory *starting_point)
+{
+  for(const PathHistory *point = starting_point; point != NULL;
+      point = point->next)
+  {
+    if(point->state.type != PST_non_existing)
+    {
+      return true;
+    }
+  }
+
+  return false;
+}
+
 /** Reads the subnodes of the given parent node recursively.
 
   @param content The content of the file from which the subnodes should be
@@ -443,9 +459,9 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
     node->policy = read8(content, reader_position, metadata_path);
     node->history = readFullPathHistory(
       region_wrapper, content, reader_position, metadata_path, metadata);
-    if(node->history == NULL)
+    if(!containsExistingState(node->history))
     {
-      die("path without history in \"" PRI_STR "\": \"" PRI_STR "\"",
+      die("path which never existed in \"" PRI_STR "\": \"" PRI_STR "\"",
           STR_FMT(metadata_path), STR_FMT(node->path));
     }
 
-- 
2.43.0


From 50fe40f42b30be22b1a3a493e9109b52fff386cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 07/17] fix: back up paths below a directory which returned
 while leaving the track policy

---
 src/backup.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/backup.c b/src/backup.c
index 898f544..2ddf1ed 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -519,6 +519,17 @@ static SearchResultType initiateMetadataRecursively(
 
     metadata->total_path_count = sSizeAdd(metadata->total_path_count, 1);
   }
+  else if(backupHintNoPol(node->hint) == BH_not_part_of_repository)
+  {
+    /* The node was wiped along with the history of its parent, which was
+       no directory at the last backup, but exists again. */
+    node->hint = BH_added;
+    node->policy = result.policy;
+    node->history =
+      buildPathHistoryPoint(allocator_pair->a, metadata, result);
+
+    metadata->total_path_count = sSizeAdd(metadata->total_path_count, 1);
+  }
   else
   {
     handleFoundNode(allocator_pair, metadata, node, result);
-- 
2.43.0


From a17b0eab1488820e676ad531e1e05428db1b7f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 08/17] fix: restore histories below directories which became
 tracked later

---
 src/restore.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index 025c4d9..aa6012c 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -7,6 +7,29 @@
 #include "safe-wrappers.h"
 #include "str.h"
 
+static const PathState *searchPathState(const PathNode *node, size_t id);
+
+/** Checks if any tracked node in the given list existed at the specified
+  backup id. */
+static bool containsTrackedNodeExistingAt(const PathNode *node_list,
+                                          const size_t id)
+{
+  for(const PathNode *node = node_list; node != NULL; node = node->next)
+  {
+    if(node->policy == BPOL_track)
+    {
+      const PathState *state = searchPathState(node, id);
+
+      if(state != NULL && state->type != PST_non_existing)
+      {
+        return true;
+      }
+    }
+  }
+
+  return false;
+}
+
 /** Searches the path state which the given node had during the given
   backup id. If not found, it returns NULL. If the nodes policy doesn't
   support a history, it will return its first path state. */
@@ -18,13 +41,23 @@ static const PathState *searchPathState(const PathNode *node,
     return &node->history->state;
   }
 
-  for(PathHistory *point = node->history; point != NULL;
+  const PathHistory *oldest_point = node->history;
+  for(const PathHistory *point = node->history; point != NULL;
       point = point->next)
   {
     if(point->backup->id >= id)
     {
       return &point->state;
     }
+    oldest_point = point;
+  }
+
+  /* A directory which became tracked later than its content has no history
+     from that time, but must have existed. */
+  if(oldest_point->state.type == PST_directory &&
+     containsTrackedNodeExistingAt(node->subnodes, id))
+  {
+    return &oldest_point->state;
   }
 
   return NULL;
-- 
2.43.0


From ea9ca5eb645eab54bb9202dc8243c31d88020936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 09/17] fix: verify that a file copied into the repository
 matches its hash

A file which changed between the computation of its hash and its copying
was stored under the wrong hash. The backup reported success, but failed
the integrity check.
---
 src/backup.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index 2ddf1ed..c1f953a 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -3,6 +3,7 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include "BLAKE2/blake2.h"
 #include "CRegion/alloc-growable.h"
 
 #include "backup-helpers.h"
@@ -631,12 +632,16 @@ static void copyFileIntoRepo(PathNode *node, StringView repo_path,
 
   io_buffer = CR_EnsureCapacity(io_buffer, blocksize);
 
+  blake2b_state state;
+  blake2b_init(&state, FILE_HASH_SIZE);
+
   while(bytes_left > 0)
   {
     const size_t bytes_to_read =
       bytes_left > blocksize ? blocksize : bytes_left;
 
     sFread(io_buffer, bytes_to_read, reader);
+    blake2b_update(&state, io_buffer, bytes_to_read);
     repoWriterWrite(io_buffer, bytes_to_read, writer);
 
     bytes_left -= bytes_to_read;
@@ -645,7 +650,12 @@ static void copyFileIntoRepo(PathNode *node, StringView repo_path,
   const bool stream_not_at_end = sFbytesLeft(reader);
   sFclose(reader);
 
-  if(stream_not_at_end)
+  /* Ensure that the stored content matches the already computed hash. */
+  uint8_t copied_hash[FILE_HASH_SIZE];
+  blake2b_final(&state, copied_hash, FILE_HASH_SIZE);
+
+  if(stream_not_at_end ||
+     memcmp(copied_hash, file_info->hash, FILE_HASH_SIZE) != 0)
   {
     die("file has changed during backup: \"" PRI_STR "\"",
         STR_FMT(node->path));
-- 
2.43.0


From aa8c24bffb4517c92c9ccebc2b2d4892b5a0b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 10/17] fix: do not recurse once per skipped entry while
 searching a directory

A directory with many entries which are not part of the backup, or a
config with many paths which do not exist, exhausted the stack.
---
 src/search.c | 116 +++++++++++++++++++++++++++------------------------
 1 file changed, 61 insertions(+), 55 deletions(-)

diff --git a/src/search.c b/src/search.c
index 0675775..2536b75 100644
--- a/src/search.c
+++ b/src/search.c
@@ -241,6 +241,23 @@ static bool nodeMatches(const SearchNode *node, StringView string)
   return strIsEqual(node->name, string);
 }
 
+/** Matches the current path of the given iterator against its ignore
+  expressions and updates the `has_matched` field of the first match. */
+static bool currentPathIsIgnored(SearchIterator *iterator)
+{
+  for(RegexList *element = iterator->ignore_expressions; element != NULL;
+      element = element->next)
+  {
+    if(sRegexIsMatching(element->regex, iterator->current_path))
+    {
+      element->has_matched = true;
+      return true;
+    }
+  }
+
+  return false;
+}
+
 /** Completes a search step by querying the next file from the currently
   active directory stream. If this file is a directory, a recursion step
   into it will be initialized.
@@ -252,62 +269,53 @@ static bool nodeMatches(const SearchNode *node, StringView string)
 */
 static SearchResult finishSearchStep(SearchIterator *iterator)
 {
-  StringView entry = sDirGetNext(iterator->state.access.search.dir);
-  if(strIsEmpty(entry))
+  while(true)
   {
-    sDirClose(iterator->state.access.search.dir);
-    return finishDirectory(iterator);
-  }
+    StringView entry = sDirGetNext(iterator->state.access.search.dir);
+    if(strIsEmpty(entry))
+    {
+      sDirClose(iterator->state.access.search.dir);
+      return finishDirectory(iterator);
+    }
 
-  /* Create new path for matching. */
-  StringView dir_entry_name = strSplitPath(entry).tail;
-  replaceCurrentFilename(iterator, dir_entry_name);
+    /* Create new path for matching. */
+    StringView dir_entry_name = strSplitPath(entry).tail;
+    replaceCurrentFilename(iterator, dir_entry_name);
 
-  /* Match subnodes against dir_entry. */
-  SearchNode *matched_node = NULL;
-  for(SearchNode *node = iterator->state.access.search.subnodes;
-      node != NULL; node = node->next)
-  {
-    if(nodeMatches(node, dir_entry_name))
+    /* Match subnodes against dir_entry. */
+    SearchNode *matched_node = NULL;
+    for(SearchNode *node = iterator->state.access.search.subnodes;
+        node != NULL; node = node->next)
     {
-      if(matched_node == NULL)
-      {
-        matched_node = node;
-      }
-      else
+      if(nodeMatches(node, dir_entry_name))
       {
-        warnNodeMatches(node, dir_entry_name);
-        warnNodeMatches(matched_node, dir_entry_name);
-        die("ambiguous rules for path: \"" PRI_STR "\"",
-            STR_FMT(iterator->current_path));
+        if(matched_node == NULL)
+        {
+          matched_node = node;
+        }
+        else
+        {
+          warnNodeMatches(node, dir_entry_name);
+          warnNodeMatches(matched_node, dir_entry_name);
+          die("ambiguous rules for path: \"" PRI_STR "\"",
+              STR_FMT(iterator->current_path));
+        }
       }
     }
-  }
 
-  if(matched_node != NULL)
-  {
-    return finishNodeStep(iterator, matched_node, matched_node->policy);
-  }
-
-  /* Skip current path, if no fallback policy was defined. */
-  if(iterator->state.access.search.fallback_policy == BPOL_none)
-  {
-    return finishSearchStep(iterator);
-  }
+    if(matched_node != NULL)
+    {
+      return finishNodeStep(iterator, matched_node, matched_node->policy);
+    }
 
-  /* Match against ignore expressions. */
-  for(RegexList *element = iterator->ignore_expressions; element != NULL;
-      element = element->next)
-  {
-    if(sRegexIsMatching(element->regex, iterator->current_path))
+    /* Skip current path, if no fallback policy was defined. */
+    const BackupPolicy fallback_policy =
+      iterator->state.access.search.fallback_policy;
+    if(fallback_policy != BPOL_none && !currentPathIsIgnored(iterator))
     {
-      element->has_matched = true;
-      return finishSearchStep(iterator);
+      return finishNodeStep(iterator, NULL, fallback_policy);
     }
   }
-
-  return finishNodeStep(iterator, NULL,
-                        iterator->state.access.search.fallback_policy);
 }
 
 /** Completes a search step by directly accessing next node available in
@@ -319,22 +327,20 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
 */
 static SearchResult finishCurrentNode(SearchIterator *iterator)
 {
-  if(iterator->state.access.current_node == NULL)
+  while(iterator->state.access.current_node != NULL)
   {
-    return finishDirectory(iterator);
-  }
-
-  SearchNode *node = iterator->state.access.current_node;
-  iterator->state.access.current_node = node->next;
+    SearchNode *node = iterator->state.access.current_node;
+    iterator->state.access.current_node = node->next;
 
-  replaceCurrentFilename(iterator, node->name);
+    replaceCurrentFilename(iterator, node->name);
 
-  if(sPathExists(iterator->current_path))
-  {
-    return finishNodeStep(iterator, node, node->policy);
+    if(sPathExists(iterator->current_path))
+    {
+      return finishNodeStep(iterator, node, node->policy);
+    }
   }
 
-  return finishCurrentNode(iterator);
+  return finishDirectory(iterator);
 }
 
 /** Creates a new SearchIterator for searching the filesystem.
-- 
2.43.0


From f57f007510f1b1b3858b40b80b673ef8abecf47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 11/17] fix: do not prefix entries of the root directory with
 two slashes

Configs selecting the root directory, or containing a regex for its
entries, recorded paths like "//home". Neither more specific rules nor
ignore expressions starting with "^/" have matched them.
---
 src/safe-wrappers.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index 9873411..966b044 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -321,7 +321,12 @@ StringView sDirGetNext(DirIterator *dir)
     return str("");
   }
 
-  return strAppendPath(dir->directory_path, str(dir_entry->d_name),
+  /* Prevent paths in the root directory from starting with two slashes. */
+  StringView parent_path = strIsEqual(dir->directory_path, str("/"))
+    ? str("")
+    : dir->directory_path;
+
+  return strAppendPath(parent_path, str(dir_entry->d_name),
                        dir->returned_result_buffer);
 }
 
-- 
2.43.0


From a11687e7c87f1d0e61a0c4731cff23c96358958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:39 +0000
Subject: [PATCH 12/17] fix: strip the second slash from entries of the root
 directory in the search only

Replaces the previous fix in sDirGetNext(), which made the garbage collector
miscompute the relative paths inside of a repository at "/".
---
 src/safe-wrappers.c |  7 +------
 src/search.c        | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index 966b044..9873411 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -321,12 +321,7 @@ StringView sDirGetNext(DirIterator *dir)
     return str("");
   }
 
-  /* Prevent paths in the root directory from starting with two slashes. */
-  StringView parent_path = strIsEqual(dir->directory_path, str("/"))
-    ? str("")
-    : dir->directory_path;
-
-  return strAppendPath(parent_path, str(dir_entry->d_name),
+  return strAppendPath(dir->directory_path, str(dir_entry->d_name),
                        dir->returned_result_buffer);
 }
 
diff --git a/src/search.c b/src/search.c
index 2536b75..8e0c7c3 100644
--- a/src/search.c
+++ b/src/search.c
@@ -258,6 +258,21 @@ static bool currentPathIsIgnored(SearchIterator *iterator)
   return false;
 }
 
+/** Returns the last element of the given directory entries path. Unlike
+  strSplitPath() it will never start with a slash, which is the case for
+  entries inside the root directory. */
+static StringView getEntryName(StringView entry)
+{
+  StringView tail = strSplitPath(entry).tail;
+
+  if(tail.length > 0 && tail.content[0] == '/')
+  {
+    return strUnterminated(&tail.content[1], tail.length - 1);
+  }
+
+  return tail;
+}
+
 /** Completes a search step by querying the next file from the currently
   active directory stream. If this file is a directory, a recursion step
   into it will be initialized.
@@ -279,7 +294,7 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
     }
 
     /* Create new path for matching. */
-    StringView dir_entry_name = strSplitPath(entry).tail;
+    StringView dir_entry_name = getEntryName(entry);
     replaceCurrentFilename(iterator, dir_entry_name);
 
     /* Match subnodes against dir_entry. */
-- 
2.43.0


From d6f26b9c7d2622fa3b8e953aa29faa7c6f05273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 13/17] fix: remove stale temporary files instead of truncating
 them

After a crash in the middle of a rename the temporary file can still refer
to the content of a stored file, which the next backup would overwrite.
---
 src/repository.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/repository.c b/src/repository.c
index 5f72178..f127421 100644
--- a/src/repository.c
+++ b/src/repository.c
@@ -116,11 +116,29 @@ static void fillPathBufferWithInfo(StringView repo_path,
   buildFilePath(hash_buffer, info);
 }
 
+/** Removes the temporary file left behind by an interrupted backup. If the
+  system crashed while renaming it, it may still refer to the content of an
+  already stored file and opening it would truncate that file. */
+static void removeStaleTmpFile(StringView repo_tmp_file_path)
+{
+  const int old_errno = errno;
+  char *path = strCopyRaw(repo_tmp_file_path, allocatorWrapMalloc());
+
+  if(remove(path) != 0 && errno != ENOENT && errno != ENOTDIR)
+  {
+    dieErrno("failed to remove \"%s\"", path);
+  }
+
+  free(path);
+  errno = old_errno;
+}
+
 static RepoWriter *createRepoWriter(StringView repo_path,
                                     StringView repo_tmp_file_path,
                                     StringView source_file_path,
                                     const bool raw_mode)
 {
+  removeStaleTmpFile(repo_tmp_file_path);
   FileStream *stream = sFopenWrite(repo_tmp_file_path);
   RepoWriter *writer = sMalloc(sizeof *writer);
 
-- 
2.43.0


From 33d0c38f1d5e8134546d3a2f5f2a94cf024fa45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 14/17] fix: let unprivileged users restore the content of
 read-only directories and files

---
 src/restore.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/restore.c b/src/restore.c
index aa6012c..ae47e78 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -363,7 +363,16 @@ void restoreFile(StringView path, const RegularFileInfo *info,
   }
 }
 
-/** Restores a path depending on the given state.
+/** Returns the permission bits of the given directory, extended by those
+  which its owner needs for restoring the content of this directory. */
+static mode_t accessibleBits(const PathState *state)
+{
+  return state->metadata.directory_info.permission_bits | S_IRWXU;
+}
+
+/** Restores a path depending on the given state. The owner of a restored
+  directory can always access it, the remaining permission bits must be
+  applied after its content was restored.
 
   @param node The node representing the path to restore.
   @param state The state to which the path should be restored.
@@ -388,7 +397,7 @@ static void restorePath(const PathNode *node, const PathState *state,
   {
     sMkdir(node->path);
     sChown(node->path, state->uid, state->gid);
-    sChmod(node->path, state->metadata.directory_info.permission_bits);
+    sChmod(node->path, accessibleBits(state));
     sUtime(node->path, state->metadata.directory_info.modification_time);
   }
 }
@@ -405,6 +414,7 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
                                      StringView repo_path)
 {
   bool affects_parent_timestamp = false;
+  bool affects_permissions = false;
 
   const PathState *state = searchExistingPathState(node, id);
   if(state == NULL)
@@ -416,6 +426,7 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
   {
     restorePath(node, state, repo_path);
     affects_parent_timestamp = true;
+    affects_permissions = true;
   }
   else if(backupHintNoPol(node->hint) >= BH_regular_to_symlink &&
           backupHintNoPol(node->hint) <= BH_other_to_directory)
@@ -432,6 +443,7 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
 
     restorePath(node, state, repo_path);
     affects_parent_timestamp = true;
+    affects_permissions = true;
   }
   else if(node->policy != BPOL_none)
   {
@@ -455,7 +467,8 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
       }
       else if(state->type == PST_directory)
       {
-        sChmod(node->path, state->metadata.directory_info.permission_bits);
+        sChmod(node->path, accessibleBits(state));
+        affects_permissions = true;
       }
     }
 
@@ -463,6 +476,8 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
     {
       if(state->type == PST_regular_file)
       {
+        sChmod(node->path,
+               state->metadata.file_info.permission_bits | S_IWUSR);
         restoreFile(node->path, &state->metadata.file_info, repo_path);
         /* Writing to a file may clear its setuid and setgid bits. */
         sChmod(node->path, state->metadata.file_info.permission_bits);
@@ -504,6 +519,10 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
     {
       sUtime(node->path, state->metadata.directory_info.modification_time);
     }
+    if(affects_permissions)
+    {
+      sChmod(node->path, state->metadata.directory_info.permission_bits);
+    }
   }
 
   return affects_parent_timestamp;
-- 
2.43.0


From e1dcfa96843149e2b156b948578085672c54ee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 15/17] fix: restore files shared with other paths by replacing
 them instead of changing those paths, too

---
 src/restore.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/restore.c b/src/restore.c
index ae47e78..aa6cfa6 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -445,6 +445,15 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
     affects_parent_timestamp = true;
     affects_permissions = true;
   }
+  else if(node->policy != BPOL_none && node->hint != BH_none &&
+          state->type == PST_regular_file &&
+          sLStat(node->path).st_nlink > 1)
+  {
+    /* Other paths leading to the same file must not be changed. */
+    sRemove(node->path);
+    restorePath(node, state, repo_path);
+    affects_parent_timestamp = true;
+  }
   else if(node->policy != BPOL_none)
   {
     if(node->hint & BH_owner_changed)
-- 
2.43.0


From 67a8e1a0daf1d6e7b459cb5712da3fac2443f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 16/17] fix: do not announce attributes of directories without
 a policy, which are not restored

---
 src/informations.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/informations.c b/src/informations.c
index eeb7101..89c0310 100644
--- a/src/informations.c
+++ b/src/informations.c
@@ -148,6 +148,17 @@ static void incrementExtraChangedAttributes(ChangeSummary *changes,
   }
 }
 
+/** Returns true if the given hint consists of nothing but changes to the
+  owner, permissions or timestamp. Directories without a policy are not
+  restored in this case. */
+static bool onlyAttributesChanged(const BackupHint hint)
+{
+  const int attributes =
+    BH_owner_changed | BH_permissions_changed | BH_timestamp_changed;
+
+  return ((int)hint & attributes) != 0 && ((int)hint & ~attributes) == 0;
+}
+
 /** Adds statistics about the given nodes current change type to the
   specified change structure.
 
@@ -194,9 +205,7 @@ static void addNode(const PathNode *node, ChangeSummary *changes,
     incrementExtraChangedAttributes(changes, hint);
   }
   else if(node->hint > BH_unchanged &&
-          (node->policy != BPOL_none ||
-           (node->hint < BH_owner_changed ||
-            node->hint > BH_timestamp_changed)))
+          (node->policy != BPOL_none || !onlyAttributesChanged(node->hint)))
   {
     changes->other_changes_exist = true;
     changes->affects_parent_timestamp |=
@@ -546,8 +555,7 @@ static ChangeSummary recursePrintOverTree(const Metadata *metadata,
     else if(print && node->hint > BH_unchanged &&
             !(node->policy == BPOL_none &&
               (node->hint == BH_added ||
-               (node->hint >= BH_owner_changed &&
-                node->hint <= BH_timestamp_changed))))
+               onlyAttributesChanged(node->hint))))
     {
       const bool print_subnodes =
         backupHintNoPol(node->hint) > BH_other_to_directory;
-- 
2.43.0


From 427661bd31d09a379696e232aeb4b5dc57154175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:03 +0000
Subject: [PATCH 17/17] fix: print what changed below directories of which only
 the policy changed

---
 src/informations.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/informations.c b/src/informations.c
index 89c0310..2e5876d 100644
--- a/src/informations.c
+++ b/src/informations.c
@@ -521,6 +521,9 @@ static bool matchesRegexList(const PathNode *node,
   whether this node should be printed recursively or not. Can be NULL. May
   update the `has_matched` field in the list.
   @param print True, if informations should be printed.
+  @param announced_policy The policy to which the parent of the given list
+  has changed, or BPOL_none. Nodes which only changed to this policy will
+  not be printed.
 
   @return Statistics about all the nodes locatable trough the given path
   list.
@@ -528,13 +531,17 @@ static bool matchesRegexList(const PathNode *node,
 static ChangeSummary recursePrintOverTree(const Metadata *metadata,
                                           const PathNode *path_list,
                                           RegexList *summarize_expressions,
-                                          const bool print)
+                                          const bool print,
+                                          const BackupPolicy announced_policy)
 {
   ChangeSummary changes = { 0 };
 
   for(const PathNode *node = path_list; node != NULL; node = node->next)
   {
     ChangeSummary summary;
+    const bool only_announced_policy_changed =
+      node->hint == BH_policy_changed && announced_policy != BPOL_none &&
+      node->policy == announced_policy;
     const bool summarize = node->policy != BPOL_none &&
       getExistingState(node)->type == PST_directory &&
       matchesRegexList(node, summarize_expressions);
@@ -546,23 +553,28 @@ static ChangeSummary recursePrintOverTree(const Metadata *metadata,
     if(print && summarize)
     {
       summary = recursePrintOverTree(metadata, node->subnodes,
-                                     expressions_to_pass_down, false);
+                                     expressions_to_pass_down, false,
+                                     BPOL_none);
       if(node->hint > BH_unchanged || containsChanges(&summary))
       {
         printNode(node, &summary, summarize);
       }
     }
     else if(print && node->hint > BH_unchanged &&
+            !only_announced_policy_changed &&
             !(node->policy == BPOL_none &&
               (node->hint == BH_added ||
                onlyAttributesChanged(node->hint))))
     {
-      const bool print_subnodes =
+      const bool only_policy_changed =
+        backupHintNoPol(node->hint) <= BH_unchanged;
+      const bool print_subnodes = only_policy_changed ||
         backupHintNoPol(node->hint) > BH_other_to_directory;
 
       summary =
         recursePrintOverTree(metadata, node->subnodes,
-                             expressions_to_pass_down, print_subnodes);
+                             expressions_to_pass_down, print_subnodes,
+                             only_policy_changed ? node->policy : BPOL_none);
 
       if(!(node->hint == BH_timestamp_changed &&
            summary.affects_parent_timestamp))
@@ -573,7 +585,10 @@ static ChangeSummary recursePrintOverTree(const Metadata *metadata,
     else
     {
       summary = recursePrintOverTree(metadata, node->subnodes,
-                                     expressions_to_pass_down, print);
+                                     expressions_to_pass_down, print,
+                                     only_announced_policy_changed
+                                       ? announced_policy
+                                       : BPOL_none);
     }
 
     addNode(node, &changes, summary.affects_parent_timestamp);
@@ -637,7 +652,7 @@ ChangeSummary printMetadataChanges(const Metadata *metadata,
                                    RegexList *summarize_expressions)
 {
   return recursePrintOverTree(metadata, metadata->paths,
-                              summarize_expressions, true);
+                              summarize_expressions, true, BPOL_none);
 }
 
 bool containsChanges(const ChangeSummary *changes)
-- 
2.43.0

