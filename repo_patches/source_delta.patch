From ea10432e1fa4718b94492bf364b773f6e491e1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:13 +0000
Subject: [PATCH 01/27] fix: Don't infer anything about other IDs from
 -uid/-gid being false

-gid N implies a value for -nogroup when it's true, but when it's false,
nothing is known about -nogroup.  Same for -uid and -nouser.
---
 src/opt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 49e8873..e9edb06 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1655,7 +1655,7 @@ static struct bfs_expr *data_flow_gid(struct bfs_opt *opt, struct bfs_expr *expr
 		gid_t gid = range->min;
 		bool nogroup = !bfs_getgrgid(opt->ctx->groups, gid);
 		if (errno == 0) {
-			data_flow_pred(opt, NOGROUP_PRED, nogroup);
+			constrain_pred(&opt->after_true.preds[NOGROUP_PRED], nogroup);
 		}
 	}
 
@@ -1729,7 +1729,7 @@ static struct bfs_expr *data_flow_uid(struct bfs_opt *opt, struct bfs_expr *expr
 		uid_t uid = range->min;
 		bool nouser = !bfs_getpwuid(opt->ctx->users, uid);
 		if (errno == 0) {
-			data_flow_pred(opt, NOUSER_PRED, nouser);
+			constrain_pred(&opt->after_true.preds[NOUSER_PRED], nouser);
 		}
 	}
 
-- 
2.43.0


From a966bbe9b826c04a8d2f4a9504694b842355d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:13 +0000
Subject: [PATCH 02/27] fix: Flush -execdir ... + whenever the directory
 changes

The check only compared the new path to the old directory, not the new
directory itself, so e.g. a/b/c (run from a/b/) followed by a/b/ (run
from a/) were wrongly put in the same command.
---
 src/exec.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index 45c9f1d..123915c 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -574,7 +574,12 @@ static int bfs_exec_flush(struct bfs_exec *execbuf) {
 /** Check if we need to flush the execbuf because we're changing directories. */
 static bool bfs_exec_changed_dirs(const struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 	if (execbuf->flags & BFS_EXEC_CHDIR) {
-		if (ftwbuf->nameoff > execbuf->wd_len
+		size_t wd_len = ftwbuf->nameoff;
+		if (wd_len == 0 && ftwbuf->path[0] == '/') {
+			++wd_len;
+		}
+
+		if (wd_len != execbuf->wd_len
 		    || (execbuf->wd_path && strncmp(ftwbuf->path, execbuf->wd_path, execbuf->wd_len) != 0)) {
 			bfs_exec_debug(execbuf, "Changed directories, executing buffered command\n");
 			return true;
-- 
2.43.0


From 8a831e050f5042a9aa42a1167d313456c5a774f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:13 +0000
Subject: [PATCH 03/27] fix: Don't abort if -execdir ... + can't open the
 directory

The failed working directory state was left behind, so the next file
from the same directory failed an assertion in bfs_exec_openwd().
---
 src/exec.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index 123915c..de50f49 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -642,6 +642,9 @@ static int bfs_exec_multi(struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 
 	if ((execbuf->flags & BFS_EXEC_CHDIR) && execbuf->wd_fd < 0) {
 		if (bfs_exec_openwd(execbuf, ftwbuf) != 0) {
+			int error = errno;
+			bfs_exec_closewd(execbuf, ftwbuf);
+			errno = error;
 			ret = -1;
 			goto out_arg;
 		}
-- 
2.43.0


From 4b2d5070509fdb4cc6fe72c46dcf30a79890c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:36 +0000
Subject: [PATCH 04/27] fix: Keep data flow facts when an ignored expression
 becomes -false

When the result of a pure expression is ignored, it's replaced with
-false, so control always continues through after_false.  The facts from
the case where the original expression was true must be included there,
otherwise code after it may be treated as unreachable.
---
 src/opt.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index e9edb06..c183bbc 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1841,10 +1841,15 @@ done:
 /** Data flow visitor function. */
 static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *expr, const struct visitor *visitor) {
 	if (opt->ignore_result) {
-		expr = opt_ignore(opt, expr, false);
-		if (!expr) {
+		struct bfs_expr *ignored = opt_ignore(opt, expr, false);
+		if (!ignored) {
 			return NULL;
 		}
+		if (ignored != expr) {
+			// The replacement is always false, no matter what the original was
+			df_join(&opt->after_false, &opt->after_true);
+			expr = ignored;
+		}
 	}
 
 	if (df_is_bottom(&opt->before)) {
-- 
2.43.0


From abe0360cc81ed671690aca8239a7018a3abe479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:50 +0000
Subject: [PATCH 05/27] fix: Don't mix up different -size units in the
 optimizer

The data flow analysis compared the numbers alone, so for example
-size +5k -size -3M was considered always false.
---
 src/opt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opt.c b/src/opt.c
index c183bbc..ef36b0c 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1898,6 +1898,10 @@ static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *ex
 
 	for (size_t i = 0; i < countof(ranges); ++i) {
 		if (ranges[i].eval_fn == expr->eval_fn) {
+			if (ranges[i].range == SIZE_RANGE && expr->size_unit != BFS_BYTES) {
+				// We only track sizes in bytes
+				break;
+			}
 			data_flow_icmp(opt, expr, ranges[i].range);
 			break;
 		}
-- 
2.43.0


From c8f4786198c7700166096f4411315f690520c6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:44 +0000
Subject: [PATCH 06/27] fix: Don't exclude an inode number when -samefile is
 false

Inode numbers are only unique per device, so a file that isn't the
-samefile target can still have the same inode number.
---
 src/opt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index ef36b0c..6508195 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1697,8 +1697,8 @@ static struct bfs_expr *data_flow_samefile(struct bfs_opt *opt, struct bfs_expr
 	struct df_range *true_range = &opt->after_true.ranges[INUM_RANGE];
 	constrain_range(true_range, expr->ino);
 
-	struct df_range *false_range = &opt->after_false.ranges[INUM_RANGE];
-	range_remove(false_range, expr->ino);
+	// Files on other devices may have the same inode number, so there's
+	// nothing to learn about it if -samefile is false
 
 	return expr;
 }
-- 
2.43.0


From 8992a276dac88ea79cd15e2eaa53f7c6b4f74dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:25 +0000
Subject: [PATCH 07/27] fix: Don't confuse overlapping roots in -S ids/eds

Pruning a path under one root also pruned the same path under another,
even if it was found at a different depth there (for example, with
-maxdepth).
---
 src/bftw.c | 66 ++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 9 deletions(-)

diff --git a/src/bftw.c b/src/bftw.c
index f822456..453572c 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2175,6 +2175,56 @@ struct bftw_ids_state {
 	bool bottom;
 };
 
+/**
+ * Get the key for the set of pruned paths.
+ *
+ * The same path can be found at different depths, if one root is inside of
+ * another, so the key has to include the depth.
+ */
+static char *bftw_ids_key(const struct BFTW *ftwbuf, size_t *len) {
+	size_t path_size = strlen(ftwbuf->path) + 1;
+	*len = sizeof(ftwbuf->depth) + path_size;
+
+	char *key = malloc(*len);
+	if (key) {
+		memcpy(key, &ftwbuf->depth, sizeof(ftwbuf->depth));
+		memcpy(key + sizeof(ftwbuf->depth), ftwbuf->path, path_size);
+	}
+	return key;
+}
+
+/** Check if a path was pruned. */
+static int bftw_ids_pruned(struct bftw_ids_state *state, const struct BFTW *ftwbuf) {
+	size_t len;
+	char *key = bftw_ids_key(ftwbuf, &len);
+	if (!key) {
+		state->nested.error = errno;
+		return -1;
+	}
+
+	bool ret = trie_find_mem(&state->pruned, key, len);
+	free(key);
+	return ret;
+}
+
+/** Prune a path. */
+static int bftw_ids_prune(struct bftw_ids_state *state, const struct BFTW *ftwbuf) {
+	size_t len;
+	char *key = bftw_ids_key(ftwbuf, &len);
+	if (!key) {
+		state->nested.error = errno;
+		return -1;
+	}
+
+	int ret = 0;
+	if (!trie_insert_mem(&state->pruned, key, len)) {
+		state->nested.error = errno;
+		ret = -1;
+	}
+	free(key);
+	return ret;
+}
+
 /** Iterative deepening callback function. */
 static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr) {
 	struct bftw_ids_state *state = ptr;
@@ -2192,16 +2242,15 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		}
 	}
 
-	if (ftwbuf->depth < state->min_depth) {
-		if (trie_find_str(&state->pruned, ftwbuf->path)) {
+	if (ftwbuf->depth < state->min_depth || state->visit == BFTW_POST) {
+		int pruned = bftw_ids_pruned(state, ftwbuf);
+		if (pruned < 0) {
+			return BFTW_STOP;
+		} else if (pruned) {
 			return BFTW_PRUNE;
-		} else {
+		} else if (ftwbuf->depth < state->min_depth) {
 			return BFTW_CONTINUE;
 		}
-	} else if (state->visit == BFTW_POST) {
-		if (trie_find_str(&state->pruned, ftwbuf->path)) {
-			return BFTW_PRUNE;
-		}
 	}
 
 	enum bftw_action ret = BFTW_CONTINUE;
@@ -2219,8 +2268,7 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 
 	case BFTW_PRUNE:
 		if (ftwbuf->type == BFS_DIR) {
-			if (!trie_insert_str(&state->pruned, ftwbuf->path)) {
-				state->nested.error = errno;
+			if (bftw_ids_prune(state, ftwbuf) != 0) {
 				ret = BFTW_STOP;
 			}
 		}
-- 
2.43.0


From 831f91f005c4c8a5334deb9433030554fccc002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:58 +0000
Subject: [PATCH 08/27] fix: Don't revisit pruned non-directories in -S ids
 -depth

Iterative deepening with -depth visits every file twice, but only pruned
directories were remembered between the visits.  As a result, -unique
had no effect on hard links, and -X errors were reported twice.
---
 src/bftw.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bftw.c b/src/bftw.c
index 453572c..0e49f69 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2171,6 +2171,8 @@ struct bftw_ids_state {
 	size_t max_depth;
 	/** The set of pruned paths. */
 	struct trie pruned;
+	/** Whether to remember pruned non-directories too. */
+	bool prune_all;
 	/** Whether the bottom has been found. */
 	bool bottom;
 };
@@ -2267,7 +2269,7 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		break;
 
 	case BFTW_PRUNE:
-		if (ftwbuf->type == BFS_DIR) {
+		if (ftwbuf->type == BFS_DIR || state->prune_all) {
 			if (bftw_ids_prune(state, ftwbuf) != 0) {
 				ret = BFTW_STOP;
 			}
@@ -2290,6 +2292,7 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 	state->min_depth = 0;
 	state->max_depth = 1;
 	trie_init(&state->pruned);
+	state->prune_all = false;
 	state->bottom = false;
 
 	struct bftw_args ids_args = *args;
@@ -2314,6 +2317,9 @@ static int bftw_ids(const struct bftw_args *args) {
 		return -1;
 	}
 
+	// All files get both visits, so don't revisit the pruned ones
+	state.prune_all = args->flags & BFTW_POST_ORDER;
+
 	while (!state.bottom) {
 		state.bottom = true;
 
-- 
2.43.0


From 3b2896e06ade419ce9f8e02a5cc32c930cd8ec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:16 +0000
Subject: [PATCH 09/27] fix: Don't skip mount points with -xdev -depth

BFTW_PRUNE_MOUNTS skipped the post-order visit of mount points, so they
were never evaluated in -depth mode.
---
 src/bftw.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bftw.c b/src/bftw.c
index 0e49f69..dde924a 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -1806,6 +1806,15 @@ static enum bftw_action bftw_call_back(struct bftw_state *state, const char *nam
 		} else if (state->flags & BFTW_PRUNE_MOUNTS) {
 			if (bftw_is_mount(state, name)) {
 				ret = BFTW_PRUNE;
+
+				if (state->flags & BFTW_POST_ORDER) {
+					// We won't descend into the mount point,
+					// but it still needs its post-order visit
+					state->ftwbuf.visit = BFTW_POST;
+					if (state->callback(ftwbuf, state->ptr) == BFTW_STOP) {
+						ret = BFTW_STOP;
+					}
+				}
 			}
 		}
 		break;
-- 
2.43.0


From 0e6c7844cfb060e7e3110e3739e066b2c3dfb7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:16 +0000
Subject: [PATCH 10/27] fix: Keep the other hooks when removing the last one in
 a list

rcu_list_remove() reset the tail to the start of the list when removing
the last node, so the next appended hook would replace all the remaining
hooks for that signal.
---
 src/sighook.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sighook.c b/src/sighook.c
index a87bed5..cfe9bc9 100644
--- a/src/sighook.c
+++ b/src/sighook.c
@@ -290,7 +290,7 @@ static void rcu_list_remove(struct rcu_list *list, struct rcu_node *node) {
 	if (next) {
 		next->self = node->self;
 	} else {
-		list->tail = &list->head;
+		list->tail = node->self;
 	}
 	rcu_destroy(&node->next);
 }
-- 
2.43.0


From f55cf13c15c8ac46e71db603d3fd483591ef6069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:38 +0000
Subject: [PATCH 11/27] fix: Don't mix up SIGRTMAX hooks and atsigexit() hooks

Signal number 64 (SIGRTMAX on Linux) shared a hook list with atsigexit(),
so atsigexit() hooks could run for a signal that doesn't terminate the
process, or run twice for one that does.
---
 src/sighook.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sighook.c b/src/sighook.c
index cfe9bc9..e3f5be4 100644
--- a/src/sighook.c
+++ b/src/sighook.c
@@ -328,8 +328,8 @@ struct sighook {
 	atomic bool armed;
 };
 
-/** The lists of signal hooks. */
-static struct rcu_list sighooks[64];
+/** The lists of signal hooks ([0] is for atsigexit(), and signals go up to 64). */
+static struct rcu_list sighooks[65];
 
 /** Get the hook list for a particular signal. */
 static struct rcu_list *siglist(int sig) {
-- 
2.43.0


From d22fbda9243f040fc04a16d15d5d019f74757908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:33 +0000
Subject: [PATCH 12/27] fix: Set errno when bftw_type() fails for a broken
 symbolic link

%Y looks at errno to tell broken links apart, but with -L, bftw_type()
returned BFS_ERROR without setting errno.  bftw_stat() will use the
cached error if we already know that the link is broken.
---
 src/bftw.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bftw.c b/src/bftw.c
index dde924a..275043f 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -177,8 +177,6 @@ enum bfs_type bftw_type(const struct BFTW *ftwbuf, enum bfs_stat_flags flags) {
 	} else {
 		if (ftwbuf->type != BFS_LNK) {
 			return ftwbuf->type;
-		} else if (ftwbuf->stat_flags & BFS_STAT_TRYFOLLOW) {
-			return BFS_ERROR;
 		}
 	}
 
-- 
2.43.0


From d2c6ea09961d07f762810fc6fb057f91d3ec2415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:33 +0000
Subject: [PATCH 13/27] fix: Apply the umask to every action of a -perm clause

In a symbolic mode like -perm +r+w, only the first action was masked by
the umask.
---
 src/parse.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 9c39d6b..bf2763d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1986,11 +1986,13 @@ static int parse_mode(const struct bfs_parser *parser, const char *mode, struct
 			_fallthrough;
 
 		case MODE_ACTION:
-			if (who == 0) {
-				who = 0777;
-				mask = who & ~umask;
-			} else {
-				mask = who;
+			if (state == MODE_ACTION) {
+				if (who == 0) {
+					who = 0777;
+					mask = who & ~umask;
+				} else {
+					mask = who;
+				}
 			}
 
 			switch (*i) {
-- 
2.43.0


From 1b7d2fa00c80edd95301efec91f289ab531ae8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:33 +0000
Subject: [PATCH 14/27] fix: Make -regex consider every alternative with
 Oniguruma

onig_match() stops at the first match, not the longest one, so for
example (a|ab) would not match "ab".
---
 src/xregex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/xregex.c b/src/xregex.c
index 796544e..b88ec2d 100644
--- a/src/xregex.c
+++ b/src/xregex.c
@@ -266,7 +266,12 @@ int bfs_regexec(struct bfs_regex *regex, const char *str, enum bfs_regexec_flags
 
 	int ret;
 	if (flags & BFS_REGEX_ANCHOR) {
-		ret = onig_match(regex->impl, ustr, end, ustr, NULL, ONIG_OPTION_DEFAULT);
+		OnigOptionType options = ONIG_OPTION_DEFAULT;
+#ifdef ONIG_OPTION_MATCH_WHOLE_STRING
+		// Without this, onig_match() may give us a match that's too short
+		options |= ONIG_OPTION_MATCH_WHOLE_STRING;
+#endif
+		ret = onig_match(regex->impl, ustr, end, ustr, NULL, options);
 	} else {
 		ret = onig_search(regex->impl, ustr, end, ustr, end, NULL, ONIG_OPTION_DEFAULT);
 	}
-- 
2.43.0


From 73216e35bf43fe871b8f1bb175e380e4e1a3ce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:33 +0000
Subject: [PATCH 15/27] fix: Don't treat "./" and "../" as hidden

bfs ./ -nohidden excluded everything.
---
 src/eval.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 0d1bf68..c3460de 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -562,7 +562,12 @@ bool eval_hidden(const struct bfs_expr *expr, struct bfs_eval *state) {
 	//
 	//     $ bfs . -nohidden
 	//     $ bfs .. -nohidden
-	return name[0] == '.' && strcmp(name, ".") != 0 && strcmp(name, "..") != 0;
+	//
+	// Root paths may also have trailing slashes, like "./".
+	size_t len = strcspn(name, "/");
+	bool dot = len == 1 && name[0] == '.';
+	bool dotdot = len == 2 && name[0] == '.' && name[1] == '.';
+	return name[0] == '.' && !dot && !dotdot;
 }
 
 /**
-- 
2.43.0


From 4b03d5ce27d9adf48e9d9709cf1d2356f75656db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:33 +0000
Subject: [PATCH 16/27] fix: Respect -ignore_readdir_race for -printf

Errors from files that disappear before -printf or -fprintf can stat()
them should be ignored too.
---
 src/eval.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index c3460de..3c963cc 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -842,7 +842,9 @@ bool eval_fprint0(const struct bfs_expr *expr, struct bfs_eval *state) {
  */
 bool eval_fprintf(const struct bfs_expr *expr, struct bfs_eval *state) {
 	if (bfs_printf(expr->cfile, expr->printf, state->ftwbuf) != 0) {
-		eval_io_error(expr, state);
+		if (!eval_should_ignore(state, errno)) {
+			eval_io_error(expr, state);
+		}
 	}
 
 	return true;
-- 
2.43.0


From 80f15a5abee29039b839ec176e0bf76e637e6013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:33 +0000
Subject: [PATCH 17/27] fix: Check the passed-in error in error_is_like(...,
 ENOSYS)

---
 src/bfstd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfstd.c b/src/bfstd.c
index b78af7a..5d3cc31 100644
--- a/src/bfstd.c
+++ b/src/bfstd.c
@@ -53,7 +53,7 @@ bool error_is_like(int error, int category) {
 
 	case ENOSYS:
 		// https://github.com/opencontainers/runc/issues/2151
-		return errno == EPERM;
+		return error == EPERM;
 
 #if __DragonFly__
 	// https://twitter.com/tavianator/status/1742991411203485713
-- 
2.43.0


From 393c67221d41448427a48009303dae3d66549bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:13 +0000
Subject: [PATCH 18/27] fix: Don't lose files when -S ids/eds -unique sees
 duplicate roots

bfs -S ids a a -unique pruned the second a, and iterative deepening then
considered the first one to be pruned as well.
---
 src/eval.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index 3c963cc..17523c8 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -1702,6 +1702,26 @@ static bool eval_must_buffer(const struct bfs_expr *expr) {
 	return false;
 }
 
+/** Remove duplicate root paths for -unique. */
+static void eval_unique_paths(struct bfs_ctx *ctx) {
+	struct trie trie;
+	trie_init(&trie);
+
+	size_t npaths = 0;
+	for (size_t i = 0; i < ctx->npaths; ++i) {
+		const char *path = ctx->paths[i];
+		if (trie_find_str(&trie, path)) {
+			free((char *)path);
+		} else {
+			trie_insert_str(&trie, path);
+			ctx->paths[npaths++] = path;
+		}
+	}
+	ctx->npaths = npaths;
+
+	trie_destroy(&trie);
+}
+
 int bfs_eval(struct bfs_ctx *ctx) {
 	if (!ctx->expr) {
 		return EXIT_SUCCESS;
@@ -1727,6 +1747,12 @@ int bfs_eval(struct bfs_ctx *ctx) {
 	if (ctx->unique) {
 		trie_init(&seen);
 		args.seen = &seen;
+
+		if (ctx->strategy == BFTW_IDS || ctx->strategy == BFTW_EDS) {
+			// Deepening searches remember pruned files by path, so
+			// they can't prune one copy of a path but not another
+			eval_unique_paths(ctx);
+		}
 	}
 
 	int fdlimit = raise_fdlimit(ctx);
-- 
2.43.0


From aa1cebad02376dfb07f6e7f70d192d5509e655ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:22 +0000
Subject: [PATCH 19/27] fix: Don't let -prune skip duplicate roots in -S
 ids/eds -depth

-prune has no effect during the post-order pass, but it was remembered,
which made the same path be skipped when found again under a duplicate
root.
---
 src/bftw.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bftw.c b/src/bftw.c
index 275043f..2f3481c 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2276,6 +2276,11 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		break;
 
 	case BFTW_PRUNE:
+		if (state->visit == BFTW_POST) {
+			// It's too late to prune anything
+			break;
+		}
+
 		if (ftwbuf->type == BFS_DIR || state->prune_all) {
 			if (bftw_ids_prune(state, ftwbuf) != 0) {
 				ret = BFTW_STOP;
-- 
2.43.0


From 839708da19aa8c424b87fe8bea81e46b0064612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:06 +0000
Subject: [PATCH 20/27] fix: Don't replace always-true ignored expressions with
 -false

If an expression is always true, its parent may be marked always true as
well.  Replacing it with -false contradicted that, so everything after a
comma could be dropped as unreachable, as in

    $ bfs -print -follow , -print0
---
 src/opt.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 6508195..94320e4 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1832,8 +1832,9 @@ static struct bfs_expr *opt_ignore(struct bfs_opt *opt, struct bfs_expr *expr, b
 
 done:
 	if (!delete && expr->pure) {
-		// If we're not deleting the expression entirely, replace it with -false
-		expr = opt_const(opt, false);
+		// If we're not deleting the expression entirely, replace it with
+		// -false (or -true, if its parents may rely on it being true)
+		expr = opt_const(opt, expr->always_true);
 	}
 	return expr;
 }
@@ -1846,8 +1847,9 @@ static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *ex
 			return NULL;
 		}
 		if (ignored != expr) {
-			// The replacement is always false, no matter what the original was
+			// The replacement is constant, no matter what the original was
 			df_join(&opt->after_false, &opt->after_true);
+			opt->after_true = opt->after_false;
 			expr = ignored;
 		}
 	}
-- 
2.43.0


From ef890d2a42fb8b7acba91ed6c382fe30d6fa8eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:09 +0000
Subject: [PATCH 21/27] fix: Don't revisit removed roots in -S ids/eds

---
 src/bftw.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/bftw.c b/src/bftw.c
index 2f3481c..12e3951 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2243,6 +2243,15 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		mutbuf->visit = state->visit;
 	}
 
+	if (ftwbuf->depth < state->min_depth || state->visit == BFTW_POST) {
+		int pruned = bftw_ids_pruned(state, ftwbuf);
+		if (pruned < 0) {
+			return BFTW_STOP;
+		} else if (pruned) {
+			return BFTW_PRUNE;
+		}
+	}
+
 	if (ftwbuf->type == BFS_ERROR) {
 		if (ftwbuf->depth + 1 >= state->min_depth) {
 			return state->delegate(ftwbuf, state->ptr);
@@ -2251,15 +2260,8 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		}
 	}
 
-	if (ftwbuf->depth < state->min_depth || state->visit == BFTW_POST) {
-		int pruned = bftw_ids_pruned(state, ftwbuf);
-		if (pruned < 0) {
-			return BFTW_STOP;
-		} else if (pruned) {
-			return BFTW_PRUNE;
-		} else if (ftwbuf->depth < state->min_depth) {
-			return BFTW_CONTINUE;
-		}
+	if (ftwbuf->depth < state->min_depth) {
+		return BFTW_CONTINUE;
 	}
 
 	enum bftw_action ret = BFTW_CONTINUE;
@@ -2272,6 +2274,11 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		if (ftwbuf->type == BFS_DIR && ftwbuf->depth + 1 >= state->max_depth) {
 			state->bottom = false;
 			ret = BFTW_PRUNE;
+		} else if (ftwbuf->type != BFS_DIR && ftwbuf->depth == 0 && !state->prune_all) {
+			// This root is done, and may even be gone by the next pass
+			if (bftw_ids_prune(state, ftwbuf) != 0) {
+				ret = BFTW_STOP;
+			}
 		}
 		break;
 
-- 
2.43.0


From 16f4665b9dd05d64477764c81c1f6132480ba192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:20 +0000
Subject: [PATCH 22/27] fix: Re-annotate simplified comma expressions

---
 src/opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt.c b/src/opt.c
index 94320e4..5d5b826 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -2130,7 +2130,7 @@ static struct bfs_expr *simplify_comma(struct bfs_opt *opt, struct bfs_expr *exp
 		return only_child(expr);
 	}
 
-	return expr;
+	return visit_shallow(opt, expr, &annotate);
 }
 
 /**
-- 
2.43.0


From 9802eef79a6f331d9a6ce010e2a16961ad418b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:56 +0000
Subject: [PATCH 23/27] fix: don't revisit removed starting files under
 -maxdepth 0 with iterative deepening

A file that is pruned at depth 0 (for example because of -maxdepth 0) may
be gone by the next pass, just like one that isn't pruned.
---
 src/bftw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bftw.c b/src/bftw.c
index 12e3951..3e16cdb 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2288,7 +2288,7 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 			break;
 		}
 
-		if (ftwbuf->type == BFS_DIR || state->prune_all) {
+		if (ftwbuf->type == BFS_DIR || ftwbuf->depth == 0 || state->prune_all) {
 			if (bftw_ids_prune(state, ftwbuf) != 0) {
 				ret = BFTW_STOP;
 			}
-- 
2.43.0


From d98a7ff05d80a93777e33162073afa7e29f5681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:29 +0000
Subject: [PATCH 24/27] fix: reserve file descriptors for user and group
 lookups when printing

With a low RLIMIT_NOFILE the directory cache could use up every
descriptor, so that -ls, -fls and -printf %u/%g printed numeric IDs
instead of names, depending on the limit.
---
 src/parse.c  | 6 ++++++
 src/printf.c | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index bf2763d..0ad193e 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1416,6 +1416,9 @@ static struct bfs_expr *parse_fls(struct bfs_parser *parser, int arg1, int arg2)
 		return NULL;
 	}
 
+	// For getpwuid_r()/getgrgid_r()
+	expr->ephemeral_fds = 3;
+
 	if (expr_open(parser, expr, expr->argv[1]) != 0) {
 		return NULL;
 	}
@@ -1662,6 +1665,9 @@ static struct bfs_expr *parse_ls(struct bfs_parser *parser, int arg1, int arg2)
 		return NULL;
 	}
 
+	// For getpwuid_r()/getgrgid_r()
+	expr->ephemeral_fds = 3;
+
 	init_print_expr(parser, expr);
 	return expr;
 }
diff --git a/src/printf.c b/src/printf.c
index 30ec201..3a10f1e 100644
--- a/src/printf.c
+++ b/src/printf.c
@@ -780,6 +780,8 @@ int bfs_printf_parse(const struct bfs_ctx *ctx, struct bfs_expr *expr, const cha
 			case 'g':
 				fmt.fn = bfs_printf_g;
 				fmt.ptr = ctx->groups;
+				// For getgrgid_r()
+				expr->ephemeral_fds = 3;
 				break;
 			case 'G':
 				fmt.fn = bfs_printf_G;
@@ -829,6 +831,8 @@ int bfs_printf_parse(const struct bfs_ctx *ctx, struct bfs_expr *expr, const cha
 			case 'u':
 				fmt.fn = bfs_printf_u;
 				fmt.ptr = ctx->users;
+				// For getpwuid_r()
+				expr->ephemeral_fds = 3;
 				break;
 			case 'U':
 				fmt.fn = bfs_printf_U;
-- 
2.43.0


From 0926709fa070b784caa37070f21749bc2909fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:53 +0000
Subject: [PATCH 25/27] fix: Don't lose requests that follow IOQ_STOP in a
 batch

---
 src/ioq.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ioq.c b/src/ioq.c
index 1efedd7..6f461d5 100644
--- a/src/ioq.c
+++ b/src/ioq.c
@@ -895,14 +895,19 @@ static bool ioq_ring_prep(struct ioq_ring_state *state) {
 		bool block = ioq_ring_empty(state);
 		struct ioq_ent *ent = ioq_batch_pop(ioq->pending, &pending, block);
 		if (ent == &IOQ_STOP) {
-			ioqq_push(ioq->pending, ent);
 			state->stop = true;
-			break;
 		} else if (ent) {
 			ioq_prep_sqe(state, ent);
 		} else {
 			break;
 		}
+
+		// Readers can lap each other, so IOQ_STOP isn't necessarily the
+		// last request in the batch
+		if (state->stop && ioq_batch_empty(&pending)) {
+			ioqq_push(ioq->pending, &IOQ_STOP);
+			break;
+		}
 	}
 
 	bfs_assert(ioq_batch_empty(&pending));
@@ -945,15 +950,18 @@ static void ioq_sync_work(struct ioq_thread *thread) {
 	ioq_batch_reset(&pending);
 	ioq_batch_reset(&ready);
 
-	while (true) {
+	// Readers can lap each other, so IOQ_STOP isn't necessarily the last
+	// request in the batch
+	bool stop = false;
+	while (!stop || !ioq_batch_empty(&pending)) {
 		if (ioq_batch_empty(&pending)) {
 			ioq_batch_flush(ioq->ready, &ready);
 		}
 
 		struct ioq_ent *ent = ioq_batch_pop(ioq->pending, &pending, true);
 		if (ent == &IOQ_STOP) {
-			ioqq_push(ioq->pending, ent);
-			break;
+			stop = true;
+			continue;
 		}
 
 		if (!ioq_check_cancel(ioq, ent)) {
@@ -962,7 +970,7 @@ static void ioq_sync_work(struct ioq_thread *thread) {
 		ioq_batch_push(ioq->ready, &ready, ent);
 	}
 
-	bfs_assert(ioq_batch_empty(&pending));
+	ioqq_push(ioq->pending, &IOQ_STOP);
 	ioq_batch_flush(ioq->ready, &ready);
 }
 
-- 
2.43.0


From 8fe0800b26f3ea5039c2981947d46497e4af426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:08 +0000
Subject: [PATCH 26/27] fix: resolve relative commands from the directory they
 run in

-execdir ./cmd checked for ./cmd in the working directory of bfs itself,
so a command in the directory of the file was reported as missing.
---
 src/xspawn.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/xspawn.c b/src/xspawn.c
index 3fa4e60..f959c30 100644
--- a/src/xspawn.c
+++ b/src/xspawn.c
@@ -401,21 +401,22 @@ static bool bfs_resolve_relative(const struct bfs_resolver *res) {
 	return false;
 }
 
-/** Check if we can resolve the executable before file actions. */
-static bool bfs_can_resolve_early(const struct bfs_resolver *res, const struct bfs_spawn *ctx) {
-	if (!bfs_resolve_relative(res)) {
-		return true;
-	}
-
+/** Check if the file actions will change the working directory. */
+static bool bfs_will_chdir(const struct bfs_spawn *ctx) {
 	if (ctx) {
 		for_slist (const struct bfs_spawn_action, action, ctx) {
 			if (action->op == BFS_SPAWN_FCHDIR) {
-				return false;
+				return true;
 			}
 		}
 	}
 
-	return true;
+	return false;
+}
+
+/** Check if we can resolve the executable before file actions. */
+static bool bfs_can_resolve_early(const struct bfs_resolver *res, const struct bfs_spawn *ctx) {
+	return !bfs_resolve_relative(res) || !bfs_will_chdir(ctx);
 }
 
 /** Get the required path resolution buffer size. */
@@ -442,6 +443,12 @@ static int bfs_resolve_early(struct bfs_resolver *res, const char *exe, const st
 	};
 
 	if (bfs_can_skip_resolve(res, ctx)) {
+		if (exe[0] != '/' && bfs_will_chdir(ctx)) {
+			// The path is relative to a different directory
+			res->done = true;
+			return 0;
+		}
+
 		// Do this check eagerly, even though posix_spawn()/execv() also
 		// would, because:
 		//
-- 
2.43.0


From 51bd99860c66efd2852520fb6f17c081d4770268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:14 +0000
Subject: [PATCH 27/27] fix: report a failure to read the -files0-from file

---
 src/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.c b/src/parse.c
index 0ad193e..d86b15f 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3568,6 +3568,7 @@ static int parse_files0_roots(struct bfs_parser *parser) {
 		char *path = xgetdelim(file, '\0');
 		if (!path) {
 			if (errno) {
+				parse_expr_error(parser, expr, "%s.\n", errstr());
 				goto fail;
 			} else {
 				break;
-- 
2.43.0

