// Drives src/trie.c through histories of calls and writes down everything the
// calls return.  Input (stdin), one history after another:
//   T <nkeys> <nops> <str>
//   <hex key>            (nkeys lines; "-" is the empty key)
//   <op> <key> <value>   (nops lines)
// Output: one JSON array of events per history, on one line.
#ifdef NARROW
// Small offsets, so that the "jump" nodes of 32-bit platforms are used
#include <stdint.h>
#include "bit.h"
#undef SIZE_WIDTH
#define SIZE_WIDTH 20
#include "trie.c"
#else
#include "trie.h"
#endif
#include <errno.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static long fail_at = -1;
static bool failing(void) {
	if (fail_at < 0) return false;
	return fail_at-- == 0;
}
void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t s);
void *__real_realloc(void *p, size_t n);
void *__real_aligned_alloc(size_t a, size_t n);
void *__wrap_malloc(size_t n);
void *__wrap_calloc(size_t n, size_t s);
void *__wrap_realloc(void *p, size_t n);
void *__wrap_aligned_alloc(size_t a, size_t n);
void *__wrap_malloc(size_t n) { if (failing()) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t s) { if (failing()) { errno = ENOMEM; return NULL; } return __real_calloc(n, s); }
void *__wrap_realloc(void *p, size_t n) { if (failing()) { errno = ENOMEM; return NULL; } return __real_realloc(p, n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (failing()) { errno = ENOMEM; return NULL; } return __real_aligned_alloc(a, n); }

static char **keys;
static size_t *lens;
static int nkeys;
static bool str;

// The index of the key of a leaf; -1: not one of the keys at all
static int which(const struct trie_leaf *l) {
	if (!l) return 0;
	for (int i = 0; i < nkeys; ++i) {
		if (l->length == lens[i] + str && memcmp(l->key, keys[i], l->length) == 0) return i + 1;
	}
	return -1;
}
static long val(const struct trie_leaf *l) { return l ? (long)(intptr_t)l->value : 0; }

static struct trie_leaf *find(struct trie *t, int k) {
	return str ? trie_find_str(t, keys[k]) : trie_find_mem(t, keys[k], lens[k]);
}

int main(void) {
	int nops, s;
	while (scanf(" T %d %d %d", &nkeys, &nops, &s) == 3) {
		str = s;
		keys = __real_calloc(nkeys, sizeof(*keys));
		lens = __real_calloc(nkeys, sizeof(*lens));
		for (int i = 0; i < nkeys; ++i) {
			char *hex = NULL;
			if (scanf(" %ms", &hex) != 1) return 3;
			size_t n = hex[0] == '-' ? 0 : strlen(hex) / 2;
			keys[i] = __real_malloc(n + 1);
			for (size_t j = 0; j < n; ++j) {
				unsigned x;
				sscanf(hex + 2 * j, "%2x", &x);
				keys[i][j] = x;
			}
			keys[i][n] = 0;
			lens[i] = n;
			free(hex);
		}
		struct trie trie;
		trie_init(&trie);
		printf("[");
		for (int i = 0; i < nops; ++i) {
			char op[16];
			int k;
			long v;
			if (scanf(" %15s %d %ld", op, &k, &v) != 3) return 3;
			--k;
			printf("%s{\"o\":\"", i ? "," : "");
			struct trie_leaf *l = NULL;
			if (!strcmp(op, "ins") || !strcmp(op, "insf")) {
				if (op[3]) fail_at = v;
				l = str ? trie_insert_str(&trie, keys[k]) : trie_insert_mem(&trie, keys[k], lens[k]);
				bool failed = op[3] && fail_at < 0;
				fail_at = -1;
				printf("%s\",\"k\":%d,\"v\":0,\"r\":%d,\"w\":%ld}", failed && !l ? "nomem" : "ins", k + 1, which(l), val(l));
			} else if (!strcmp(op, "set")) {
				int r = str ? trie_set_str(&trie, keys[k], (void *)(intptr_t)v) : trie_set_mem(&trie, keys[k], lens[k], (void *)(intptr_t)v);
				printf("set\",\"k\":%d,\"v\":%ld,\"r\":%d,\"w\":0}", k + 1, v, r == 0 ? k + 1 : 0);
			} else if (!strcmp(op, "del")) {
				l = find(&trie, k);
				int r = which(l);
				if (l) trie_remove(&trie, l);
				printf("del\",\"k\":%d,\"v\":0,\"r\":%d,\"w\":0}", k + 1, r);
			} else if (!strcmp(op, "find")) {
				l = find(&trie, k);
				printf("find\",\"k\":%d,\"v\":0,\"r\":%d,\"w\":%ld}", k + 1, which(l), val(l));
			} else if (!strcmp(op, "clear")) {
				trie_clear(&trie);
				printf("clear\",\"k\":0,\"v\":0,\"r\":0,\"w\":0}");
			} else if (!strcmp(op, "all")) {
				printf("all\",\"k\":0,\"v\":0,\"r\":0,\"w\":0,\"it\":[");
				int n = 0;
				for_trie (leaf, &trie) {
					printf("%s[%d,%ld]", n ? "," : "", which(leaf), val(leaf));
					if (++n > 10000) break;
				}
				printf("],\"f\":[");
				for (int j = 0; j < nkeys; ++j) {
					l = find(&trie, j);
					void *g = str ? trie_get_str(&trie, keys[j]) : trie_get_mem(&trie, keys[j], lens[j]);
					long f = l ? val(l) : -1;
					// The two look-ups must agree
					if ((l ? l->value : NULL) != g || (l && which(l) != j + 1)) f = -2;
					printf("%s%ld", j ? "," : "", f);
				}
				printf("],\"pre\":[");
				for (int j = 0; str && j < nkeys; ++j) printf("%s%d", j ? "," : "", which(trie_find_prefix(&trie, keys[j])));
				printf("],\"post\":[");
				for (int j = 0; str && j < nkeys; ++j) printf("%s%d", j ? "," : "", which(trie_find_postfix(&trie, keys[j])));
				printf("]}");
			} else {
				return 3;
			}
		}
		trie_destroy(&trie);
		for (int i = 0; i < nkeys; ++i) free(keys[i]);
		free(keys);
		free(lens);
		printf("]\n");
		fflush(stdout);
	}
	return 0;
}
