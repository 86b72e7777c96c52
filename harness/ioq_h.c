// Drives src/ioq.c under the controlled scheduler and logs what is asked of it,
// what its threads carry out, and what it gives back.
//
// Arguments: BOUND MAX RANDOM SEED DEPTH THREADS PROGRAM RING
// PROGRAM: one character per call of the main thread:
//   n N  nop (light/heavy)     c  close     o  opendir    d  closedir   s  stat
//   .    submit                p  pop without blocking    P  pop, blocking
//   x    cancel                *  pop (blocking) until nothing is left
// and finally the queue is destroyed.
#include "vsched.h"
#include "ioq.h"
#include "dir.h"
#include "stat.h"
#include "bfstd.h"
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MAXREQ 64
static struct req {
	char op;
	int done;
	char path[8];
	struct bfs_stat buf;
} R[MAXREQ];
static int nreq;
static char dirs[MAXREQ][512];
static const char *program;
static int depth, threads;

// The results of the operations, different for every request and operation
static int result(int id) { return id % 3 == 1 ? -(100 + id) : 0; }

static void carried_out(int id, char op) {
	// A request that was not completely written shows up with a wrong identity
	bool known = id >= 1 && id <= nreq && R[id].op == op;
	sched_event("{\"o\":\"exec\",\"k\":%d,\"r\":%d}", known ? id : 0, known ? result(id) : 0);
}
static int outcome(int id) {
	sched_point();
	int r = result(id);
	if (r < 0) {
		errno = -r;
		return -1;
	}
	return 0;
}
static int by_dir(const struct bfs_dir *d) {
	for (int i = 1; i <= nreq; ++i) {
		if ((const char *)d == dirs[i]) return i;
	}
	return 0;
}

#define WRAP(ret, name, ...) ret __real_##name(__VA_ARGS__); ret __wrap_##name(__VA_ARGS__); ret __wrap_##name(__VA_ARGS__)
WRAP(int, bfs_opendir, struct bfs_dir *dir, int fd, const char *path, enum bfs_dir_flags flags) {
	int id = by_dir(dir);
	bool ok = id && ((path && !strcmp(path, R[id].path) && fd == -500 - id) || (!path && fd == 5000 + id)) && (int)flags == id % 4;
	if (!ok) id = 0;
	if (path || !id) carried_out(id, 'o');
	return outcome(id);
}
WRAP(int, bfs_polldir, struct bfs_dir *dir) { return 0; }
WRAP(int, bfs_closedir, struct bfs_dir *dir) {
	int id = by_dir(dir);
	carried_out(id, 'd');
	return outcome(id);
}
WRAP(int, bfs_unwrapdir, struct bfs_dir *dir) { return 7000 + by_dir(dir); }
WRAP(int, bfs_stat, int fd, const char *path, enum bfs_stat_flags flags, struct bfs_stat *buf) {
	int id = 0;
	for (int i = 1; i <= nreq; ++i) {
		if (buf == &R[i].buf) id = i;
	}
	if (id && (strcmp(path, R[id].path) || fd != -500 - id || (int)flags != id % 2)) id = 0;
	carried_out(id, 's');
	return outcome(id);
}
WRAP(int, xclose, int fd) {
	if (fd < 1000) return __real_xclose(fd);
	if (fd >= 5000) {
		// an opened directory closed again: not a request of its own
		sched_event("{\"o\":\"undo\",\"k\":%d,\"r\":0}", fd - 5000);
		return 0;
	}
	int id = fd - 1000;
	carried_out(id, 'c');
	return outcome(id);
}
WRAP(pid_t, getppid, void) {
	return 1;
}

#include "fakering.h"

static int pop(struct ioq *ioq, bool block) {
	sched_event("{\"o\":\"call\",\"k\":%d,\"r\":0}", block);
	struct ioq_ent *ent = ioq_pop(ioq, block);
	if (!ent) {
		sched_event("{\"o\":\"none\",\"k\":%d,\"r\":0}", block);
		return -1;
	}
	int id = (intptr_t)ent->ptr;
	int res = ent->result;
	char op = "nocds"[0];
	switch (ent->op) {
	case IOQ_NOP: op = 'n'; break;
	case IOQ_CLOSE: op = 'c'; break;
	case IOQ_OPENDIR: op = 'o'; break;
	case IOQ_CLOSEDIR: op = 'd'; break;
	case IOQ_STAT: op = 's'; break;
	default: op = '?';
	}
	if (id < 1 || id > nreq || R[id].op != op) id = 0;
	sched_event("{\"o\":\"pop\",\"k\":%d,\"r\":%d}", id, res);
	ioq_free(ioq, ent);
	return 0;
}

static void scenario(void *arg) {
	struct ioq *ioq = ioq_create(depth, threads);
	if (!ioq) {
		sched_event("{\"o\":\"nocreate\",\"k\":0,\"r\":%d}", errno);
		return;
	}
	for (const char *p = program; *p; ++p) {
		int r = 0;
		char op = *p == 'N' ? 'n' : *p;
		switch (*p) {
		case 'n':
		case 'N':
		case 'c':
		case 'o':
		case 'd':
		case 's': {
			if (nreq + 1 >= MAXREQ) break;
			int id = ++nreq;
			struct req *q = &R[id];
			q->op = op;
			snprintf(q->path, sizeof(q->path), "p%d", id);
			void *ptr = (void *)(intptr_t)id;
			size_t c = ioq_capacity(ioq);
			sched_event("{\"o\":\"ask\",\"k\":%d,\"op\":\"%c\",\"r\":0,\"c\":%zu}", id, op, c);
			switch (*p) {
			case 'n': r = ioq_nop(ioq, IOQ_NOP_LIGHT, ptr); break;
			case 'N': r = ioq_nop(ioq, IOQ_NOP_HEAVY, ptr); break;
			case 'c': r = ioq_close(ioq, 1000 + id, ptr); break;
			case 'o': r = ioq_opendir(ioq, (struct bfs_dir *)dirs[id], -500 - id, q->path, id % 4, ptr); break;
			case 'd': r = ioq_closedir(ioq, (struct bfs_dir *)dirs[id], ptr); break;
			case 's': r = ioq_stat(ioq, -500 - id, q->path, id % 2, &q->buf, ptr); break;
			}
			sched_event("{\"o\":\"req\",\"k\":%d,\"r\":%d}", id, r ? errno : 0);
			break;
		}
		case '.':
			ioq_submit(ioq);
			sched_event("{\"o\":\"submit\",\"k\":0,\"r\":0}");
			break;
		case 'p':
		case 'P':
			ioq_submit(ioq);
			sched_event("{\"o\":\"submit\",\"k\":0,\"r\":0}");
			pop(ioq, *p == 'P');
			break;
		case 'x':
			sched_event("{\"o\":\"cancel\",\"k\":0,\"r\":0}");
			ioq_cancel(ioq);
			break;
		case '*':
			ioq_submit(ioq);
			sched_event("{\"o\":\"submit\",\"k\":0,\"r\":0}");
			for (int i = 0; i < 200 && pop(ioq, true) == 0; ++i);
			break;
		}
	}
	sched_event("{\"o\":\"destroy\",\"k\":0,\"r\":0}");
	ioq_destroy(ioq);
	sched_event("{\"o\":\"end\",\"k\":0,\"r\":0}");
}

int main(int argc, char **argv) {
	if (argc != 9) return 2;
	ring_mode = argv[8][0];
	if (argv[8][1]) ring_size = atoi(argv[8] + 1);
	depth = atoi(argv[5]);
	threads = atoi(argv[6]);
	program = argv[7];
	sched_explore(scenario, NULL, atoi(argv[1]), atol(argv[2]), atol(argv[3]), atoi(argv[4]));
	return 0;
}
