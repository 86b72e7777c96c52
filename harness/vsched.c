#include "vsched.h"
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXT 12
#define MAXDEC 30000
#define MAXLOG (1 << 17)

struct shared {
	int ndec, bad;
	struct { uint8_t n, c, cost; } dec[MAXDEC];
	char status[32];
	size_t len;
	char log[MAXLOG];
};
static struct shared *sh;

// The choices to make first; then the default ones or random ones
static const uint8_t *pre;
static int npre;
static bool randomly;
static uint64_t rs;
static int rp; // probability (of 256) to preempt

static uint32_t rnd(void) {
	rs ^= rs << 13;
	rs ^= rs >> 7;
	rs ^= rs << 17;
	return rs >> 16;
}

enum { FREE, RUN, BLOCKED, DONE };
static struct thr {
	int st;
	const void *on;
	_Atomic uint32_t go;
	void *(*fn)(void *);
	void *arg;
	pthread_t id;
	const void *last_load;
} T[MAXT];
static int nt, cur;
static bool active;
static __thread int self = -1;
static long steps;

static void fwait(struct thr *t) {
	while (!atomic_exchange(&t->go, 0)) {
		syscall(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
	}
}
static void fgo(struct thr *t) {
	atomic_store(&t->go, 1);
	syscall(SYS_futex, &t->go, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

bool sched_active(void) { return active && self >= 0; }
int sched_self(void) { return self; }
// In a forked child: behave like an ordinary process
void sched_leave(void) { active = false; }
// This execution is certainly wrong
void sched_bad(void) { sh->bad = 1; }
// Called at every scheduling point
void (*sched_hook)(void);

static void finish(const char *st) {
	snprintf(sh->status, sizeof(sh->status), "%s", st);
	_exit(0);
}

void sched_event(const char *fmt, ...) {
	if (!sh || sh->len > MAXLOG - 600) {
		if (sh) finish("stuck");
		return;
	}
	if (sh->len) sh->log[sh->len++] = ',';
	va_list ap;
	va_start(ap, fmt);
	sh->len += vsnprintf(sh->log + sh->len, MAXLOG - sh->len - 1, fmt, ap);
	va_end(ap);
}

// Make a choice of n, of which 0 is the default
static int decide(int n, int cost) {
	if (n <= 1) return 0;
	int i = sh->ndec;
	if (i >= MAXDEC) finish("stuck");
	int c = 0;
	if (i < npre) {
		c = pre[i] < n ? pre[i] : 0;
	} else if (randomly) {
		if (cost == 0 || (int)(rnd() & 255) < rp) c = rnd() % n;
	}
	sh->dec[i].n = n > 255 ? 255 : n;
	sh->dec[i].c = c;
	sh->dec[i].cost = cost;
	sh->ndec = i + 1;
	return c;
}

int sched_choose(int n) {
	if (!sched_active()) return 0;
	return decide(n, 1);
}
int sched_spurious(void) {
	if (!sched_active() || !randomly) return 0;
	return (rnd() & 31) == 0;
}

// Give control to another thread if that is the decision
static void reschedule(bool yield) {
	int opt[MAXT], n = 0;
	bool can = T[self].st == RUN;
	if (can && !yield) opt[n++] = self;
	for (int k = 1; k <= nt; ++k) {
		int j = (self + k) % nt;
		if (j != self && T[j].st == RUN) opt[n++] = j;
	}
	if (can && yield) opt[n++] = self;
	if (n == 0) {
		bool alldone = true;
		for (int j = 0; j < nt; ++j) {
			if (T[j].st != DONE) alldone = false;
		}
		finish(alldone ? "ok" : "deadlock");
	}
	if (++steps > 40000) finish("stuck");
	// Be fair to the others eventually
	static int streak;
	if (can && n > 1 && ++streak > 500) yield = true;
	int to = yield && can && streak > 500 ? opt[1] : opt[decide(n, can && !yield)];
	if (to != self) streak = 0;
	if (to != self) {
		for (int j = 0; j < nt; ++j) T[j].last_load = NULL;
		struct thr *me = &T[self];
		bool done = me->st == DONE;
		cur = to;
		fgo(&T[to]);
		if (!done) fwait(me);
	}
}

void sched_point(void) {
	if (!sched_active()) return;
	int e = errno;
	T[self].last_load = NULL;
	if (sched_hook) sched_hook();
	reschedule(false);
	errno = e;
}
void sched_load_point(const void *addr) {
	if (!sched_active()) return;
	if (T[self].last_load == addr) return;
	sched_point();
	T[self].last_load = addr;
}
void sched_yield_point(void) {
	// (the loads that a spinning loop repeats are the scheduling points)
}

static void block(const void *on) {
	T[self].st = BLOCKED;
	T[self].on = on;
	reschedule(false);
}
static void wake(const void *on, bool all) {
	for (int j = 0; j < nt; ++j) {
		if (T[j].st == BLOCKED && T[j].on == on) {
			T[j].st = RUN;
			if (!all) break;
		}
	}
}

// ---------------------------------------------------------------------------
static struct obj { const void *addr; int owner; long count; } O[4096];
static struct obj *obj(const void *addr) {
	size_t h = ((uintptr_t)addr >> 3) % 4096;
	while (O[h].addr && O[h].addr != addr) h = (h + 1) % 4096;
	if (!O[h].addr) {
		O[h].addr = addr;
		O[h].owner = -1;
	}
	return &O[h];
}

#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__); ret __wrap_##name(__VA_ARGS__); ret __wrap_##name(__VA_ARGS__)

REAL(int, pthread_mutex_lock, pthread_mutex_t *m) {
	if (!sched_active()) return __real_pthread_mutex_lock(m);
	sched_point();
	struct obj *o = obj(m);
	while (o->owner >= 0) block(m);
	o->owner = self;
	return 0;
}
REAL(int, pthread_mutex_trylock, pthread_mutex_t *m) {
	if (!sched_active()) return __real_pthread_mutex_trylock(m);
	sched_point();
	struct obj *o = obj(m);
	if (o->owner >= 0) return EBUSY;
	o->owner = self;
	return 0;
}
REAL(int, pthread_mutex_unlock, pthread_mutex_t *m) {
	if (!sched_active()) return __real_pthread_mutex_unlock(m);
	struct obj *o = obj(m);
	if (o->owner != self) finish("unlock of a mutex not owned");
	o->owner = -1;
	wake(m, true);
	sched_point();
	return 0;
}
REAL(int, pthread_cond_wait, pthread_cond_t *c, pthread_mutex_t *m) {
	if (!sched_active()) return __real_pthread_cond_wait(c, m);
	struct obj *o = obj(m);
	if (o->owner != self) finish("wait without the mutex");
	o->owner = -1;
	wake(m, true);
	block(c);
	while (o->owner >= 0) block(m);
	o->owner = self;
	return 0;
}
REAL(int, pthread_cond_signal, pthread_cond_t *c) {
	if (!sched_active()) return __real_pthread_cond_signal(c);
	sched_point();
	wake(c, false);
	sched_point();
	return 0;
}
REAL(int, pthread_cond_broadcast, pthread_cond_t *c) {
	if (!sched_active()) return __real_pthread_cond_broadcast(c);
	sched_point();
	wake(c, true);
	sched_point();
	return 0;
}
REAL(int, sem_init, sem_t *s, int sharing, unsigned v) {
	obj(s)->count = v;
	return __real_sem_init(s, sharing, v);
}
REAL(int, sem_post, sem_t *s) {
	if (!active) return __real_sem_post(s);
	sched_point();
	++obj(s)->count;
	wake(s, false);
	sched_point();
	return 0;
}
REAL(int, sem_wait, sem_t *s) {
	if (!active) return __real_sem_wait(s);
	sched_point();
	while (obj(s)->count <= 0) block(s);
	--obj(s)->count;
	return 0;
}

static void *trampoline(void *p) {
	struct thr *t = p;
	self = t - T;
	fwait(t);
	t->fn(t->arg);
	t->st = DONE;
	wake(t, true);
	reschedule(false);
	return NULL;
}
REAL(int, pthread_create, pthread_t *id, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
	if (!sched_active()) return __real_pthread_create(id, attr, fn, arg);
	if (nt >= MAXT) return EAGAIN;
	struct thr *t = &T[nt];
	t->fn = fn;
	t->arg = arg;
	t->st = RUN;
	int r = __real_pthread_create(&t->id, attr, trampoline, t);
	if (r != 0) return r;
	*id = t->id;
	++nt;
	sched_point();
	return 0;
}
REAL(int, pthread_join, pthread_t id, void **ret) {
	if (!sched_active()) return __real_pthread_join(id, ret);
	sched_point();
	for (int j = 0; j < nt; ++j) {
		if (T[j].id == id && j > 0) {
			while (T[j].st != DONE) block(&T[j]);
			if (ret) *ret = NULL;
			return 0;
		}
	}
	return ESRCH;
}

// ---------------------------------------------------------------------------
static void child(void (*scenario)(void *), void *arg) {
	mallopt(M_PERTURB, 0xA5);
	alarm(20);
	nt = 1;
	self = cur = 0;
	T[0].st = RUN;
	active = true;
	scenario(arg);
	active = false;
	finish("ok");
}

static uint64_t *seen;
static size_t nseen, cap;
static bool fresh(uint64_t h) {
	if (!h) h = 1;
	if (nseen * 2 >= cap) {
		size_t oc = cap;
		uint64_t *o = seen;
		cap = cap ? 2 * cap : 1024;
		seen = calloc(cap, sizeof(*seen));
		for (size_t i = 0; i < oc; ++i) {
			if (o[i]) {
				size_t k = o[i] % cap;
				while (seen[k]) k = (k + 1) % cap;
				seen[k] = o[i];
			}
		}
		free(o);
	}
	size_t k = h % cap;
	while (seen[k]) {
		if (seen[k] == h) return false;
		k = (k + 1) % cap;
	}
	seen[k] = h;
	++nseen;
	return true;
}

static long execs, decs;
// Whether scenarios may well end by a signal
bool sched_may_die;
static int bad;
static void execute(void (*scenario)(void *), void *arg) {
	sh->ndec = sh->bad = 0;
	sh->len = 0;
	sh->log[0] = 0;
	strcpy(sh->status, "none");
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) child(scenario, arg);
	int ws;
	while (waitpid(pid, &ws, 0) < 0 && errno == EINTR);
	if (WIFSIGNALED(ws)) {
		snprintf(sh->status, sizeof(sh->status), "signal %d", WTERMSIG(ws));
	} else if (WEXITSTATUS(ws) != 0) {
		snprintf(sh->status, sizeof(sh->status), "exit %d", WEXITSTATUS(ws));
	}
	++execs;
	decs += sh->ndec;
	sh->log[sh->len] = 0;
	uint64_t h = 1469598103934665603u;
	for (size_t i = 0; i < sh->len; ++i) h = (h ^ (unsigned char)sh->log[i]) * 1099511628211u;
	for (char *c = sh->status; *c; ++c) h = (h ^ (unsigned char)*c) * 1099511628211u;
	if (fresh(h)) {
		printf("{\"st\":\"%s\",\"ev\":[%s]}\n", sh->status, sh->log);
	}
	if (strcmp(sh->status, "ok") && !(sched_may_die && WIFSIGNALED(ws) && WTERMSIG(ws) != SIGSEGV && WTERMSIG(ws) != SIGALRM)) ++bad;
	else if (sh->bad) ++bad;
}

void sched_explore(void (*scenario)(void *), void *arg, int bound, long max, long nrandom, unsigned seed) {
	sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	// Prefixes still to be explored, by the number of preemptions in them
	enum { MAXBOUND = 8, MAXQ = 60000 };
	struct job { uint8_t *p; int n; } *q[MAXBOUND + 1] = {0};
	size_t nq[MAXBOUND + 1] = {0};
	for (int i = 0; i <= bound; ++i) q[i] = malloc(MAXQ * sizeof(**q));
	rs = 88172645463325252u ^ ((uint64_t)(seed + 1) * 0x9E3779B97F4A7C15u);
	for (int i = 0; i < 8; ++i) rnd();

	q[0][nq[0]++] = (struct job){calloc(1, 1), 0};
	bool complete = true;
	for (long left = max; ; --left) {
		int lv = 0;
		while (lv <= bound && nq[lv] == 0) ++lv;
		if (lv > bound) break;
		if (left <= 0) {
			complete = false;
			break;
		}
		size_t pick = rnd() % nq[lv];
		struct job j = q[lv][pick];
		q[lv][pick] = q[lv][--nq[lv]];
		pre = j.p;
		npre = j.n;
		randomly = false;
		execute(scenario, arg);
		if (bad > 20) break;
		for (int i = j.n; i < sh->ndec; ++i) {
			int cost = lv + sh->dec[i].cost;
			if (cost > bound) continue;
			for (int c = 1; c < sh->dec[i].n; ++c) {
				if (nq[cost] == MAXQ) {
					complete = false;
					break;
				}
				uint8_t *p = malloc(i + 1);
				for (int k = 0; k < i; ++k) p[k] = sh->dec[k].c;
				p[i] = c;
				q[cost][nq[cost]++] = (struct job){p, i + 1};
			}
		}
		free(j.p);
	}
	npre = 0;
	randomly = true;
	for (long i = 0; i < nrandom && bad <= 20 && !(complete && decs == 0); ++i) {
		rp = (int[]){4, 12, 32, 90, 200}[i % 5];
		for (int k = 0; k < 3; ++k) rnd();
		uint64_t save = rs;
		execute(scenario, arg);
		rs = save + 0x9E3779B97F4A7C15u;
		if (!rs) rs = 1;
		rnd();
	}
	printf("{\"execs\":%ld,\"decs\":%ld,\"complete\":%s,\"bound\":%d}\n", execs, decs, complete ? "true" : "false", bound);
	fflush(stdout);
}
