// Histories of signal hooks under a controlled scheduler.
// Arguments: BOUND MAX RANDOM SEED ASYNC PROGRAM
// PROGRAM: per thread (separated by "/") tokens separated by blanks:
//   +h:SIG:FLAGS:N  register hook h (a..z) for SIG (0: atsigexit); FLAGS of c, o; N: a signal it sends itself (0: none)
//   -h              remove it
//   !SIG            a signal is delivered to this thread
//   R               a forked child restores the dispositions
//   FN              the N-th allocation of the next registration fails
//   S               a fault
//   |               (first thread only) the other threads start now
// ASYNC: signals (with blanks) of which each may arrive once in any thread at any scheduling point ("-": none)
#define _GNU_SOURCE
#include "sighook.h"
#include "vsched.h"
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static struct hook {
	struct sighook *h;
	int sig, nest;
	bool busy;
	char name;
} H[26];
static volatile int ndel;
static char *prog[8];
static int nprog;
static int async_sig[8], nasync;
static volatile bool async_used[8];

static __thread volatile int depth; // (handlers run inside functions that the compiler takes for leaves)
static __thread volatile int inprog[64]; // signals being delivered here
static __thread volatile int failing;

void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) {
	if (failing > 0 && --failing == 0) {
		errno = ENOMEM;
		return NULL;
	}
	return __real_malloc(n);
}
void *__real_aligned_alloc(size_t a, size_t n);
void *__wrap_aligned_alloc(size_t a, size_t n) {
	if (failing > 0 && --failing == 0) {
		errno = ENOMEM;
		return NULL;
	}
	return __real_aligned_alloc(a, n);
}

static void deliver(int sig) {
	for (int i = 0; i < depth; ++i) {
		if (inprog[i] == sig) return;
	}
	if (depth >= 6 || ndel >= 60) return;
	int d = ++ndel;
	sched_event("{\"o\":\"delB\",\"d\":%d,\"s\":%d}", d, sig);
	inprog[depth++] = sig;
	int saved = failing;
	failing = 0;
	union sigval v = {.sival_int = d};
	errno = 5000 + d;
	pthread_sigqueue(pthread_self(), sig, v);
	bool kept = errno == 5000 + d;
	failing = saved;
	--depth;
	sched_event("{\"o\":\"delE\",\"d\":%d,\"e\":%d}", d, kept);
}

static void hook_fn(int sig, siginfo_t *info, void *arg) {
	struct hook *h = arg;
	sched_event("{\"o\":\"run\",\"d\":%d,\"h\":%d,\"s\":%d,\"i\":%d}", info->si_value.sival_int, h->name - 'a' + 1, sig, info->si_signo);
	sched_point();
	errno = 77;
	if (h->nest) deliver(h->nest);
	errno = 78;
	sched_point();
}

static __thread volatile bool choosing;
static void maybe_async(void) {
	if (choosing || depth >= 5) return;
	int opt[8], n = 0;
	for (int i = 0; i < nasync; ++i) {
		bool in = false;
		for (int k = 0; k < depth; ++k) in |= inprog[k] == async_sig[i];
		if (!async_used[i] && !in) opt[n++] = i;
	}
	if (!n) return;
	choosing = true;
	int c = sched_choose(n + 1);
	choosing = false;
	if (c > 0) {
		async_used[opt[c - 1]] = true;
		int e = errno;
		deliver(async_sig[opt[c - 1]]);
		errno = e;
	}
}

static struct sigaction original[65];
extern void sched_leave(void);
static void check_reset(void) {
	pid_t pid = fork();
	if (pid == 0) {
		sched_leave();
		struct rlimit cpu = {1, 1};
		setrlimit(RLIMIT_CPU, &cpu);
		if (sigreset() != 0) _exit(2);
		for (int s = 1; s <= 64; ++s) {
			struct sigaction a;
			if (sigaction(s, NULL, &a) != 0) continue;
			if (a.sa_handler != original[s].sa_handler || ((a.sa_flags ^ original[s].sa_flags) & ~0x04000000) != 0
			    || memcmp(&a.sa_mask, &original[s].sa_mask, 8)) _exit(1);
		}
		_exit(0);
	}
	int ws = -1;
	while (waitpid(pid, &ws, 0) < 0 && errno == EINTR);
	if (ws != 0) sched_bad();
	sched_event("{\"o\":\"reset\",\"ok\":%d}", ws == 0);
}

static void custom(int sig) {}

static pthread_t thr[8];
static bool started;
static void *worker(void *p);
static void start(void) {
	if (started) return;
	started = true;
	for (int i = 1; i < nprog; ++i) pthread_create(&thr[i], NULL, worker, strdup(prog[i]));
}

static void run_program(char *p) {
	int fail = 0;
	for (char *save, *tok = strtok_r(p, " ", &save); tok; tok = strtok_r(NULL, " ", &save)) {
		switch (tok[0]) {
		case '+': {
			struct hook *h = &H[tok[1] - 'a'];
			if (h->busy) break;
			h->busy = true;
			h->name = tok[1];
			char fl[8] = "";
			sscanf(tok + 2, ":%d:%7[^:]:%d", &h->sig, fl, &h->nest);
			enum sigflags f = 0;
			if (strchr(fl, 'c')) f |= SH_CONTINUE;
			if (strchr(fl, 'o')) f |= SH_ONESHOT;
			sched_event("{\"o\":\"regB\",\"h\":%d,\"s\":%d,\"c\":%s,\"one\":%s}", tok[1] - 'a' + 1, h->sig,
			            f & SH_CONTINUE ? "true" : "false", f & SH_ONESHOT ? "true" : "false");
			failing = fail;
			struct sighook *r = h->sig ? sighook(h->sig, hook_fn, h, f) : atsigexit(hook_fn, h);
			bool failed = fail && failing == 0;
			failing = fail = 0;
			sched_event("{\"o\":\"regE\",\"h\":%d,\"ok\":%s,\"fail\":%s}", tok[1] - 'a' + 1, r ? "true" : "false", failed ? "true" : "false");
			h->h = r;
			break;
		}
		case '-': {
			struct hook *h = &H[tok[1] - 'a'];
			struct sighook *s = h->h;
			if (!s) break;
			h->h = NULL;
			sched_event("{\"o\":\"unB\",\"h\":%d}", tok[1] - 'a' + 1);
			sigunhook(s);
			sched_event("{\"o\":\"unE\",\"h\":%d}", tok[1] - 'a' + 1);
			break;
		}
		case '!':
			sched_point();
			deliver(atoi(tok + 1));
			break;
		case 'R':
			sched_point();
			check_reset();
			break;
		case 'F':
			fail = atoi(tok + 1);
			break;
		case '|':
			start();
			break;
		case 'S':
			sched_event("{\"o\":\"fault\"}");
			*(volatile int *)(intptr_t)(depth * 0) = 1;
			break;
		}
	}
}

static void *worker(void *p) {
	run_program(p);
	return NULL;
}

static void scenario(void *arg) {
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	extern void (*sched_hook)(void);
	signal(SIGHUP, SIG_IGN);
	struct sigaction sa = {.sa_handler = custom, .sa_flags = SA_NODEFER};
	sigaddset(&sa.sa_mask, SIGUSR2);
	sigaction(SIGURG, &sa, NULL);
	for (int s = 1; s <= 64; ++s) sigaction(s, NULL, &original[s]);
	sched_hook = nasync ? maybe_async : NULL;
	if (!strchr(prog[0], '|')) start();
	run_program(strdup(prog[0]));
	for (int i = 1; i < nprog; ++i) pthread_join(thr[i], NULL);
	sched_hook = NULL;
	sched_event("{\"o\":\"end\"}");
}

int main(int argc, char **argv) {
	if (argc != 7) return 2;
	if (argv[5][0] != '-') {
		for (char *tok = strtok(strdup(argv[5]), " "); tok && nasync < 8; tok = strtok(NULL, " ")) async_sig[nasync++] = atoi(tok);
	}
	for (char *tok = strtok(argv[6], "/"); tok && nprog < 8; tok = strtok(NULL, "/")) prog[nprog++] = tok;
	sched_may_die = true;
	sched_explore(scenario, NULL, atoi(argv[1]), atol(argv[2]), atol(argv[3]), atoi(argv[4]));
	return 0;
}
