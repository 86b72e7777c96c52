/* LD_PRELOAD shim: fixes the clock, injects failures and delays by path, and
 * can switch io_uring off.  Configured by environment variables:
 *   VS_NOW=SEC.NSEC   what clock_gettime(CLOCK_REALTIME) returns
 *   VS_NOURING=1      io_uring is unavailable
 *   VS_DELAY=SEED     random short delays around I/O calls
 *   VS_FAULTS=FILE    records "OP ERRNO K PATH" ending in NUL, with OP in open, stat, read, unlink,
 *                     act (run a step of the race script when PATH is touched)
 *   VS_CHUNK=SIZE     getdents64() returns at most about SIZE bytes at a time
 *   VS_DTUNK=SEED     getdents64() hides the type (DT_UNKNOWN) of some entries
 *   VS_ARGMAX=N       what sysconf(_SC_ARG_MAX) returns
 *   VS_ARGREAL=N      executing a command with more than N bytes of arguments fails with E2BIG
 *   VS_DEVS=MAJ:MIN:INO:K,...  the inode INO of that device seems to be on another one, the K-th
 *   VS_FDLOG=FILE     at exit, append the number of directories that are still open
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <time.h>
#include <unistd.h>

struct fault { char op[8]; int err; int k; char *path; _Atomic int n; };
static struct fault faults[256];
static int nfaults;
static int have_now, nouring;
static struct timespec now;
static uint64_t delay_seed, dtunk;
static size_t chunk;
static long argmax, argreal;
static struct { unsigned maj, min; unsigned long long ino; unsigned k; } devs[512];
static int ndevs;

__attribute__((constructor)) static void init(void) {
	const char *s = getenv("VS_NOW");
	if (s) {
		long long a; long b;
		if (sscanf(s, "%lld.%ld", &a, &b) == 2) { now.tv_sec = a; now.tv_nsec = b; have_now = 1; }
	}
	nouring = getenv("VS_NOURING") != NULL;
	s = getenv("VS_DELAY");
	if (s) { delay_seed = strtoull(s, NULL, 10) | 1; }
	s = getenv("VS_CHUNK");
	if (s) { chunk = strtoul(s, NULL, 10); }
	s = getenv("VS_DTUNK");
	if (s) { dtunk = strtoull(s, NULL, 10) | 1; }
	s = getenv("VS_ARGMAX");
	if (s) { argmax = strtol(s, NULL, 10); }
	s = getenv("VS_ARGREAL");
	if (s) { argreal = strtol(s, NULL, 10); }
	s = getenv("VS_DEVS");
	while (s && ndevs < 512 && sscanf(s, "%u:%u:%llu:%u", &devs[ndevs].maj, &devs[ndevs].min, &devs[ndevs].ino, &devs[ndevs].k) == 4) {
		++ndevs;
		s = strchr(s, ',');
		if (s) { ++s; }
	}
	s = getenv("VS_FAULTS");
	if (s) {
		int fd = open(s, O_RDONLY | O_CLOEXEC);
		if (fd >= 0) {
			static char buf[1 << 16];
			ssize_t n = syscall(SYS_read, fd, buf, sizeof(buf) - 1);
			close(fd);
			if (n < 0) { n = 0; }
			buf[n] = 0;
			char *p = buf, *line;
			while (p < buf + n && nfaults < 256) {
				line = p;
				p += strlen(p) + 1;
				struct fault *f = &faults[nfaults];
				int off = 0;
				if (sscanf(line, "%7s %d %d %n", f->op, &f->err, &f->k, &off) >= 3 && off) {
					f->path = line + off;
					++nfaults;
				}
			}
		}
	}
}

static void delay(void) {
	if (!delay_seed) { return; }
	static _Thread_local uint64_t x;
	static _Atomic uint64_t ctr;
	if (!x) { x = delay_seed * 0x9E3779B97F4A7C15ull + atomic_fetch_add(&ctr, 1) * 0xD1B54A32D192ED03ull; if (!x) { x = 1; } }
	x ^= x << 13; x ^= x >> 7; x ^= x << 17;
	switch (x % 8) {
	case 0: case 1: case 2: return;
	case 3: case 4: { struct timespec t = {0, 1000 * (x >> 8 & 63)}; nanosleep(&t, NULL); return; }
	case 5: { struct timespec t = {0, 1000 * (x >> 8 & 511)}; nanosleep(&t, NULL); return; }
	default: sched_yield();
	}
}

static int abspath(int dfd, const char *name, char *out) {
	if (name[0] == '/') { snprintf(out, PATH_MAX, "%s", name); }
	else {
		ssize_t n;
		if (dfd == AT_FDCWD) { n = readlink("/proc/self/cwd", out, PATH_MAX - 1); }
		else { char l[64]; snprintf(l, sizeof(l), "/proc/self/fd/%d", dfd); n = readlink(l, out, PATH_MAX - 1); }
		if (n < 0) { return -1; }
		out[n] = 0;
		if (*name) { snprintf(out + n, PATH_MAX - n, "/%s", name); }
	}
	/* drop "." components, duplicate and trailing slashes */
	char *w = out;
	for (char *r = out; *r;) {
		if (r[0] == '/' && (r[1] == '/' || r[1] == 0)) { ++r; }
		else if (r[0] == '/' && r[1] == '.' && (r[2] == '/' || r[2] == 0)) { r += 2; }
		else { *w++ = *r++; }
	}
	*w = 0;
	return 0;
}

static struct fault *find(const char *op, int dfd, const char *name) {
	struct fault *ret = NULL;
	if (nfaults) {
		char p[PATH_MAX];
		if (abspath(dfd, name, p) == 0) {
			for (int i = 0; i < nfaults; ++i) {
				if (strcmp(faults[i].op, op) == 0 && strcmp(faults[i].path, p) == 0) { ret = &faults[i]; break; }
			}
		}
	}
	return ret;
}

int clock_gettime(clockid_t c, struct timespec *ts) {
	if (c == CLOCK_REALTIME && have_now) { *ts = now; return 0; }
	return syscall(SYS_clock_gettime, c, ts);
}

struct io_uring; struct io_uring_params;
int io_uring_queue_init_params(unsigned entries, struct io_uring *ring, struct io_uring_params *p) {
	if (nouring) { return -ENOSYS; }
	static int (*real)(unsigned, struct io_uring *, struct io_uring_params *);
	if (!real) { real = dlsym(RTLD_NEXT, "io_uring_queue_init_params"); }
	return real(entries, ring, p);
}

int openat64(int dfd, const char *name, int flags, ...) {
	va_list ap; va_start(ap, flags); mode_t mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0; va_end(ap);
	delay();
	struct fault *f = flags & O_DIRECTORY ? find("open", dfd, name) : NULL;
	if (f) { errno = f->err; return -1; }
	f = flags & O_DIRECTORY ? find("read", dfd, name) : NULL;
	if (f) { atomic_store(&f->n, 0); }
	int ret = syscall(SYS_openat, dfd, name, flags, mode);
	int e = errno; delay(); errno = e;
	return ret;
}

int statx(int dfd, const char *restrict name, int flags, unsigned mask, struct statx *restrict buf) {
	delay();
	struct fault *f = find("stat", dfd, name);
	if (f) { errno = f->err; return -1; }
	int ret = syscall(SYS_statx, dfd, name, flags, mask, buf);
	for (int i = 0; ret == 0 && i < ndevs; ++i) {
		if (buf->stx_ino == devs[i].ino && buf->stx_dev_major == devs[i].maj && buf->stx_dev_minor == devs[i].min) {
			buf->stx_dev_major = 0;
			buf->stx_dev_minor = 7000 + devs[i].k;
			break;
		}
	}
	int e = errno; delay(); errno = e;
	return ret;
}

int fstatat64(int dfd, const char *restrict name, struct stat64 *restrict buf, int flags) {
	delay();
	struct fault *f = find("stat", dfd, name);
	if (f) { errno = f->err; return -1; }
	int ret = syscall(SYS_newfstatat, dfd, name, buf, flags);
	for (int i = 0; ret == 0 && i < ndevs; ++i) {
		if (buf->st_ino == devs[i].ino && buf->st_dev == makedev(devs[i].maj, devs[i].min)) {
			buf->st_dev = makedev(0, 7000 + devs[i].k);
			break;
		}
	}
	return ret;
}

int unlinkat(int dfd, const char *name, int flags) {
	delay();
	struct fault *f = find("unlink", dfd, name);
	if (f) { errno = f->err; return -1; }
	return syscall(SYS_unlinkat, dfd, name, flags);
}

/* "read" faults: entries come one at a time; after K entries (in an arbitrary
 * but fixed order, "." and ".." not counted) the call fails */
ssize_t getdents64(int fd, void *buf, size_t size) {
	delay();
	struct fault *f = find("read", fd, "");
	if (f) {
		int done = atomic_load(&f->n);
		if (done < 0 || f->k == 0) { errno = f->err; return -1; }
		/* read everything, then keep only the K bytewise smallest names */
		char tmp[1 << 16];
		size_t len = 0;
		for (;;) {
			ssize_t n = syscall(SYS_getdents64, fd, tmp + len, sizeof(tmp) - len);
			if (n <= 0) { break; }
			len += n;
		}
		atomic_store(&f->n, -1);
		struct dirent64 *es[4096]; int n = 0;
		for (size_t o = 0; o < len;) {
			struct dirent64 *e = (void *)(tmp + o);
			o += e->d_reclen;
			if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { es[n++] = e; }
		}
		for (int i = 0; i < n; ++i) {
			for (int j = i + 1; j < n; ++j) {
				if (strcmp(es[j]->d_name, es[i]->d_name) < 0) { struct dirent64 *t = es[i]; es[i] = es[j]; es[j] = t; }
			}
		}
		char *out = buf; size_t used = 0;
		for (int i = 0; i < n && i < f->k; ++i) {
			if (used + es[i]->d_reclen > size) { break; }
			memcpy(out + used, es[i], es[i]->d_reclen);
			used += es[i]->d_reclen;
		}
		if (used == 0) { errno = f->err; return -1; }
		return used;
	}
	ssize_t ret = -1;
	if (chunk && chunk < size) {
		ret = syscall(SYS_getdents64, fd, buf, chunk);
		if (ret < 0 && errno == EINVAL) { ret = syscall(SYS_getdents64, fd, buf, size); }
	} else {
		ret = syscall(SYS_getdents64, fd, buf, size);
	}
	if (dtunk && ret > 0) {
		for (ssize_t o = 0; o < ret;) {
			struct dirent64 *e = (void *)((char *)buf + o);
			uint64_t h = dtunk;
			for (const char *p = e->d_name; *p; ++p) { h = (h ^ (unsigned char)*p) * 0x100000001b3ull; }
			if (h >> 20 & 1) { e->d_type = DT_UNKNOWN; }
			o += e->d_reclen;
		}
	}
	int e = errno; delay(); errno = e;
	return ret;
}

long sysconf(int name) {
	if (name == _SC_ARG_MAX && argmax) { return argmax; }
	static long (*real)(int);
	if (!real) { real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf"); }
	return real(name);
}

static int too_big(char *const argv[]) {
	long n = 0;
	for (int i = 0; argv[i]; ++i) { n += strlen(argv[i]) + 1 + sizeof(char *); }
	return argreal && n > argreal;
}

int posix_spawn(pid_t *pid, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *attr, char *const argv[], char *const envp[]) {
	if (too_big(argv)) { return E2BIG; }
	static int (*real)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
	if (!real) { real = dlsym(RTLD_NEXT, "posix_spawn"); }
	return real(pid, path, fa, attr, argv, envp);
}

int posix_spawnp(pid_t *pid, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *attr, char *const argv[], char *const envp[]) {
	if (too_big(argv)) { return E2BIG; }
	static int (*real)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
	if (!real) { real = dlsym(RTLD_NEXT, "posix_spawnp"); }
	return real(pid, path, fa, attr, argv, envp);
}

int execve(const char *path, char *const argv[], char *const envp[]) {
	if (too_big(argv)) { errno = E2BIG; return -1; }
	return syscall(SYS_execve, path, argv, envp);
}

__attribute__((destructor)) static void fdlog(void) {
	const char *s = getenv("VS_FDLOG");
	if (!s) { return; }
	int n = 0;
	for (int fd = 3; fd < 1024; ++fd) {
		struct stat sb;
		if (fstat(fd, &sb) == 0 && S_ISDIR(sb.st_mode)) { ++n; }
	}
	int fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_APPEND | O_CLOEXEC);
	if (fd >= 0) {
		char buf[32];
		int len = sprintf(buf, "%d\n", n);
		if (syscall(SYS_write, fd, buf, (size_t)len) != len) { n = 0; }
		close(fd);
	}
}
