/* Preloaded into the script and every process it starts: simulated time, and
 * faults and kills at file operations. Without SIM_STATE it does nothing. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "shim.h"

static struct sim *S;
static const char *Dir, *Ctl;
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static void end_all(void) {
	if (getpgrp() == (pid_t)S->pgid) kill(0, SIGKILL);
	_exit(137);
}

/* tick counts an operation; 1: this is the one to die in. */
static int tick(void) {
	S->ops++;
	if (S->limit && S->ops > S->limit) { S->stuck = 1; end_all(); }
	if (S->kill_at && S->ops == S->kill_at) { S->killed = 1; return 1; }
	return 0;
}

static void step(void) { if (tick()) end_all(); }

/* fault returns the index of the fault that fires on this operation, or -1. */
static int fault(int op) {
	S->count[op]++;
	for (int i = 0; i < S->nfaults; i++)
		if (S->fault[i].op == op && S->fault[i].nth == S->count[op]) { S->fault[i].fired++; return i; }
	return -1;
}

__attribute__((constructor)) static void init(void) {
	const char *p = getenv("SIM_STATE");
	Dir = getenv("SIM_DIR");
	Ctl = getenv("SIM_CTL");
	if (!p || !Dir || !Ctl) return;
	REAL(int, "open", const char *, int, ...);
	int fd = real(p, O_RDWR | O_CLOEXEC);
	if (fd < 0) return;
	void *m = mmap(0, sizeof(struct sim), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	if (m == MAP_FAILED) return;
	S = m;
	if (!S->pgid && getpgrp() == getpid()) S->pgid = getpid();
	S->execs++;
	S->now += S->exec_ns;
	step();
}

/* inside tells whether a path is in the run's directory. */
static int inside(int dirfd, const char *p) {
	size_t n = strlen(Dir);
	if (strstr(p, "..")) return 0;
	if (!strncmp(p, "/dev/", 5)) return 1;
	if (p[0] == '/') return !strncmp(p, Dir, n) && (p[n] == '/' || !p[n]);
	char cwd[4096], fd[64];
	if (dirfd != AT_FDCWD) {
		snprintf(fd, sizeof fd, "/proc/self/fd/%d", dirfd);
		ssize_t k = readlink(fd, cwd, sizeof cwd - 1);
		if (k < 0) return 0;
		cwd[k] = 0;
	} else if (!getcwd(cwd, sizeof cwd)) return 0;
	return !strncmp(cwd, Dir, n) && (cwd[n] == '/' || !cwd[n]);
}

/* ours: not a device, and not the simulator's own files. */
static int ours(const char *p) { return S && strncmp(p, "/dev/", 5) && strncmp(p, "/proc/", 6) && strncmp(p, Ctl, strlen(Ctl)); }

/* ---- time ---- */
time_t time(time_t *t) {
	if (!S) { REAL(time_t, "time", time_t *); return real(t); }
	S->reads++; S->now += 1000000; step();
	time_t v = S->now / 1000000000;
	if (t) *t = v;
	return v;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
	if (!S) { REAL(int, "gettimeofday", struct timeval *, void *); return real(tv, tz); }
	S->reads++; S->now += 1000000; step();
	tv->tv_sec = S->now / 1000000000; tv->tv_usec = S->now / 1000 % 1000000;
	return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
	if (!S) { REAL(int, "clock_gettime", clockid_t, struct timespec *); return real(c, ts); }
	S->reads++; S->now += 1000000; step();
	ts->tv_sec = S->now / 1000000000; ts->tv_nsec = S->now % 1000000000;
	return 0;
}
static void nap(int64_t ns) { S->sleeps++; step(); if (ns > 0) S->now += ns + S->late_ns; }
int nanosleep(const struct timespec *a, struct timespec *b) {
	if (!S) { REAL(int, "nanosleep", const struct timespec *, struct timespec *); return real(a, b); }
	nap(a->tv_sec * 1000000000LL + a->tv_nsec);
	return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
	if (!S) { REAL(int, "clock_nanosleep", clockid_t, int, const struct timespec *, struct timespec *); return real(c, fl, a, b); }
	int64_t ns = a->tv_sec * 1000000000LL + a->tv_nsec;
	nap(fl & TIMER_ABSTIME ? ns - S->now : ns);
	return 0;
}
int usleep(useconds_t u) {
	if (!S) { REAL(int, "usleep", useconds_t); return real(u); }
	nap(u * 1000LL);
	return 0;
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
	REAL(int, "select", int, fd_set *, fd_set *, fd_set *, struct timeval *);
	if (!S || !tv) return real(n, r, w, e, tv);
	int64_t ns = tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL;
	struct timeval z = {0, 0};
	int k = real(n, r, w, e, &z);
	if (k == 0) nap(ns);
	return k;
}
int pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *m) {
	REAL(int, "pselect", int, fd_set *, fd_set *, fd_set *, const struct timespec *, const sigset_t *);
	if (!S || !ts) return real(n, r, w, e, ts, m);
	struct timespec z = {0, 0};
	int k = real(n, r, w, e, &z, m);
	if (k == 0) nap(ts->tv_sec * 1000000000LL + ts->tv_nsec);
	return k;
}

/* ---- files ---- */
static int denied(int dirfd, const char *p) {
	if (inside(dirfd, p)) return 0;
	S->escaped++;
	errno = EACCES;
	return 1;
}
static int opening(int dirfd, const char *p, int fl) {
	if (!(fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) || !ours(p)) return 0;
	if (denied(dirfd, p)) return -1;
	step();
	int i = fault(OP_OPEN);
	if (i >= 0) { errno = S->fault[i].err; return -1; }
	return 0;
}
#define OPENER(fn) \
int fn(const char *p, int fl, ...) { \
	REAL(int, #fn, const char *, int, ...); \
	va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); \
	if (S && opening(AT_FDCWD, p, fl)) return -1; \
	return real(p, fl, m); \
}
OPENER(open)
OPENER(open64)
#define OPENERAT(fn) \
int fn(int d, const char *p, int fl, ...) { \
	REAL(int, #fn, int, const char *, int, ...); \
	va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); \
	if (S && opening(d, p, fl)) return -1; \
	return real(d, p, fl, m); \
}
OPENERAT(openat)
OPENERAT(openat64)

ssize_t write(int fd, const void *b, size_t n) {
	REAL(ssize_t, "write", int, const void *, size_t);
	struct stat st;
	if (!S || fstat(fd, &st) || !S_ISREG(st.st_mode)) return real(fd, b, n);
	if (tick()) {
		size_t k = S->torn < (int64_t)n ? S->torn : n;
		if (k) real(fd, b, k);
		end_all();
	}
	int i = fault(OP_WRITE);
	if (i >= 0) {
		size_t k = S->fault[i].bytes < (int64_t)n ? S->fault[i].bytes : n;
		if (k && k < n) return real(fd, b, k); /* the disk fills up: a short write, the next one fails */
		errno = S->fault[i].err;
		return -1;
	}
	for (i = 0; i < S->nfaults; i++) /* and it stays full for this file's later writes */
		if (S->fault[i].op == OP_WRITE && S->fault[i].fired == 1 && S->fault[i].bytes > 0 && S->count[OP_WRITE] == S->fault[i].nth + 1) {
			S->fault[i].fired++;
			errno = S->fault[i].err;
			return -1;
		}
	return real(fd, b, n);
}
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned fl) {
	if (S) { errno = ENOSYS; return -1; }
	REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
	return real(a, x, b, y, n, fl);
}
static int renaming(int d1, const char *a, int d2, const char *b) {
	if (denied(d1, a) || denied(d2, b)) return -1;
	step();
	int i = fault(OP_RENAME);
	if (i >= 0) { errno = S->fault[i].err; return -1; }
	return 0;
}
int rename(const char *a, const char *b) {
	REAL(int, "rename", const char *, const char *);
	if (S && renaming(AT_FDCWD, a, AT_FDCWD, b)) return -1;
	return real(a, b);
}
int renameat(int x, const char *a, int y, const char *b) {
	REAL(int, "renameat", int, const char *, int, const char *);
	if (S && renaming(x, a, y, b)) return -1;
	return real(x, a, y, b);
}
int renameat2(int x, const char *a, int y, const char *b, unsigned fl) {
	REAL(int, "renameat2", int, const char *, int, const char *, unsigned);
	struct stat st;
	if (S && (fl & RENAME_NOREPLACE) && !fstatat(y, b, &st, AT_SYMLINK_NOFOLLOW)) { errno = EEXIST; return -1; }
	if (S && renaming(x, a, y, b)) return -1;
	return real(x, a, y, b, fl);
}
static int removing(int d, const char *p) {
	if (denied(d, p)) return -1;
	step();
	int i = fault(OP_UNLINK);
	if (i >= 0) { errno = S->fault[i].err; return -1; }
	return 0;
}
int unlink(const char *p) {
	REAL(int, "unlink", const char *);
	if (S && removing(AT_FDCWD, p)) return -1;
	return real(p);
}
int unlinkat(int d, const char *p, int fl) {
	REAL(int, "unlinkat", int, const char *, int);
	if (S && removing(d, p)) return -1;
	return real(d, p, fl);
}
