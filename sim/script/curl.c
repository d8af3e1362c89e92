/* Stand-in for curl: answers from the plan of the simulated run. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "shim.h"

static struct sim *S;
static int outfd = 1;
static const char *outname;

static int put(const char *b, long n) {
	while (n > 0) {
		if (outfd < 0 && (outfd = open(outname, O_WRONLY | O_CREAT | O_TRUNC, 0644)) < 0) return 23;
		ssize_t k = write(outfd, b, n > 16384 ? 16384 : n);
		if (k < 0 && errno == EINTR) continue;
		if (k < 0) return 23;
		b += k; n -= k;
	}
	return 0;
}

static const char *format; /* of --write-out */
static int retries, resume;

/* long options with a value that changes nothing here */
static const char *skip[] = {"--max-time", "--connect-timeout", "--user-agent", "--header", "--request", "--retry-delay", "--retry-max-time", "--limit-rate", "--speed-limit", "--speed-time", "--referer", "--cookie", "--interface", "--proxy", "--max-redirs", "--max-filesize", "--cacert", "--stderr", "--user", 0};

static void value(char c, const char *v) {
	if (c == 'o' && strcmp(v, "-")) outname = v, outfd = -1;
	if (c == 'w') format = v;
	if (c == 'C') resume = 1;
}

static int done(int rc, const char *code) {
	for (const char *f = format; f && *f; f++) {
		char c[2] = {*f, 0};
		const char *s = c;
		if (!strncmp(f, "%{http_code}", 12)) s = code, f += 11;
		else if (!strncmp(f, "%{response_code}", 16)) s = code, f += 15;
		else if (!strncmp(f, "\\n", 2)) s = "\n", f++;
		if (write(1, s, strlen(s)) < 0) return 23;
	}
	return rc;
}

int main(int argc, char **argv) {
	const char *url = "", *dir = getenv("SIM_CTL");
	int fail = 0;
	for (int i = 1; i < argc; i++) {
		char *a = argv[i];
		if (a[0] != '-' || !a[1]) { if (a[0] != '-') url = a; continue; }
		if (a[1] == '-') {
			char *eq = strchr(a, '='), *v = 0;
			if (eq) *eq = 0, v = eq + 1;
			char c = !strcmp(a, "--output") ? 'o' : !strcmp(a, "--write-out") ? 'w' : !strcmp(a, "--continue-at") ? 'C' : !strcmp(a, "--url") ? 'u' : !strcmp(a, "--retry") ? 'r' : 0;
			for (int k = 0; skip[k]; k++) if (!strcmp(a, skip[k])) c = '-';
			if (c && !v && i + 1 < argc) v = argv[++i];
			if (c == 'u' && v) url = v;
			else if (c == 'r' && v) retries = atoi(v);
			else if (c && v) value(c, v);
			if (!strcmp(a, "--fail") || !strcmp(a, "--fail-with-body")) fail = 1;
			continue;
		}
		for (char *s = a + 1; *s; s++) {
			if (*s == 'f') fail = 1;
			if (strchr("omAHwXCubeyYxr", *s)) {
				const char *v = s[1] ? s + 1 : i + 1 < argc ? argv[++i] : "";
				value(*s, v);
				break;
			}
		}
	}
	if (!dir) return 2;
	int fd = open(getenv("SIM_STATE"), O_RDWR);
	S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (fd < 0 || S == MAP_FAILED) return 2;
	/* from=YYYY/01/01 */
	char year[32] = "?";
	const char *f = strstr(url, "from=");
	if (f) { int n = 0; for (f += 5; f[n] && f[n] != '/' && f[n] != '-' && f[n] != '&' && n < 30; n++) year[n] = f[n]; year[n] = 0; }
	char p[4096];
	snprintf(p, sizeof p, "%s/requests", dir);
	/* plan: year kind latency_ms size cut */
	char kind[32] = "ok", y[32]; long long lat = 100, size = 200, cut = 0;
	snprintf(p, sizeof p, "%s/plan", dir);
	FILE *pl = fopen(p, "r");
	if (pl) {
		char k[32]; long long a, b, c;
		while (fscanf(pl, "%31s %31s %lld %lld %lld", y, k, &a, &b, &c) == 5)
			if (!strcmp(y, year)) { strcpy(kind, k); lat = a; size = b; cut = c; }
		fclose(pl);
	}
	/* transient failures are tried again */
	long long wait = 1;
	for (int n = 0;; n++, wait *= 2) {
		snprintf(p, sizeof p, "%s/requests", dir);
		FILE *log = fopen(p, "a");
		if (!log) return 2;
		fprintf(log, "%lld %s %s\n", (long long)S->now, year, url);
		fclose(log);
		S->now += lat * 1000000;
		if (n >= retries || strcmp(kind, "timeout") && strcmp(kind, "http")) break;
		S->now += wait * 1000000000;
	}
	snprintf(p, sizeof p, "%s/body-%s", dir, year);
	char *body = calloc(1, size + 1);
	FILE *bf = fopen(p, "r");
	if (bf) { size = fread(body, 1, size, bf); fclose(bf); }
	if (cut > size) cut = size;
	if (resume && outname) { /* the rest of a file that is there */
		outfd = open(outname, O_WRONLY | O_CREAT | O_APPEND, 0644);
		if (outfd < 0) return 23;
		long long at = lseek(outfd, 0, SEEK_END);
		if (at > size) at = size;
		body += at; size -= at; cut = cut > at ? cut - at : 0;
	}
	if (!strcmp(kind, "ok")) {
		if (outfd < 0 && (outfd = open(outname, O_WRONLY | O_CREAT | O_TRUNC, 0644)) < 0) return 23; /* created even if nothing comes */
		int rc = put(body, size);
		return done(rc, "200");
	}
	if (!strcmp(kind, "refused")) return done(7, "000");
	if (!strcmp(kind, "nohost")) return done(6, "000");
	if (!strcmp(kind, "http")) { if (fail) return done(22, "429"); put("{\"success\":false,\"error\":{\"code\":\"maxhits_min\"}}", 48); return done(0, "429"); }
	if (!strcmp(kind, "cut")) { put(body, cut); return done(18, "200"); }
	if (!strcmp(kind, "timeout")) { put(body, cut); return done(28, cut ? "200" : "000"); }
	if (!strcmp(kind, "crash")) { put(body, cut); signal(SIGSEGV, SIG_DFL); raise(SIGKILL); }
	return 56;
}
