/* The program started by the scripts under test: performs a list of actions and records what it
 * sees to $HV_LOG (one O_APPEND write per record, so records of concurrent processes never mix).
 *   hv a ARGS...        record the whole argument vector
 *   hv p ARGS...        print ARGS as hex words on stdout
 *   hv gen SEED N       write the pseudo-random stream (SEED, N) to stdout
 *   hv s ACTION...      perform actions in order (see act()) */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static char *buf; static size_t len, cap;
static void add(const void *p, size_t n) {
	if (len + n + 1 > cap) { cap = (len + n + 1) * 2; buf = realloc(buf, cap); if (!buf) _exit(98); }
	memcpy(buf + len, p, n); len += n; buf[len] = 0;
}
static void adds(const char *s) { add(s, strlen(s)); }
static void addhex(const void *p, size_t n) {
	static const char *d = "0123456789abcdef"; const unsigned char *s = p;
	for (size_t i = 0; i < n; i++) { char c[2] = { d[s[i] >> 4], d[s[i] & 15] }; add(c, 2); }
}
static void addnum(long long x) { char b[32]; snprintf(b, sizeof b, " %lld", x); adds(b); }
static int wall(int fd, const char *p, size_t n) {
	while (n) { ssize_t k = write(fd, p, n); if (k < 0) { if (errno == EINTR) continue; return -1; } p += k; n -= k; }
	return 0;
}
static long long now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000LL + t.tv_nsec / 1000; }
static void begin(const char *kind) { len = 0; adds(kind); addnum(now()); addnum(getpid()); addnum(getppid()); }
static void emit(void) {
	const char *f = getenv("HV_LOG");
	add("\n", 1);
	if (!f) return;
	int fd = open(f, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
	if (fd < 0) return;
	wall(fd, buf, len); close(fd);
}
static void rec(const char *kind, const char *text) { begin(kind); adds(" "); addhex(text, strlen(text)); emit(); }
static void nap(long us) { struct timespec t = { us / 1000000, (us % 1000000) * 1000 }; while (nanosleep(&t, &t) && errno == EINTR); }

static struct sigaction pipe0;
static uint64_t st;
static unsigned char rnd(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st >> 32; }
static void seed(uint64_t s) { st = s * 0x9E3779B97F4A7C15ull + 0x1234567; if (!st) st = 1; for (int i = 0; i < 4; i++) rnd(); }

/* Wfd:seed:n:chunk:delay_us   write the stream to fd */
static void act_w(const char *a) {
	int fd = 1; unsigned long long s = 1, n = 0, chunk = 65536, delay = 0;
	sscanf(a, "%d:%llu:%llu:%llu:%llu", &fd, &s, &n, &chunk, &delay);
	if (!chunk) chunk = 1;
	char *b = malloc(chunk); seed(s);
	unsigned long long done = 0; int bad = 0;
	while (done < n) {
		size_t k = n - done < chunk ? n - done : chunk;
		for (size_t i = 0; i < k; i++) b[i] = rnd();
		if (wall(fd, b, k)) { bad = errno; break; }
		done += k;
		if (delay) nap(delay);
	}
	begin("W"); addnum(s); addnum(n); addnum(done); addnum(bad); emit();
	free(b);
	if (bad) _exit(90);
}
/* Vtag:seed:n:chunk:delay_us[:extra]   read stdin to its end, compare with the stream (plus extra bytes given in hex) */
static void act_v(const char *a) {
	char tag[64] = "", extra[64] = ""; unsigned long long s = 1, n = 0, chunk = 65536, delay = 0;
	sscanf(a, "%63[^:]:%llu:%llu:%llu:%llu:%63s", tag, &s, &n, &chunk, &delay, extra);
	char *b = malloc(chunk ? chunk : 1); seed(s);
	unsigned long long got = 0; long long bad = -1; size_t xl = strlen(extra) / 2;
	for (;;) {
		ssize_t k = read(0, b, chunk ? chunk : 1);
		if (k < 0) { if (errno == EINTR) continue; bad = -2 - errno; break; }
		if (!k) break;
		for (ssize_t i = 0; i < k; i++, got++) {
			unsigned char want;
			if (got < n) want = rnd();
			else if (got < n + xl) { unsigned v; sscanf(extra + 2 * (got - n), "%2x", &v); want = v; }
			else { if (bad == -1) bad = got; continue; }
			if (want != (unsigned char)b[i] && bad == -1) bad = got;
		}
		if (delay) nap(delay);
	}
	if (bad == -1 && got != n + xl) bad = got;
	begin("V"); adds(" "); addhex(tag, strlen(tag)); addnum(n + xl); addnum(got); addnum(bad); emit();
	free(b);
}
/* Txor:chunk:delay_us   copy stdin to stdout, each byte xored */
static void act_t(const char *a) {
	unsigned x = 0; unsigned long long chunk = 65536, delay = 0, n = 0;
	sscanf(a, "%u:%llu:%llu", &x, &chunk, &delay);
	if (!chunk) chunk = 1;
	char *b = malloc(chunk); int bad = 0;
	for (;;) {
		ssize_t k = read(0, b, chunk);
		if (k < 0) { if (errno == EINTR) continue; bad = errno; break; }
		if (!k) break;
		for (ssize_t i = 0; i < k; i++) b[i] ^= x;
		if (wall(1, b, k)) { bad = errno; break; }
		n += k;
		if (delay) nap(delay);
	}
	begin("T"); addnum(n); addnum(bad); emit();
	free(b);
	if (bad) _exit(90);
}
static void act_fds(const char *tag, int pid) {
	char p[64], q[512], l[512];
	if (pid) snprintf(p, sizeof p, "/proc/%d/fd", pid); else snprintf(p, sizeof p, "/proc/self/fd");
	DIR *d = opendir(p);
	begin(pid ? "P" : "F"); adds(" "); addhex(tag, strlen(tag));
	if (d) {
		struct dirent *e;
		while ((e = readdir(d))) {
			if (e->d_name[0] == '.' || (!pid && atoi(e->d_name) == dirfd(d))) continue;
			snprintf(q, sizeof q, "%s/%s", p, e->d_name);
			ssize_t k = readlink(q, l, sizeof l - 1); l[k < 0 ? 0 : k] = 0;
			adds(" "); adds(e->d_name); adds("="); addhex(l, strlen(l));
		}
		closedir(d);
	}
	emit();
}
/* children of pid with their state; our own process is marked by its pid */
static void act_children(const char *tag, int pid) {
	DIR *d = opendir("/proc"); struct dirent *e;
	begin("C"); adds(" "); addhex(tag, strlen(tag));
	while (d && (e = readdir(d))) {
		if (e->d_name[0] < '0' || e->d_name[0] > '9') continue;
		char p[300], b[600]; snprintf(p, sizeof p, "/proc/%s/stat", e->d_name);
		int fd = open(p, O_RDONLY | O_CLOEXEC); if (fd < 0) continue;
		ssize_t k = read(fd, b, sizeof b - 1); close(fd); if (k <= 0) continue;
		b[k] = 0; char *q = strrchr(b, ')'); char state; int ppid;
		if (!q || sscanf(q + 2, "%c %d", &state, &ppid) != 2 || ppid != pid) continue;
		char o[300]; snprintf(o, sizeof o, " %s:%c", e->d_name, state); adds(o);
	}
	if (d) closedir(d);
	emit();
}
static void unhex(const char *h, char **out, size_t *n) {
	*n = strlen(h) / 2; *out = malloc(*n + 1);
	for (size_t i = 0; i < *n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); (*out)[i] = v; }
}
static void act(const char *a) {
	char *b; size_t n; char c = *a++;
	switch (c) {
	case 'L': rec("L", a); break;                                  /* record text */
	case 'o': unhex(a, &b, &n); if (wall(1, b, n)) _exit(90); break;  /* write hex bytes to stdout */
	case 'e': unhex(a, &b, &n); if (wall(2, b, n)) _exit(90); break;
	case 'O': if (wall(1, a, strlen(a))) _exit(90); break;          /* write text to stdout */
	case 'Q': if (wall(2, a, strlen(a))) _exit(90); break;
	case 'd': nap(atol(a) * 1000); break;                          /* delay ms */
	case 'u': nap(atol(a)); break;                                 /* delay us */
	case 'x': _exit(atoi(a));
	case 'k': signal(atoi(a), SIG_DFL); { sigset_t s; sigemptyset(&s); sigprocmask(SIG_SETMASK, &s, 0); } kill(getpid(), atoi(a)); nap(5000000); _exit(97);
	case 'W': act_w(a); break;
	case 'V': act_v(a); break;
	case 'T': act_t(a); break;
	case 'i': {                                                    /* itag: record all of stdin */
		size_t cp = 65536, l = 0; char *d = malloc(cp);
		for (;;) { ssize_t k = read(0, d + l, cp - l); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; l += k; if (l == cp) d = realloc(d, cp *= 2); }
		begin("I"); adds(" "); addhex(a, strlen(a)); adds(" s"); addhex(d, l); emit(); free(d); break; }
	case 'R': {                                                    /* Rn: read at most n bytes of stdin */
		long k = atol(a); char x; while (k-- > 0 && read(0, &x, 1) == 1); break; }
	case 'E': {                                                    /* Etag: record the environment */
		begin("E"); adds(" "); addhex(a, strlen(a));
		for (char **e = environ; *e; e++) { adds(" "); addhex(*e, strlen(*e)); }
		emit(); break; }
	case 'c': { char *w = getcwd(0, 0); begin("D"); adds(" "); addhex(a, strlen(a)); adds(" "); if (w) addhex(w, strlen(w)); emit(); break; }
	case 'F': act_fds(a, 0); break;
	case 'P': nap(3000); act_fds(a, getppid()); break;     /* the parent is still closing its copies */
	case 'C': act_children(a, getppid()); break;
	case 'S': {                                                    /* Stag: signal dispositions */
		begin("S"); adds(" "); addhex(a, strlen(a));
		struct sigaction s; sigset_t m; sigprocmask(0, 0, &m);
		for (int i = 1; i < 32; i++) { if (!sigaction(i, 0, &s) && (i == SIGPIPE ? pipe0.sa_handler : s.sa_handler) == SIG_IGN) addnum(i); if (sigismember(&m, i)) addnum(1000 + i); }
		emit(); break; }
	case 'G': {                                                    /* Gpath: wait until the file exists */
		int i = 0; while (i++ < 45000 && access(a, F_OK)) nap(1000);
		if (access(a, F_OK)) { rec("N", a); _exit(95); }
		break; }
	case 'M': { int fd = open(a, O_WRONLY | O_CREAT | O_CLOEXEC, 0644); if (fd >= 0) close(fd); break; }   /* make file */
	case 'X': { close(1); break; }
	default: _exit(99);
	}
}
int main(int argc, char **argv) {
	sigaction(SIGPIPE, 0, &pipe0);
	signal(SIGPIPE, SIG_IGN);
	if (argc < 2) { begin("A"); for (int i = 0; i < argc; i++) { adds(" s"); addhex(argv[i], strlen(argv[i])); } emit(); return 0; }
	if (!strcmp(argv[1], "p")) {
		for (int i = 2; i < argc; i++) { adds("s"); addhex(argv[i], strlen(argv[i])); adds(" "); }
		add("\n", 1); return wall(1, buf, len) ? 90 : 0;
	}
	if (!strcmp(argv[1], "gen")) { setenv("HV_LOG", "/dev/null", 1); char b[128]; snprintf(b, sizeof b, "1:%s:%s", argv[2], argv[3]); act_w(b); return 0; }
	if (!strcmp(argv[1], "s")) { for (int i = 2; i < argc; i++) act(argv[i]); return 0; }
	begin("A"); for (int i = 0; i < argc; i++) { adds(" s"); addhex(argv[i], strlen(argv[i])); } emit();
	return 0;
}
