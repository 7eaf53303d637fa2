/* System-call seam for the command line tool: LD_PRELOADed into the unmodified binary.
 *
 * Every C library call on a file of the simulated tree (relative paths, paths under SIM_ROOT, file
 * descriptors opened from them, and descriptors 1 and 2) is one numbered operation. SIM_PLAN names a
 * file of directives, SIM_LOG the file that receives one line per operation. Directives:
 *
 *   err N E        operation N fails with errno E (once)
 *   intr N         the first read, write or open from operation N on is interrupted once
 *   short N K      operation N (read or write) is limited to K bytes
 *   before N       the process is killed before operation N
 *   after N        ... after operation N
 *   torn N K       write N takes K bytes, then the process is killed
 *   rename N A B   before operation N another process renames A to B
 *   unlink N A     ... removes A
 *   shortr K       every read is limited to K bytes
 *   shortw K       every write is limited to K bytes
 *   eintr P        every P-th read, write or open is interrupted first
 *   quota B        only B more bytes fit on the disk
 *   errs N E       operation N and every later one of the same name on the same file fail with errno E
 *   clock S U      the clock shows S seconds and advances U microseconds per operation
 *   jump N S       before operation N the clock is moved by S seconds
 *   nofile N       the process may have N files open
 *   stale K P      the size of file P is given as K, as in /proc or on network disks
 *   stale -1 P     file P is a pipe: no size, no position, and what was read is gone
 *   pid N          the process id the process sees, and the seed of its random numbers
 *   errstd F N E S the N-th write to descriptor F (1 or 2) fails with errno E (0: takes nothing); with
 *                  S also every later one
 *   closed F       descriptor F (0, 1 or 2) is not open when the program starts
 *   oom N C        the N-th allocation of class C fails (0: any, 1: from 256 bytes, 2: 1 KB, 3: 8 KB)
 *   errf E NAME P  every operation of that name on that file fails with errno E
 *   umask N        rights withheld from new files
 *   tty N          with 1, descriptors 0, 1 and 2 look like a terminal
 *   env N          environment variables that are not set seem to be, with values chosen by N
 *
 * With SIM_CTL="R,W" every operation is announced with a byte on descriptor W and waits for a byte on
 * descriptor R: the simulator decides which of several processes goes on.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <sys/prctl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

#define MAXD 256
#define MAXFD 1024
enum { ERR, INTR, SHORT, BEFORE, AFTER, TORN, RENAME, UNLINK, ERRS, JUMP, ERRF };
static struct { int kind; long n, k; char a[300], b[300]; int used; } dir[MAXD];
static int ndir;
static long all_short_r, all_short_w, eintr_every, quota = -1;
static long ops, eintr_tick, ticks;
static long clock_ns = 1700000000000000000L, tick_ns = 1000000L;
static int logfd = -1, grantfd = -1, readyfd = -1;
static unsigned long pid = 1000, draws;
static char root[PATH_MAX];
static struct { int fd; long n, e; int sticky; } print_err[16];
static int nprint;
static long printed[3];
static int tty;
static unsigned long env_seed;
extern char **environ;
static char fdpath[MAXFD][300];
static struct { unsigned long ino; long size, pos; } stale[16];
static int nstale;
static char fdopen_[MAXFD];

static long raw(long n, long a, long b, long c, long d, long e, long f)
{
	long r;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
static long ret(long r)
{
	if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
	return r;
}

static char *env_real(const char *name)
{
	size_t n = strlen(name);
	for (char **e = environ; e && *e; e++)
		if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
	return 0;
}
/* a variable nobody set: the simulator's choice, the same whenever it is asked for */
char *getenv(const char *name)
{
	static char *const menu[] = { "", "0", "1", "2", "true", "off", "/proc/nonexistent", "a.css", "C", "tr_TR.ISO-8859-9" };
	char *v = env_real(name);
	if (v || !env_seed || !strncmp(name, "LD_", 3) || !strncmp(name, "SIM_", 4)) return v;
	unsigned long z = env_seed;
	for (; *name; name++) z = (z ^ (unsigned char)*name) * 0x100000001b3UL;
	z ^= z >> 29;
	return z % 3 == 0 ? 0 : menu[z / 3 % 10];
}

/* ------------------------------------------------------------------ heap */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
extern size_t malloc_usable_size(void *);
static long heap_live, heap_peak, allocs[4], oom_at = -1;
static int oom_class, fds, fds_peak;
static int starved(size_t n)
{
	static const size_t from[4] = { 0, 256, 1024, 8192 };
	int hit = 0;
	for (int c = 0; c < 4; c++)
		if (n >= from[c]) {
			long k = __atomic_fetch_add(&allocs[c], 1, __ATOMIC_RELAXED);
			if (c == oom_class && k == oom_at) hit = 1;
		}
	if (hit) {
		char b[80];
		int len = snprintf(b, sizeof b, "%ld\toom\t-\t-1\t12\toom\n", ops);
		if (logfd >= 0) raw(SYS_write, logfd, (long)b, len, 0, 0, 0);
		errno = ENOMEM;
	}
	return hit;
}
/* how deep the stack of the first thread is where it works on the simulated tree */
static __thread char mark;
static char *first_mark, *stack_top;
static long stack_peak;
static void *grown(void *p, long before)
{
	if (p) {
		long l = __atomic_add_fetch(&heap_live, (long)malloc_usable_size(p) - before, __ATOMIC_RELAXED), m = heap_peak;
		while (l > m && !__atomic_compare_exchange_n(&heap_peak, &m, l, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) ;
	}
	return p;
}
void *malloc(size_t n) { return starved(n) ? 0 : grown(__libc_malloc(n), 0); }
void *calloc(size_t a, size_t b) { return starved(a * b) ? 0 : grown(__libc_calloc(a, b), 0); }
void *realloc(void *p, size_t n)
{
	if (n && starved(n)) return 0;
	long before = p ? (long)malloc_usable_size(p) : 0;
	void *q = __libc_realloc(p, n);
	if (!q && !n) __atomic_sub_fetch(&heap_live, before, __ATOMIC_RELAXED);
	return grown(q, before);
}
void free(void *p)
{
	if (p) __atomic_sub_fetch(&heap_live, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
	__libc_free(p);
}
void *memalign(size_t a, size_t n) { return starved(n) ? 0 : grown(__libc_memalign(a, n), 0); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n)
{
	void *q = memalign(a, n);
	if (!q) return ENOMEM;
	*p = q;
	return 0;
}
/* what the run needed, for the simulator */
__attribute__((destructor)) static void sum(void)
{
	char b[200];
	int n = snprintf(b, sizeof b, "heap\t%ld\t%d\t%ld\t%ld\t%ld\t%ld\t%ld\n", heap_peak, fds_peak, allocs[0], allocs[1], allocs[2], allocs[3], stack_peak);
	if (logfd >= 0) raw(SYS_write, logfd, (long)b, n, 0, 0, 0);
}

static void unescape(char *p);
__attribute__((constructor)) static void init(void)
{
	/* the command does not outlive the check */
	raw(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0, 0);
	stack_top = __builtin_frame_address(0);
	first_mark = &mark;
	const char *p = env_real("SIM_PLAN"), *l = env_real("SIM_LOG"), *r = env_real("SIM_ROOT");
	static char buf[65536];
	if (r) snprintf(root, sizeof root, "%s", r);
	if (l) {
		long fd = raw(SYS_openat, AT_FDCWD, (long)l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644, 0, 0);
		if (fd >= 0) {
			logfd = (int)raw(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900, 0, 0, 0);
			raw(SYS_close, fd, 0, 0, 0, 0, 0);
		}
	}
	const char *ctl = env_real("SIM_CTL");
	int cr, cw;
	if (ctl && sscanf(ctl, "%d,%d", &cr, &cw) == 2) {
		grantfd = (int)raw(SYS_fcntl, cr, F_DUPFD_CLOEXEC, 901, 0, 0, 0);
		readyfd = (int)raw(SYS_fcntl, cw, F_DUPFD_CLOEXEC, 902, 0, 0, 0);
		raw(SYS_close, cr, 0, 0, 0, 0, 0);
		raw(SYS_close, cw, 0, 0, 0, 0, 0);
	}
	if (p) {
		long fd = raw(SYS_openat, AT_FDCWD, (long)p, O_RDONLY | O_CLOEXEC, 0, 0, 0);
		long n = fd >= 0 ? raw(SYS_read, fd, (long)buf, sizeof buf - 1, 0, 0, 0) : 0;
		if (fd >= 0) raw(SYS_close, fd, 0, 0, 0, 0, 0);
		if (n < 0) n = 0;
		buf[n] = 0;
		char *save = 0;
		for (char *s = strtok_r(buf, "\n", &save); s; s = strtok_r(0, "\n", &save)) {
			char w[16] = "", a[300] = "", b[300] = "";
			long n1 = 0, k = 0;
			if (sscanf(s, "%15s", w) != 1) continue;
			if (!strcmp(w, "shortr")) { sscanf(s, "%*s %ld", &all_short_r); continue; }
			if (!strcmp(w, "shortw")) { sscanf(s, "%*s %ld", &all_short_w); continue; }
			if (!strcmp(w, "eintr")) { sscanf(s, "%*s %ld", &eintr_every); continue; }
			if (!strcmp(w, "quota")) { sscanf(s, "%*s %ld", &quota); continue; }
			if (!strcmp(w, "clock")) {
				long u = 1000;
				if (sscanf(s, "%*s %ld %ld", &k, &u) >= 1) { clock_ns = k * 1000000000L; tick_ns = u * 1000L; }
				continue;
			}
			if (!strcmp(w, "umask")) { sscanf(s, "%*s %ld", &k); raw(SYS_umask, k & 0777, 0, 0, 0, 0, 0); continue; }
			if (!strcmp(w, "tty")) { sscanf(s, "%*s %d", &tty); continue; }
			if (!strcmp(w, "env")) { sscanf(s, "%*s %lu", &env_seed); continue; }
			if (!strcmp(w, "errstd")) {
				if (nprint < 16 && sscanf(s, "%*s %d %ld %ld %d", &print_err[nprint].fd, &print_err[nprint].n, &print_err[nprint].e, &print_err[nprint].sticky) == 4) nprint++;
				continue;
			}
			if (!strcmp(w, "oom")) { sscanf(s, "%*s %ld %d", &oom_at, &oom_class); continue; }
			if (!strcmp(w, "closed")) { if (sscanf(s, "%*s %ld", &k) == 1 && k >= 0 && k <= 2) raw(SYS_close, k, 0, 0, 0, 0, 0); continue; }
			if (!strcmp(w, "pid")) { sscanf(s, "%*s %lu", &pid); continue; }
			if (!strcmp(w, "nofile")) {
				struct rlimit rl;
				sscanf(s, "%*s %ld", &k);
				rl.rlim_cur = rl.rlim_max = k;
				if (k > 0) raw(SYS_prlimit64, 0, RLIMIT_NOFILE, (long)&rl, 0, 0, 0);
				continue;
			}
			if (!strcmp(w, "stale")) {
				struct stat st;
				if (nstale < 16 && sscanf(s, "%*s %ld\t%299[^\t]", &k, a) == 2) {
					unescape(a);
					if (raw(SYS_stat, (long)a, (long)&st, 0, 0, 0, 0) == 0 && S_ISREG(st.st_mode)) {
						stale[nstale].ino = st.st_ino;
						stale[nstale++].size = k;
					}
				}
				continue;
			}
			int kind = !strcmp(w, "err") ? ERR : !strcmp(w, "intr") ? INTR : !strcmp(w, "short") ? SHORT : !strcmp(w, "before") ? BEFORE : !strcmp(w, "after") ? AFTER
				: !strcmp(w, "torn") ? TORN : !strcmp(w, "rename") ? RENAME : !strcmp(w, "unlink") ? UNLINK
				: !strcmp(w, "errs") ? ERRS : !strcmp(w, "jump") ? JUMP : !strcmp(w, "errf") ? ERRF : -1;
			if (kind < 0 || ndir >= MAXD) continue;
			if (kind == RENAME) sscanf(s, "%*s %ld\t%299[^\t]\t%299[^\t]", &n1, a, b);
			else if (kind == ERRF) { sscanf(s, "%*s %ld\t%299[^\t]\t%299[^\t]", &k, a, b); n1 = -1; }
			else if (kind == UNLINK) sscanf(s, "%*s %ld\t%299[^\t]", &n1, a);
			else sscanf(s, "%*s %ld %ld", &n1, &k);
			dir[ndir].kind = kind; dir[ndir].n = n1; dir[ndir].k = k;
			unescape(a); unescape(b);
			strcpy(dir[ndir].a, a); strcpy(dir[ndir].b, b);
			ndir++;
		}
	}
	strcpy(fdpath[1], "<stdout>"); fdopen_[1] = 1;
	strcpy(fdpath[2], "<stderr>"); fdopen_[2] = 1;
}

/* control bytes and % travel as %XX in plans and logs */
static void escape(char *d, size_t n, const char *p)
{
	size_t k = 0;
	for (; *p && k + 4 < n; p++) {
		unsigned char c = (unsigned char)*p;
		if (c < 32 || c == '%' || c == 127) k += (size_t)sprintf(d + k, "%%%02x", c);
		else d[k++] = (char)c;
	}
	d[k] = 0;
}
static void unescape(char *p)
{
	char *d = p;
	while (*p) {
		unsigned c;
		if (*p == '%' && sscanf(p + 1, "%2x", &c) == 1) { *d++ = (char)c; p += 3; }
		else *d++ = *p++;
	}
	*d = 0;
}

static int tracked(const char *p)
{
	if (!p || !*p) return 0;
	if (p[0] != '/') return 1;
	size_t n = strlen(root);
	return n && !strncmp(p, root, n) && (p[n] == '/' || !p[n]);
}
static int tfd(int fd) { return fd >= 0 && fd < MAXFD && fdopen_[fd]; }
static const char *path_of(int fd) { return tfd(fd) ? fdpath[fd] : "?"; }

static void die(void)
{
	raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
	for (;;) raw(SYS_exit_group, 137, 0, 0, 0, 0, 0);
}

static long now(void) { return clock_ns + ticks * tick_ns; }
/* files written to carry the simulated time */
static void stamp(int fd, const char *path)
{
	struct timespec t[2];
	t[0].tv_sec = t[1].tv_sec = now() / 1000000000L;
	t[0].tv_nsec = t[1].tv_nsec = now() % 1000000000L;
	raw(SYS_utimensat, path ? AT_FDCWD : fd, (long)path, (long)t, 0, 0, 0);
}

/* a command that makes more calls than this, or more that fail one after another, is taken not to end */
#define RUNAWAY 10000000
#define IN_VAIN 100000
static long in_vain;

struct op { long n; long err; long lim; int torn; int after; const char *name; const char *path; const char *inj; };

/* 'r' read, 'w' write, 'o' open, '-' anything else */
static void start(struct op *o, const char *name, const char *path, char cls)
{
	memset(o, 0, sizeof *o);
	if (readyfd >= 0) {
		char c = 'r';
		raw(SYS_write, readyfd, (long)&c, 1, 0, 0, 0);
		if (raw(SYS_read, grantfd, (long)&c, 1, 0, 0, 0) != 1) die();
	}
	o->n = ops++;
	if (++ticks > RUNAWAY || in_vain > IN_VAIN) {
		if (logfd >= 0) raw(SYS_write, logfd, (long)"runaway\n", 8, 0, 0, 0);
		die();
	}
	if (&mark == first_mark && path[0] != '<') {
		long d = stack_top - (char *)__builtin_frame_address(0);
		if (d > stack_peak) stack_peak = d;
	}
	o->name = name; o->path = path; o->lim = -1; o->inj = "-";
	for (int i = 0; i < ndir; i++) {
		if (dir[i].kind == INTR && !dir[i].used && o->n >= dir[i].n && cls != '-' && !o->err) {
			o->err = EINTR; o->inj = "eintr"; dir[i].used = 1;
		}
		if (dir[i].kind == ERRS && path[0] != '<') {
			if (dir[i].n == o->n && !dir[i].used) {
				snprintf(dir[i].a, sizeof dir[i].a, "%s", name);
				snprintf(dir[i].b, sizeof dir[i].b, "%s", path);
				dir[i].used = 1;
			}
			if (dir[i].used && !o->err && !strcmp(dir[i].a, name) && !strncmp(dir[i].b, path, sizeof dir[i].b - 1)) { o->err = dir[i].k; o->inj = "err"; }
		}
		if (dir[i].kind == ERRF && !o->err && !strcmp(dir[i].a, name) && !strcmp(dir[i].b, path)) { o->err = dir[i].k; o->inj = "err"; }
		if (dir[i].kind == ERRS || dir[i].kind == ERRF || dir[i].kind == INTR || dir[i].n != o->n || dir[i].used) continue;
		switch (dir[i].kind) {
		case ERR: if (path[0] == '<') break; o->err = dir[i].k; o->inj = "err"; dir[i].used = 1; break;
		case SHORT: if (cls == 'r' || cls == 'w') { o->lim = dir[i].k > 0 ? dir[i].k : 1; dir[i].used = 1; } break;
		case BEFORE: {
			char b[1400], q[1200];
			escape(q, sizeof q, path);
			int n = snprintf(b, sizeof b, "%ld\t%s\t%s\t0\t0\tkilled-before\n", o->n, name, q);
			if (logfd >= 0) raw(SYS_write, logfd, (long)b, n, 0, 0, 0);
			die();
		}
		case AFTER: o->after = 1; break;
		case TORN: if (cls == 'w') { o->lim = dir[i].k; o->torn = 1; } else o->after = 1; break;
		case JUMP: clock_ns += dir[i].k * 1000000000L; dir[i].used = 1; break;
		case RENAME: if (raw(SYS_rename, (long)dir[i].a, (long)dir[i].b, 0, 0, 0, 0) == 0) stamp(0, dir[i].b); dir[i].used = 1; break;
		case UNLINK: raw(SYS_unlink, (long)dir[i].a, 0, 0, 0, 0, 0); dir[i].used = 1; break;
		}
	}
	if (cls == 'r' && all_short_r > 0 && (o->lim < 0 || o->lim > all_short_r)) o->lim = all_short_r;
	if (cls == 'w' && all_short_w > 0 && !o->torn && (o->lim < 0 || o->lim > all_short_w)) o->lim = all_short_w;
	if (eintr_every > 0 && cls != '-' && !o->err && !o->torn && ++eintr_tick % eintr_every == 0) { o->err = EINTR; o->inj = "eintr"; }
	/* the retry takes the number of the interrupted call: interruptions do not shift other faults */
	if (o->err == EINTR && cls != '-' && !o->torn && !o->after) ops--;
}

static long done(struct op *o, long r)
{
	char b[1400], q[1200];
	int e = r < 0 ? errno : 0;
	escape(q, sizeof q, o->path);
	int n = snprintf(b, sizeof b, "%ld\t%s\t%s\t%ld\t%d\t%s\n", o->n, o->name, q, r, e, o->torn ? "torn" : o->after ? "killed-after" : o->inj);
	if (logfd >= 0) raw(SYS_write, logfd, (long)b, n, 0, 0, 0);
	if (o->torn || o->after) die();
	in_vain = r < 0 ? in_vain + 1 : 0;
	errno = e;
	return r;
}
static long fail(struct op *o) { errno = (int)o->err; return done(o, -1); }

static void note(int fd, const char *p)
{
	if (fd >= 0 && fd < MAXFD) { if (!fdopen_[fd] && ++fds > fds_peak) fds_peak = fds; fdopen_[fd] = 1; snprintf(fdpath[fd], sizeof fdpath[fd], "%s", p); }
}

/* ------------------------------------------------------------------ open */
static int open_at(int at, const char *p, int fl, mode_t m)
{
	int t = tracked(p) || (p && at >= 0 && tfd(at));
	struct op o;
	char label[300];
	if (!t) return (int)ret(raw(SYS_openat, at, (long)p, fl, m, 0, 0));
	snprintf(label, sizeof label, "%s", p);
	start(&o, (fl & (O_CREAT | O_TRUNC)) || (fl & O_ACCMODE) != O_RDONLY ? "openw" : "openr", label, 'o');
	if (o.err) return (int)fail(&o);
	long r = ret(raw(SYS_openat, at, (long)p, fl, m, 0, 0));
	if (r >= 0) note((int)r, p);
	if (r >= 0 && o.name[4] == 'w' && (fl & (O_CREAT | O_TRUNC))) stamp((int)r, 0);
	return (int)done(&o, r);
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { MODE return open_at(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return open_at(AT_FDCWD, p, fl, m); }
int openat(int at, const char *p, int fl, ...) { MODE return open_at(at, p, fl, m); }
int openat64(int at, const char *p, int fl, ...) { MODE return open_at(at, p, fl, m); }
int creat(const char *p, mode_t m) { return open_at(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open_at(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd)
{
	struct op o;
	if (fd >= 0 && (fd == logfd || fd == grantfd || fd == readyfd)) return 0;
	if (!tfd(fd) || fd <= 2) return (int)ret(raw(SYS_close, fd, 0, 0, 0, 0, 0));
	char label[300];
	snprintf(label, sizeof label, "%s", path_of(fd));
	start(&o, "close", label, '-');
	if (fdopen_[fd]) fds--;
	fdopen_[fd] = 0;
	long r = ret(raw(SYS_close, fd, 0, 0, 0, 0, 0));
	if (o.err) return (int)fail(&o);
	return (int)done(&o, r);
}
static int dup_note(int from, long r) { if (r >= 0 && tfd(from)) note((int)r, path_of(from)); return (int)r; }
int dup(int fd) { return dup_note(fd, ret(raw(SYS_dup, fd, 0, 0, 0, 0, 0))); }
int dup2(int fd, int to) { return dup_note(fd, ret(raw(SYS_dup2, fd, to, 0, 0, 0, 0))); }
int dup3(int fd, int to, int fl) { return dup_note(fd, ret(raw(SYS_dup3, fd, to, fl, 0, 0, 0))); }
static int do_fcntl(int fd, int cmd, long arg)
{
	long r = ret(raw(SYS_fcntl, fd, cmd, arg, 0, 0, 0));
	if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return dup_note(fd, r);
	return (int)r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

/* ------------------------------------------------------------------ data */
static int pipe_of(int fd)
{
	struct stat s;
	if (!nstale || raw(SYS_fstat, fd, (long)&s, 0, 0, 0, 0) != 0) return -1;
	for (int i = 0; i < nstale; i++)
		if (stale[i].size < 0 && s.st_ino == stale[i].ino) return i;
	return -1;
}
static ssize_t do_read(int fd, void *b, size_t n, long off, int positioned)
{
	struct op o;
	int pipe;
	if (!tfd(fd)) return ret(positioned ? raw(SYS_pread64, fd, (long)b, n, off, 0, 0) : raw(SYS_read, fd, (long)b, n, 0, 0, 0));
	start(&o, "read", path_of(fd), 'r');
	if (o.err) return fail(&o);
	if (o.lim >= 0 && n > (size_t)o.lim) { n = o.lim; o.inj = "short"; }
	if ((pipe = pipe_of(fd)) >= 0) {
		o.inj = "pipe";
		if (positioned) { o.err = ESPIPE; return fail(&o); }
		long r = ret(raw(SYS_pread64, fd, (long)b, n, stale[pipe].pos, 0, 0));
		if (r > 0) stale[pipe].pos += r;
		return done(&o, r);
	}
	return done(&o, ret(positioned ? raw(SYS_pread64, fd, (long)b, n, off, 0, 0) : raw(SYS_read, fd, (long)b, n, 0, 0, 0)));
}
static ssize_t do_write(int fd, const void *b, size_t n, long off, int positioned)
{
	struct op o;
	if (!tfd(fd)) return ret(positioned ? raw(SYS_pwrite64, fd, (long)b, n, off, 0, 0) : raw(SYS_write, fd, (long)b, n, 0, 0, 0));
	start(&o, "write", path_of(fd), 'w');
	if (o.err) return fail(&o);
	int std = !strcmp(path_of(fd), "<stdout>") ? 1 : !strcmp(path_of(fd), "<stderr>") ? 2 : 0;
	for (int i = 0; std && i < nprint; i++) {
		if (print_err[i].fd != std || (print_err[i].sticky ? printed[std] < print_err[i].n : printed[std] != print_err[i].n)) continue;
		printed[std]++;
		o.inj = "print";
		if (!print_err[i].e) return done(&o, 0);
		o.err = print_err[i].e;
		if (o.err == EPIPE) {
			struct sigaction sa;
			if (!sigaction(SIGPIPE, 0, &sa) && sa.sa_handler == SIG_DFL) { errno = EPIPE; done(&o, -1); raise(SIGPIPE); }
		}
		return fail(&o);
	}
	if (std) printed[std]++;
	if (o.lim >= 0 && n > (size_t)o.lim) { n = o.lim; o.inj = "short"; }
	if (fd > 2 && quota >= 0 && n > 0) {
		if (quota == 0) { o.err = ENOSPC; o.inj = "full"; return fail(&o); }
		if (n > (size_t)quota) { n = quota; o.inj = "short"; }
		quota -= n;
	}
	if (o.torn && n == 0) return done(&o, 0);
	long r = ret(positioned ? raw(SYS_pwrite64, fd, (long)b, n, off, 0, 0) : raw(SYS_write, fd, (long)b, n, 0, 0, 0));
	if (r > 0 && fd > 2) stamp(fd, 0);
	return done(&o, r);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, 1); }
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
/* only the first non-empty buffer: a legal short transfer */
ssize_t readv(int fd, const struct iovec *v, int c)
{
	if (!tfd(fd)) return ret(raw(SYS_readv, fd, (long)v, c, 0, 0, 0));
	for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, 0, 0);
	return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
	if (!tfd(fd)) return ret(raw(SYS_writev, fd, (long)v, c, 0, 0, 0));
	for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
	return 0;
}
ssize_t copy_file_range(int in, off64_t *io_, int out, off64_t *oo, size_t n, unsigned fl)
{
	struct op o;
	if (!tfd(in) && !tfd(out)) return ret(raw(SYS_copy_file_range, in, (long)io_, out, (long)oo, n, fl));
	start(&o, "write", path_of(out), 'w');
	if (o.err) return fail(&o);
	if (o.lim >= 0 && n > (size_t)o.lim) n = o.lim;
	long r = ret(raw(SYS_copy_file_range, in, (long)io_, out, (long)oo, n, fl));
	if (r > 0) stamp(out, 0);
	return done(&o, r);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
	struct op o;
	if (!tfd(in) && !tfd(out)) return ret(raw(SYS_sendfile, out, in, (long)off, n, 0, 0));
	start(&o, "write", path_of(out), 'w');
	if (o.err) return fail(&o);
	if (o.lim >= 0 && n > (size_t)o.lim) n = o.lim;
	return done(&o, ret(raw(SYS_sendfile, out, in, (long)off, n, 0, 0)));
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, off, n); }

/* ------------------------------------------------------------------ the rest: one macro per shape */
#define FDCALL(T, name, sys, params, fd, ...) \
	T name params { struct op o; if (!tfd(fd)) return (T)ret(raw(sys, __VA_ARGS__)); \
		start(&o, #name, path_of(fd), '-'); if (o.err) return (T)fail(&o); return (T)done(&o, ret(raw(sys, __VA_ARGS__))); }
#define PCALL(T, name, sys, params, p, ...) \
	T name params { struct op o; if (!tracked(p)) return (T)ret(raw(sys, __VA_ARGS__)); \
		char label[300]; snprintf(label, sizeof label, "%s", p); \
		start(&o, #name, label, '-'); if (o.err) return (T)fail(&o); return (T)done(&o, ret(raw(sys, __VA_ARGS__))); }

FDCALL(int, fsync, SYS_fsync, (int fd), fd, fd, 0, 0, 0, 0, 0)
FDCALL(int, fdatasync, SYS_fdatasync, (int fd), fd, fd, 0, 0, 0, 0, 0)
FDCALL(int, ftruncate, SYS_ftruncate, (int fd, off_t n), fd, fd, n, 0, 0, 0, 0)
FDCALL(int, ftruncate64, SYS_ftruncate, (int fd, off64_t n), fd, fd, n, 0, 0, 0, 0)
FDCALL(int, fchmod, SYS_fchmod, (int fd, mode_t m), fd, fd, m, 0, 0, 0, 0)
FDCALL(int, fallocate64, SYS_fallocate, (int fd, int m, off64_t a, off64_t b), fd, fd, m, a, b, 0, 0)
FDCALL(int, flock, SYS_flock, (int fd, int m), fd, fd, m, 0, 0, 0, 0)
PCALL(int, mkdir, SYS_mkdir, (const char *p, mode_t m), p, (long)p, m, 0, 0, 0, 0)
PCALL(int, rmdir, SYS_rmdir, (const char *p), p, (long)p, 0, 0, 0, 0, 0)
PCALL(int, unlink, SYS_unlink, (const char *p), p, (long)p, 0, 0, 0, 0, 0)
PCALL(int, unlinkat, SYS_unlinkat, (int at, const char *p, int f), p, at, (long)p, f, 0, 0, 0)
PCALL(int, rename, SYS_rename, (const char *p, const char *q), p, (long)p, (long)q, 0, 0, 0, 0)
PCALL(int, renameat, SYS_renameat, (int a, const char *p, int b, const char *q), p, a, (long)p, b, (long)q, 0, 0)
PCALL(int, renameat2, SYS_renameat2, (int a, const char *p, int b, const char *q, unsigned f), p, a, (long)p, b, (long)q, f, 0)
PCALL(int, link, SYS_link, (const char *p, const char *q), p, (long)p, (long)q, 0, 0, 0, 0)
PCALL(int, linkat, SYS_linkat, (int a, const char *p, int b, const char *q, int f), p, a, (long)p, b, (long)q, f, 0)
PCALL(int, symlink, SYS_symlink, (const char *p, const char *q), q, (long)p, (long)q, 0, 0, 0, 0)
PCALL(int, chmod, SYS_chmod, (const char *p, mode_t m), p, (long)p, m, 0, 0, 0, 0)
PCALL(int, truncate, SYS_truncate, (const char *p, off_t n), p, (long)p, n, 0, 0, 0, 0)
PCALL(int, truncate64, SYS_truncate, (const char *p, off64_t n), p, (long)p, n, 0, 0, 0, 0)
PCALL(int, access, SYS_access, (const char *p, int m), p, (long)p, m, 0, 0, 0, 0)
PCALL(int, faccessat, SYS_faccessat, (int at, const char *p, int m, int f), p, at, (long)p, m, f, 0, 0)
PCALL(ssize_t, readlink, SYS_readlink, (const char *p, char *b, size_t n), p, (long)p, (long)b, n, 0, 0, 0)

/* what the file system says a file's size is may be old, or nothing it can know */
static long aged(struct op *o, long r, struct stat *s)
{
	for (int i = 0; r == 0 && i < nstale; i++)
		if (s->st_ino == stale[i].ino && S_ISREG(s->st_mode)) {
			o->inj = stale[i].size < 0 ? "pipe" : "stale size";
			if (stale[i].size < 0) { s->st_mode = (s->st_mode & ~S_IFMT) | S_IFIFO; s->st_blocks = 0; }
			s->st_size = stale[i].size < 0 ? 0 : stale[i].size;
		}
	return done(o, r);
}
static long stat_fd(const char *name, int fd, struct stat *s)
{
	struct op o;
	if (!tfd(fd)) return ret(raw(SYS_fstat, fd, (long)s, 0, 0, 0, 0));
	start(&o, name, path_of(fd), '-');
	if (o.err) return fail(&o);
	return aged(&o, ret(raw(SYS_fstat, fd, (long)s, 0, 0, 0, 0)), s);
}
static long stat_path(const char *name, long sys, const char *p, struct stat *s)
{
	struct op o;
	char label[300];
	if (!tracked(p)) return ret(raw(sys, (long)p, (long)s, 0, 0, 0, 0));
	snprintf(label, sizeof label, "%s", p);
	start(&o, name, label, '-');
	if (o.err) return fail(&o);
	return aged(&o, ret(raw(sys, (long)p, (long)s, 0, 0, 0, 0)), s);
}
int fstat64(int fd, struct stat64 *s) { return (int)stat_fd("fstat64", fd, (struct stat *)s); }
int fstat(int fd, struct stat *s) { return (int)stat_fd("fstat", fd, s); }
int stat64(const char *p, struct stat64 *s) { return (int)stat_path("stat64", SYS_stat, p, (struct stat *)s); }
int lstat64(const char *p, struct stat64 *s) { return (int)stat_path("lstat64", SYS_lstat, p, (struct stat *)s); }
int stat(const char *p, struct stat *s) { return (int)stat_path("stat", SYS_stat, p, s); }
int lstat(const char *p, struct stat *s) { return (int)stat_path("lstat", SYS_lstat, p, s); }

/* the end of a file is where its size, as given, puts it */
static long seek_fd(int fd, long off, int w)
{
	struct op o;
	struct stat s;
	if (!tfd(fd)) return ret(raw(SYS_lseek, fd, off, w, 0, 0, 0));
	start(&o, w == SEEK_END ? "seekend" : "lseek", path_of(fd), '-');
	if (o.err) return fail(&o);
	if (pipe_of(fd) >= 0) { o.inj = "pipe"; o.err = ESPIPE; return fail(&o); }
	if (w == SEEK_END && nstale && raw(SYS_fstat, fd, (long)&s, 0, 0, 0, 0) == 0)
		for (int i = 0; i < nstale; i++)
			if (s.st_ino == stale[i].ino && S_ISREG(s.st_mode)) { o.inj = "stale size"; w = SEEK_SET; off += stale[i].size; }
	return done(&o, ret(raw(SYS_lseek, fd, off, w, 0, 0, 0)));
}
off_t lseek(int fd, off_t off, int w) { return seek_fd(fd, off, w); }
off64_t lseek64(int fd, off64_t off, int w) { return seek_fd(fd, off, w); }

int statx(int at, const char *p, int fl, unsigned mask, struct statx *b)
{
	struct op o;
	const char *volatile vp = p; /* glibc declares it non-null, the Rust library probes with null */
	p = vp;
	int byfd = p && !*p && tfd(at);
	if (!byfd && !tracked(p)) return (int)ret(raw(SYS_statx, at, (long)p, fl, mask, (long)b, 0));
	char label[300];
	snprintf(label, sizeof label, "%s", byfd ? path_of(at) : p);
	start(&o, byfd ? "fstatx" : "statx", label, '-');
	if (o.err) return (int)fail(&o);
	long r = ret(raw(SYS_statx, at, (long)p, fl, mask, (long)b, 0));
	for (int i = 0; r == 0 && i < nstale; i++)
		if (b->stx_ino == stale[i].ino && S_ISREG(b->stx_mode)) {
			o.inj = stale[i].size < 0 ? "pipe" : "stale size";
			if (stale[i].size < 0) { b->stx_mode = (b->stx_mode & ~S_IFMT) | S_IFIFO; b->stx_blocks = 0; }
			b->stx_size = stale[i].size < 0 ? 0 : stale[i].size;
		}
	return (int)done(&o, r);
}

/* hash keys are the simulator's choice here too */
ssize_t getrandom(void *b, size_t n, unsigned fl)
{
	(void)fl;
	for (size_t k = 0; k < n; k++) {
		unsigned long z = pid * 0x9e3779b97f4a7c15UL + ++draws * 0xbf58476d1ce4e5b9UL;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9UL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebUL;
		((unsigned char *)b)[k] = (unsigned char)(z >> 56);
	}
	return (ssize_t)n;
}
pid_t getpid(void) { return (pid_t)pid; }

/* so is the time: it passes with the operations, and while the process sleeps */
int clock_gettime(clockid_t c, struct timespec *t)
{
	(void)c;
	t->tv_sec = now() / 1000000000L;
	t->tv_nsec = now() % 1000000000L;
	return 0;
}
time_t time(time_t *t) { time_t x = now() / 1000000000L; if (t) *t = x; return x; }
int gettimeofday(struct timeval *restrict t, void *restrict z)
{
	(void)z;
	if (t) { t->tv_sec = now() / 1000000000L; t->tv_usec = now() % 1000000000L / 1000; }
	return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b)
{
	(void)b;
	clock_ns += a->tv_sec * 1000000000L + a->tv_nsec;
	return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b)
{
	(void)c;
	long t = a->tv_sec * 1000000000L + a->tv_nsec;
	if (!(fl & TIMER_ABSTIME)) return nanosleep(a, b);
	if (t > now()) clock_ns += t - now();
	return 0;
}

int isatty(int fd)
{
	struct termios x;
	if (fd >= 0 && fd <= 2 && tty) return 1;
	if (raw(SYS_ioctl, fd, TCGETS, (long)&x, 0, 0, 0) == 0) return 1;
	errno = ENOTTY;
	return 0;
}
