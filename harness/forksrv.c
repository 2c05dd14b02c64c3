/* forksrv.c - linked into the copy of gaia under test (never into /repo).

   A constructor that runs before the real main().  When GAIA_FORKSRV names a
   control descriptor pair it turns the process into a fork server: for every
   request one fresh child continues into the unmodified main(), so each case
   runs in a pristine process.  Without GAIA_FORKSRV nothing happens.

   Optional faults, all off unless the request asks for them:
     - the k-th allocation call made by gaia's own objects returns NULL
     - the source stream fails with EIO after n bytes, or is delivered in
       pieces of p bytes
     - the output stream fails with ENOSPC once more than n bytes were stored
       at or beyond a given offset (via fopencookie)
     - RLIMIT_FSIZE with SIGXFSZ ignored
     - strange surroundings: new memory is filled with junk, and every question
       about environment, time, process, user, or terminal gets a made-up answer
*/
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "forksrv.h"

static struct fs_req cur;
static struct fs_shared *sh; /* shared with the driver-facing server */
static int armed;

/* ------------------------------------------------ allocation failures */
static int hit_alloc(void)
{
	if (!armed)
		return 0;
	sh->allocs++;
	if (cur.fail_alloc && (int64_t)sh->allocs == cur.fail_alloc) {
		sh->fired = 1;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}

#ifdef FS_WRAP
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
void *__real_reallocarray(void *, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
FILE *__real_fopen(const char *, const char *);
ssize_t __real_getline(char **, size_t *, FILE *);
ssize_t __real_getdelim(char **, size_t *, int, FILE *);

static void *junk(void *p, size_t from)
{
	if (p && armed && cur.strange) {
		size_t n = malloc_usable_size(p);
		if (n > from)
			memset((char *)p + from, (int)(cur.strange & 255), n - from);
	}
	return p;
}
void *__wrap_malloc(size_t n) { return hit_alloc() ? NULL : junk(__real_malloc(n), 0); }
void *__wrap_calloc(size_t n, size_t m) { return hit_alloc() ? NULL : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n)
{
	size_t old = p ? malloc_usable_size(p) : 0;
	return hit_alloc() ? NULL : junk(__real_realloc(p, n), old);
}
char *__wrap_strdup(const char *s) { return hit_alloc() ? NULL : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return hit_alloc() ? NULL : __real_strndup(s, n); }
void *__wrap_reallocarray(void *p, size_t a, size_t b)
{
	size_t old = p ? malloc_usable_size(p) : 0;
	return hit_alloc() ? NULL : junk(__real_reallocarray(p, a, b), old);
}
void *__wrap_aligned_alloc(size_t a, size_t b) { return hit_alloc() ? NULL : junk(__real_aligned_alloc(a, b), 0); }

/* ------------------------------------------------ surroundings */
static uint64_t odd(uint64_t salt)
{
	uint64_t x = (uint64_t)cur.strange * 0x9E3779B97F4A7C15ull + salt * 0xD1B54A32D192ED03ull;
	x ^= x >> 32;
	x *= 0xD6E8FEB86659FD93ull;
	return x ^ x >> 29;
}
#define STRANGE (armed && cur.strange)
char *__real_getenv(const char *);
char *__real_secure_getenv(const char *);
static char *env(char *real, const char *name)
{
	static char *const v[] = {NULL, "", "1", "0", "yes", "xterm-256color", "/tmp", "9999", "de_DE.UTF-8", "$"};
	uint64_t h = 7;
	if (!STRANGE)
		return real;
	while (*name)
		h = h * 31 + *name++;
	return v[odd(h) % (sizeof v / sizeof *v)];
}
char *__wrap_getenv(const char *n) { return env(__real_getenv(n), n); }
char *__wrap_secure_getenv(const char *n) { return env(__real_secure_getenv(n), n); }
time_t __real_time(time_t *);
time_t __wrap_time(time_t *t)
{
	time_t r = STRANGE ? (time_t)(odd(1) & 0x7FFFFFFFF) : __real_time(t);
	if (t)
		*t = r;
	return r;
}
clock_t __real_clock(void);
clock_t __wrap_clock(void) { return STRANGE ? (clock_t)(odd(2) & 0xFFFFFFF) : __real_clock(); }
int __real_gettimeofday(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval *t, void *z)
{
	int r = __real_gettimeofday(t, z);
	if (STRANGE && t)
		t->tv_sec = odd(3) & 0x7FFFFFFFF, t->tv_usec = odd(4) % 1000000;
	return r;
}
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	int r = __real_clock_gettime(c, t);
	if (STRANGE && !r)
		t->tv_sec = odd(5) & 0x7FFFFFFFF, t->tv_nsec = odd(6) % 1000000000;
	return r;
}
int __real_rand(void);
int __wrap_rand(void) { return STRANGE ? (int)(odd(++sh->allocs + 1000) & 0x7FFFFFFF) : __real_rand(); }
long __real_random(void);
long __wrap_random(void) { return STRANGE ? (long)(odd(++sh->allocs + 1000) & 0x7FFFFFFF) : __real_random(); }
int __real_isatty(int);
int __wrap_isatty(int f) { return STRANGE ? (int)(odd(8) & 1) : __real_isatty(f); }
pid_t __real_getpid(void);
pid_t __wrap_getpid(void) { return STRANGE ? (pid_t)(odd(9) & 0x3FFFFF) : __real_getpid(); }
uid_t __real_getuid(void);
uid_t __wrap_getuid(void) { return STRANGE ? (uid_t)(odd(10) & 0xFFFF) : __real_getuid(); }
uid_t __real_geteuid(void);
uid_t __wrap_geteuid(void) { return STRANGE ? (uid_t)(odd(11) & 0xFFFF) : __real_geteuid(); }

/* getline() allocates when its buffer is missing; a failure there is -1 */
ssize_t __wrap_getdelim(char **l, size_t *n, int d, FILE *f)
{
	if (armed && (!*l || !*n) && hit_alloc())
		return -1;
	return __real_getdelim(l, n, d, f);
}
ssize_t __wrap_getline(char **l, size_t *n, FILE *f)
{
	if (armed && (!*l || !*n) && hit_alloc())
		return -1;
	return __real_getline(l, n, f);
}

/* ------------------------------------------------ stream faults */
struct ck { int fd; int64_t pos; int wr, failed; };

static ssize_t ck_read(void *c, char *buf, size_t n)
{
	struct ck *k = c;
	if (cur.read_piece && n > (size_t)cur.read_piece)
		n = cur.read_piece;
	if (cur.fail_read >= 0) {
		if (k->pos >= cur.fail_read && !(cur.read_once && k->failed)) {
			sh->fired = 1;
			k->failed = 1;
			errno = EIO;
			return -1;
		}
		if (!k->failed && (int64_t)n > cur.fail_read - k->pos)
			n = cur.fail_read - k->pos;
	}
	ssize_t r = read(k->fd, buf, n);
	if (r > 0)
		k->pos += r;
	return r;
}
static ssize_t ck_write(void *c, const char *buf, size_t n)
{
	struct ck *k = c;
	if (cur.fail_write >= 0) {
		/* the device accepts fail_write bytes in total, then is full */
		if (cur.write_once && k->failed) {
			;
		} else if (sh->written >= cur.fail_write && n > 0) {
			sh->fired = k->failed = 1;
			errno = ENOSPC;
			return 0;
		}
		else if ((int64_t)n > cur.fail_write - sh->written) {
			/* a short count is an error to stdio */
			n = cur.fail_write - sh->written;
			sh->fired = k->failed = 1;
			errno = ENOSPC;
		}
	}
	ssize_t r = write(k->fd, buf, n);
	if (r > 0)
		sh->written += r;
	return r < 0 ? 0 : r;
}
static int ck_seek(void *c, off64_t *o, int w)
{
	struct ck *k = c;
	if (k->wr && cur.no_seek) {
		errno = ESPIPE;
		return -1;
	}
	off64_t r = lseek64(k->fd, *o, w);
	if (r < 0)
		return -1;
	*o = r;
	k->pos = r;
	return 0;
}
static int ck_close(void *c)
{
	struct ck *k = c;
	int r = close(k->fd);
	if (k->wr && cur.fail_close) {
		sh->fired = 1;
		errno = EIO;
		r = -1;
	}
	free(k);
	return r;
}
FILE *__wrap_fopen(const char *path, const char *mode)
{
	int wr = mode[0] != 'r';
	if (!armed || (wr ? cur.fail_write < 0 && !cur.fail_close
	                  : cur.fail_read < 0 && !cur.read_piece)) {
		if (hit_alloc())
			return NULL;
		return __real_fopen(path, mode);
	}
	int plus = strchr(mode, '+') != NULL;
	int fl = plus ? O_RDWR : wr ? O_WRONLY : O_RDONLY;
	if (mode[0] == 'w')
		fl |= O_CREAT | O_TRUNC;
	else if (mode[0] == 'a')
		fl |= O_CREAT | O_APPEND;
	int fd = open(path, fl, 0666);
	if (fd < 0)
		return NULL;
	struct ck *k = __real_malloc(sizeof *k);
	k->fd = fd;
	k->pos = 0;
	k->wr = wr;
	k->failed = 0;
	cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
	FILE *f = fopencookie(k, mode, io);
	sh->cookies++;
	return f;
}
#else
static int (*unused)(void) __attribute__((unused)) = hit_alloc;
#endif

/* ------------------------------------------------ fork server */
static int xread(int fd, void *p, size_t n)
{
	char *c = p;
	while (n) {
		ssize_t r = read(fd, c, n);
		if (r < 0 && errno == EINTR)
			continue;
		if (r <= 0)
			return -1;
		c += r;
		n -= r;
	}
	return 0;
}

#ifdef __has_feature
#if __has_feature(memory_sanitizer)
#define FS_MSAN
#endif
#endif

static void limit(int what, int64_t v)
{
	struct rlimit r;
	if (v <= 0)
		return;
	r.rlim_cur = v;
	r.rlim_max = what == RLIMIT_CPU ? (rlim_t)v + 2 : (rlim_t)v;
	setrlimit(what, &r);
}

__attribute__((constructor(65535))) static void forksrv(void)
{
	const char *e = getenv("GAIA_FORKSRV");
	if (!e)
		return;
	int rfd, wfd;
	if (sscanf(e, "%d,%d", &rfd, &wfd) != 2)
		_exit(97);
	unsetenv("GAIA_FORKSRV");
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE,
	          MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (sh == MAP_FAILED)
		_exit(96);
	struct fs_rep hello = {.magic = FS_MAGIC};
	if (write(wfd, &hello, sizeof hello) != sizeof hello)
		_exit(95);
	for (;;) {
		if (xread(rfd, &cur, sizeof cur) < 0)
			_exit(0);
		memset(sh, 0, sizeof *sh);
		pid_t pid = fork();
		if (pid < 0) {
			struct fs_rep r = {.magic = FS_MAGIC, .pid = -1};
			if (write(wfd, &r, sizeof r) != sizeof r)
				_exit(94);
			continue;
		}
		if (pid == 0) {
			close(rfd);
			close(wfd);
			limit(RLIMIT_CPU, cur.cpu_s);
			limit(RLIMIT_CORE, 0);
			if (cur.fsize > 0 || cur.fsize_zero) {
				struct rlimit r = {cur.fsize, cur.fsize};
				signal(SIGXFSZ, SIG_IGN);
				setrlimit(RLIMIT_FSIZE, &r);
			} else {
				/* far beyond any legitimate output */
				limit(RLIMIT_FSIZE, 64 << 20);
			}
#if !defined(__SANITIZE_ADDRESS__) && !defined(FS_MSAN)
			limit(RLIMIT_AS, (int64_t)2 << 30);
#endif
			armed = 1;
			return; /* into the real main() */
		}
		struct fs_rep r = {.magic = FS_MAGIC, .pid = pid, .started = 1};
		if (write(wfd, &r, sizeof r) != sizeof r)
			_exit(93);
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
			;
		r.started = 0;
		r.status = st;
		r.fired = sh->fired;
		r.allocs = sh->allocs;
		r.cookies = sh->cookies;
		if (write(wfd, &r, sizeof r) != sizeof r)
			_exit(92);
	}
}
