#include "kit.h"
#include <atomic>
#include <thread>
#include "forksrv.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>

extern Str g_build_dir;
std::vector<Property> &registry() { static std::vector<Property> r; return r; }

const std::vector<Str> &words_of_binary(Ctx &x)
{
	static std::vector<Str> words;
	static bool done;
	if (!done) {
		done = true;
		Bytes b = slurp(x.binary("plain"));
		std::set<Str> seen;
		for (size_t i = 1, n; i < b.size(); i += n + 1) {
			for (n = 0; i + n < b.size() && (isalnum(b[i + n]) || b[i + n] == '_'); n++)
				;
			Str w(b.begin() + i, b.begin() + i + n);
			if (n < 3 || n > 40 || b[i - 1] || i + n >= b.size() || b[i + n] || !isupper(w[0]))
				continue;
			if (std::any_of(w.begin(), w.end(), [](char c) { return islower(c); }))
				continue;
			if (w.compare(0, 3, "LD_") && w.compare(0, 5, "GLIBC") && w != "POSIXLY_CORRECT" && w != "ARGP_HELP_FMT" && w != "GAIA_FORKSRV" && seen.size() < 1000)
				seen.insert(w);
		}
		words.assign(seen.begin(), seen.end());
	}
	return words;
}

Str strf(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	char *p = nullptr;
	if (vasprintf(&p, fmt, ap) < 0)
		abort();
	va_end(ap);
	Str s(p);
	free(p);
	return s;
}
Str esc(const Str &s, size_t max)
{
	Str r;
	for (size_t i = 0; i < s.size() && i < max; i++) {
		unsigned char c = s[i];
		if (c == '\n')
			r += "\\n";
		else if (c == '\t')
			r += "\\t";
		else if (c == '\r')
			r += "\\r";
		else if (c < 32 || c >= 127)
			r += strf("\\x%02x", c);
		else
			r += c;
	}
	if (s.size() > max)
		r += strf("...(%zu bytes)", s.size());
	return r;
}
Str hexdump(const Bytes &b, size_t from, size_t n)
{
	Str r;
	for (size_t i = from; i < from + n && i < b.size(); i++)
		r += strf("%02x ", b[i]);
	return r;
}
Bytes slurp(const Str &path, bool *ok)
{
	Bytes b;
	int fd = open(path.c_str(), O_RDONLY | O_NONBLOCK);
	if (ok)
		*ok = fd >= 0;
	if (fd < 0)
		return b;
	struct stat st;
	if (!fstat(fd, &st) && st.st_size > 0 && st.st_size < (64 << 20))
		b.reserve(st.st_size + 1);
	size_t used = 0;
	for (;;) {
		size_t chunk = 65536;
		if (b.capacity() > used && b.capacity() - used < chunk)
			chunk = b.capacity() - used;
		b.resize(used + chunk);
		ssize_t r = read(fd, b.data() + used, chunk);
		if (r <= 0) {
			b.resize(used);
			break;
		}
		used += r;
		b.resize(used);
	}
	close(fd);
	return b;
}
void spill(const Str &path, const void *p, size_t n)
{
	int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0) {
		fprintf(stderr, "pbt: cannot write %s: %s\n", path.c_str(), strerror(errno));
		exit(3);
	}
	const char *c = (const char *)p;
	while (n) {
		ssize_t r = write(fd, c, n);
		if (r <= 0) {
			fprintf(stderr, "pbt: cannot write %s: %s\n", path.c_str(), strerror(errno));
			exit(3);
		}
		c += r;
		n -= r;
	}
	close(fd);
}
Str Result::status() const
{
	if (hang)
		return "did not terminate";
	if (sig)
		return strf("killed by signal %d (%s)", sig, strsignal(sig));
	return strf("exit status %d", exit);
}

// ------------------------------------------------------------- fork server
struct Server {
	pid_t pid = -1;
	int w = -1, r = -1, out = -1, err = -1;
	Str dir;
};
static void xwrite(int fd, const void *p, size_t n)
{
	if (write(fd, p, n) != (ssize_t)n) {
		fprintf(stderr, "pbt: fork server went away\n");
		exit(3);
	}
}
static bool xread(int fd, void *p, size_t n, int timeout_ms)
{
	char *c = (char *)p;
	while (n) {
		struct pollfd pf = {fd, POLLIN, 0};
		int k = poll(&pf, 1, timeout_ms);
		if (k < 0 && errno == EINTR)
			continue;
		if (k == 0)
			return false;
		ssize_t r = read(fd, c, n);
		if (r <= 0) {
			fprintf(stderr, "pbt: fork server went away\n");
			exit(3);
		}
		c += r;
		n -= r;
	}
	return true;
}
Str Ctx::binary(const Str &variant) { return g_build_dir + "/" + variant + "/gaia"; }

static Server *start_server(Ctx &x, const Str &variant)
{
	Server *s = new Server;
	s->dir = x.dir + "/" + variant;
	mkdir(s->dir.c_str(), 0755);
	int a[2], b[2];
	if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC))
		exit(3);
	s->out = open((s->dir + "/.stdout").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
	s->err = open((s->dir + "/.stderr").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
	Str bin = x.binary(variant);
	s->pid = fork();
	if (s->pid == 0) {
		int nul = open("/dev/null", O_RDONLY);
		dup2(nul, 0);
		dup2(s->out, 1);
		dup2(s->err, 2);
		dup2(a[0], 198);
		dup2(b[1], 199);
		if (chdir(s->dir.c_str()))
			_exit(98);
		signal(SIGXFSZ, SIG_DFL);
		signal(SIGPIPE, SIG_DFL);
		const char *envp[] = {"GAIA_FORKSRV=198,199", "PATH=/usr/bin:/bin", "LC_ALL=C",
			"ASAN_OPTIONS=detect_leaks=0:exitcode=86:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:symbolize=0:external_symbolizer_path=",
			"UBSAN_OPTIONS=exitcode=86:print_stacktrace=0:halt_on_error=1",
			"MSAN_OPTIONS=exitcode=86:symbolize=0:external_symbolizer_path=", nullptr};
		const char *argv[] = {"gaia", "-o", "out.bin", "in.asm", nullptr};
		execve(bin.c_str(), (char **)argv, (char **)envp);
		_exit(99);
	}
	close(a[0]);
	close(b[1]);
	s->w = a[1];
	s->r = b[0];
	fs_rep h;
	if (!xread(s->r, &h, sizeof h, 60000) || h.magic != FS_MAGIC) {
		fprintf(stderr, "pbt: fork server did not start: %s\n", bin.c_str());
		exit(3);
	}
	return s;
}
static Str take(int fd)
{
	struct stat st;
	Str s;
	if (!fstat(fd, &st) && st.st_size > 0) {
		s.resize(st.st_size);
		ssize_t n = pread(fd, &s[0], s.size(), 0);
		s.resize(n > 0 ? n : 0);
		if (ftruncate(fd, 0))
			exit(3);
	}
	lseek(fd, 0, SEEK_SET);
	return s;
}

Result Ctx::run_alone(const Str &src, const RunOpts &o)
{
	Server *&s = servers[o.variant];
	if (!s)
		s = start_server(*this, o.variant);
	Str in = s->dir + "/in.asm", outp = s->dir + "/out.bin";
	std::thread feeder;
	std::atomic<bool> fed{false};
	if (o.fifo > 0) {
		unlink(in.c_str());
		if (mkfifo(in.c_str(), 0644)) {
			fprintf(stderr, "pbt: cannot make a pipe %s: %s\n", in.c_str(), strerror(errno));
			::exit(3);
		}
		signal(SIGPIPE, SIG_IGN);
		feeder = std::thread([&] {
			int f = open(in.c_str(), O_WRONLY | O_CLOEXEC);
			size_t at = 0;
			while (f >= 0 && at < src.size()) {
				ssize_t w = write(f, src.data() + at, std::min((size_t)o.fifo, src.size() - at));
				if (w <= 0)
					break;
				at += w;
			}
			if (f >= 0)
				close(f);
			fed = true;
		});
	} else {
		spill(in, src);
	}
	if (!o.keep_output)
		unlink(outp.c_str());
	fs_req q;
	memset(&q, 0, sizeof q);
	q.cpu_s = o.cpu_s;
	if (o.fsize >= 0) {
		q.fsize = o.fsize;
		q.fsize_zero = 1;
	}
	q.fail_alloc = o.fail_alloc;
	q.fail_read = o.fail_read;
	q.read_piece = o.read_piece;
	q.fail_write = o.fail_write;
	q.fail_close = o.fail_close;
	q.read_once = o.read_once;
	q.write_once = o.write_once;
	q.no_seek = o.no_seek;
	q.strange = o.strange;
	xwrite(s->w, &q, sizeof q);
	fs_rep p;
	if (!xread(s->r, &p, sizeof p, 60000) || p.pid < 0) {
		fprintf(stderr, "pbt: cannot fork a case\n");
		exit(3);
	}
	Result r;
	pid_t child = p.pid;
	// CPU time is limited in the child; this only catches a blocked process
	if (!xread(s->r, &p, sizeof p, 60000)) {
		r.hang = true;
		kill(child, SIGKILL);
		if (!xread(s->r, &p, sizeof p, 60000))
			exit(3);
	}
	execs++;
	if (o.fifo > 0) {
		// in case the source was never opened or not read to its end
		for (int f = -1; !fed;) {
			if (f < 0)
				f = open(in.c_str(), O_RDONLY | O_NONBLOCK | O_CLOEXEC);
			char b[65536];
			if (f >= 0)
				while (read(f, b, sizeof b) > 0)
					;
			usleep(50);
			if (fed && f >= 0)
				close(f);
		}
		feeder.join();
		unlink(in.c_str());
	}
	if (WIFEXITED(p.status))
		r.exit = WEXITSTATUS(p.status);
	else if (WIFSIGNALED(p.status)) {
		r.sig = WTERMSIG(p.status);
		if (r.sig == SIGXCPU)
			r.hang = true;
	}
	r.fired = p.fired;
	r.allocs = p.allocs;
	r.cookies = p.cookies;
	r.out = take(s->out);
	r.err = take(s->err);
	r.image = slurp(outp, &r.have_image);
	return r;
}

Result Ctx::proc(const ProcOpts &o)
{
	Result r;
	Str bin = binary(o.variant);
	Str so = dir + "/.pstdout", se = dir + "/.pstderr";
	int fo = open(so.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
	int fe = open(se.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
	// opened before dropping privileges, so the binary need not be reachable
	int fb = open(bin.c_str(), O_RDONLY | O_CLOEXEC);
	if (fo < 0 || fe < 0 || fb < 0)
		exit(3);
	int ends[2] = {-1, -1}; // what the program gets as standard output, and our end
	if (o.stdout_kind == 1) {
		int p[2];
		if (pipe2(p, O_CLOEXEC))
			exit(3);
		ends[0] = p[1];
		ends[1] = p[0];
	} else if (o.stdout_kind == 2) {
		int m = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
		struct termios tio;
		char name[100];
		if (m >= 0 && !grantpt(m) && !unlockpt(m) && !ptsname_r(m, name, sizeof name)) {
			ends[0] = open(name, O_RDWR | O_NOCTTY | O_CLOEXEC);
			if (ends[0] >= 0 && !tcgetattr(ends[0], &tio)) {
				cfmakeraw(&tio);
				tcsetattr(ends[0], TCSANOW, &tio);
			}
		}
		if (ends[0] < 0 && m >= 0)
			close(m);
		else
			ends[1] = m;
	}
	std::vector<const char *> av{o.argv0.c_str()}, ev;
	for (auto &a : o.args)
		av.push_back(a.c_str());
	av.push_back(nullptr);
	for (auto &a : o.env)
		ev.push_back(a.c_str());
	ev.push_back(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		int in = open(o.stdin_file.c_str(), O_RDONLY);
		dup2(in, 0);
		dup2(ends[0] >= 0 ? ends[0] : fo, 1);
		dup2(fe, 2);
		if (!o.cwd.empty() && chdir(o.cwd.c_str()))
			_exit(98);
		signal(SIGPIPE, SIG_DFL);
		struct rlimit l = {(rlim_t)o.cpu_s, (rlim_t)o.cpu_s + 2};
		setrlimit(RLIMIT_CPU, &l);
		l.rlim_cur = l.rlim_max = 0;
		setrlimit(RLIMIT_CORE, &l);
		l.rlim_cur = l.rlim_max = 64 << 20;
		setrlimit(RLIMIT_FSIZE, &l);
		if (o.stack_kb) {
			l.rlim_cur = l.rlim_max = (rlim_t)o.stack_kb << 10;
			setrlimit(RLIMIT_STACK, &l);
		}
		if (o.data_kb) {
			l.rlim_cur = l.rlim_max = (rlim_t)o.data_kb << 10;
			setrlimit(RLIMIT_DATA, &l);
		}
		if (o.mask >= 0)
			umask(o.mask);
		if (o.as_nobody && (setgid(65534) || setuid(65534)))
			_exit(98);
		for (int i = 0; i < 3; i++)
			if (o.closed >> i & 1)
				close(i);
		fexecve(fb, (char **)av.data(), (char **)ev.data());
		_exit(99);
	}
	Str piped;
	std::thread drain;
	if (ends[0] >= 0) {
		close(ends[0]);
		drain = std::thread([&] {
			char buf[4096];
			ssize_t n;
			while ((n = read(ends[1], buf, sizeof buf)) > 0 || (n < 0 && errno == EINTR))
				if (n > 0)
					piped.append(buf, n);
		});
	}
	int st = 0, waited = 0;
	for (;;) {
		struct rusage ru;
		pid_t w = wait4(pid, &st, WNOHANG, &ru);
		if (w == pid) {
			r.user_s = ru.ru_utime.tv_sec + ru.ru_utime.tv_usec / 1e6;
			break;
		}
		usleep(waited < 100 ? 100 : 2000);
		if (++waited > 60000) {
			r.hang = true;
			kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			break;
		}
	}
	execs++;
	close(fb);
	if (WIFEXITED(st))
		r.exit = WEXITSTATUS(st);
	else if (WIFSIGNALED(st)) {
		r.sig = WTERMSIG(st);
		if (r.sig == SIGXCPU)
			r.hang = true;
	}
	if (r.exit == 98 || r.exit == 99) {
		fprintf(stderr, "pbt: cannot execute %s\n", bin.c_str());
		exit(3);
	}
	Bytes b = slurp(so);
	r.out.assign(b.begin(), b.end());
	if (ends[0] >= 0) {
		drain.join();
		close(ends[1]);
		r.out = piped;
	}
	b = slurp(se);
	r.err.assign(b.begin(), b.end());
	close(fo);
	close(fe);
	return r;
}

Ctx::~Ctx()
{
	for (auto &s : servers) {
		close(s.second->w);
		close(s.second->r);
		waitpid(s.second->pid, nullptr, 0);
		close(s.second->out);
		close(s.second->err);
	}
}

// ------------------------------------------------------------- oracles
bool has_error(const Str &out) { return out.find("ERROR: ") != Str::npos; }
bool claims_success(const Str &out) { return out.find("successful") != Str::npos; }
static Str rtrim(Str s)
{
	while (!s.empty() && strchr(" \t\r\n", s.back()))
		s.pop_back();
	return s;
}
Diag parse_diag(const Str &out)
{
	Diag d;
	d.raw = out;
	std::vector<Str> l;
	size_t p = 0, q;
	while ((q = out.find('\n', p)) != Str::npos) {
		l.push_back(out.substr(p, q - p));
		p = q + 1;
	}
	if (l.empty())
		return d;
	size_t e = l[0].find(": ERROR: ");
	if (e == Str::npos)
		return d;
	size_t c = l[0].rfind(':', e - 1);
	if (c == Str::npos)
		return d;
	d.file = l[0].substr(0, c);
	d.line = strtol(l[0].c_str() + c + 1, nullptr, 10);
	if (strf("%ld", d.line) != l[0].substr(c + 1, e - c - 1))
		return d;
	d.msg = l[0].substr(e + 9);
	if (l.size() > 1)
		d.text = rtrim(l[1]);
	if (l.size() > 2) {
		size_t i = l[2].find('^');
		if (i != Str::npos && l[2].find_first_not_of(' ') == i)
			d.caret = (long)i;
	}
	d.ok = true;
	return d;
}
long visual_col(const Str &line, size_t off)
{
	long v = 0;
	for (size_t i = 0; i < off && i < line.size(); i++)
		v = line[i] == '\t' ? v / 8 * 8 + 8 : v + 1;
	return v;
}
void expect_clean(Ctx &x, const Result &r, const char *what)
{
	if (r.hang || r.sig || (r.exit != 0 && r.exit != 1))
		x.fail(strf("%s: abnormal end: %s; stdout \"%s\" stderr \"%s\"", what, r.status().c_str(), esc(r.out, 300).c_str(), esc(r.err, 1500).c_str()));
}
void expect_accept(Ctx &x, const Result &r, const char *what)
{
	expect_clean(x, r, what);
	if (r.exit != 0 || !claims_success(r.out) || has_error(r.out))
		x.fail(strf("%s: a correct program was not accepted: %s, output \"%s\"", what, r.status().c_str(), esc(r.out, 400).c_str()));
	if (!r.have_image)
		x.fail(strf("%s: success is claimed but there is no output file", what));
}
Str first_diff(const Bytes &a, const Bytes &b)
{
	size_t n = std::max(a.size(), b.size());
	for (size_t i = 0; i < n; i++) {
		if (i >= a.size() || i >= b.size() || a[i] != b[i]) {
			size_t from = i > 3 ? i - 3 : 0;
			return strf("first difference at $%04zX; expected length %zu, actual length %zu; expected from $%04zX: %s actual: %s", i,
				a.size(), b.size(), from, hexdump(a, from, 12).c_str(), hexdump(b, from, 12).c_str());
		}
	}
	return "no difference";
}
void expect_ok(Ctx &x, const Result &r, const Bytes &image, long bytes, long symbols, const char *what)
{
	expect_accept(x, r, what);
	if (r.image != image)
		x.fail(strf("%s: wrong output image: %s", what, first_diff(image, r.image).c_str()));
	if (bytes >= 0) {
		Str want = strf("Assembly successful.\n%ld (0x%04lx) bytes assembled.\n%ld symbols.\n", bytes, bytes, symbols);
		if (r.out != want)
			x.fail(strf("%s: wrong summary: expected \"%s\", actual \"%s\"", what, esc(want).c_str(), esc(r.out, 400).c_str()));
	}
}
void expect_reject(Ctx &x, const Result &r, int kind, long line, const char *what)
{
	expect_clean(x, r, what);
	if (r.exit != 1)
		x.fail(strf("%s: a faulty program (line %ld: %s) was accepted: output \"%s\" image of %zu bytes %s", what, line,
			kind >= 0 ? err_text(kind) : "any error", esc(r.out, 300).c_str(), r.image.size(), hexdump(r.image, r.image.size() > 16 ? r.image.size() - 16 : 0, 16).c_str()));
	if (claims_success(r.out) || !has_error(r.out))
		x.fail(strf("%s: rejected without an error message, or with a success message: \"%s\"", what, esc(r.out, 400).c_str()));
	Diag d = parse_diag(r.out);
	if ((kind >= 0 || line >= 0) && !d.ok)
		x.fail(strf("%s: no diagnostic of the form file:line: ERROR: expected line %ld \"%s\", output \"%s\"", what, line, kind >= 0 ? err_text(kind) : "", esc(r.out, 400).c_str()));
	if (kind >= 0 && d.msg != err_text(kind))
		x.fail(strf("%s: wrong kind of error: expected \"%s\" for line %ld, output \"%s\"", what, err_text(kind), line, esc(r.out, 400).c_str()));
	if (line >= 0 && d.line != line)
		x.fail(strf("%s: wrong line: expected %ld (%s), output \"%s\"", what, line, kind >= 0 ? err_text(kind) : "", esc(r.out, 400).c_str()));
}
void expect_same(Ctx &x, const Result &a, const Result &b, const char *what)
{
	expect_clean(x, a, what);
	expect_clean(x, b, what);
	if (a.exit != b.exit)
		x.fail(strf("%s: one form is accepted and the other is not: first %s \"%s\", second %s \"%s\"", what, a.status().c_str(),
			esc(a.out, 300).c_str(), b.status().c_str(), esc(b.out, 300).c_str()));
	if (a.exit == 0 && a.image != b.image)
		x.fail(strf("%s: the two forms give different images: %s", what, first_diff(a.image, b.image).c_str()));
}
void expect_ref(Ctx &x, const Result &r, const RefResult &f, bool diag, const char *what)
{
	if (f.ok) {
		expect_ok(x, r, f.image, f.bytes, f.symbols, what);
		return;
	}
	expect_reject(x, r, f.err, f.line, what);
	if (!diag)
		return;
	Diag d = parse_diag(r.out);
	if (d.file != "in.asm")
		x.fail(strf("%s: wrong file name in diagnostic \"%s\"", what, esc(r.out, 300).c_str()));
	if (d.text != rtrim(f.text))
		x.fail(strf("%s: wrong source line in diagnostic: expected \"%s\", actual \"%s\"", what, esc(rtrim(f.text), 600).c_str(), esc(d.text, 600).c_str()));
	long want = f.col < 0 ? -1 : visual_col(f.text, f.col);
	if (d.caret != want)
		x.fail(strf("%s: marker at column %ld, expected %ld (%s) under \"%s\"; output \"%s\"", what, d.caret, want, err_text(f.err),
			f.col >= 0 ? esc(f.text.substr(f.col, 20)).c_str() : "", esc(r.out, 800).c_str()));
}
