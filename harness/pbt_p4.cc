// C19-C26: dependence on nothing but the source, command line, round trip,
// primes, independence of lines, the reference assembler, .END, truncation
#include "soup.h"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <numeric>
#include <poll.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern Str g_build_dir;
static int mn_of(const char *s) { return isa().find(s); }

// contents of a directory tree: name -> kind and contents
typedef std::map<Str, Str> Snap;
static void snap_into(const Str &root, const Str &rel, Snap &s)
{
	Str d = rel.empty() ? root : root + "/" + rel;
	DIR *h = opendir(d.c_str());
	if (!h)
		return;
	while (struct dirent *e = readdir(h)) {
		Str n = e->d_name;
		if (n == "." || n == "..")
			continue;
		Str r = rel.empty() ? n : rel + "/" + n, p = root + "/" + r;
		struct stat st;
		if (lstat(p.c_str(), &st))
			continue;
		if (S_ISDIR(st.st_mode)) {
			s[r] = strf("dir %o", st.st_mode & 07777);
			snap_into(root, r, s);
		} else if (S_ISREG(st.st_mode)) {
			Bytes b = slurp(p);
			s[r] = strf("file %o ", st.st_mode & 07777) + Str(b.begin(), b.end());
		} else if (S_ISLNK(st.st_mode)) {
			char buf[4096];
			ssize_t k = readlink(p.c_str(), buf, sizeof buf);
			s[r] = "link " + Str(buf, k > 0 ? k : 0);
		} else {
			s[r] = "special";
		}
	}
	closedir(h);
}
static Snap snapshot(const Str &root)
{
	Snap s;
	snap_into(root, "", s);
	return s;
}
static void wipe(const Str &root) // below the check's own scratch directory only
{
	Snap s = snapshot(root);
	for (auto i = s.rbegin(); i != s.rend(); ++i) {
		Str p = root + "/" + i->first;
		if (i->second.compare(0, 3, "dir") == 0)
			rmdir(p.c_str());
		else
			unlink(p.c_str());
	}
}
static Str fresh_dir(Ctx &x, const char *name)
{
	Str d = x.dir + "/" + name;
	mkdir(d.c_str(), 0755);
	wipe(d);
	return d;
}
// files no run has anything to do with; those of a name in use stay as they are
static void bystanders(Ctx &x, const Str &dir)
{
	static const char *names[] = {"a.out", "in.bin", "out.bin", "out", "a.out~", "out.bin~", "out.bin.tmp", "gaia.tmp", "in.lst", "in.o", "in.sym", "in.asm~", "core", "tmp", ".gaia", "gaia.ini", "in.inc", "in"};
	for (int n = x.c.weighted({1, 1}) ? 18 : (int)x.c.below(4); n > 0; n--) {
		Str p = dir + "/" + names[n - 1];
		struct stat st;
		if (lstat(p.c_str(), &st))
			spill(p, strf("bystander %d\n", n));
	}
}
// "in.asm:3: ERROR" -> with another file name
static Str rename_diag(const Str &out, const Str &name)
{
	return out.compare(0, 7, "in.asm:") == 0 ? name + out.substr(6) : out;
}
static void same_run(Ctx &x, const Result &a, const Result &b, const Str &name, const Str &what)
{
	expect_clean(x, b, what.c_str());
	if (a.exit != b.exit)
		x.fail(strf("%s: exit status differs: first %s \"%s\", now %s \"%s\"", what.c_str(), a.status().c_str(), esc(a.out, 300).c_str(), b.status().c_str(), esc(b.out, 300).c_str()));
	if (rename_diag(a.out, name) != b.out)
		x.fail(strf("%s: standard output differs: first \"%s\", now \"%s\"", what.c_str(), esc(rename_diag(a.out, name), 500).c_str(), esc(b.out, 500).c_str()));
	if (a.exit == 0 && a.image != b.image)
		x.fail(what + ": the output differs: " + first_diff(a.image, b.image));
}

// give a value to every word of the program that could be a variable's name
static void own_words(Ctx &x, std::vector<Str> &env)
{
	static const char *v[] = {"elsewhere.bin", "1", "", "/nonexistent/x", "0", "yes", "2.asm", "-x"};
	Str value = x.c.pick(v);
	for (auto &w : words_of_binary(x))
		env.push_back(w + "=" + value);
	x.cls("environments with every word of the program");
}

// ============================================================ C19
namespace c19 {
static Str source(Ctx &x, bool &valid)
{
	Choices &c = x.c;
	GenOpts o;
	o.max_lines = 60;
	o.overlap = c.below(6) == 5;
	if (o.overlap)
		o.fwd = false;
	Prog p = gen_prog(x, o);
	Style st = random_style(c);
	Str s = render(c, p, st);
	valid = true;
	if (c.below(5) == 4) { // text behind the end directive
		if (!s.empty() && s.back() != '\n')
			s += "\n";
		s += strf("%s\n", c.below(2) ? ".END" : " .end ; done");
		static const char *tails[] = {"LDA #1\n", "???\n", "*=$F000\nTAIL JMP TAIL\n", "NOTHING", "\n\n\n"};
		for (int n = (int)c.range(1, 40); n > 0; n--)
			s += c.pick(tails);
	}
	int k = c.weighted({6, 2, 1});
	if (k == 1) {
		s = mutate_text(c, s, 1 + c.below(3));
		valid = false;
	} else if (k == 2) {
		s = soup(x);
		valid = false;
	}
	if (c.below(5) == 4)
		s = x.behind(s);
	return s;
}
static Bytes junk(Choices &c, size_t n)
{
	Bytes b(n);
	int k = c.below(3);
	uint32_t seed = c.below(1u << 30);
	for (size_t i = 0; i < n; i++)
		b[i] = k == 0 ? 0xFF : k == 1 ? (uint8_t)(mix64(seed + i) >> 20) : 'Z';
	return b;
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	bool valid;
	Str src = source(x, valid);
	x.use(src);
	x.sample_text = src.size() < 1000 ? src : "";
	x.art("in.asm", src);
	Result a = x.run(src);
	expect_clean(x, a, "first run");
	if (valid)
		expect_accept(x, a, "first run");
	if (a.exit == 0) {
		RefResult f = RefAsm::run(src);
		if (f.ok && !f.past_end && !f.overlap_fwd)
			expect_ok(x, a, f.image, f.bytes, f.symbols, "first run");
	}
	x.nontrivial = a.exit == 0 ? !a.image.empty() : src.size() > 2;
	x.cls(a.exit == 0 ? "accepted sources" : "rejected sources");
	// earlier outputs of every length, twice in a row
	for (int i = 0; i < 4; i++) {
		size_t n = c.weighted({1, 1, 1, 1}) == 0 ? 0 : i == 1 ? a.image.size() : i == 2 ? a.image.size() / 2 : a.image.size() + 1 + c.below(c.below(8) ? 300 : 70000);
		Bytes b = junk(c, n);
		spill(x.dir + "/plain/out.bin", b.data(), b.size());
		RunOpts o;
		o.keep_output = true;
		Result r = x.run(src, o);
		same_run(x, a, r, "in.asm", strf("previous output of %zu bytes", n));
		x.cls("runs over a previous output");
	}
	{ // from a pipe, in pieces
		RunOpts o;
		o.fifo = c.below(2) ? c.range(1, 40) : c.range(1, 9000);
		Result r = x.run(src, o);
		same_run(x, a, r, "in.asm", strf("source from a pipe in pieces of %ld", o.fifo));
		x.cls("runs with the source from a pipe");
	}
	// the source in pieces
	for (int i = 0; i < 3; i++) {
		RunOpts o;
		o.variant = "fault";
		o.read_piece = i == 0 ? 1 : c.range(2, i == 1 ? 16 : 5000);
		Result r = x.run(src, o);
		same_run(x, a, r, "in.asm", strf("source read in pieces of %ld", o.read_piece));
		x.cls("runs with short reads");
	}
	// differently laid-out memory
	for (auto *v : {"asan", "msan", "fault"}) {
		if (Str(v) == "msan" && c.below(4))
			continue;
		RunOpts o;
		o.variant = v;
		Result r = x.run(src, o);
		same_run(x, a, r, "in.asm", strf("build \"%s\"", v));
		x.cls(strf("runs of the %s build", v));
	}
	// made-up answers about environment, time, process, user, terminal; junk in new memory
	for (int i = 0; i < 2; i++) {
		RunOpts o;
		o.variant = "fault";
		o.strange = c.range(1, 1L << 30);
		Result r = x.run(src, o);
		same_run(x, a, r, "in.asm", "strange surroundings");
		x.cls("runs in strange surroundings");
	}
	if (c.below(3))
		return;
	// another process: paths, environment, heap contents, kinds of source file
	Str d = fresh_dir(x, "env");
	static const char *sub[] = {".", "a", "a b", "deep/er", "d\303\251j\303\240"};
	mkdir((d + "/deep").c_str(), 0755);
	for (auto *s : sub)
		mkdir((d + "/" + s).c_str(), 0755);
	static const char *names[] = {"in.asm", "x", "two words.asm", ".hid", "n.s.asm", "\303\274.asm", "%s%n%d.asm", "a:1: ERROR: b"};
	Str cwd = d + "/" + c.pick(sub);
	Str name = c.pick(names), outname = strf("o%u", c.below(100));
	Str real = d + "/" + c.pick(sub) + "/" + name;
	Str outreal = d + "/" + c.pick(sub) + "/" + outname;
	spill(real, src);
	if (c.below(2))
		chmod(real.c_str(), 0444);
	ProcOpts po;
	po.cwd = cwd;
	Str arg;
	pid_t feeder = 0;
	int how = c.weighted({3, 2, 2, 1, 2});
	switch (how) {
	case 0: arg = real; break;
	case 1: // relative
		arg = cwd + "/" + name;
		if (arg != real) {
			unlink(arg.c_str());
			rename(real.c_str(), arg.c_str());
			real = arg;
		}
		arg = "./" + name;
		break;
	case 2: // symbolic link
		arg = d + "/link.asm";
		symlink(real.c_str(), arg.c_str());
		break;
	case 3: arg = "/dev/stdin"; po.stdin_file = real; break;
	case 4: // a pipe fed in pieces
		unlink(real.c_str());
		mkfifo(real.c_str(), 0644);
		arg = real;
		break;
	}
	if (c.below(2)) {
		Bytes b = junk(c, c.below(2) ? a.image.size() + 5 : 3);
		spill(outreal, b.data(), b.size());
	}
	// the output: a file, a link to one, a pipe
	int outhow = c.weighted({4, 1, 2}), pipe_end = -1;
	Str outarg = outreal;
	if (outhow == 1) {
		outarg = d + "/out.link";
		symlink(outreal.c_str(), outarg.c_str());
	} else if (outhow == 2) {
		outarg = d + "/out.pipe";
		mkfifo(outarg.c_str(), 0644);
		pipe_end = open(outarg.c_str(), O_RDONLY | O_NONBLOCK | O_CLOEXEC);
		if (pipe_end < 0 || fcntl(pipe_end, F_SETPIPE_SZ, 1 << 20) < (int)a.image.size()) {
			if (pipe_end >= 0)
				close(pipe_end);
			pipe_end = -1;
			outarg = outreal;
			outhow = 0;
		}
	}
	po.stdout_kind = c.weighted({2, 2, 2});
	if (how != 1 && c.below(4) == 3)
		po.cwd = "/proc"; // nothing can be created there
	if (c.below(2))
		po.mask = (int)c.below(0100) * 8 % 0200;
	if (c.below(4) == 3)
		po.stack_kb = c.range(1000, 4000);
	po.env = {strf("MALLOC_PERTURB_=%u", c.below(256))};
	static const char *envs[] = {"LANG=en_US.UTF-8", "LC_ALL=C", "HOME=/nonexistent", "TERM=dumb", "COLUMNS=10", "PATH=", "TZ=XXX", "LC_NUMERIC=de_DE", "MALLOC_ARENA_MAX=1", "A=$12",
		"LC_ALL=C.UTF-8", "TERM=xterm-256color", "CLICOLOR_FORCE=1", "NO_COLOR=1", "USER=x", "TMPDIR=/nonexistent", "DEBUG=1", "LC_CTYPE=C.UTF-8"};
	for (int i = (int)c.below(6); i > 0; i--)
		po.env.push_back(c.pick(envs));
	if (c.below(2))
		own_words(x, po.env);
	if (c.below(4) == 3)
		po.env.push_back("FILL=" + Str(c.range(1, 60000), 'x'));
	static const char *argv0s[] = {"gaia", "/usr/bin/gaia", "./x", "assembler"};
	po.argv0 = c.pick(argv0s);
	po.args = {"-o", outarg, arg};
	if (c.below(5) == 4) {
		po.closed = (int)c.range(1, 7);
		if (how == 3)
			po.closed &= ~1;
		if (po.closed & 2)
			po.stdout_kind = 0;
	}
	bystanders(x, cwd);
	if (c.below(3) == 2) {
		bystanders(x, real.substr(0, real.rfind('/')));
		bystanders(x, outreal.substr(0, outreal.rfind('/')));
	}
	Snap before = snapshot(d);
	if (how == 4) {
		size_t piece = (size_t)c.range(1, 200);
		feeder = fork();
		if (feeder == 0) {
			signal(SIGPIPE, SIG_DFL);
			alarm(60);
			int f = open(real.c_str(), O_WRONLY);
			size_t at = 0;
			int k = 0;
			while (at < src.size()) {
				ssize_t w = write(f, src.data() + at, std::min(piece, src.size() - at));
				if (w <= 0)
					break;
				at += w;
				if (++k < 40)
					usleep(50);
			}
			_exit(0);
		}
	}
	Result r = x.proc(po);
	if (feeder) {
		kill(feeder, SIGKILL);
		waitpid(feeder, nullptr, 0);
	}
	if (pipe_end >= 0) {
		char buf[65536];
		ssize_t n;
		while ((n = read(pipe_end, buf, sizeof buf)) > 0)
			r.image.insert(r.image.end(), buf, buf + n);
		close(pipe_end);
		r.have_image = true;
	} else {
		r.image = slurp(outreal, &r.have_image);
	}
	static const char *outhows[] = {"", ", output to a link", ", output to a pipe"}, *sinks[] = {"", ", text to a pipe", ", text to a terminal"};
	x.cls(strf("other processes%s", outhows[outhow]));
	x.cls(strf("other processes%s", sinks[po.stdout_kind]));
	static const char *hows[] = {"absolute path", "relative path", "symbolic link", "/dev/stdin", "pipe"};
	x.cls(strf("sources by %s", hows[how]));
	Str what = strf("other process (source by %s%s%s)", hows[how], outhows[outhow], sinks[po.stdout_kind]);
	if (po.closed) {
		what += strf(", without descriptors %s%s%s", po.closed & 1 ? "0 " : "", po.closed & 2 ? "1 " : "", po.closed & 4 ? "2 " : "");
		x.cls("other processes without standard input, output or error");
	}
	if (po.closed & 2) { // nothing is printed
		expect_clean(x, r, what.c_str());
		if (r.exit != a.exit)
			x.fail(what + strf(": exit status %d, first run %d", r.exit, a.exit));
		if (r.exit == 0 && r.image != a.image)
			x.fail(what + ": the image differs from that of the first run: " + first_diff(a.image, r.image));
	} else {
		same_run(x, a, r, arg, what);
	}
	Snap after = snapshot(d);
	Str key = outreal.substr(d.size() + 1);
	if (key.compare(0, 2, "./") == 0)
		key = key.substr(2);
	before.erase(key);
	after.erase(key);
	if (before != after) {
		for (auto &e : after)
			if (!before.count(e.first) || before[e.first] != e.second)
				x.fail(what + ": a file other than the output was created or changed: " + esc(e.first));
		x.fail(what + ": a file other than the output was removed");
	}
	wipe(d);
}
static Reg reg({"C19", "random valid, mutated and arbitrary sources; each is run again over previous outputs of several lengths, with the source arriving in pieces of 1..5000 bytes, in builds with other memory layouts (AddressSanitizer, MemorySanitizer, interposed allocator), and in fresh processes with other directories, file names, environments, heap fill bytes, umasks, stack limits, read-only/linked/piped sources, linked/piped outputs, text to a file/pipe/terminal; and with made-up answers to getenv, time, getpid, isatty, rand and the like, and junk in new memory. Oracle: exit status, standard output and image equal those of the first run (itself compared with the reference); a snapshot of the directory shows only the output changed. Non-trivial: non-empty image or a rejected source of more than 2 bytes; distinct by source.",
	nullptr, nullptr, random_case, 5000, 90000, {"plain", "asan", "msan", "fault"}});
}

// ============================================================ C20
namespace c20 {
static const char *FORMS[] = {"-o FILE", "-oFILE", "--output FILE", "--output=FILE", "none"};
static std::vector<Str> form(int f, const Str &out)
{
	switch (f) {
	case 0: return {"-o", out};
	case 1: return {"-o" + out};
	case 2: return {"--output", out};
	case 3: return {"--output=" + out};
	}
	return {};
}
static const char *SRC[] = {"in.asm", "prog", "two words.asm", "./in.asm", "sub/in.asm", "ABS", ".hidden", "x.asm.asm", "\303\251.asm", "LONG", "in.asm~", "a.bin", "-dash.asm", "--output=z", "-o", "--", "-", "@in.asm", "%s%n.asm", "NAME255", "DEEP", "a.out.asm", "+", "in.asm ", "$HOME", "*"};
static const char *OUT[] = {"out.bin", "x", "two words", "./o.bin", "sub/o.bin", "ABS", "a.out", "a=b", "-x", "=x", ".o", "LONG", "out.bin.asm", "--help", "\303\251", "-", "%s%n", "NAME255", "DEEP", "in.asm2", "|cat", ">x", "o.bin ", "$HOME", "~"};
static const int NS = sizeof SRC / sizeof *SRC, NO = sizeof OUT / sizeof *OUT;
static Str show(const std::vector<Str> &v)
{
	Str s = "gaia";
	for (auto &a : v)
		s += " '" + a + "'";
	return s;
}
static Str prepare(Ctx &x)
{
	Str d = fresh_dir(x, "cli");
	mkdir((d + "/sub").c_str(), 0755);
	return d;
}
static Str expand(const Str &n, const Str &d, const char *suffix)
{
	if (n == "ABS")
		return d + "/abs" + suffix;
	if (n == "LONG")
		return Str(200, 'l') + suffix;
	if (n == "NAME255")
		return Str(251, 'n') + suffix;
	if (n == "DEEP") {
		Str p;
		for (int i = 0; i < 300; i++)
			p += "./";
		return p + "deep" + suffix;
	}
	return n;
}
static Str in_dir(const Str &n, const Str &d)
{
	Str p = n[0] == '/' ? n : d + "/" + n;
	return p;
}
static Str key_of(const Str &p, const Str &d)
{
	Str k = p.substr(d.size() + 1);
	while (k.compare(0, 2, "./") == 0)
		k = k.substr(2);
	return k;
}
// a valid command line; place: 0 before, 1 after the source
static void valid(Ctx &x, int f, int place, bool dashes, const Str &s0, const Str &o0, const Str &src, int old)
{
	Str d = prepare(x), s = expand(s0, d, ".asm"), o = f == 4 ? "a.out" : expand(o0, d, ".out");
	if (s == o)
		return;
	if (s[0] == '-' && s != "-") {
		dashes = true;
		if (place == 1)
			place = 0; // everything behind "--" is an operand
	}
	std::vector<Str> args, opt = form(f, o);
	if (place == 0)
		args = opt;
	if (dashes) {
		if (place == 1)
			dashes = false;
		else
			args.push_back("--");
	}
	args.push_back(s);
	if (place == 1)
		args.insert(args.end(), opt.begin(), opt.end());
	spill(in_dir(s, d), src);
	Str po = in_dir(o, d);
	if (old)
		spill(po, Str(old * 7, 'P'));
	bystanders(x, d);
	if (x.c.below(3) == 2)
		bystanders(x, d + "/sub");
	if (!old)
		unlink(po.c_str());
	Snap before = snapshot(d);
	Result a = x.run(src);
	ProcOpts p;
	p.cwd = d;
	p.args = args;
	if (x.c.below(2))
		own_words(x, p.env);
	Result r = x.proc(p);
	r.image = slurp(po, &r.have_image);
	Str what = show(args);
	if (r.exit == 0 && !r.have_image)
		x.fail(what + ": no output file \"" + o + "\"");
	same_run(x, a, r, s, what);
	Snap after = snapshot(d);
	Str k = key_of(po, d);
	before.erase(k);
	after.erase(k);
	if (before != after)
		x.fail(what + ": a file other than the output was created, changed or removed");
	x.cls(strf("valid: %s, %s the source", FORMS[f], place ? "after" : "before"));
	if (dashes)
		x.cls("valid: with --");
	x.key = hash_str(what, x.key);
	x.nontrivial = true;
	x.sample_text = what;
}
static void check_usage(Ctx &x, const std::vector<Str> &args, bool help, const Str &why)
{
	Str d = prepare(x);
	spill(d + "/in.asm", Str("LDA #1\nSTA $0400\n"));
	spill(d + "/two.asm", Str("LDA #2\n"));
	spill(d + "/out.bin", Str("old"));
	if (x.c.below(2))
		spill(d + "/a.out", Str("old a.out"));
	Snap before = snapshot(d);
	ProcOpts p;
	p.cwd = d;
	p.args = args;
	if (x.c.below(2))
		own_words(x, p.env);
	Result r = x.proc(p);
	Str what = show(args) + " (" + why + ")";
	if (r.sig || r.hang || r.exit < 0)
		x.fail(what + ": abnormal end: " + r.status());
	if (snapshot(d) != before)
		x.fail(what + ": a file was created, changed or removed");
	if (claims_success(r.out))
		x.fail(what + ": it claims to have assembled something");
	if (help) {
		if (r.exit != 0 || r.out.empty())
			x.fail(what + strf(": expected success and a text on standard output: %s, stdout \"%s\" stderr \"%s\"", r.status().c_str(), esc(r.out, 300).c_str(), esc(r.err, 300).c_str()));
	} else {
		if (r.exit == 0)
			x.fail(what + ": exit status 0 for a usage error; stdout \"" + esc(r.out, 300) + "\"");
		if (r.err.empty())
			x.fail(what + ": no message on standard error; stdout \"" + esc(r.out, 300) + "\"");
	}
	x.cls(why);
	x.key = hash_str(what, x.key);
	x.nontrivial = true;
	x.sample_text = what;
}
static const char *PROG = "*=$10\nSTART LDA #$12\n JMP L\nL: STA $1234,X ; comment\n BNE START\n";
static uint64_t count(bool) { return 5 * 2 * 2 * NS + 4 * 2 * NO; }
static void enum_case(Ctx &x, uint64_t i)
{
	uint64_t a = 5 * 2 * 2 * NS;
	if (i < a)
		valid(x, i % 5, i / 5 % 2, i / 10 % 2, SRC[i / 20], "out.bin", PROG, (int)(i % 3));
	else {
		i -= a;
		valid(x, i % 4, i / 4 % 2, false, "in.asm", OUT[i / 8], PROG, (int)(i % 3));
	}
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	int k = c.weighted({4, 5, 2});
	if (k == 0) {
		GenOpts o;
		o.max_lines = 25;
		Prog p = gen_prog(x, o);
		Str src = render(c, p, random_style(c));
		if (c.below(4) == 3)
			src = mutate_text(c, src, 2);
		x.art("source", src);
		x.use(src);
		valid(x, (int)c.below(5), (int)c.below(2), c.below(3) == 2, c.pick(SRC), c.pick(OUT), src, (int)c.below(40));
		return;
	}
	// pieces of a command line; "good" ones around one that makes it wrong or a request for help
	std::vector<std::vector<Str>> parts;
	auto some_output = [&] { return form((int)c.below(4), c.below(2) ? "out.bin" : "new.bin"); };
	if (k == 2) {
		static const char *h[] = {"--help", "-?", "--usage", "--version", "-V"};
		if (c.below(2))
			parts.push_back(some_output());
		if (c.below(2))
			parts.push_back({"in.asm"});
		parts.push_back({c.pick(h)});
		c.shuffle(parts);
		std::vector<Str> args;
		for (auto &p : parts)
			args.insert(args.end(), p.begin(), p.end());
		check_usage(x, args, true, "help or version");
		return;
	}
	Str why;
	std::vector<Str> last;
	bool out = c.below(2);
	switch (c.below(4)) {
	case 0:
		why = "no source";
		break;
	case 1: {
		why = "more than one source";
		static const char *s[] = {"in.asm", "two.asm", "missing.asm", "in.asm", "x", "a.out"};
		for (int n = 2 + (int)c.below(4); n > 0; n--)
			parts.push_back({c.pick(s)});
		break;
	}
	case 2: {
		why = "unknown option";
		static const char *u[] = {"-x", "-O", "-c", "--frob", "--outputs", "--out-put", "-h", "-q", "--Output", "--cmos", "-1", "--in.asm", "-zout.bin", "--frob=1"};
		parts.push_back({c.pick(u)});
		if (c.below(4))
			parts.push_back({"in.asm"});
		break;
	}
	default:
		why = "option without its value";
		last = {c.below(2) ? "-o" : "--output"};
		if (c.below(4))
			parts.push_back({"in.asm"});
		break;
	}
	if (out && why[0] != 'o')
		parts.push_back(some_output());
	c.shuffle(parts);
	std::vector<Str> args;
	for (auto &p : parts)
		args.insert(args.end(), p.begin(), p.end());
	if (why == "more than one source" && c.below(4) == 3)
		args.insert(args.begin(), "--"); // then an output option counts as sources as well
	if (why == "no source" && c.below(4) == 3)
		args.push_back("--");
	args.insert(args.end(), last.begin(), last.end());
	check_usage(x, args, false, why);
}
static Reg reg({"C20", "every form of the output option x before/after the source x with and without -- x many source and output names (also with blanks, dashes, =, directories, 200 letters), over old or new outputs, for random programs that are accepted or rejected; usage errors (no source, several, unknown options, option without value) and requests for help or version mixed with other arguments. Oracle: same status, text and bytes as the plain run; snapshot of the directory before and after. Non-trivial: every case; distinct by arguments and source.",
	count, enum_case, random_case, 20000, 200000, {"plain"}});
}

// ============================================================ C21
namespace c21 {
struct Out { Str text; long instrs = 0, label_refs = 0, const_refs = 0, raw_refs = 0; };
static Str hexnum(Choices &c, long v)
{
	switch (c.weighted({6, 2, 1})) {
	case 0: return strf(c.below(2) ? "$%lX" : "$%04lx", v);
	case 1: return strf("%ld", v);
	}
	Str s;
	for (long b = 15; b >= 0; b--)
		if (!s.empty() || v >> b & 1)
			s += '0' + (v >> b & 1);
	return "%" + (s.empty() ? Str("0") : s);
}
// names: 0 numbers only, 1 labels wherever there is one, 2 at random
static Out disassemble(Ctx &x, const Bytes &m, long org, int names)
{
	Choices &c = x.c;
	const Isa &I = isa();
	std::set<long> starts, targets;
	std::map<long, Str> consts;
	long pc = org, end = org + (long)m.size();
	auto at = [&](long a) { return (long)m[a - org]; };
	while (pc < end) {
		starts.insert(pc);
		pc += mode_len(I.by_op[at(pc)].mode);
	}
	Out o;
	std::vector<Str> lines;
	for (pc = org; pc < end;) {
		int mn = I.by_op[at(pc)].mn, mode = I.by_op[at(pc)].mode, len = mode_len(mode);
		long v = len == 1 ? 0 : len == 2 ? at(pc + 1) : at(pc + 1) | at(pc + 2) << 8;
		bool use_name = names == 1 || (names == 2 && c.below(2));
		Str op;
		long tgt = mode == REL ? pc + 2 + (v < 128 ? v : v - 256) : v;
		bool flow = mode == REL || I.is_jump(mn);
		if (use_name && len > 1 && tgt >= 0 && tgt <= 0xFFFF) {
			// a label may be used before it is defined by branches and jumps only
			if (starts.count(tgt) && (flow || tgt <= pc)) {
				targets.insert(tgt);
				op = strf("L%04lX", tgt);
				o.label_refs++;
			} else if (names == 1 || c.below(2)) {
				consts[tgt] = op = strf("K_%lX", tgt);
				o.const_refs++;
			}
		}
		if (op.empty()) {
			op = hexnum(c, v);
			o.raw_refs += flow;
		}
		Str t = I.names[mn];
		switch (mode) {
		case IMP: break;
		case ACC: t += c.below(2) ? " A" : ""; break;
		case IMM: t += " #" + op; break;
		case ZP: case ABS: case REL: t += " " + op; break;
		case ZPX: case ABX: t += " " + op + ",X"; break;
		case ZPY: case ABY: t += " " + op + ",Y"; break;
		case IND: t += " (" + op + ")"; break;
		case IZX: t += " (" + op + ",X)"; break;
		case IZY: t += " (" + op + "),Y"; break;
		}
		lines.push_back(t);
		o.instrs++;
		pc += len;
	}
	size_t n = 0;
	for (auto &k : consts)
		o.text += (n++ % 2 ? k.second + " = " : k.second + " .EQU ") + hexnum(c, k.first) + "\n";
	if (org)
		o.text += (c.below(2) ? "*=" : ".ORG ") + hexnum(c, org) + "\n";
	n = 0;
	for (long s : starts) {
		if (targets.count(s))
			o.text += strf("L%04lX", s) + (c.below(2) ? ":" : "") + (c.below(2) ? "\n" : " ");
		o.text += "  " + lines[n++] + "\n";
	}
	return o;
}
static void check(Ctx &x, const Bytes &code, long org, int names)
{
	Out o = disassemble(x, code, org, names);
	x.art("disassembly", o.text);
	x.use(o.text);
	Bytes want(org);
	want.insert(want.end(), code.begin(), code.end());
	Result r = x.run(o.text);
	expect_ok(x, r, want, -1, -1, "reassembled disassembly");
	x.cls("instructions", o.instrs);
	x.cls("operands as labels", o.label_refs);
	x.cls("operands as constants", o.const_refs);
	x.cls("branch and jump targets as numbers", o.raw_refs);
	if (x.sample_text.empty() && o.text.size() < 1000)
		x.sample_text = o.text;
}
// one instruction of each opcode with the given operand; ordinary absolute
// operands below 256 have no spelling
static void emit(Bytes &b, const Isa::Combo &k, long v)
{
	int len = mode_len(k.mode);
	b.push_back((uint8_t)k.op);
	if (len > 1)
		b.push_back(v & 0xFF);
	if (len > 2) {
		long hi = v >> 8 & 0xFF;
		if (hi == 0 && !isa().is_jump(k.mn))
			hi = 1 + (v & 0x7F);
		b.push_back((uint8_t)hi);
	}
}
static uint64_t count(bool) { return isa().combos.size() * 6; }
static void enum_case(Ctx &x, uint64_t i)
{
	Choices &c = x.c;
	const Isa::Combo &k = isa().combos[i / 6];
	int names = i % 3, len = mode_len(k.mode);
	bool tail = i / 3 % 2;
	Bytes b;
	std::vector<int> order(256);
	std::iota(order.begin(), order.end(), 0);
	c.shuffle(order);
	for (int v : order) {
		emit(b, k, len == 3 ? v | (long)c.below(256) << 8 : v);
		if (c.below(8) == 7)
			emit(b, isa().combos[c.below((uint32_t)isa().combos.size())], c.below(65536));
	}
	x.nontrivial = true;
	x.cls("every operand byte of every opcode");
	check(x, b, tail ? 0x10000 - (long)b.size() : c.below(30000), names);
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	const Isa &I = isa();
	Bytes b;
	long n = x.scaled(1, 400);
	long org = edgy(c, 0, 0xFFFF - 3 * n);
	int flow = (int)c.below(4);
	std::vector<long> st;
	for (long i = 0; i < n; i++) {
		long pc = org + (long)b.size();
		st.push_back(pc);
		const Isa::Combo *k = &c.pick(I.combos);
		for (int t = 0; t < 3 && (int)c.below(4) < flow && k->mode != REL && !I.is_jump(k->mn); t++)
			k = &c.pick(I.combos);
		long v;
		if (k->mode == REL)
			v = c.below(3) ? (c.pick(st) - pc - 2) & 0xFF : c.below(256);
		else if (mode_len(k->mode) == 3)
			v = c.below(2) ? c.pick(st) + (c.below(6) ? 0 : 1) : I.is_jump(k->mn) && c.below(2) ? org + c.below((uint32_t)(3 * n)) : edgy(c, 0, 0xFFFF);
		else
			v = edgy(c, 0, 0xFF);
		emit(b, *k, v);
	}
	x.nontrivial = n >= 3;
	check(x, b, org, (int)c.below(3));
}
static Reg reg({"C21", "random streams of legal instructions (every opcode, operands biased to edges and to instruction starts, jumps into the middle of instructions) at random origins, decoded by an independent disassembler that writes targets as labels, constants or numbers, and reassembled; every opcode with all 256 first operand bytes, in each naming style, in the middle and at the end of memory. Oracle: the bytes come back. Non-trivial: at least 3 instructions; distinct by source.",
	count, enum_case, random_case, 100000, 900000, {"plain"}});
}

// ============================================================ C22
namespace c22 {
struct Api {
	pid_t pid = 0;
	int to = -1, from = -1;
};
static void stop(Api &a)
{
	if (a.pid) {
		close(a.to);
		close(a.from);
		kill(a.pid, SIGKILL);
		waitpid(a.pid, nullptr, 0);
		a = Api();
	}
}
static void start(Api &a)
{
	int p[2], q[2];
	if (pipe2(p, O_CLOEXEC) || pipe2(q, O_CLOEXEC))
		exit(3);
	Str bin = g_build_dir + "/api/api";
	a.pid = fork();
	if (a.pid == 0) {
		dup2(p[0], 0);
		dup2(q[1], 1);
		execl(bin.c_str(), "api", nullptr);
		_exit(99);
	}
	close(p[0]);
	close(q[1]);
	a.to = p[1];
	a.from = q[0];
}
static Api api;
static bool ask(long from, std::vector<long> &ans, const std::vector<long> &xs)
{
	if (!api.pid)
		start(api);
	Str q;
	for (long v : xs)
		q += strf("%ld\n", v);
	size_t w = 0;
	Str in;
	ans.clear();
	while (ans.size() < xs.size()) {
		struct pollfd f[2] = {{api.from, POLLIN, 0}, {w < q.size() ? api.to : -1, POLLOUT, 0}};
		int k = poll(f, 2, 30000);
		if (k <= 0) {
			stop(api);
			return false;
		}
		if (f[1].revents & (POLLOUT | POLLERR)) {
			ssize_t m = write(api.to, q.data() + w, std::min<size_t>(q.size() - w, 2048));
			if (m <= 0) {
				stop(api);
				return false;
			}
			w += m;
		}
		if (f[0].revents & (POLLIN | POLLHUP)) {
			char buf[65536];
			ssize_t m = read(api.from, buf, sizeof buf);
			if (m <= 0) {
				stop(api);
				return false;
			}
			in.append(buf, m);
			size_t e;
			while ((e = in.find('\n')) != Str::npos) {
				ans.push_back(strtol(in.c_str(), nullptr, 10));
				in.erase(0, e + 1);
			}
		}
	}
	return true;
}
static const long LIM = 46349; // sieve for trial division up to the largest int
static const std::vector<long> &small_primes()
{
	static std::vector<long> v = [] {
		std::vector<bool> comp(LIM + 1);
		std::vector<long> r;
		for (long i = 2; i <= LIM; i++) {
			if (comp[i])
				continue;
			r.push_back(i);
			for (long j = i * i; j <= LIM; j += i)
				comp[j] = true;
		}
		return r;
	}();
	return v;
}
// segment sieve: the smallest prime greater than every x of [lo, hi]
static std::vector<long> expected(long lo, long hi)
{
	long top = hi + 400; // prime gaps below 2^31 are at most 292
	long base = std::max(lo + 1, 2L);
	std::vector<bool> comp(top - base + 1);
	for (long p : small_primes()) {
		if (p * p > top)
			break;
		for (long j = std::max(p * p, (base + p - 1) / p * p); j <= top; j += p)
			comp[j - base] = true;
	}
	std::vector<long> r(hi - lo + 1);
	long next = -1;
	for (long v = top; v > lo; v--) {
		if (v >= base && !comp[v - base])
			next = v;
		if (v - 1 <= hi)
			r[v - 1 - lo] = next;
	}
	return r;
}
static void check(Ctx &x, const std::vector<long> &xs)
{
	std::vector<long> ans;
	x.execs++;
	if (!ask(0, ans, xs)) {
		// find the one that does not answer
		for (long v : xs)
			if (!ask(0, ans, {v}))
				x.fail(strf("next_prime(%ld) does not return normally", v));
		x.fail("next_prime() does not return normally");
	}
	for (size_t i = 0; i < xs.size(); i++) {
		long want = expected(xs[i], xs[i])[0];
		if (ans[i] != want)
			x.fail(strf("next_prime(%ld) = %ld, expected %ld", xs[i], ans[i], want));
	}
	x.cls("numbers checked", xs.size());
}
static const long TOP = 2147483646;
static const long BLOCK = 2000;
static uint64_t blocks(bool t) { return (t ? 4000000 : 200000) / BLOCK; }
static bool prime(long v)
{
	if (v < 2)
		return false;
	for (long p : small_primes()) {
		if (p * p > v)
			break;
		if (v % p == 0)
			return false;
	}
	return true;
}
// Composites that probabilistic primality tests take for primes: (k+1)(mk+1)
// with both factors prime, for m = n/d, and the Carmichael numbers
// (6k+1)(12k+1)(18k+1).
static const std::vector<long> &liars(bool t)
{
	static std::vector<long> cache[2];
	std::vector<long> &v = cache[t];
	if (!v.empty())
		return v;
	std::vector<bool> comp(LIM * 20 + 2);
	for (long p : small_primes()) {
		if (p * p >= (long)comp.size())
			break;
		for (long j = p * p; j < (long)comp.size(); j += p)
			comp[j] = true;
	}
	auto pr = [&](long n) { return n < (long)comp.size() ? n > 1 && !comp[n] : prime(n); };
	for (long d = 1; d <= (t ? 6 : 2); d++)
		for (long n = d + 1; n <= d * (t ? 60 : 16); n++)
			if (std::__gcd(n, d) == 1)
				for (long k = d; (k + 1) * (n * (k / d) + 1) <= TOP; k += d)
					if (pr(k + 1) && pr(n * (k / d) + 1))
						v.push_back((k + 1) * (n * (k / d) + 1));
	for (long k = 1; (6 * k + 1) * (12 * k + 1) * (18 * k + 1) <= TOP; k++)
		if (pr(6 * k + 1) && pr(12 * k + 1) && pr(18 * k + 1))
			v.push_back((6 * k + 1) * (12 * k + 1) * (18 * k + 1));
	return v;
}
static const uint64_t LPARTS = 40, GROWN = 8;
static uint64_t count(bool t) { return blocks(t) + 40 + LPARTS + GROWN; }
// A table filled one symbol after the other: how large is it after each one?
static void grow(Ctx &x, long family, long n, bool each)
{
	const long T = 1000000000000;
	std::vector<long> q{T + family}, ans;
	if (each) {
		for (long k = 1; k <= n; k++)
			q.push_back(2 * T + k);
	} else { // only around the places where a table half full grows
		for (long s = 17; s / 2 - 2 <= n; s = expected(2 * s, 2 * s)[0])
			for (long k = std::max(1L, s / 2 - 2); k <= std::min(n, s / 2 + s / 50 + 3); k += 1 + (k > s / 2 + 2) * (1 + s / 900))
				q.push_back(2 * T + k);
		q.push_back(2 * T + n);
	}
	q.push_back(3 * T);
	x.execs++;
	Str what = strf("symbol table, %ld symbols of family %ld", n, family);
	if (!ask(0, ans, q))
		x.fail(what + ": does not return normally");
	long size = ans[0];
	for (size_t i = 1; i + 1 < q.size(); i++) {
		long k = q[i] - 2 * T;
		if (ans[i] < 0)
			x.fail(strf("%s: symbol %ld cannot be inserted", what.c_str(), k));
		// between two questions it may have grown once at most
		if (ans[i] != size) {
			long want = expected(2 * size, 2 * size)[0];
			if (ans[i] != want)
				x.fail(strf("%s: it grew from %ld to %ld, expected %ld", what.c_str(), size, ans[i], want));
			size = ans[i];
			x.cls("growths checked", 1);
		}
		if (k * 100 / size > 50)
			x.fail(strf("%s: %ld symbols in a table of %ld", what.c_str(), k, size));
	}
	if (ans.back() != 0)
		x.fail(strf("%s: %ld symbols are wrong when looked up", what.c_str(), ans.back()));
}
static void enum_case(Ctx &x, uint64_t i)
{
	x.nontrivial = true;
	x.key = i;
	std::vector<long> xs;
	if (i >= blocks(x.thorough) + 40 + LPARTS) {
		long k = i - blocks(x.thorough) - 40 - LPARTS;
		if (k < 4)
			grow(x, k, k == 1 ? 3000 : 30000, true);
		else
			grow(x, k, k % 4 == 1 ? 9000 : x.thorough ? 6000000 : 700000, false);
		return;
	}
	if (i >= blocks(x.thorough) + 40) {
		const auto &L = liars(x.thorough);
		for (size_t k = i - blocks(x.thorough) - 40; k < L.size(); k += LPARTS) {
			xs.push_back(L[k] - 1);
			if (k % 8 == 0)
				xs.push_back(L[k] - 1 - (long)(mix64(k) % 30));
		}
		x.cls("below a likely pseudoprime", xs.size());
		check(x, xs);
		return;
	}
	if (i < blocks(x.thorough)) {
		long lo = (long)i * BLOCK - (i ? 0 : 200), hi = (long)i * BLOCK + BLOCK - 1;
		std::vector<long> e = expected(lo, hi), ans;
		for (long v = lo; v <= hi; v++)
			xs.push_back(v);
		if (!ask(0, ans, xs))
			x.fail(strf("next_prime() does not return normally in %ld..%ld", lo, hi));
		for (size_t k = 0; k < xs.size(); k++)
			if (ans[k] != e[k])
				x.fail(strf("next_prime(%ld) = %ld, expected %ld", xs[k], ans[k], e[k]));
		x.cls("numbers checked", xs.size());
		return;
	}
	// around the squares of all primes, products of neighbouring primes, powers of two, the largest int
	size_t part = i - blocks(x.thorough);
	const auto &P = small_primes();
	for (size_t k = part; k < P.size(); k += 40) {
		long p = P[k], q = k + 1 < P.size() ? P[k + 1] : p;
		for (long v : {p * p, p * q})
			for (long d = -2; d <= 1; d++)
				if (v + d <= TOP)
					xs.push_back(v + d);
	}
	if (part < 31)
		for (long d = -3; d <= 3; d++)
			if ((1L << part) + d <= TOP)
				xs.push_back((1L << part) + d);
	if (part == 31)
		for (long d = 0; d < 400; d++)
			xs.push_back(TOP - d);
	check(x, xs);
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	std::vector<long> xs;
	const auto &P = small_primes();
	if (c.below(12) == 11) {
		long f = c.below(1000), n = c.range(1, 1L << c.range(1, f % 4 == 1 ? 10 : 13));
		x.nontrivial = true;
		x.key = mix64(f * 100000 + n);
		x.sample_text = strf("a table filled with %ld symbols of family %ld", n, f);
		grow(x, f, n, true);
		return;
	}
	for (int i = 0; i < 40; i++) {
		long v;
		switch (c.weighted({2, 2, 2, 1, 1})) {
		case 0: v = c.range(0, TOP); break;
		case 1: v = c.range(0, (1L << c.range(1, 31)) - 2); break;
		case 2: { // below a product of two primes of similar size
			long a = c.below((uint32_t)P.size()), b = std::min<long>(P.size() - 1, a + c.below(30));
			v = P[a] * P[b] - c.below(3);
			break;
		}
		case 3: { // a product of three primes
			v = P[c.below(150)] * P[c.below(150)] * P[c.below(150)] - c.below(3);
			break;
		}
		default: v = c.range(0, TOP - 1000); v = expected(v, v)[0] - c.below(2); break; // at a prime
		}
		if (v > TOP || v < 0)
			v = TOP - 1 - c.below(1000);
		xs.push_back(v);
		x.key = hash_bytes(&v, sizeof v, x.key);
	}
	x.nontrivial = true;
	x.sample_text = strf("next_prime of %ld, %ld, %ld, ...", xs[0], xs[1], xs[2]);
	check(x, xs);
}
static Reg reg({"C22", "next_prime() on every number of -200..199999 (thorough: ..3999999), around every square of a prime and product of neighbouring primes below 2^31, below the usual pseudoprimes ((k+1)(mk+1) with prime factors, small rational m, and Carmichael numbers (6k+1)(12k+1)(18k+1)), around powers of two, the last 400 numbers, and random ones (batches of 40); the size of tables filled with up to 700000 (thorough: 6000000) symbols of four name families, after each symbol or around each growth, and every symbol looked up at the end. Oracle: segmented sieve, map. Non-trivial: every case; distinct by the numbers asked.",
	count, enum_case, random_case, 12000, 100000, {"api"}});
}

// ============================================================ C23
namespace c23 {
static Str def_of(Choices &c, const Str &n, long v) { return strf(c.below(2) ? "%s = $%lX\n" : "%s .EQU %ld\n", n.c_str(), v); }
static void alone(Ctx &x)
{
	Choices &c = x.c;
	GenOpts o;
	o.max_lines = 80;
	Prog p = gen_prog(x, o);
	p.layout();
	Style st = random_style(c);
	Str src = render(c, p, st);
	x.use(src);
	x.sample_text = src;
	x.art("in.asm", src);
	Result a = x.run(src);
	expect_accept(x, a, "whole program");
	std::map<Str, long> val;
	std::vector<size_t> ins;
	for (size_t i = 0; i < p.st.size(); i++) {
		Stmt &s = p.st[i];
		if (s.k == Stmt::CONST)
			val[s.label] = s.num.v;
		else if (!s.label.empty())
			val[s.label] = s.pc;
		if (s.k == Stmt::INSTR)
			ins.push_back(i);
	}
	x.nontrivial = ins.size() >= 2;
	for (int k = 0; k < 12 && !ins.empty(); k++) {
		size_t i = ins[(ins.size() <= 12 ? k % ins.size() : c.below((uint32_t)ins.size()))];
		if (ins.size() <= 12 && k >= (int)ins.size())
			break;
		Stmt s = p.st[i];
		Str one;
		if (s.sym && s.name != s.label)
			one += def_of(c, s.name, val[s.name]);
		Prog q;
		q.st.push_back(org_line(s.pc));
		if (!s.sym || s.name != s.label)
			s.label = "";
		q.st.push_back(s);
		one += render_plain(q);
		Result r = x.run(one);
		int len = mode_len(s.mode);
		if (r.exit != 0)
			x.art("alone.asm", one);
		expect_accept(x, r, "one line alone");
		Bytes got(r.image), want(a.image);
		got.resize(std::max<size_t>(got.size(), s.pc + len));
		want.resize(std::max<size_t>(want.size(), s.pc + len));
		if (!std::equal(got.begin() + s.pc, got.begin() + s.pc + len, want.begin() + s.pc)) {
			x.art("alone.asm", one);
			x.fail(strf("line at $%04lX: in the program %s, alone %s", s.pc, hexdump(want, s.pc, len).c_str(), hexdump(got, s.pc, len).c_str()));
		}
		x.cls("lines assembled alone");
	}
}
struct Part { Prog p; Image m; };
static std::vector<Part> parts(Ctx &x, int n, bool consts)
{
	Choices &c = x.c;
	Names nm;
	std::vector<Part> v;
	std::vector<long> cut{0, 0x10000};
	for (int i = 1; i < n; i++)
		cut.push_back(edgy(c, 64L * i, 0x10000 - 64L * (n - i)));
	std::sort(cut.begin(), cut.end());
	for (int i = 0; i < n; i++) {
		if (cut[i + 1] - cut[i] < 64)
			continue;
		GenOpts o;
		o.lo = cut[i];
		o.hi = cut[i + 1];
		o.max_lines = std::max(4, 60 / n);
		o.consts = consts;
		Part q;
		q.p = gen_prog(x, o, &nm);
		q.p.st.insert(q.p.st.begin(), org_line(0, (int)c.below(2))); // where a program starts by itself
		q.m = q.p.layout();
		if (!q.m.overlap)
			v.push_back(q);
	}
	return v;
}
static Bytes unite(const std::vector<Part> &v)
{
	Bytes b;
	for (auto &q : v) {
		if (b.size() < q.m.img.size())
			b.resize(q.m.img.size());
		for (size_t i = 0; i < q.m.img.size(); i++)
			b[i] |= q.m.img[i];
	}
	return b;
}
static void join(Ctx &x)
{
	Choices &c = x.c;
	std::vector<Part> v = parts(x, 2 + (int)c.below(5), true);
	if (v.empty())
		return;
	Style st = random_style(c);
	st.final_nl = true;
	std::vector<Str> t;
	long bytes = 0, syms = 0;
	for (auto &q : v) {
		t.push_back(render(c, q.p, st));
		bytes += q.m.bytes;
		syms += q.m.symbols;
		Result r = x.run(t.back());
		if (r.exit != 0)
			x.art("part.asm", t.back());
		expect_ok(x, r, q.m.img, q.m.bytes, q.m.symbols, "one part");
	}
	Bytes want = unite(v);
	x.nontrivial = v.size() >= 2 && bytes > 1;
	for (int i = 0; i < 4; i++) {
		Str s;
		for (auto &u : t)
			s += u;
		if (i == 0) {
			x.use(s);
			x.sample_text = s.size() < 1200 ? s : "";
		}
		Result r = x.run(s);
		if (r.exit != 0 || r.image != want)
			x.art(strf("joined%d.asm", i), s);
		expect_ok(x, r, want, bytes, syms, strf("%zu parts joined, order %d", t.size(), i).c_str());
		x.cls("joined sources");
		c.shuffle(t);
	}
}
// unrelated code between every two lines
static void between(Ctx &x)
{
	Choices &c = x.c;
	Names nm;
	GenOpts o;
	o.max_lines = 40;
	o.lo = 0x100;
	o.hi = 0xF000;
	Prog p = gen_prog(x, o, &nm);
	Image m = p.layout();
	Prog q;
	bool bare = false;
	long extra = 0, far = 0xF000;
	std::map<long, int> used;
	int rate = 1 + (int)c.below(4);
	for (size_t i = 0; i < p.st.size(); i++) {
		q.st.push_back(p.st[i]);
		if ((int)c.below(5) < rate) {
			// the location after this line
			const Stmt &s = p.st[i];
			long pc = s.k == Stmt::ORG ? s.num.v : s.k == Stmt::INSTR ? s.pc + mode_len(s.mode) : s.pc;
			if (pc > 0xFFFF || far > 0xFFF0)
				continue;
			q.st.push_back(org_line(far, (int)c.below(2)));
			for (int n = (int)c.below(3); n >= 0; n--) {
				const Isa::Combo &k = c.pick(isa().combos);
				Stmt e = instr_lit(c, k.mn, k.mode, edgy(c, mode_min(k.mode, k.mn), mode_max(k.mode, k.mn)));
				if (c.below(4) == 3) {
					e.label = nm.fresh(c);
					extra++;
				}
				q.st.push_back(e);
				far += mode_len(k.mode);
			}
			q.st.push_back(org_line(pc, (int)c.below(2)));
			x.cls("insertions");
			bare = true;
		}
	}
	Prog q2 = q;
	Image m2 = q2.layout();
	Style st = random_style(c);
	Str s1 = render(c, p, st), s2 = render(c, q, st);
	x.use(s2);
	x.sample_text = s2;
	x.nontrivial = bare;
	x.art("plain.asm", s1);
	x.art("interleaved.asm", s2);
	Result a = x.run(s1), b = x.run(s2);
	expect_ok(x, a, m.img, m.bytes, m.symbols, "program");
	expect_ok(x, b, m2.img, m2.bytes, m2.symbols, "program with code for another place between its lines");
	if (b.image.size() < a.image.size())
		x.fail("the image with insertions is shorter");
	Bytes cut(b.image.begin(), b.image.begin() + a.image.size());
	if (cut != a.image)
		x.fail("code for another place between the lines changes the bytes: " + first_diff(a.image, cut));
}
static void random_case(Ctx &x)
{
	switch (x.c.weighted({2, 2, 1})) {
	case 0: alone(x); break;
	case 1: join(x); break;
	default: between(x);
	}
}
// every ordered pair of sentence forms and modes: nothing is left over
static std::vector<Str> kinds()
{
	std::vector<Str> v;
	const Isa &I = isa();
	std::set<int> seen;
	for (auto &k : I.combos) { // one of each mode, with branch/jump/ordinary apart
		int key = k.mode * 4 + I.is_branch(k.mn) + 2 * I.is_jump(k.mn);
		if (!seen.insert(key).second)
			continue;
		Choices c;
		c.fresh = false;
		for (int sym = 0; sym < 2; sym++) {
			if (sym && mode_len(k.mode) == 1)
				continue;
			for (int lab = 0; lab < 2; lab++) {
				Prog p;
				Stmt s = instr_lit(c, k.mn, k.mode, mode_len(k.mode) == 3 ? 0x1234 : 0x12);
				if (sym) {
					s = sym_line(k.mn, k.mode, k.mode == REL ? "NEAR" : mode_len(k.mode) == 3 ? "WIDE" : "ZERO");
					if (k.mode == IND)
						s.mode = IND;
				}
				if (lab)
					s.label = "@";
				p.st.push_back(s);
				v.push_back(render_plain(p));
			}
		}
	}
	for (auto *s : {"JMP FWD\n", "JSR FWD\n", "BNE FWD\n", "JMP (FWD)\n", "@ BCC FWD\n", "@\n", "@:\n", "@ = $55\n", "@ .EQU $5678\n", ".DEFINE @ 7\n", "ASL\n", "ROR A\n", "*=$2000\n", ".ORG $20F0\n", "\n", "; comment\n", "\t \t\n"})
		v.push_back(s);
	return v;
}
static uint64_t count(bool t)
{
	uint64_t n = kinds().size();
	return t ? n * n : n;
}
static void enum_case(Ctx &x, uint64_t i)
{
	static std::vector<Str> K = kinds();
	Choices &c = x.c;
	uint64_t n = K.size();
	Str src = "WIDE = $4321\nZERO = $21\n*=$2000\nNEAR NOP\n";
	int lab = 0;
	auto add = [&](const Str &k) {
		Str t = k;
		size_t q = t.find('@');
		if (q != Str::npos)
			t.replace(q, 1, strf("Q%d", lab++));
		src += t;
	};
	if (x.thorough) { // triples with a fixed pair
		for (uint64_t j = 0; j < n; j += 3) {
			add(K[i / n]);
			add(K[i % n]);
			add(K[j]);
			src += "*=$2000\n";
			if (j % 30 == 0)
				src += strf("*=$%llX\n", 0x2000ull + j);
		}
	} else {
		for (uint64_t j = 0; j < n; j++) {
			add(K[i]);
			add(K[j]);
			src += "*=$2000\n";
		}
	}
	// one line beyond, so that earlier overlapping code is not looked at: every
	// pair gets its own place instead
	Str out;
	long at = 0x2000;
	size_t p = 0;
	while (p < src.size()) {
		size_t e = src.find('\n', p);
		Str l = src.substr(p, e - p);
		p = e + 1;
		if (l.compare(0, 2, "*=") == 0 || l.compare(0, 4, ".ORG") == 0) {
			out += strf(l[0] == '*' ? "*=$%lX\n" : ".ORG $%lX\n", at);
			continue;
		}
		out += l + "\n";
		at += 4; // not less than any line needs
	}
	// branches reach only so far: NEAR and FWD are repeated as constants where needed
	Str fin;
	long pc = 0, k = 0;
	p = 0;
	Str head, body;
	while (p < out.size()) {
		size_t e = out.find('\n', p);
		Str l = out.substr(p, e - p);
		p = e + 1;
		size_t q;
		if ((q = l.find("NEAR")) != Str::npos && l.find("NEAR NOP") == Str::npos) {
			body += strf("N%ld:\n", k);
			l.replace(q, 4, strf("N%ld", k++));
			body += l + "\n";
		} else if ((q = l.find("FWD")) != Str::npos) {
			l.replace(q, 3, strf("F%ld", k));
			body += l + "\n" + strf("F%ld:\n", k);
			k++;
		} else {
			body += l + "\n";
		}
	}
	fin = body;
	x.use(fin);
	x.nontrivial = true;
	x.art("in.asm", fin);
	RefResult f = RefAsm::run(fin);
	if (!f.ok)
		x.set_aside(strf("harness: the reference rejects the sequence: line %d %s \"%s\"", f.line, err_text(f.err), esc(f.text).c_str()));
	Result r = x.run(fin);
	expect_ok(x, r, f.image, f.bytes, f.symbols, "sequence of line kinds");
	x.cls("sequences of line kinds", n);
}
static Reg reg({"C23", "random programs of which up to 12 instruction lines are assembled alone (symbols as constants, same location) and compared with their slice; 2-6 programs with disjoint symbols and memory joined in several orders and compared with the union of their images; programs with code for another place inserted between their lines; every pair (thorough: triple) of line kinds in one program. Oracle: metamorphic relations between runs, plus the generator's own layout. Non-trivial: at least two instruction lines / parts / one insertion; distinct by source.",
	count, enum_case, random_case, 30000, 250000, {"plain"}});
}

// ============================================================ C24
namespace c24 {
static void judge(Ctx &x, const Str &src, const char *what)
{
	RefResult f = RefAsm::run(src);
	Result r = x.run(src);
	if (f.ok) {
		if (f.past_end) {
			// beyond the address space only termination is specified
			x.cls("beyond the address space (set aside)");
			expect_clean(x, r, what);
			return;
		}
		x.cls("accepted");
		if (f.overlap_fwd) {
			x.cls("accepted, overlapping a forward reference (image set aside)");
			expect_accept(x, r, what);
			Str want = strf("Assembly successful.\n%ld (0x%04lx) bytes assembled.\n%d symbols.\n", f.bytes, f.bytes, f.symbols);
			if (r.out != want)
				x.fail(strf("%s: wrong summary: expected \"%s\", actual \"%s\"", what, esc(want).c_str(), esc(r.out, 400).c_str()));
			return;
		}
		expect_ok(x, r, f.image, f.bytes, f.symbols, what);
	} else {
		x.cls(Str("rejected: ") + err_text(f.err));
		expect_reject(x, r, -1, f.line, what);
	}
}
static void text_case(Ctx &x, const Str &src)
{
	x.use(src);
	x.nontrivial = !src.empty();
	x.art("in.asm", src);
	judge(x, src, "text found by fuzzing");
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	Str src;
	int k = c.weighted({4, 5, 3, 1});
	if (k == 3) {
		src = soup(x);
	} else {
		GenOpts o;
		o.max_lines = c.below(8) == 7 ? 400 : 70;
		o.branchy = (int)c.range(5, 40);
		Prog p = gen_prog(x, o);
		if (k == 1 && c.below(2)) { // a statement moved or repeated
			for (int n = 1 + (int)c.below(2); n > 0; n--) {
				Stmt s = p.st[c.below((uint32_t)p.st.size())];
				if (c.below(2)) {
					size_t d = c.below((uint32_t)p.st.size());
					s = p.st[d];
					p.st.erase(p.st.begin() + d);
				}
				p.st.insert(p.st.begin() + c.below((uint32_t)p.st.size() + 1), s);
			}
			x.cls("statements moved or repeated");
		}
		src = render(c, p, random_style(c));
		if (k == 2)
			src = mutate_text(c, src, 1 + (int)c.below(4));
	}
	x.use(src);
	x.nontrivial = src.size() > 3;
	x.sample_text = src.size() < 1200 ? src : "";
	x.art("in.asm", src);
	judge(x, src, k == 0 ? "valid program" : k == 1 ? "program with moved statements" : k == 2 ? "mutated program" : "arbitrary text");
}
// every short program over a set of statements about two symbols
static const char *SMALL[] = {"P", "Q:", "P NOP", "Q ASL A", "P = $12", "Q .EQU %11111111", ".DEFINE P $1234", ".DEFINE Q 65535", "*=$10", ".ORG $F0", "*=$1FE",
	"JMP P", "JSR Q", "JMP (P)", "BNE P", "BEQ Q", "LDA P", "LDY #Q", "STA P,X", "STX Q,Y", "CMP (P),Y", "EOR (Q,X)", "P BCC P", "Q JMP P", "Q BVS P", "P LDA Q",
	"", "; P = 1", ".END", "STA 16", "BNE $7F", "LDA #256", "CPX"};
static const uint64_t SMALLS = sizeof SMALL / sizeof *SMALL;
static uint64_t small_count(bool thorough) { return SMALLS + SMALLS * SMALLS + SMALLS * SMALLS * SMALLS + (thorough ? SMALLS * SMALLS * SMALLS * SMALLS : 0); }
// every byte, and every pair of bytes of an alphabet, in every kind of place; every file of two bytes
static const char *PLACES[] = {"?", "?\nNOP\n", "NOP?", "NOP ?\n", "L?\n", "L? NOP\n", "LDA ?5\n", "LDA #1?\n", "NOP ;?\nNOP\n", " ?NOP\n", "JMP L?\nL NOP\n", "BNE L ?\nL:\n",
	"\t?\t\nNOP", "*=?1\nNOP", "NOP\n.END?\n", "A1 =? 5\n", "NOP\n?\nNOP"};
static const uint64_t NPL = sizeof PLACES / sizeof *PLACES;
static const char ALPHA[] = "AXYaL09$%#(),=*.:;_ \t\n\r@\x01\x1a\x7f\x80\xff\"'-+&Ee\\/G\v\f";
static const uint64_t NAL = sizeof ALPHA - 1;
static uint64_t tiny_count() { return 256 * NPL + NAL * NAL * NPL + 65536; }
static void tiny_case(Ctx &x, uint64_t i)
{
	Str what, src;
	if (i < 256 * NPL) {
		what = Str(1, (char)(i / NPL));
		src = PLACES[i % NPL];
	} else if ((i -= 256 * NPL) < NAL * NAL * NPL) {
		what = Str(1, ALPHA[i / NPL % NAL]) + ALPHA[i / NPL / NAL];
		src = PLACES[i % NPL];
	} else {
		i -= NAL * NAL * NPL;
		what = Str(1, (char)(i >> 8)) + (char)i;
		src = PLACES[1];
	}
	size_t at = src.find('?');
	src.replace(at, 1, what);
	x.use(src);
	x.nontrivial = src.size() > 3;
	x.art("in.asm", src);
	x.cls("one or two bytes in a short program");
	judge(x, src, "one or two bytes in a short program");
}
static void small_case(Ctx &x, uint64_t i)
{
	if (i < tiny_count())
		return tiny_case(x, i);
	i -= tiny_count();
	int n = 1;
	for (uint64_t m = SMALLS; i >= m; i -= m, m *= SMALLS)
		n++;
	Str src;
	for (; n > 0; n--, i /= SMALLS)
		src += Str(SMALL[i % SMALLS]) + "\n";
	x.use(src);
	x.nontrivial = src.size() > 3;
	x.art("in.asm", src);
	x.cls("short program");
	judge(x, src, "short program");
}
static Reg reg({"C24", "every byte, and every pair over 42 bytes, in 17 places of short programs, every line of two bytes; every program of up to 3 (thorough: 4) lines over 33 statements about two symbols; random programs with all features, programs with statements moved or repeated, with byte/token/line mutations, and arbitrary text; plus coverage-guided libFuzzer on source texts. Oracle: independent reference assembler: acceptance, image, counts, faulty line. Non-trivial: more than 3 bytes; distinct by source.",
	[](bool t) { return tiny_count() + small_count(t); }, small_case, random_case, 150000, 1200000, {"plain"}, "exploration", text_case});
}

// ============================================================ C25
namespace c25 {
static Str end_text(Choices &c)
{
	static const char *e[] = {".END", ".end", ".End", ".eND", ".enD"};
	static const char *pre[] = {"", "\t", " ", "        ", " \t "};
	static const char *post[] = {"", " ", "\t", ";", " ; the end", ";comment \"x\" $GG @", "   ; LABEL: NOP", " ;\t\xff\x01"};
	Str s = Str(c.pick(pre)) + c.pick(e) + c.pick(post);
	if (c.below(12) == 11)
		s += ";" + Str(c.range(200, 3000), 'z');
	return s + (c.below(4) == 3 ? "\r" : "");
}
static Str junk(Ctx &x, const Prog &p)
{
	Choices &c = x.c;
	switch (c.weighted({2, 3, 3, 2, 1, 1, 1})) {
	case 0: { // single broken lines
		static const char *b[] = {"garbage garbage\n", "@@@", "LDA\n", "STA #1\n", "LDA UNDEFINED\n", "$\n", "*=\n", ".END\n", ".BYTE 1\n", "LDA $123456\n", ",,,\n", "JMP NOWHERE\n", "BNE $9999\n", "NOP NOP NOP NOP NOP NOP NOP NOP NOP NOP NOP NOP\n", "L\n", "=\n"};
		Str s;
		for (int n = 1 + (int)c.below(4); n > 0; n--)
			s += c.pick(b);
		return s;
	}
	case 1: { // code over the whole memory, new symbols, other locations
		GenOpts o;
		o.max_lines = 30;
		return render(c, gen_prog(x, o), random_style(c));
	}
	case 2: { // redefinitions
		Str s;
		for (auto &t : p.st)
			if (!t.label.empty() && c.below(2))
				s += t.label + (c.below(2) ? " = 1\n" : ":\n");
		return s + "NOP\n";
	}
	case 3: return soup(x);
	case 4: return Str(c.range(1, 20000), 'W');
	case 5: return Str("\0\0\n\0LDA\n", 8);
	default: return Str(c.range(1, 2000), '\n') + "@";
	}
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	GenOpts o;
	o.max_lines = 40;
	o.branchy = 25;
	Prog p = gen_prog(x, o);
	int kind = c.weighted({5, 2, 1});
	Str moved;
	Prog q = p;
	if (kind == 1) { // a definition of a symbol stands behind .END only
		Names nm;
		Str n;
		do
			n = nm.fresh(c);
		while ([&] { for (auto &s : p.st) if (s.label == n) return true; return false; }());
		static const char *br[] = {"JMP", "JSR", "BNE", "BVS"};
		Str m = c.pick(br);
		q.st.insert(q.st.begin() + c.below((uint32_t)q.st.size() + 1), sym_line(mn_of(m.c_str()), m[0] == 'J' ? ABS : REL, n));
		moved = n + (c.below(2) ? ":\n" : c.below(2) ? " = $10\n" : " NOP\n");
		if (c.below(3) == 2)
			moved = ".DEFINE " + n + " 4\n";
	}
	Style st = random_style(c);
	st.final_nl = true;
	Str a = render(c, q, st);
	if (kind == 2)
		a = mutate_text(c, a, 1 + (int)c.below(2));
	if (!a.empty() && a.back() != '\n')
		a += "\n";
	if (c.below(60) == 59) { // far down in the source
		static const long far[] = {100, 250, 251, 252, 253, 254, 255, 256, 300, 1000, 5000, 32760, 32767, 65530, 65536, 70000};
		Str gap;
		for (long n = c.pick(far) + (long)c.below(3); n > 0; n--)
			gap += n % 1000 == 7 ? "; far\n" : "\n";
		a = c.below(2) ? a + gap : gap + a;
		x.cls("end directives far down");
	}
	Str e = end_text(c), tail = moved + junk(x, p);
	Str nl = "\n";
	if (c.below(10) == 9 && moved.empty()) {
		nl = tail = "";
	}
	Str b = a + e + nl + tail;
	x.use(b);
	x.nontrivial = !tail.empty();
	x.sample_text = b.size() < 1200 ? b : "";
	x.art("with .END", b);
	x.art("without", a);
	Result ra = x.run(a), rb = x.run(b);
	expect_clean(x, ra, "source without .END");
	same_run(x, ra, rb, "in.asm", "text after .END has an effect");
	if (c.below(4) == 3) { // a source that cannot be positioned
		RunOpts po;
		po.fifo = c.below(2) ? c.range(1, 40) : c.range(1, 9000);
		Result rc = x.run(b, po);
		same_run(x, ra, rc, "in.asm", "text after .END has an effect when the source is a pipe");
		x.cls("sources from a pipe");
	}
	RefResult f = RefAsm::run(a);
	if (kind == 0 && !f.ok)
		x.set_aside(strf("harness: the reference rejects a generated program: line %d %s", f.line, err_text(f.err)));
	if (f.ok && !f.past_end && !f.overlap_fwd)
		expect_ok(x, ra, f.image, f.bytes, f.symbols, "source without .END");
	if (kind == 1) {
		expect_reject(x, rb, f.err, f.line, "symbol defined only after .END");
		x.cls("symbols defined only after .END");
	}
	x.cls(ra.exit == 0 ? "accepted" : "rejected");
}
static Reg reg({"C25", "random programs (also faulty ones, and ones that need a symbol defined only later) followed by the end directive in every letter case, with blanks and comments, and then by broken lines, other programs, redefinitions, arbitrary text, huge lines, NUL bytes or nothing. Oracle: same status, text and image as the program without the directive and what follows; the reference assembler for the program itself. Non-trivial: some text follows; distinct by source.",
	nullptr, nullptr, random_case, 90000, 700000, {"plain"}});
}

// ============================================================ C26
namespace c26 {
// a value as decimal text, possibly far beyond any machine word
struct Val { bool huge; unsigned long long v; const char *hex; const char *dec; };
static const Val VALS[] = {
	{false, 0}, {false, 1}, {false, 127}, {false, 128}, {false, 254}, {false, 255}, {false, 256}, {false, 257}, {false, 300}, {false, 383}, {false, 511}, {false, 512}, {false, 4095}, {false, 32767}, {false, 32768},
	{false, 65279}, {false, 65280}, {false, 65281}, {false, 65407}, {false, 65408}, {false, 65534}, {false, 65535},
	{true, 0, "10000", "65536"}, {true, 0, "10001", "65537"}, {true, 0, "100FF", "65791"}, {true, 0, "1FFFF", "131071"}, {true, 0, "7FFFFFFF", "2147483647"}, {true, 0, "80000000", "2147483648"}, {true, 0, "80000001", "2147483649"},
	{true, 0, "FFFFFFFF", "4294967295"}, {true, 0, "100000000", "4294967296"}, {true, 0, "100000012", "4294967314"}, {true, 0, "10000000000000000", "18446744073709551616"}, {true, 0, "10000000000000012", "18446744073709551634"},
	{true, 0, "FFFFFFFFFFFFFFFF", "18446744073709551615"}, {true, 0, "FFFFFFFFFFFFFFFE", "18446744073709551614"}, {true, 0, "123456789012345678901234567890", "1000000000000000000000000000000000000000"}, {true, 0, "8000000000000012", "9223372036854775826"},
};
static const int NV = sizeof VALS / sizeof *VALS;
static Str bin_of(const char *hex)
{
	Str s;
	for (; *hex; hex++) {
		int d = *hex <= '9' ? *hex - '0' : *hex - 'A' + 10;
		for (int b = 3; b >= 0; b--)
			s += '0' + (d >> b & 1);
	}
	return s;
}
static Str spell(const Val &v, int radix, int zeros)
{
	Str z(zeros, '0');
	if (!v.huge) {
		switch (radix) {
		case 0: return "$" + z + strf("%llX", v.v);
		case 1: return "%" + z + bin_of(strf("%llX", v.v).c_str());
		default: return z + strf("%llu", v.v);
		}
	}
	return radix == 0 ? "$" + z + v.hex : radix == 1 ? "%" + z + bin_of(v.hex) : z + v.dec;
}
static Str line_of(int mn, int shape, const Str &op)
{
	Str t = isa().names[mn];
	switch (shape) {
	case S_O: return t + " " + op;
	case S_OX: return t + " " + op + ",X";
	case S_OY: return t + " " + op + ",Y";
	case S_IMM: return t + " #" + op;
	case S_IND: return t + " (" + op + ")";
	case S_INDX: return t + " (" + op + ",X)";
	case S_INDY: return t + " (" + op + "),Y";
	}
	return t;
}
// decodes the instruction at pc and compares with the value the operand stands for
static void judge(Ctx &x, const Str &src, long pc, int mn, long value, bool literal, const Str &what)
{
	RefResult f = RefAsm::run(src);
	Result r = x.run(src);
	if (!f.ok) {
		x.cls(Str("rejected: ") + err_text(f.err));
		x.nontrivial = true;
		expect_reject(x, r, -1, f.line, what.c_str());
		return;
	}
	x.cls("accepted");
	expect_accept(x, r, what.c_str());
	int op = (size_t)pc < r.image.size() ? r.image[pc] : -1;
	int mode = op < 0 ? -1 : isa().by_op[op].mode;
	if (op < 0 || isa().by_op[op].mn != mn || (size_t)pc + mode_len(mode) > r.image.size())
		x.fail(what + strf(": no %s at $%04lX of the output", isa().names[mn].c_str(), pc));
	long got = mode_len(mode) == 2 ? r.image[pc + 1] : mode_len(mode) == 3 ? r.image[pc + 1] | r.image[pc + 2] << 8 : -1;
	long want = value;
	if (mode == REL && !literal)
		got = pc + 2 + (int8_t)got;
	if (got != want)
		x.fail(what + strf(": the operand stands for %ld, the output holds %ld (%s)", want, got, hexdump(r.image, pc, 3).c_str()));
}
// combos: mnemonic x shape
static uint64_t count(bool t) { return 56ull * 7 * NV * 3; }
static void enum_case(Ctx &x, uint64_t i)
{
	Choices &c = x.c;
	int mn = i % 56, shape = 2 + i / 56 % 7, how = (int)(i / 56 / 7 / NV);
	const Val &v = VALS[i / 56 / 7 % NV];
	long pc = c.below(2) ? 0x3000 : v.v > 200 && v.v < 65000 && isa().is_branch(mn) ? (long)v.v - 60 + c.below(120) : 0x80;
	Str num = spell(v, (int)c.below(3), c.below(4) == 3 ? (int)c.below(30) : 0), src;
	if (how == 0) {
		src = strf("*=$%lX\n", pc) + line_of(mn, shape, num) + "\n";
	} else {
		static const char *d[] = {"VALUE = %s\n", "VALUE .EQU %s\n", ".DEFINE VALUE %s\n"};
		if (how == 1)
			src = strf(c.pick(d), num.c_str());
		else
			src = strf("*=%s\nVALUE%s\n", num.c_str(), c.below(2) ? ":" : "");
		src += strf("*=$%lX\n", pc) + line_of(mn, shape, "VALUE") + "\n";
	}
	x.use(src);
	x.sample_text = src;
	x.art("in.asm", src);
	judge(x, src, pc, mn, (long)v.v, how == 0, "enumerated operand");
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	const Isa &I = isa();
	int mn = I.is_branch(0) ? 0 : 0;
	switch (c.below(3)) {
	case 0: mn = (int)c.below(56); break;
	case 1: { static const char *b[] = {"JMP", "JSR", "BNE", "BEQ", "BVC"}; mn = mn_of(c.pick(b)); break; }
	default: { static const char *b[] = {"LDA", "STA", "LDX", "STX", "LDY", "STY", "INC", "CPX", "BIT", "ADC", "ASL"}; mn = mn_of(c.pick(b)); break; }
	}
	int shape = 2 + (int)c.below(7);
	Str src, name = "TARGET";
	long pc, value;
	Str what;
	int kind = c.weighted({3, 3, 2, 2});
	Names nm;
	nm.reserve(name);
	GenOpts o;
	o.max_lines = 12;
	o.lo = 0x200;
	o.hi = 0x1000;
	Str around = render(c, gen_prog(x, o, &nm), Style());
	Str before = c.below(2) ? around : "";
	if (kind == 0) { // a label behind code that reaches the end of memory
		long n = c.range(1, x.size > 50 ? 100 : 6);
		std::vector<int> lens;
		long total = 0;
		for (long i = 0; i < n; i++) {
			lens.push_back(1 + (int)c.below(3));
			total += lens.back();
		}
		long start = std::min(0xFFFFL, 0x10000 - total + (long)c.range(0, std::min(total, 300L)));
		value = start + total;
		Str block = strf("*=$%lX\n", start);
		for (int l : lens)
			block += l == 1 ? "NOP\n" : l == 2 ? "LDA #1\n" : "LDA $1234\n";
		block += name + (c.below(2) ? ":\n" : "\n");
		bool later = c.below(2), near = c.below(3) == 2 || I.is_branch(mn);
		pc = near ? std::max(0x1000L, start - (long)c.range(3, 140)) : 0x1800;
		Str use = strf("*=$%lX\n", pc) + line_of(mn, shape, name) + "\n";
		src = before + (later ? use + block : block + use);
		what = strf("label at %ld, used at $%04lX %s its definition", value, pc, later ? "before" : "after");
		x.cls(value > 0xFFFF ? "labels past the end of memory" : "labels near the end of memory");
	} else if (kind == 1) { // branch distances
		static const char *b[] = {"BPL", "BMI", "BVC", "BVS", "BCC", "BCS", "BNE", "BEQ"};
		mn = mn_of(c.pick(b));
		shape = S_O;
		long d = c.below(2) ? c.range(-140, 140) : c.below(2) ? edgy(c, -32768, 32767) : c.range(1, 200) * 256 + c.range(-130, 130);
		pc = edgy(c, 0x1000, 0xFF00);
		value = pc + 2 + d;
		if (value < 0x1000 || value > 0xFFFF)
			value = edgy(c, 0x1000, 0xFFFF);
		bool later = c.below(2);
		Str def = c.below(2) ? strf("%s = %ld\n", name.c_str(), value) : strf("*=$%lX\n%s:\n", value, name.c_str());
		Str use = strf("*=$%lX\n", pc) + line_of(mn, shape, name) + "\n";
		src = before + (later ? use + def : def + use);
		what = strf("branch from $%04lX to $%04lX", pc, value);
		x.cls("branch distances");
	} else if (kind == 2) { // literals of every spelling
		Val v{false, (unsigned long long)edgy(c, 0, 0xFFFF), nullptr, nullptr};
		Str num;
		if (c.below(2)) {
			num = spell(v, (int)c.below(3), c.below(3) == 2 ? (int)c.below(80) : 0);
		} else { // many digits; the low ones look innocent
			int radix = (int)c.below(3);
			long n = c.range(1, 40);
			num = radix == 0 ? "$" : radix == 1 ? "%" : "";
			num += "1" + Str(radix == 1 ? n + 14 : n + 3, '0');
			Str low = spell({false, v.v & 0xFF, nullptr, nullptr}, radix, 0);
			num += low.substr(radix == 2 ? 0 : 1);
		}
		pc = 0x1800;
		value = (long)v.v;
		src = before + strf("*=$%lX\n", pc) + line_of(mn, shape, num) + "\n";
		what = "literal " + num;
		x.cls("literals");
		RefResult f = RefAsm::run(src);
		if (f.ok && num.size() > 40 && num.find_first_not_of("$%0") == Str::npos)
			value = 0;
		x.use(src);
		x.sample_text = src;
		x.art("in.asm", src);
		judge(x, src, pc, mn, value, true, what);
		return;
	} else { // constants and locations
		value = edgy(c, 0, 0xFFFF);
		pc = value >= 0x1000 && value < 0xFF00 && I.is_branch(mn) ? value - 120 + c.below(240) : 0x1800;
		Str def = c.below(2) ? strf("%s = %ld\n", name.c_str(), value) : strf(".ORG %ld\n%s\n", value, name.c_str());
		bool later = c.below(2) && (I.is_branch(mn) || I.is_jump(mn));
		Str use = strf("*=$%lX\n", pc) + line_of(mn, shape, name) + "\n";
		src = before + (later ? use + def : def + use);
		what = strf("symbol of value %ld", value);
		x.cls("symbols");
	}
	x.use(src);
	x.sample_text = src;
	x.art("in.asm", src);
	judge(x, src, pc, mn, value, false, what);
}
static Reg reg({"C26", "every mnemonic x operand form x value (around 127, 255, 65535, and beyond 2^16, 2^31, 2^32, 2^64) as a literal in any radix, a constant, or a label; random labels at and past the end of memory used before or after their definition in every form; branch distances up to +-64 KiB incl. multiples of 256; literals with up to 80 digits. Oracle: accepted only if the rules allow it, and then the instruction is decoded from the image and its operand must equal the full value. Non-trivial: rejected, i.e. the value does not fit (or no such form); distinct by source.",
	count, enum_case, random_case, 150000, 1200000, {"plain"}});
}
