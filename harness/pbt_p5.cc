// C27, C28: names of symbols and places of definitions do not matter
// C30: runs at the same time; C31: memory; C32: time; C33: interrupted runs
#include "gen.h"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static int mn_of(const char *s) { return isa().find(s); }
static bool can_wait(const Stmt &s) { return s.k == Stmt::INSTR && s.sym && (isa().is_jump(s.mn) || s.mode == REL); }
static bool defines(const Stmt &s) { return !s.label.empty() && (s.k == Stmt::LABEL || s.k == Stmt::CONST || s.k == Stmt::INSTR); }

// ============================================================ C27
namespace c27 {
static const int POLICIES = 7;
static const char *POLICY[] = {"fresh names", "exchanged names", "63 letters, differing at the end", "63 letters, differing at the front", "equal hashes", "shortest names", "names like mnemonics"};
static Str hashed(unsigned i)
{
	Str s = "H";
	for (int b = 0; b < 11; b++)
		s += (i >> b) & 1 ? "B0" : "AQ";
	return s;
}
static std::map<Str, Str> mapping(Choices &c, const std::vector<Str> &old, int policy)
{
	std::map<Str, Str> m;
	std::vector<Str> to = old;
	if (policy == 1) {
		c.shuffle(to);
	} else {
		Names nm;
		unsigned n = c.below(7);
		to.clear();
		while (to.size() < old.size()) {
			Str s;
			switch (policy) {
			case 2: s = strf("%u", n++), s = Str("T") + Str(62 - s.size(), '_') + s; break;
			case 3: s = strf("T%u", n++), s += Str(63 - s.size(), 'T'); break;
			case 4: s = hashed(n++ % 2048); if (n > 2048) s += strf("%u", n); break;
			case 5: {
				static const char rest[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_";
				unsigned v = n++;
				s = Str(1, (char)('B' + v % 22));
				for (v /= 22; v; v /= 37)
					v--, s += rest[v % 37];
				break;
			}
			case 6: {
				static const char *tail[] = {"_", "0", "A", "X", "Y", "LDA", "1", "_A"};
				s = isa().names[c.below(56)] + c.pick(tail);
				if (c.below(4) == 3)
					s += strf("%u", n++);
				break;
			}
			default:
				to.push_back(nm.fresh(c));
				continue;
			}
			if (nm.reserve(s))
				to.push_back(s);
			else if (policy == 6 && ++n > 400)
				to.push_back(nm.fresh(c));
		}
	}
	for (size_t i = 0; i < old.size(); i++)
		m[old[i]] = to[i];
	return m;
}
static Prog renamed(const Prog &p, const std::map<Str, Str> &m)
{
	Prog q = p;
	auto f = [&](Str &s) {
		auto i = m.find(s);
		if (i != m.end())
			s = i->second;
	};
	for (auto &s : q.st) {
		f(s.label);
		if (s.sym)
			f(s.name);
	}
	return q;
}
// spoil a program in a way that concerns its symbols
static Str spoil(Ctx &x, Prog &p, Names &nm)
{
	Choices &c = x.c;
	std::vector<size_t> defs, uses;
	for (size_t i = 0; i < p.st.size(); i++) {
		if (defines(p.st[i]))
			defs.push_back(i);
		if (p.st[i].k == Stmt::INSTR && p.st[i].sym)
			uses.push_back(i);
	}
	switch (c.below(4)) {
	case 0: // a definition less
		if (!defs.empty()) {
			Stmt &s = p.st[c.pick(defs)];
			if (s.k == Stmt::INSTR)
				s.label.clear();
			else
				s = Stmt();
			return "a definition removed";
		}
		break;
	case 1: // one twice
		if (!defs.empty()) {
			Str n = p.st[c.pick(defs)].label;
			size_t at = c.below((uint32_t)p.st.size() + 1);
			p.st.insert(p.st.begin() + at, c.below(2) ? const_line(n, c.below(65536), (int)c.below(3)) : label_line(n));
			return "a second definition";
		}
		break;
	case 2: // an operand names something else
		if (!uses.empty() && !defs.empty()) {
			p.st[c.pick(uses)].name = p.st[c.pick(defs)].label;
			return "another operand";
		}
		break;
	}
	size_t at = c.below((uint32_t)p.st.size() + 1);
	p.st.insert(p.st.begin() + at, sym_line(mn_of(c.below(2) ? "LDA" : "JMP"), ABS, nm.fresh(c)));
	return "an undefined operand";
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	GenOpts o;
	o.max_lines = c.below(8) == 7 ? 250 : 60;
	o.branchy = 25;
	Names nm;
	Prog p = gen_prog(x, o, &nm);
	Str bad;
	if (c.below(4) == 3)
		bad = spoil(x, p, nm);
	std::vector<Str> names;
	std::set<Str> seen;
	long uses = 0;
	for (auto &s : p.st) {
		if (defines(s) && seen.insert(s.label).second)
			names.push_back(s.label);
		if (s.sym && !s.name.empty()) {
			uses++;
			if (seen.insert(s.name).second)
				names.push_back(s.name);
		}
	}
	int policy = (int)c.below(POLICIES);
	std::map<Str, Str> m = mapping(c, names, policy);
	Prog q = renamed(p, m);
	Str a = render_plain(p), b;
	bool same_lines = c.below(2);
	b = same_lines ? render_plain(q) : render(c, q, random_style(c));
	x.use(a + b);
	x.nontrivial = names.size() >= 2 && uses >= 1;
	x.sample_text = a.size() + b.size() < 1500 ? a + "----\n" + b : "";
	x.art("in.asm", a);
	x.art("renamed.asm", b);
	Result ra = x.run(a), rb = x.run(b);
	Str what = Str("renaming (") + POLICY[policy] + ")";
	expect_same(x, ra, rb, what.c_str());
	if (ra.exit == 0 && ra.out != rb.out)
		x.fail(strf("%s: the summaries differ: \"%s\" and \"%s\"", what.c_str(), esc(ra.out, 200).c_str(), esc(rb.out, 200).c_str()));
	if (ra.exit != 0 && same_lines) {
		Diag da = parse_diag(ra.out), db = parse_diag(rb.out);
		if (da.line != db.line || da.msg != db.msg)
			x.fail(strf("%s: line %ld \"%s\" is reported for the one and line %ld \"%s\" for the other", what.c_str(), da.line, da.msg.c_str(), db.line, db.msg.c_str()));
	}
	if (bad.empty())
		expect_accept(x, ra, "generated program");
	x.cls(POLICY[policy]);
	x.cls(ra.exit == 0 ? "accepted" : "rejected: " + parse_diag(ra.out).msg);
}
static Reg reg({"C27", "random programs, a quarter of them spoiled in their symbols (missing, second, exchanged, undefined), and the same program with every symbol renamed consistently: to fresh names, to one another's names, to 63-character names that differ in one place, to names of equal hash, to the shortest names, to names that begin with a mnemonic. Oracle: same acceptance, image and summary; same line and kind of fault. Non-trivial: at least 2 symbols and one use; distinct by both sources.",
	nullptr, nullptr, random_case, 90000, 900000, {"plain"}});
}

// ============================================================ C28
namespace c28 {
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	GenOpts o;
	o.max_lines = c.below(8) == 7 ? 250 : 60;
	o.branchy = 25;
	Names nm;
	Prog p = gen_prog(x, o, &nm);
	for (long k = c.range(0, 6); k > 0; k--) { // more constants, most of them used
		Str n = nm.fresh(c);
		long v = edgy(c, 0, 65535);
		size_t at = c.below((uint32_t)p.st.size() + 1);
		p.st.insert(p.st.begin() + at, const_line(n, v, (int)c.below(3)));
		for (auto &s : p.st)
			if (s.k == Stmt::INSTR && s.sym && isa().is_jump(s.mn) && c.below(4) == 3)
				s.name = n;
	}
	Image im = p.layout();
	bool exact = !im.overlap;
	if (!exact)
		x.cls("programs that overwrite themselves");
	Str a = render_plain(p);
	Result ra = x.run(a);
	expect_accept(x, ra, "generated program");
	// address labels turned into constants, constants moved, unused ones added
	Prog q = p;
	std::vector<Stmt> defs;
	std::vector<Stmt> body;
	long turned = 0, moved = 0, added = 0, used = 0;
	for (auto &s : q.st) {
		if (s.k == Stmt::CONST && c.below(5)) {
			defs.push_back(s);
			moved++;
			continue;
		}
		if (!s.label.empty() && s.k != Stmt::CONST && s.pc <= 0xFFFF && c.below(3) == 0) {
			defs.push_back(const_line(s.label, s.pc, (int)c.below(3)));
			turned++;
			if (s.k == Stmt::LABEL)
				continue;
			s.label.clear();
		}
		body.push_back(s);
	}
	for (long k = c.weighted({2, 1, 1}) ? c.range(1, c.below(6) == 5 ? 200 : 6) : 0; k > 0; k--) {
		defs.push_back(const_line(nm.fresh(c), edgy(c, 0, 65535), (int)c.below(3)));
		added++;
	}
	c.shuffle(defs);
	bool overlap_safe = exact; // waiting references are patched last, which shows when code overlaps
	for (auto &d : defs) {
		size_t last = body.size();
		for (size_t i = 0; i < body.size(); i++)
			if (body[i].k == Stmt::INSTR && body[i].sym && body[i].name == d.label) {
				used++;
				if (!can_wait(body[i]) || !overlap_safe) {
					last = i;
					break;
				}
			}
		body.insert(body.begin() + c.below((uint32_t)last + 1), d);
	}
	q.st = body;
	Str b = c.below(2) ? render_plain(q) : render(c, q, random_style(c));
	x.use(a + b);
	x.nontrivial = moved + turned + added >= 1 && used >= 1;
	x.sample_text = a.size() + b.size() < 1500 ? a + "----\n" + b : "";
	x.art("in.asm", a);
	x.art("moved.asm", b);
	Result rb = x.run(b);
	if (!exact) {
		// a reference that no longer waits is written at its own turn
		for (auto &s : p.st)
			if (s.fwd) {
				expect_accept(x, rb, "definitions moved");
				return;
			}
	}
	expect_same(x, ra, rb, "definitions moved");
	long bytes = 0, symbols = 0;
	char junk[32];
	if (sscanf(ra.out.c_str(), "Assembly successful.\n%ld (%31[^)]) bytes assembled.\n%ld symbols.", &bytes, junk, &symbols) != 3)
		x.fail("no summary: \"" + esc(ra.out, 300) + "\"");
	Str want = strf("Assembly successful.\n%ld (%s) bytes assembled.\n%ld symbols.\n", bytes, junk, symbols + added);
	if (rb.out != want)
		x.fail(strf("definitions moved, %ld added: summary expected \"%s\", actual \"%s\"", added, esc(want).c_str(), esc(rb.out, 300).c_str()));
	if (moved)
		x.cls("constants moved", moved);
	if (turned)
		x.cls("address labels turned into constants", turned);
	if (added)
		x.cls("unused definitions added", added);
}
static Reg reg({"C28", "random programs with additional constants, and a variant of each in which constants stand elsewhere (anywhere before the first use that cannot wait, in any order, behind all uses by branches and jumps), address labels are replaced by constants of the same value, and unused definitions are added. Oracle: same image and byte count; the symbol count grows by the number added. Non-trivial: some definition is moved, turned or added and one is used; distinct by both sources.",
	nullptr, nullptr, random_case, 90000, 900000, {"plain"}});
}

// ============================================================ C30
namespace c30 {
struct Job {
	Str src, name, out;        // the source, and how the files are called
	bool dflt = false;         // no -o: the output is a.out of its own directory
	bool pipe_out = false;     // the output is a named pipe
	Str cwd;
	Result alone, now;
	pid_t pid = -1;
	int feed = -1, drain = -1;
	size_t at = 0;
	bool over = false;
	Bytes piped;
};
static void start(Ctx &x, Job &j, const Str &bin, int i)
{
	Str so = x.dir + strf("/job%d.txt", i);
	int fo = open(so.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
	int fb = open(bin.c_str(), O_RDONLY | O_CLOEXEC);
	if (fo < 0 || fb < 0)
		exit(3);
	std::vector<const char *> av{"gaia"}, ev{"PATH=/usr/bin:/bin", nullptr};
	if (!j.dflt) {
		av.push_back("-o");
		av.push_back(j.out.c_str());
	}
	av.push_back(j.name.c_str());
	av.push_back(nullptr);
	j.pid = fork();
	if (j.pid == 0) {
		int in = open("/dev/null", O_RDONLY);
		dup2(in, 0);
		dup2(fo, 1);
		dup2(fo, 2);
		if (chdir(j.cwd.c_str()))
			_exit(98);
		signal(SIGPIPE, SIG_DFL);
		struct rlimit l = {20, 22};
		setrlimit(RLIMIT_CPU, &l);
		l.rlim_cur = l.rlim_max = 0;
		setrlimit(RLIMIT_CORE, &l);
		fexecve(fb, (char **)av.data(), (char **)ev.data());
		_exit(99);
	}
	close(fo);
	close(fb);
}
static void reap(Job &j, bool block)
{
	int st;
	if (j.pid < 0 || waitpid(j.pid, &st, block ? 0 : WNOHANG) != j.pid)
		return;
	j.pid = -1;
	if (WIFEXITED(st))
		j.now.exit = WEXITSTATUS(st);
	else if (WIFSIGNALED(st))
		j.now.sig = WTERMSIG(st);
	if (j.now.exit == 98 || j.now.exit == 99)
		exit(3);
}
static void sip(Job &j)
{
	char b[65536];
	ssize_t n;
	if (j.drain >= 0)
		while ((n = read(j.drain, b, sizeof b)) > 0)
			j.piped.insert(j.piped.end(), b, b + n);
}
static double now_s()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec / 1e9;
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	int n = (int)c.range(2, 6);
	Str d = x.dir + "/many";
	mkdir(d.c_str(), 0755);
	mkdir((d + "/other").c_str(), 0755);
	std::vector<Job> js(n);
	bool fed = c.below(4) != 0; // sources written by us, piece by piece, in an order of our choice
	int plan = (int)c.below(5);
	for (int i = 0; i < n; i++) {
		Job &j = js[i];
		if (i && c.below(4) == 3) { // the same source for several
			j.src = js[0].src;
		} else {
			GenOpts o;
			o.max_lines = c.below(4) == 3 ? 400 : 40;
			o.branchy = 25;
			Prog p = gen_prog(x, o);
			j.src = render_plain(p);
			if (c.below(8) == 7)
				j.src += "LDA #@\n";
		}
		j.name = strf("s%d.asm", i);
		j.out = strf("o%d.bin", i);
		j.cwd = d;
		switch (plan) {
		case 1: j.out = strf("prog.%s", i % 2 ? strf("x%d", i).c_str() : strf("y%d", i).c_str()); break;
		case 2: // one each in directories of their own, by the default name
			if (i < 2) {
				j.dflt = true;
				j.cwd = i ? d + "/other" : d;
				j.out = "a.out";
			}
			break;
		case 3: j.pipe_out = c.below(2); break;
		case 4: j.name = strf("prog%d", i), j.out = strf("prog%d.asm", i); break; // names that invite mixing up
		}
		x.use(j.src);
	}
	// each alone
	for (auto &j : js) {
		j.alone = x.run(j.src);
		expect_clean(x, j.alone, "alone");
		for (auto &f : {j.name, j.out})
			unlink((j.cwd + "/" + f).c_str());
	}
	bool accepted = true;
	Str bin = x.binary("plain");
	signal(SIGPIPE, SIG_IGN);
	for (int i = 0; i < n; i++) {
		Job &j = js[i];
		x.art(strf("source%d.asm", i), j.src);
		Str in = j.cwd + "/" + j.name, out = j.cwd + "/" + j.out;
		if (fed) {
			if (mkfifo(in.c_str(), 0644))
				exit(3);
		} else {
			spill(in, j.src);
		}
		if (j.pipe_out) {
			if (mkfifo(out.c_str(), 0644))
				exit(3);
			j.drain = open(out.c_str(), O_RDONLY | O_NONBLOCK | O_CLOEXEC);
		}
		accepted &= j.alone.exit == 0;
	}
	std::vector<int> order;
	for (int i = 0; i < n; i++)
		order.push_back(i);
	c.shuffle(order);
	// the order of events: one choice, as what is asked for when depends on the time
	uint64_t plan_of_events = c.below(1u << 30);
	auto rnd = [&](uint32_t n) { return (uint32_t)((mix64(++plan_of_events) >> 20) % n); };
	bool staged = fed && c.below(2); // the next one is started when others are under way
	int started = 0;
	if (!staged)
		for (; started < n; started++)
			start(x, js[order[started]], bin, order[started]);
	double limit = now_s() + 60;
	int alive = n;
	while (alive) {
		if (started < n && (started == 0 || rnd(3) == 0 || alive == n - started)) {
			start(x, js[order[started]], bin, order[started]);
			started++;
		}
		if (fed) {
			std::vector<int> open_ones;
			for (int i = 0; i < started; i++)
				if (js[order[i]].pid >= 0 && !js[order[i]].over)
					open_ones.push_back(order[i]);
			if (!open_ones.empty()) {
				Job &j = js[open_ones[rnd((uint32_t)open_ones.size())]];
				if (j.feed < 0)
					j.feed = open((j.cwd + "/" + j.name).c_str(), O_WRONLY | O_NONBLOCK | O_CLOEXEC);
				if (j.feed >= 0) {
					size_t k = std::min<size_t>(j.src.size() - j.at, rnd(4) == 3 ? 1 + rnd(4000) : 1 + rnd(200));
					ssize_t w = k ? write(j.feed, j.src.data() + j.at, k) : 0;
					if (w > 0)
						j.at += w;
					if ((w < 0 && errno != EAGAIN) || j.at == j.src.size()) {
						close(j.feed);
						j.feed = -1;
						j.over = true;
					}
				} else if (errno != ENXIO && errno != EINTR) {
					exit(3);
				}
			}
			usleep(rnd(8) == 7 ? 300 : 20);
		} else {
			usleep(100);
		}
		alive = n - started;
		for (auto &j : js) {
			if (j.pid < 0)
				continue;
			sip(j);
			reap(j, false);
			if (j.pid >= 0)
				alive++;
		}
		if (now_s() > limit) {
			for (auto &j : js)
				if (j.pid >= 0) {
					kill(j.pid, SIGKILL);
					reap(j, true);
					j.now.hang = true;
				}
			break;
		}
	}
	for (int i = 0; i < n; i++) {
		Job &j = js[i];
		sip(j);
		if (j.feed >= 0)
			close(j.feed);
		if (j.drain >= 0)
			close(j.drain);
		Str so = x.dir + strf("/job%d.txt", i), out = j.cwd + "/" + j.out;
		Bytes b = slurp(so);
		j.now.out.assign(b.begin(), b.end());
		unlink(so.c_str());
		if (j.pipe_out) {
			j.now.image = j.piped;
			j.now.have_image = true;
		} else {
			j.now.image = slurp(out, &j.now.have_image);
		}
		unlink(out.c_str());
		unlink((j.cwd + "/" + j.name).c_str());
		x.execs++;
	}
	x.nontrivial = n >= 2;
	x.sample_text = strf("%d programs at a time, %s, plan %d; the first:\n", n, fed ? "sources written piece by piece" : "sources in files", plan) + (js[0].src.size() < 1000 ? js[0].src : "");
	for (int i = 0; i < n; i++) {
		Job &j = js[i];
		Str what = strf("program %d of %d at the same time", i + 1, n);
		expect_clean(x, j.now, what.c_str());
		if (j.now.exit != j.alone.exit)
			x.fail(what + strf(": exit status %d, alone %d; output \"%s\", alone \"%s\"", j.now.exit, j.alone.exit, esc(j.now.out, 300).c_str(), esc(j.alone.out, 300).c_str()));
		if (j.now.exit == 0 && j.now.out != j.alone.out)
			x.fail(what + ": summary \"" + esc(j.now.out, 300) + "\", alone \"" + esc(j.alone.out, 300) + "\"");
		if (j.now.exit != 0) {
			Diag a = parse_diag(j.alone.out), b = parse_diag(j.now.out);
			if (a.line != b.line || a.msg != b.msg)
				x.fail(what + ": message \"" + esc(j.now.out, 300) + "\", alone \"" + esc(j.alone.out, 300) + "\"");
		}
		if (j.now.exit == 0 && j.now.image != j.alone.image)
			x.fail(what + ": its binary differs from the one it gives alone: " + first_diff(j.alone.image, j.now.image));
	}
	x.cls(fed ? (staged ? "piece by piece, started one after another" : "piece by piece") : "sources in files");
	x.cls(strf("%d at a time", n));
	if (plan == 3)
		x.cls("some outputs are pipes");
}
static Reg reg({"C30", "2-6 random programs assembled at the same time in one directory, with outputs, names and default outputs side by side; three quarters get their sources through named pipes, written piece by piece in a generated order, so that the runs are truly interleaved, half of these also started one after another; some outputs are pipes. Oracle: status, summary or message, and image of each equal those of the same program run alone. Non-trivial: every case; distinct by the sources.",
	nullptr, nullptr, random_case, 5000, 60000, {"plain"}});
}

// ============================================================ C31
namespace c31 {
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	// symbols and pending references, which must be remembered
	long syms = c.below(4) == 3 ? c.range(0, 30000) : c.range(0, 50);
	long refs = c.below(4) == 3 ? c.range(0, 10000) : c.range(0, 10);
	long longest = c.below(6) == 5 ? c.range(0, 200000) : 0;
	long lines = c.range(150000, x.thorough ? 2000000 : 500000);
	Str src = "K = $12\nW .EQU $1234\n*=$1000\nB:\n";
	for (long i = 0; i < syms; i++)
		src += strf("S%ld = %ld\n", i, i % 65536);
	src += "*=$2000\n";
	size_t ref_len = 0;
	for (long i = 0; i < refs; i++) {
		if (i % 256 == 0)
			src += "*=$2000\n";
		static const char *r[] = {"JMP LATER\n", "\tjsr LATER ; text\n", "JMP ( LATER )\n"};
		Str l = r[i % 3];
		ref_len += l.size();
		src += l;
	}
	if (longest)
		src += ";" + Str(longest, 'x') + "\n";
	// a block of lines that nothing need be remembered of
	Str block;
	long k = 0;
	bool bare = c.below(4) == 3; // without code
	std::set<Str> kinds;
	for (long w = c.range(1, 8); w > 0; w--, k++) {
		Style st = random_style(c);
		st.blanks = 0;
		st.final_nl = true;
		st.long_text = 0;
		Prog p;
		if (bare || c.below(4) == 3) {
			switch (c.below(5)) {
			case 0: block += "\n"; kinds.insert("empty lines"); continue;
			case 1: block += Str(1 + c.below(40), ' ') + "\n"; kinds.insert("blank lines"); continue;
			case 2: block += "; " + Str(c.below(100), 'c') + "\n"; kinds.insert("comments"); continue;
			case 3: p.st.push_back(org_line(c.range(0x0F90, 0x0FF0), 0)); kinds.insert("*="); break;
			case 4: p.st.push_back(org_line(c.range(0x0F90, 0x0FF0), 1)); kinds.insert(".ORG"); break;
			}
		} else {
			std::vector<int> legal;
			int mn = (int)c.below(56);
			for (int m = 0; m < NMODES; m++)
				if (isa().has(mn, m))
					legal.push_back(m);
			int mode = c.pick(legal);
			p.st.push_back(org_line(c.range(0x0F90, 0x0FF0), (int)c.below(2)));
			k++;
			if (mode == REL || (mode != IMP && mode != ACC && c.below(2)))
				p.st.push_back(sym_line(mn, mode, mode == REL ? "B" : mode_max(mode, mn) < 256 ? "K" : c.below(2) ? "W" : "B"));
			else
				p.st.push_back(instr_lit(c, mn, mode, edgy(c, mode_min(mode, mn), mode_max(mode, mn))));
			kinds.insert(isa().names[mn]);
		}
		block += render(c, p, st);
	}
	Str small = src + block;
	for (long i = 0; i < lines; i += k)
		src += block;
	bool bad = c.below(8) == 7;
	Str tail = refs ? "LATER\n" : "";
	if (bad)
		tail += "LDA #@\n";
	src += tail;
	small += tail;
	size_t widest = 0;
	for (size_t a = 0, e; a < src.size(); a = e + 1) {
		e = src.find('\n', a);
		if (e == Str::npos)
			e = src.size();
		widest = std::max(widest, e - a);
	}
	long kb = 1024 + (syms * 410 + refs * 500 + 3 * (long)ref_len + 8 * (long)widest) / 1024;
	x.key = hash_str(src);
	x.nontrivial = true;
	x.sample_text = strf("%ld symbols, %ld references, then %ld lines of:\n", syms, refs, lines) + (block.size() < 800 ? block : block.substr(0, 800) + "...");
	x.art("block.asm", block);
	x.art("short.asm", small.size() < 100000 ? small : "");
	Result ra = x.run(small);
	expect_clean(x, ra, "one copy of the block");
	if (ra.exit != (bad ? 1 : 0))
		x.set_aside("harness: status of the short program: " + esc(ra.out, 300));
	Str d = x.dir + "/mem";
	mkdir(d.c_str(), 0755);
	spill(d + "/in.asm", src);
	ProcOpts po;
	po.cwd = d;
	po.args = {"-o", "out.bin", "in.asm"};
	po.data_kb = kb;
	Result rb = x.proc(po);
	rb.image = slurp(d + "/out.bin", &rb.have_image);
	unlink((d + "/in.asm").c_str());
	unlink((d + "/out.bin").c_str());
	Str what = strf("%ld lines with %ld KB of memory (%ld symbols, %ld references, longest line %zu)", lines, kb, syms, refs, widest);
	expect_clean(x, rb, what.c_str());
	if (ra.exit != rb.exit)
		x.fail(what + strf(": exit status %d, but %d with a single copy of the repeated lines; output \"%s\"", rb.exit, ra.exit, esc(rb.out, 300).c_str()));
	if (bad) {
		Diag a = parse_diag(ra.out), b = parse_diag(rb.out);
		if (a.msg != b.msg)
			x.fail(what + ": message \"" + b.msg + "\" instead of \"" + a.msg + "\"");
	} else if (ra.image != rb.image) {
		x.fail(what + ": image differs from that of a single copy of the repeated lines: " + first_diff(ra.image, rb.image));
	}
	for (auto &s : kinds)
		x.cls(s);
	if (syms > 1000)
		x.cls("many symbols");
	if (refs > 1000)
		x.cls("many pending references");
	if (longest > 1000)
		x.cls("a long line");
}
static Reg reg({"C31", "programs with a random number of symbols, pending references and a longest line, followed by 150000-500000 (thorough: 2 million) lines which repeat a small random block of instructions, location directives, comments and blank lines; run with memory limited to 1 MB + 410 bytes per symbol + 500 bytes and three times its text per pending reference + eight times the longest line. Oracle: same status, message and image as with one copy of the block. Non-trivial: every case; distinct by source.",
	nullptr, nullptr, random_case, 400, 4000, {"plain"}});
}

// ============================================================ C32
namespace c32 {
static const int FAMILIES = 15;
static const char *FAMILY[] = {"short lines", "constants and uses", "random names", "pending references to as many labels", "pending references to one label", "labels and branches back", "long names", "code all over memory",
	"a long comment", "a long literal", "long blanks", "a long line of tokens", "a late error on a long line", "comments and empty lines", "names with a common beginning"};
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	long big = x.thorough ? 2000000 : 250000;
	Str src = "*=$1000\n", what;
	long id = 0;
	bool rejected = false;
	for (int k = (int)c.range(1, 3); k > 0 && !rejected; k--) {
		int f = (int)c.below(FAMILIES);
		long n = c.range(big / 10, big), m = n * 20;
		what += strf("%s%s x %ld", what.empty() ? "" : "; ", FAMILY[f], f >= 8 && f <= 12 ? m : n);
		x.cls(FAMILY[f]);
		Str tag = strf("F%ld_", id++);
		uint64_t seed = c.below(1u << 30);
		auto rnd = [&](uint32_t q) { return (uint32_t)((mix64(++seed) >> 20) % q); };
		switch (f) {
		case 0:
			for (long i = 0; i < n; i++)
				src += i % 1000 ? i % 2 ? "LDA #1\n" : "\tSTA $1234,X\n" : "*=$1000\n";
			break;
		case 1:
			n /= 2;
			for (long i = 0; i < n; i++)
				src += tag + strf("%ld = %ld\n", i, i % 65536);
			for (long i = 0; i < n; i++)
				src += (i % 1000 ? "" : "*=$1000\n") + ("JMP " + tag) + strf("%ld\n", i);
			break;
		case 2: {
			n /= 2;
			std::vector<Str> v;
			for (long i = 0; i < n; i++) {
				Str s = tag + strf("%ldZ", i);
				for (int q = (int)rnd(12); q > 0; q--)
					s += "ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"[rnd(37)];
				v.push_back(s);
				src += s + " .EQU $" + strf("%lX\n", i % 65536);
			}
			for (long i = 0; i < n; i++)
				src += (i % 1000 ? "" : "*=$1000\n") + ("ORA " + v[rnd((uint32_t)n)]) + "\n";
			break;
		}
		case 3:
			n /= 2;
			for (long i = 0; i < n; i++)
				src += (i % 1000 ? "" : "*=$1000\n") + ("JSR " + tag) + strf("%ld\n", i);
			src += "*=$1000\n";
			for (long i = 0; i < n; i++)
				src += tag + strf("%ld:\n", i);
			break;
		case 4:
			for (long i = 0; i < n; i++)
				src += (i % 1000 ? "" : "*=$1000\n") + ("JMP (" + tag) + "X)\n";
			src += tag + "X = $FFFF\n";
			break;
		case 5:
			n /= 3;
			for (long i = 0; i < n; i++)
				src += "*=$2000\n" + tag + strf("%ld NOP\n\tBNE ", i) + tag + strf("%ld\n", i);
			break;
		case 6:
			n /= 3;
			for (long i = 0; i < n; i++) {
				Str s = tag + strf("%ld", i);
				src += s + Str(63 - s.size(), 'L') + " = 5\n";
			}
			break;
		case 7:
			n /= 4;
			for (long i = 0; i < n; i++)
				src += strf("*=$%X\nLDX #%ld\n", rnd(65000), i % 256);
			break;
		case 8: src += "NOP ;" + Str(m, 'x') + "\n"; break;
		case 9: src += "LDA #" + Str(m, '0') + "1\n"; break;
		case 10: src += "LDA" + Str(m, c.below(2) ? '\t' : ' ') + "#1" + Str(m, ' ') + "\n"; break;
		case 11:
			src += "LDA";
			for (long i = 0; i < m / 3; i++)
				src += " , ";
			src += "\n";
			rejected = true;
			break;
		case 12: src += Str(m, c.below(2) ? '\t' : ' ') + "LDA #1 " + Str(c.below(2) ? m : 3, ' ') + "?\n"; rejected = true; break;
		case 13:
			for (long i = 0; i < n; i++)
				src += i % 3 ? "; a comment\n" : "\n";
			break;
		case 14: {
			n /= 3;
			Str pre = tag;
			for (long q = c.range(10, 40); q > 0; q--)
				pre += "ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"[rnd(37)];
			bool same = c.below(2); // all of the same length
			for (long i = 0; i < n; i++)
				src += pre + strf(same ? "%07ld:\n" : "Q%ld:\n", i);
			for (long i = 0; i < n; i++)
				src += (i % 1000 ? "" : "*=$1000\n") + ("JMP " + pre) + strf(same ? "%07ld\n" : "Q%ld\n", i);
			break;
		}
		}
	}
	long lines = (long)std::count(src.begin(), src.end(), '\n');
	double limit = 1 + 20e-6 * lines + 150e-9 * src.size();
	x.use(what);
	x.use(src);
	x.nontrivial = true;
	x.sample_text = what;
	x.art("head.asm", src.substr(0, 2000));
	Str d = x.dir + "/time";
	mkdir(d.c_str(), 0755);
	spill(d + "/in.asm", src);
	ProcOpts po;
	po.cwd = d;
	po.args = {"-o", "out.bin", "in.asm"};
	po.cpu_s = (long)(2 * limit) + 6;
	Result r = x.proc(po);
	for (int i = 0; i < 2 && !r.hang && r.user_s > limit; i++) { // not if the machine was just slow
		Result r2 = x.proc(po);
		if (r2.user_s < r.user_s)
			r = r2;
	}
	unlink((d + "/in.asm").c_str());
	unlink((d + "/out.bin").c_str());
	if (r.hang)
		x.fail(strf("%s: %ld lines, %zu bytes: not done after %ld seconds", what.c_str(), lines, src.size(), po.cpu_s));
	expect_clean(x, r, what.c_str());
	if (r.exit != (rejected ? 1 : 0))
		x.fail(what + strf(": exit status %d: \"%s\"", r.exit, esc(r.out, 300).c_str()));
	if (r.user_s > limit)
		x.fail(strf("%s: %ld lines, %zu bytes: %.2f s of computing, %.2f allowed", what.c_str(), lines, src.size(), r.user_s, limit));
	x.cls(r.user_s < limit / 30 ? "in less than a thirtieth of the time allowed" : r.user_s < limit / 10 ? "in less than a tenth of the time allowed" : "slower");
}
static Reg reg({"C32", "1-3 of 15 families of large inputs (up to 250000, thorough 2 million, lines; single lines of up to 5, thorough 40, MB), each of random size: many lines, constants, random or 63-character names, names with a common beginning, pending references to as many labels or to one, labels with branches back, code all over memory, long comments, literals, blanks, lines of tokens, errors late on long lines. Oracle: the expected status within 1 s + 20 us per line + 150 ns per byte of computing time (system time not counted), some 30 times what is needed now. Non-trivial: every case; distinct by source.",
	nullptr, nullptr, random_case, 400, 3000, {"plain"}});
}

// ============================================================ C33
namespace c33 {
typedef std::map<Str, Str> Files;
static Files files(const Str &d, const Str &but)
{
	Files f;
	DIR *h = opendir(d.c_str());
	while (struct dirent *e = h ? readdir(h) : nullptr) {
		Str n = e->d_name;
		if (n == "." || n == ".." || n == but)
			continue;
		struct stat st;
		if (lstat((d + "/" + n).c_str(), &st))
			continue;
		Bytes b;
		if (S_ISREG(st.st_mode))
			b = slurp(d + "/" + n);
		f[n] = strf("%o ", st.st_mode) + Str(b.begin(), b.end());
	}
	if (h)
		closedir(h);
	return f;
}
static void same_files(Ctx &x, const Files &a, const Files &b, const Str &what)
{
	for (auto &e : b)
		if (!a.count(e.first) || a.at(e.first) != e.second)
			x.fail(what + ": a file other than the output was " + (a.count(e.first) ? "changed: " : "left behind: ") + esc(e.first));
	for (auto &e : a)
		if (!b.count(e.first))
			x.fail(what + ": a file other than the output was removed: " + esc(e.first));
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	GenOpts o;
	o.max_lines = c.below(3) == 2 ? 600 : 60;
	o.branchy = 25;
	Prog p = gen_prog(x, o);
	Str src = render_plain(p);
	if (c.below(10) == 9)
		src += "LDA #@\n";
	x.use(src);
	x.art("in.asm", src);
	Result alone = x.run(src);
	expect_clean(x, alone, "undisturbed");
	Str d = x.dir + "/kill";
	mkdir(d.c_str(), 0755);
	for (auto &e : files(d, ""))
		unlink((d + "/" + e.first).c_str());
	spill(d + "/notes.txt", "a bystander");
	spill(d + "/out.bin~", "another");
	spill(d + "/prog.tmp", "a third");
	Str in = d + "/prog.asm", outn = c.below(2) ? "out.bin" : "a.out", out = d + "/" + outn;
	spill(d + (outn == "a.out" ? "/out.bin" : "/a.out"), "a fourth");
	spill(d + "/prog.bin", "a fifth");
	int rounds = (int)c.range(1, 4);
	static const int deadly[] = {SIGKILL, SIGTERM, SIGINT, SIGHUP, SIGQUIT, SIGALRM, SIGUSR1, SIGPIPE, SIGXCPU, SIGABRT}, harmless[] = {SIGCONT, SIGWINCH, SIGCHLD, SIGURG, SIGSTOP, SIGTSTP};
	for (int round = 0; round < rounds; round++) {
		bool gentle = c.below(3) == 2;
		int sig = gentle ? c.pick(harmless) : c.pick(deadly);
		bool fed = c.below(4) != 0;
		if (c.below(3) == 2)
			spill(out, Str(c.below(3000), 'o'));
		unlink(in.c_str());
		if (fed) {
			if (mkfifo(in.c_str(), 0644))
				exit(3);
		} else {
			spill(in, src);
		}
		Files before = files(d, outn);
		ProcOpts po;
		Str bin = x.binary("plain");
		int fo = open((x.dir + "/killed.txt").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644), fb = open(bin.c_str(), O_RDONLY | O_CLOEXEC);
		if (fo < 0 || fb < 0)
			exit(3);
		const char *av[] = {"gaia", "prog.asm", outn == "a.out" ? nullptr : "-o", "out.bin", nullptr}, *ev[] = {nullptr};
		long at_byte = c.range(0, (long)src.size()), delay = c.range(0, c.below(2) ? 300 : 2500);
		pid_t pid = fork();
		if (pid == 0) {
			int nul = open("/dev/null", O_RDONLY);
			dup2(nul, 0);
			dup2(fo, 1);
			dup2(fo, 2);
			if (chdir(d.c_str()))
				_exit(98);
			for (int s : deadly)
				if (s != SIGKILL)
					signal(s, SIG_DFL);
			for (int s : {SIGWINCH, SIGCHLD, SIGURG, SIGCONT, SIGTSTP})
				signal(s, SIG_DFL);
			struct rlimit l = {20, 22};
			setrlimit(RLIMIT_CPU, &l);
			l.rlim_cur = l.rlim_max = 0;
			setrlimit(RLIMIT_CORE, &l);
			fexecve(fb, (char **)av, (char **)ev);
			_exit(99);
		}
		close(fb);
		int st = 0, f = -1;
		bool gone = false;
		if (fed) {
			for (int i = 0; i < 400000 && f < 0 && !gone; i++) {
				f = open(in.c_str(), O_WRONLY | O_NONBLOCK | O_CLOEXEC);
				if (f < 0) {
					usleep(50);
					gone = waitpid(pid, &st, WNOHANG) == pid;
				}
			}
			if (f >= 0) {
				fcntl(f, F_SETFL, 0);
				size_t at = 0;
				while (at < (size_t)at_byte) {
					ssize_t w = write(f, src.data() + at, at_byte - at);
					if (w <= 0)
						break;
					at += w;
				}
			}
		}
		usleep(delay);
		if (!gone)
			kill(pid, sig);
		if (gentle && (sig == SIGSTOP || sig == SIGTSTP)) {
			usleep(300);
			kill(pid, SIGCONT);
		}
		if (f >= 0) {
			if (gentle) {
				size_t at = at_byte;
				while (at < src.size()) {
					ssize_t w = write(f, src.data() + at, src.size() - at);
					if (w <= 0)
						break;
					at += w;
				}
			}
			close(f);
		}
		for (long i = 0; !gone; i++) {
			gone = waitpid(pid, &st, WNOHANG) == pid;
			if (!gone)
				usleep(i < 200 ? 50 : 2000);
			if (i > 30000) {
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				close(fo);
				x.fail(strf("no end after signal %d", sig));
			}
		}
		close(fo);
		x.execs++;
		if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 99))
			exit(3);
		Str what = strf("signal %d %s", sig, fed ? strf("after %ld of %zu bytes", at_byte, src.size()).c_str() : strf("after %ld us", delay).c_str());
		same_files(x, before, files(d, outn), what);
		bool whole = gentle || !fed || at_byte == (long)src.size();
		if (WIFEXITED(st) && whole) { // not affected, or done before
			x.cls(gentle ? "harmless signals" : "finished before the signal");
			if (WEXITSTATUS(st) != alone.exit)
				x.fail(what + strf(": exit status %d, undisturbed %d", WEXITSTATUS(st), alone.exit));
			if (alone.exit == 0 && slurp(out) != alone.image)
				x.fail(what + ": success, but the image differs from the undisturbed one: " + first_diff(alone.image, slurp(out)));
		} else if (WIFSIGNALED(st) && !gentle) {
			x.cls("ended by the signal");
			x.nontrivial = true;
		} else if (gentle) {
			x.fail(what + ": the run did not go on");
		}
	}
	// once more, undisturbed, amid whatever was left
	unlink(in.c_str());
	spill(in, src);
	Files before = files(d, outn);
	ProcOpts po;
	po.cwd = d;
	po.args = {"prog.asm"};
	if (outn != "a.out")
		po.args.insert(po.args.end(), {"-o", "out.bin"});
	Result r = x.proc(po);
	r.image = slurp(out, &r.have_image);
	expect_same(x, alone, r, "a run after interrupted ones");
	if (r.exit == 0 && r.out != alone.out)
		x.fail("a run after interrupted ones: summary \"" + esc(r.out, 300) + "\", undisturbed \"" + esc(alone.out, 300) + "\"");
	same_files(x, before, files(d, outn), "a run after interrupted ones");
	x.sample_text = strf("%d interrupted runs, then one to the end, of:\n", rounds) + (src.size() < 1000 ? src : src.substr(0, 1000) + "...");
}
static Reg reg({"C33", "random programs, started 1-4 times and each time sent a signal (ten that end a process, among them SIGKILL, six that do not, among them stop and continue) after a random number of bytes of their source, which comes through a named pipe, or after a random time; then run once more to the end in the same directory, with whatever was left there. Oracle: no file but the output is created, changed or removed by an interrupted run; a run that a signal does not end, and the last run, give status, summary and image of an undisturbed run. Non-trivial: a run was ended by a signal; distinct by source.",
	nullptr, nullptr, random_case, 5000, 60000, {"plain"}});
}
