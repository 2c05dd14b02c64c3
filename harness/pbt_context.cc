// pbt_context.cc - now and then a source is not run by itself but as part of a
// larger program: behind lines which define other symbols, leave references
// pending and put code where the source puts none, and with comments added.
// None of this has an influence (C09, C11, C23, C27, C28), so what it adds is
// taken out of the result again, and every property is judged in many contexts.
// The reference assembler only finds free memory here; the result that is
// judged is that of the program under test.
#include "kit.h"
#include <algorithm>
#include <cstring>

static const char TAG[] = "ZC9X";

static bool has_tag(const Str &s)
{
	auto it = std::search(s.begin(), s.end(), TAG, TAG + 4, [](char a, char b) { return (a >= 'a' && a <= 'z' ? a - 32 : a) == b; });
	return it != s.end();
}
static bool has_end(const Str &s)
{
	for (size_t i = 0; i + 3 < s.size(); i++)
		if (s[i] == '.' && strncasecmp(s.c_str() + i, ".end", 4) == 0)
			return true;
	return false;
}
static bool plain_text(const Str &s)
{
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		if (c >= 127 || (c < 32 && c != '\t' && c != '\n' && !(c == '\r' && i + 1 < s.size() && s[i + 1] == '\n')))
			return false;
	}
	return true;
}
static Str name(Choices &c, long i)
{
	Str s = TAG + strf("%ld", i);
	if (c.below(8) == 7)
		s += "_" + Str(c.range(0, 62 - (long)s.size()), 'W');
	return s;
}
// the lines in front; false if there are none
static bool preamble(Choices &c, const std::vector<uint8_t> &used, long where, Str &out)
{
	auto amount = [&](long a, long b, long d) -> long {
		switch (c.weighted({50, 25, 18, 5, 2})) {
		case 0: return 0;
		case 1: return c.range(1, a);
		case 2: return c.range(a, b);
		case 3: return c.range(b, d);
		default: return c.range(d * 2, d * 4);
		}
	};
	long lines = amount(8, 70, 300), consts = amount(4, 16, 70), pend = amount(3, 8, 20), code = amount(4, 12, 50), again = amount(4, 30, 60);
	long size = pend * 3 + code * 3, at = -1;
	for (int k = 0; k < 12 && at < 0 && size; k++) {
		long r = k % 3 == 0 ? c.range(0, 0x200) : k % 3 == 1 ? c.range(0, 0xFF00 - size) : c.range(0x8000, 0xFF00 - size);
		bool free = true;
		for (long i = r; i < r + size && free && i < (long)used.size(); i++)
			free = !used[i];
		if (free)
			at = r;
	}
	if (at < 0)
		pend = code = 0;
	std::vector<Str> names;
	long id = 0;
	for (; consts > 0; consts--) {
		Str n = name(c, id++);
		names.push_back(n);
		long v = c.below(3) ? c.range(0, 65535) : c.range(0, 255);
		switch (c.below(4)) {
		case 0: out += n + strf(" = $%lX\n", v); break;
		case 1: out += n + strf("\t.EQU\t%ld\n", v); break;
		case 2: out += strf(".DEFINE %s %ld\n", n.c_str(), v); break;
		default: out += "\t" + n + strf(" =%ld ; %% constant\n", v); break;
		}
	}
	static const char *filler[] = {"", "", "; $FF % ( comment", "\t\t; tab", "  ", ";", "\t;\t_'\""};
	for (; lines > 0; lines--)
		out += Str(c.pick(filler)) + (c.below(16) == 15 ? "\r\n" : "\n");
	if (pend) {
		out += strf("*=$%lX\n", at);
		std::vector<Str> targets;
		for (long i = 0; i < pend; i++) {
			Str t = !targets.empty() && c.below(2) ? c.pick(targets) : name(c, id++);
			if (std::find(targets.begin(), targets.end(), t) == targets.end())
				targets.push_back(t);
			static const char *use[] = {"JMP %s\n", "\tJSR %s ; later\n", "JMP (%s)\n", "\tBNE\t%s\n"};
			const char *u = use[pend < 30 ? c.below(4) : c.below(3)];
			size_t k = Str(u).find("%s");
			out += Str(u).replace(k, 2, t);
		}
		for (auto &t : targets)
			out += c.below(2) ? t + "\n" : t + ":\n";
	}
	if (code) {
		long start = at + pend * 3;
		for (long k = 0; k <= (c.below(2) ? again : 0); k++) {
			out += strf(k % 2 ? ".ORG %ld\n" : "*=$%lx\n", start);
			for (long i = 0; i < code; i++) {
				static const char *ins[] = {"BRK", "NOP", "LDA #1", "ROL", "STA $1234,X", "lda ($12),y", "ADC %101 ; %", "JSR 4096", "ASL A", "BNE $10"};
				if (k == 0 && c.below(8) == 7) {
					Str n = name(c, id++);
					out += n + "\tBEQ " + n + "\n";
				} else if (!names.empty() && c.below(4) == 3) {
					out += "\tLDA " + c.pick(names) + "\n";
				} else {
					out += Str(c.pick(ins)) + "\n";
				}
			}
		}
	}
	if (where) {
		out += strf(c.below(2) ? "*=$%lX\n" : "\t.ORG %ld\n", where);
	} else if (pend || code) {
		static const char *reset[] = {"*=0\n", ".ORG $0\n", "*=$0000\n", "\t.org\t%0\n\n", "*=0\n; here it begins\n"};
		out += c.pick(reset);
	}
	return !out.empty();
}
// comments at the end of lines, other lines between them
static Str with_lines(Choices &c, const Str &s, long *symbols)
{
	static const char *text[] = {"x", " % $ # ' \"", "\tLDA\t#5", "_: = .END", "(a),Y", " a comment which makes this line a bit longer than it would be without it, for no other reason at all"};
	bool crlf = c.below(8) == 7, drop = c.below(6) == 5;
	Str o;
	for (size_t i = 0; i < s.size();) {
		size_t e = s.find('\n', i);
		bool nl = e != Str::npos;
		if (!nl)
			e = s.size();
		Str l = s.substr(i, e - i), cr;
		i = e + nl;
		int what = c.weighted({9, 3, 1, symbols ? 2 : 0});
		if (what == 2) {
			o += c.below(2) ? "\n" : Str(" ;") + c.pick(text) + "\n";
		} else if (what == 3) {
			Str n = TAG + strf("_%ld", (*symbols)++);
			long v = c.range(0, 65535);
			o += c.below(2) ? n + strf(" = $%lX\n", v) : c.below(2) ? n + strf(" .equ %ld\n", v) : strf(".define %s %ld\n", n.c_str(), v);
		}
		if (!l.empty() && l.back() == '\r') {
			l.pop_back();
			cr = "\r";
		}
		if (what == 1) {
			l += Str(c.below(2) ? " ;" : "\t;") + c.pick(text);
		}
		if (i >= s.size() && drop)
			nl = false;
		o += l + (nl ? crlf ? "\r\n" : cr + "\n" : "");
	}
	return o;
}

Str Ctx::behind(const Str &src)
{
	if (src.size() > 100000 || has_tag(src))
		return src;
	RefResult f = RefAsm::run(src);
	if (f.past_end)
		return src;
	Str pre;
	preamble(c, f.used, 0, pre);
	return pre + src;
}
Result Ctx::run(const Str &src, const RunOpts &o)
{
	static const RunOpts d;
	if (!context || src.size() > 100000 || (o.variant != "plain" && o.variant != "asan") || o.fsize != d.fsize || o.fail_alloc || o.fail_read != d.fail_read || o.read_piece ||
	    o.fail_write != d.fail_write || o.fail_close || o.read_once || o.keep_output || o.strange || o.fifo || c.below(6) != 5)
		return run_alone(src, o);
	bool lines = c.below(2);
	RefResult f = RefAsm::run(src);
	if (f.past_end || has_tag(src))
		return run_alone(src, o);
	// what does not say where it stands may stand anywhere
	long where = 0, room = 65536 - (long)f.image.size();
	if (!f.located && !f.past_end && (f.ok || src.size() < 200) && c.below(2)) {
		if (!f.ok)
			room = 65000;
		switch (c.below(4)) {
		case 0: where = c.range(1, room); break;
		case 1: where = c.range(1, 255) * 256 + c.range(-3, 0); break;
		case 2: where = 0x8000 - c.range(0, 4); break;
		default: where = room - c.range(0, 4); break;
		}
		where = std::max(0l, std::min({where, room, 65535l}));
		f.used.insert(f.used.begin(), where, 0);
		f.used.resize(std::max<size_t>(f.used.size(), f.ok ? 0 : where + 400));
		for (long i = where; i < (long)f.used.size(); i++)
			f.used[i] |= !f.ok;
	}
	Str pre;
	preamble(c, f.used, where, pre);
	RefResult g = RefAsm::run(pre);
	if (!g.ok || g.past_end) {
		fprintf(stderr, "pbt: a context is faulty in line %d: %s\n", g.line, g.text.c_str());
		return run_alone(src, o);
	}
	long more = 0;
	Str all = pre + (lines && f.ok && plain_text(src) ? with_lines(c, src, has_end(src) ? nullptr : &more) : src);
	Result r = run_alone(all, o);
	if (r.sig || r.hang || r.exit < 0 || r.exit > 1) {
		art("in-context.asm", all);
		return r;
	}
	long n = 0, a, b;
	int s, len = 0;
	if (sscanf(r.out.c_str(), "Assembly successful.\n%ld (0x%lx) bytes assembled.\n%d symbols.\n%n", &a, &b, &s, &len) == 3 && len == (int)r.out.size()) {
		Str same = strf("Assembly successful.\n%ld (0x%04lx) bytes assembled.\n%d symbols.\n", a, a, s);
		if (r.out == same)
			r.out = strf("Assembly successful.\n%ld (0x%04lx) bytes assembled.\n%d symbols.\n", a - g.bytes, a - g.bytes, s - g.symbols - (int)more);
		// take out the code of the lines in front, if it is there
		for (size_t i = 0; i < g.used.size(); i++) {
			if (!g.used[i] || (i < f.used.size() && f.used[i]))
				continue;
			if (i >= r.image.size() || r.image[i] != g.image[i])
				return run_alone(src, o);
			r.image[i] = 0;
		}
		size_t end = f.image.empty() ? 0 : where + f.image.size();
		if (f.ok && r.image.size() > end && r.image.size() == g.used.size())
			r.image.resize(end);
		if (where && (long)r.image.size() > where && std::all_of(r.image.begin(), r.image.begin() + where, [](uint8_t b) { return !b; }))
			r.image.erase(r.image.begin(), r.image.begin() + where);
	} else {
		long front = (long)std::count(pre.begin(), pre.end(), '\n');
		Diag dg = parse_diag(r.out);
		if (dg.ok) {
			if (dg.line <= front)
				return run_alone(src, o);
			Str was = dg.file + strf(":%ld:", dg.line);
			if (r.out.compare(0, was.size(), was) == 0)
				r.out = dg.file + strf(":%ld:", dg.line - front) + r.out.substr(was.size());
		}
	}
	art("in-context.asm", all);
	cls("run in the context of a larger program");
	return r;
}
