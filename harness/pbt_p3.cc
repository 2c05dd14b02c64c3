// C13-C18: grammar, diagnostics, robustness, status, I/O faults, allocation faults
#include "gen.h"
#include "soup.h"
#include <algorithm>
#include <functional>
#include <signal.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static int mn_of(const char *s) { return isa().find(s); }

// ============================================================ C13
namespace c13 {
static const char KINDS[] = "LNIAXY#(),=*EDOZ";
static const int NK = 16;
static Str tok(char k, uint64_t salt, int pos)
{
	static const char *mn[] = {"LDA", "NOP", "JMP", "ASL", "BNE", "STX", "JSR", "CPX", "ROR", "LDY"};
	static const char *lit[] = {"$12", "$1234", "%101", "7", "$0", "65535", "$FF", "256"};
	switch (k) {
	case 'L': return pos == 0 ? "NEW" : (salt >> 3) & 1 ? "KNOWN" : "LATER";
	case 'N': return lit[(salt + pos) % 8];
	case 'I': return mn[(salt / 7 + pos) % 10];
	case 'E': return ".EQU";
	case 'D': return ".DEFINE";
	case 'O': return ".ORG";
	case 'Z': return ".END";
	default: return Str(1, k);
	}
}
static Str join(const std::vector<Str> &t)
{
	Str s;
	for (size_t i = 0; i < t.size(); i++)
		s += (i ? " " : "") + t[i];
	return s;
}
static uint64_t count(bool thorough) { return thorough ? 1 + 16 + 256 + 4096 + 65536 + 1048576 : 1 + 16 + 256 + 4096 + 65536; }
static void enum_case(Ctx &x, uint64_t i)
{
	int len = 0;
	uint64_t n = 1;
	while (i >= n) {
		i -= n;
		n *= NK;
		len++;
	}
	std::vector<Str> t;
	uint64_t salt = mix64(i * 31 + len);
	for (int p = 0; p < len; p++) {
		t.push_back(tok(KINDS[i % NK], salt, p));
		i /= NK;
	}
	// a token that follows ends up on the same line; the code around it must not matter
	Str src = "KNOWN = $34\n" + join(t) + (x.c.below(2) ? " ; comment\n" : "\n") + "LATER NOP\n";
	x.use(src);
	x.nontrivial = len >= 1;
	x.sample_text = src;
	x.art("in.asm", src);
	RefResult f = RefAsm::run(src);
	x.cls(f.ok ? "accepted" : f.err == E_SYNTAX || f.err == E_BASE ? "rejected as syntax" : "rejected for another reason");
	Result r = x.run(src);
	expect_ref(x, r, f, false, "token sequence");
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	GenOpts o;
	o.max_lines = 14;
	Names nm;
	for (auto *s : {"NEWL", "KNOWN", "LATER", "NEW"})
		nm.reserve(s);
	Prog p = gen_prog(x, o, &nm);
	// a statement of the grammar, with 0-3 tokens deleted, inserted, replaced, repeated or exchanged
	const auto &S = RefAsm::sentences();
	Str k = S[c.below((uint32_t)S.size())];
	std::vector<Str> t;
	for (size_t i = 0; i < k.size(); i++)
		t.push_back(tok(k[i], c.below(1000), (int)i));
	long muts = c.weighted({2, 5, 3, 2});
	for (long i = 0; i < muts; i++) {
		int op = (int)c.below(6);
		size_t at = c.below((uint32_t)t.size() + 1);
		if (op == 0 || op == 5)
			t.insert(t.begin() + at, tok(KINDS[c.below(NK)], c.below(1000), 1));
		else if (t.empty())
			continue;
		else if (at >= t.size())
			t.push_back(t[c.below((uint32_t)t.size())]);
		else if (op == 1)
			t.erase(t.begin() + at);
		else if (op == 2)
			t[at] = tok(KINDS[c.below(NK)], c.below(1000), (int)at);
		else if (op == 3)
			t.insert(t.begin() + at, t[at]);
		else
			std::swap(t[at], t[c.below((uint32_t)t.size())]);
	}
	if (c.below(8) == 7) { // longer than any statement
		long n = c.range(1, 30);
		for (long i = 0; i < n; i++)
			t.push_back(tok(KINDS[c.below(NK)], c.below(1000), 1));
		x.cls("long token sequences");
	}
	std::vector<Str> saved = t;
	p.st.insert(p.st.begin() + c.below((uint32_t)p.st.size() + 1), raw_line(t));
	p.st.insert(p.st.begin(), const_line("KNOWN", 0x34, 1));
	p.st.push_back(label_line("LATER"));
	Style st = random_style(c);
	Str src = render(c, p, st);
	if (c.below(10) == 9 && !saved.empty()) { // a colon in some place
		size_t q = src.find(saved[c.below((uint32_t)saved.size())]);
		if (q != Str::npos)
			src.insert(q + c.below(6) % (src.size() - q + 1), ":");
		x.cls("stray colons");
	}
	if (c.below(8) == 7) { // a line that goes on behind something that looks like its end
		static const char stop[] = {'\r', '\0', '\xff', '\v', '\f', '\x1a', '\x80', '\b'};
		static const char *more[] = {"", " ", "NOP", " LDA #1", "garbage @", "; comment", ",X", " $12", "\r", "  )", " ;"};
		size_t q = src.find('\n', c.below((uint32_t)src.size() + 1));
		if (q == Str::npos)
			q = src.size();
		if (q > 0 && src[q - 1] == '\r' && c.below(2))
			q--;
		if (c.below(4) == 3 && q > 0)
			q -= c.below((uint32_t)std::min<size_t>(q, 30));
		Str ins(1, c.pick(stop));
		ins += c.pick(more);
		src.insert(q, ins);
		muts++;
		x.cls("lines that go on behind a control character");
	}
	x.use(src);
	x.nontrivial = muts > 0;
	RefResult f = RefAsm::run(src);
	if (f.overlap_fwd || f.past_end) {
		x.cls("set aside (code beyond memory or overlapping)");
		x.nontrivial = false;
		return;
	}
	x.sample_text = src;
	x.art("in.asm", src);
	x.cls(f.ok ? "accepted" : f.err == E_SYNTAX || f.err == E_BASE ? "rejected as syntax" : "rejected for another reason");
	Result r = x.run(src);
	expect_ref(x, r, f, false, "mutated statement in a program");
}
static Reg reg({"C13", "every sequence of up to 4 tokens (thorough: 5) over the 16 token kinds as a line of its own; sentences of the grammar with 0-3 tokens deleted/inserted/replaced/repeated/exchanged, with up to 30 tokens appended, or with text behind a carriage return, NUL, $FF or other control character, inside random programs. Oracle: membership in the explicit list of sentence forms. Non-trivial: at least one token (enumerated) or one mutation (random); distinct by source.",
	count, enum_case, random_case, 120000, 700000, {"plain"}});
}

// ============================================================ C14
namespace c14 {
// '^' stands before the offending token (removed); '_' is a random blank; '~' optional blanks
struct Fault { int kind; const char *text; };
static const Fault faults[] = {
	{E_CHAR, "LDA_^@"}, {E_CHAR, "L^?B_NOP"}, {E_CHAR, "LDA_#^'A'"}, {E_CHAR, "LDA_$1^G"}, {E_CHAR, "LDA_%1^2"}, {E_CHAR, "STA_12^A"}, {E_CHAR, "STA_$^"}, {E_CHAR, "STA_$12~,~X~^+"},
	{E_CHAR, "LBL~^-1"}, {E_CHAR, "NOP_^:"}, {E_CHAR, "QQ9:~^:_NOP"}, {E_CHAR, "LDA^#1"}, {E_CHAR, "QQ9^=1"}, {E_CHAR, "LDA_$12^]~,~X"}, {E_CHAR, "JMP_QQ^!"},
	{E_CHAR, ".OR^1_5"}, {E_CHAR, ".EQU^._5"}, {E_CHAR, "^_1_=_4"}, {E_CHAR, "^\"TEXT\""},
	{E_CHAR, "NOP_^\r_LDA_#1"}, {E_CHAR, "LDA_$12~^\rINX"}, {E_CHAR, "QQ9_=_5_^\xff_6"}, {E_CHAR, "ASL_A^\xff.X"}, {E_CHAR, "NOP_^\x01_NOP"}, {E_CHAR, "JMP_K~^\x01"}, {E_CHAR, ".ORG_$2000^\x01$12"}, {E_CHAR, "^\x01_NOP"}, {E_CHAR, "^\r_STA_$12"},
	{E_BIGLIT, "LDA_^65536"}, {E_BIGLIT, "JMP_~(~^$10000~)"}, {E_BIGLIT, "*~=~^%10000000000000000"}, {E_BIGLIT, "QQ9_=~^99999999999999999999"}, {E_BIGLIT, ".ORG_^$FFFFFFFF0"}, {E_BIGLIT, "QQ8_LDX_#~^70000"}, {E_BIGLIT, ".DEFINE_QQ8_^$12345"},
	{E_LONGLABEL, "^L1"}, {E_LONGLABEL, "JMP_^L1"}, {E_LONGLABEL, ".DEFINE_^L1_1"},
	{E_SYNTAX, "LDA_#~^,"}, {E_SYNTAX, "LDA_$12~,~^A"}, {E_SYNTAX, "NOP_NOP|4"}, {E_SYNTAX, "STA_~(~$12~,~^Y~)"}, {E_SYNTAX, "STA_~(~$12~)~,~^X"}, {E_SYNTAX, "^#"}, {E_SYNTAX, "^,"}, {E_SYNTAX, "^=~1"}, {E_SYNTAX, "QQ9_^X"},
	{E_SYNTAX, "QQ9_QQ8|4"}, {E_SYNTAX, ".DEFINE_^$1_QQ9"}, {E_SYNTAX, ".DEFINE_QQ9_^QQ8"}, {E_SYNTAX, "QQ9_=~^#~1"}, {E_SYNTAX, ".ORG_^NOP"}, {E_SYNTAX, ".END_^1"}, {E_SYNTAX, "^.EQU_1"}, {E_SYNTAX, "^$12"}, {E_SYNTAX, "LDA_$12_^$13"}, {E_SYNTAX, "LDA_$12~,~X_^Y"},
	{E_SYNTAX, "^)"}, {E_SYNTAX, "JMP_~(~$12~)_^)"}, {E_SYNTAX, "QQ9_.EQU_1_^2"}, {E_SYNTAX, ".ORG_1_^2"}, {E_SYNTAX, "ASL_A_^A"}, {E_SYNTAX, "LDA_#~$12~^,~X"}, {E_SYNTAX, "QQ9_NOP_^.END"}, {E_SYNTAX, "^A_=_1"}, {E_SYNTAX, "STX_~^Y"},
	{E_SYNTAX, "LDA_#"}, {E_SYNTAX, "LDA_("}, {E_SYNTAX, "LDA_($12"}, {E_SYNTAX, "LDA_($12,X"}, {E_SYNTAX, "LDA_($12),"}, {E_SYNTAX, "LDA_$12,"}, {E_SYNTAX, ".ORG"}, {E_SYNTAX, ".DEFINE"}, {E_SYNTAX, ".DEFINE_QQ9"}, {E_SYNTAX, "QQ9_="}, {E_SYNTAX, "QQ9_.EQU"},
	{E_BASE, "*_^$1000"}, {E_BASE, "*~=~1_^2"}, {E_BASE, "*~=~^QQ9"}, {E_BASE, "*"}, {E_BASE, "*~="}, {E_BASE, "*~^#~=_5"},
	{E_DIRECTIVE, "^.BYTE_1"}, {E_DIRECTIVE, "^.ORGX_5"}, {E_DIRECTIVE, "QQ9_^.EQUAL_5"}, {E_DIRECTIVE, "^."}, {E_DIRECTIVE, "QQ9_^.WORD_$1234"}, {E_DIRECTIVE, "^.ENDS"},
	{E_REDEF, "^K_=_1"}, {E_REDEF, "^K:_NOP"}, {E_REDEF, ".DEFINE_^K_1"}, {E_REDEF, "^K_.EQU_2"}, {E_REDEF, "^K"},
	{E_FWD, "LDA_^QQ9"}, {E_FWD, "STX_~^QQ9~,~Y"}, {E_FWD, "LDA_#~^QQ9"}, {E_FWD, "LDA_~(~^QQ9~)~,~Y"}, {E_FWD, "QQ9_INC_^QQ8"},
	{E_MODE, "STA_#$12"}, {E_MODE, "LDA_($1234,X)"}, {E_MODE, "JMP_$12,X"}, {E_MODE, "NOP_$12"}, {E_MODE, "QQ9_STX_$1234,Y"}, {E_MODE, "LDA"}, {E_MODE, "LDA_#K"}, {E_MODE, "BNE_#1"}, {E_MODE, "BNE_$1234"}, {E_MODE, "JSR_(K)"}, {E_MODE, "ROL_K,Y"}, {E_MODE, "JMP_QQ9,X"}, {E_MODE, "TAX_A"},
	{E_OFFSET, "BNE_^FAR"}, {E_OFFSET, "QQ9_BCC_~^FAR"}, {E_OFFSET, "BVS_^FARFWD"},
	{E_BIGLIT, "LDA_^PASTEND"}, {E_BIGLIT, "QQ9_JMP_~(~^PASTEND~)"}, {E_BIGLIT, "STA_^PASTEND~,~Y"}, {E_BIGLIT, "JSR_^PASTEND"}, {E_BIGLIT, "JMP_^PASTFWD"}, {E_BIGLIT, "JSR_~^PASTFWD"}, {E_BIGLIT, "JMP_(_^PASTFWD_)"},
	{E_MISSING, "JMP_^QQ9"}, {E_MISSING, "BNE_^QQ9"}, {E_MISSING, "JMP_~(~^QQ9~)"}, {E_MISSING, "QQ8_JSR_^QQ9"},
};
static const int NF = sizeof faults / sizeof *faults;
static Str blanks(Choices &c, int min)
{
	static const char *w[] = {" ", "\t", "  ", " \t", "\t\t", "   \t ", "\t  \t", "       \t", "        "};
	int n = (int)c.weighted({3, 3, 1});
	Str s;
	if (c.below(60) == 59) // a long stretch
		n = (int)c.range(20, c.below(4) == 3 ? 600 : 90);
	for (int i = 0; i < n; i++)
		s += c.pick(w);
	if (min && s.empty())
		s = c.below(2) ? "\t" : " ";
	return s;
}
// returns the line without its end; col = -1 when no marker is expected
static Str compose(Choices &c, const Fault &f, long *col)
{
	Str l = blanks(c, 0);
	*col = -1;
	for (const char *p = f.text; *p; p++) {
		switch (*p) {
		case '^': *col = (long)l.size(); break;
		case '_': if (p == f.text || p[-1] == '^') l += '_'; else l += blanks(c, 1); break;
		case '~': l += blanks(c, 0); break;
		case '|': { // the n-th word is the offending one
			size_t q = l.find_last_not_of(" \t");
			while (q > 0 && l[q - 1] != ' ' && l[q - 1] != '\t')
				q--;
			*col = (long)q;
			p++;
			break;
		}
		case 'L':
			if (p[1] == '1') {
				static const int n[] = {64, 65, 80, 127, 200};
				l += Str(c.pick(n), 'W');
				p++;
				break;
			}
			// fall through
		default:
			if (f.kind == E_CHAR && p > f.text && p[-1] == '^' && strchr("@?!'\"]+-", *p) && c.below(2)) {
				// some other character that is never legal, once or several times
				static const char never[] = "@?!'\"]+-&/<>[\\^`{|}~\x7f\v\f\b\x1b\x80\xc3\xe9\xfe";
				char b = never[c.below(sizeof never - 1)];
				l += Str(1 + c.below(3), b);
				break;
			}
			l += *p == 1 ? '\0' : *p;
		}
	}
	l += blanks(c, 0);
	return l;
}
struct Made { Str src; long line, col; Str text; };
static Made make(Ctx &x, const Fault &f, const Prog &p, size_t at, Style st, long blank_before)
{
	Choices &c = x.c;
	Made m;
	Prog pre, post;
	pre.st.assign(p.st.begin(), p.st.begin() + at);
	post.st.assign(p.st.begin() + at, p.st.end());
	st.final_nl = true;
	Str a;
	for (long i = 0; i < blank_before; i++)
		a += i % 5000 == 3 ? ";\n" : "\n";
	// the symbols the faults refer to
	a += "K = $FACE\nFAR = $9000\n";
	if (strstr(f.text, "PASTEND"))
		a += "*=$FFFF\nNOP\nPASTEND\n";
	a += "*=$0400\n";
	a += render(c, pre, st);
	bool needs_fwd = strstr(f.text, "FARFWD");
	m.text = compose(c, f, &m.col);
	bool commented = c.below(3) == 2;
	if (commented) {
		if (f.kind == E_CHAR && strchr(f.text, '$') && f.text[strlen(f.text) - 1] == '^')
			; // the marker stands at the end of the literal whatever follows
		m.text += "; a comment\twith $GG @";
		if (c.below(3) == 2)
			for (long n = c.range(40, c.below(3) == 2 ? 5000 : 260); n > 0; n--)
				m.text += n % 50 == 1 ? ' ' : n % 37 == 2 ? '\t' : (char)('a' + n % 26);
	}
	m.line = (long)std::count(a.begin(), a.end(), '\n') + 1;
	Str b = render(c, post, st);
	if (needs_fwd)
		b += "FARFWD = $9ABC\n";
	if (strstr(f.text, "PASTFWD"))
		b += "*=$FFFF\nNOP\nPASTFWD\n";
	bool crlf = st.crlf == 1;
	m.src = a + m.text + (b.empty() && c.below(2) ? "" : crlf ? "\r\n" : "\n") + b;
	return m;
}
static void judge(Ctx &x, const Fault &f, const Made &m)
{
	RefResult g = RefAsm::run(m.src);
	if (g.ok || g.err != f.kind || g.line != m.line || g.col != m.col)
		x.set_aside(strf("harness: template \"%s\" and reference disagree: reference says %s line %d column %ld, template line %ld column %ld; text \"%s\"", f.text,
			err_text(g.err), g.line, g.col, m.line, m.col, esc(m.text).c_str()));
	Result r = x.run(m.src);
	expect_ref(x, r, g, true, f.text);
	// nothing but one diagnostic
	size_t n = 0, q = 0;
	while ((q = r.out.find("ERROR", q)) != Str::npos) {
		n++;
		q++;
	}
	if (n != 1)
		x.fail(strf("%zu error messages instead of one: \"%s\"", n, esc(r.out, 500).c_str()));
}
static const std::vector<long> &linenos(bool thorough)
{
	static std::vector<long> q = {0, 1, 2, 9, 98, 99, 100, 126, 127, 128, 251, 252, 253, 254, 255, 256, 511, 512, 998, 999, 9998, 32763, 32764, 32766, 32767, 32768, 65531, 65532, 65533, 65535, 65536, 99998, 100000, 131071};
	static std::vector<long> t = [] {
		std::vector<long> v = q;
		for (long n : {16777215L, 16777216L, 2000000L, 1000000L, 262143L, 524288L})
			v.push_back(n);
		return v;
	}();
	return thorough ? t : q;
}
static uint64_t count(bool t) { return (uint64_t)NF * 8 + linenos(t).size() * 10; }
static void enum_case(Ctx &x, uint64_t i)
{
	Choices &c = x.c;
	Prog p;
	Stmt nop;
	nop.k = Stmt::INSTR;
	nop.mn = mn_of("NOP");
	nop.mode = IMP;
	p.st = {nop, nop};
	Style st;
	if (i < (uint64_t)NF * 8) {
		const Fault &f = faults[i / 8];
		Made m = make(x, f, p, i % 3, st, i % 8 == 7 ? 300 : 0);
		x.use(m.src);
		x.nontrivial = true;
		x.sample_text = m.src;
		x.art("in.asm", m.src);
		x.cls(err_text(f.kind));
		judge(x, f, m);
		return;
	}
	i -= (uint64_t)NF * 8;
	static const int kinds[] = {E_CHAR, E_BIGLIT, E_SYNTAX, E_REDEF, E_FWD, E_MODE, E_OFFSET, E_MISSING, E_BASE, E_DIRECTIVE};
	long n = linenos(x.thorough)[i / 10];
	int want = kinds[i % 10];
	std::vector<int> ok;
	for (int k = 0; k < NF; k++)
		if (faults[k].kind == want)
			ok.push_back(k);
	const Fault &f = faults[c.pick(ok)];
	Made m = make(x, f, p, 0, st, n);
	x.use(m.src);
	x.nontrivial = true;
	x.art("in.asm", esc(m.src.substr(m.src.size() > 500 ? m.src.size() - 500 : 0)));
	x.cls("large line numbers");
	judge(x, f, m);
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	GenOpts o;
	o.max_lines = 40;
	o.lo = 0x400;
	o.hi = 0x4000;
	Names nm;
	for (auto *s : {"K", "FAR", "FARFWD", "PASTEND", "PASTFWD", "QQ9", "QQ8", "LBL", "L", "QQ", "TEXT", "LABEL"})
		nm.reserve(s);
	o.start_org = false;
	Prog p = gen_prog(x, o, &nm);
	// the faulty line goes where inserting an instruction cannot make a branch too long
	size_t at = c.below((uint32_t)p.st.size() + 1);
	const Fault &f = faults[c.below(NF)];
	if (f.kind == E_MISSING || f.kind == E_OFFSET || strstr(f.text, "PASTFWD"))
		at = p.st.size();
	static const long few[] = {0, 0, 0, 1, 7, 95, 250, 251, 252, 253, 254, 255, 256, 990, 9990};
	Made m = make(x, f, p, at, random_style(c), c.pick(few));
	x.use(m.src);
	x.nontrivial = p.st.size() >= 1;
	x.sample_text = m.src;
	x.art("in.asm", m.src);
	x.cls(err_text(f.kind));
	judge(x, f, m);
	if (c.below(12) == 11) {
		// the same source under another name
		static const char *names[] = {"prog.asm", "a b.asm", "x%s%n%d.asm", "with:colon:7: ERROR: x.asm", "sub/dir/../p.asm", "./y.asm", "no_extension", "tab\there.asm", "\xc3\xa9t\xc3\xa9.asm", "-dash.asm"};
		Str n = c.pick(names);
		Str d = x.dir + "/names";
		mkdir(d.c_str(), 0755);
		mkdir((d + "/sub").c_str(), 0755);
		mkdir((d + "/sub/dir").c_str(), 0755);
		if (c.below(3) == 2) {
			n = Str(c.range(100, 251), 'n') + ".asm";
			if (c.below(2)) { // a long path
				long k = c.range(1, 400);
				n = "";
				while (k--)
					n += "sub/../";
				n += "p.asm";
			}
		}
		spill(d + "/" + n, m.src);
		ProcOpts po;
		po.cwd = d;
		po.args = {"-o", "out.bin", "--", n};
		Result r = x.proc(po);
		expect_clean(x, r, "other file name");
		RefResult g = RefAsm::run(m.src);
		Str want = n + strf(":%d: ERROR: %s\n", g.line, err_text(g.err));
		if (r.exit != 1 || r.out.compare(0, want.size(), want))
			x.fail(strf("file named \"%s\": expected \"%s...\", %s, output \"%s\"", esc(n).c_str(), esc(want).c_str(), r.status().c_str(), esc(r.out, 500).c_str()));
		x.cls("other file names");
		unlink((d + "/" + n).c_str());
	}
}
static Reg reg({"C14", "one fault per program from 100+ templates of every fault kind with the offending token marked, with random blanks and tabs around tokens: each template at several places, each kind at line numbers around 2^7, 2^8, 10^3, 2^15, 2^16, 10^5 (thorough 2^24), random programs around it, other file names. Oracle: the marked template and, independently, the reference assembler; file, line, kind, echoed text and visual column of the marker must match. Non-trivial: every case holds a fault (random ones also other statements); distinct by source.",
	count, enum_case, random_case, 120000, 1200000, {"plain"}});
}

// ============================================================ C29
namespace c29 {
using namespace c14;
static bool late(const Fault &f) { return f.kind == E_MISSING || strstr(f.text, "FARFWD") || strstr(f.text, "PASTFWD"); }
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	GenOpts o;
	o.max_lines = 30;
	o.lo = 0x400;
	o.hi = 0x4000;
	Names nm;
	for (auto *s : {"K", "FAR", "FARFWD", "PASTEND", "PASTFWD", "QQ9", "QQ8", "LBL", "L", "QQ", "TEXT", "LABEL"})
		nm.reserve(s);
	o.start_org = false;
	Prog p = gen_prog(x, o, &nm);
	int kind = (int)c.below(4); // of the first fault: any, late ones only, one late and one early, any
	int n = (int)c.range(2, c.below(6) == 5 ? 12 : 5);
	std::vector<const Fault *> fs;
	while ((int)fs.size() < n) {
		const Fault *f = &faults[c.below(NF)];
		if (!strcmp(f->text, "QQ8_JSR_^QQ9"))
			continue; // would define a symbol which others want undefined
		bool want_late = kind == 1 || (kind == 2 && fs.empty());
		bool want_early = kind == 2 && fs.size() == 1;
		if ((want_late && !late(*f)) || (want_early && late(*f))) {
			static const char *l[] = {"JMP_^QQ9", "BNE_^QQ9", "JMP_~(~^QQ9~)", "BVS_^FARFWD", "JMP_^PASTFWD"};
			if (want_late) {
				const char *t = c.pick(l);
				for (int k = 0; k < NF; k++)
					if (!strcmp(faults[k].text, t))
						fs.push_back(&faults[k]);
			}
			continue;
		}
		fs.push_back(f);
	}
	// where they stand: the inserted lines may lengthen branches, so the first fault
	// must come no later than the first line that spans one; put them behind the program,
	// or into a program without branches
	bool behind = c.below(2);
	p.layout();
	for (auto &s : p.st)
		if (s.pc > 0xFF00) // nor may labels be pushed past the end of memory
			behind = true;
	if (!behind) {
		for (auto &s : p.st)
			if (s.k == Stmt::INSTR && s.mode == REL) {
				s.mn = mn_of("NOP");
				s.mode = IMP;
				s.sym = false;
				s.name.clear();
			}
	}
	std::vector<size_t> at(n);
	for (auto &a : at)
		a = behind ? p.st.size() : c.below((uint32_t)p.st.size() + 1);
	std::sort(at.begin(), at.end());
	Style st = random_style(c);
	st.final_nl = true;
	Str nl = st.crlf == 1 ? "\r\n" : "\n";
	Str src = "K = $FACE\nFAR = $9000\n*=$FFFF\nNOP\nPASTEND\n*=$0400\n";
	size_t done = 0;
	long first_early = -1, first_late = -1;
	std::vector<Made> ms(n);
	for (int i = 0; i < n; i++) {
		Prog part;
		part.st.assign(p.st.begin() + done, p.st.begin() + at[i]);
		done = at[i];
		src += render(c, part, st);
		for (long k = c.below(3) == 2 ? c.range(0, 3) : 0; k > 0; k--)
			src += c.below(2) ? nl : "\tNOP" + nl;
		ms[i].text = compose(c, *fs[i], &ms[i].col);
		ms[i].line = (long)std::count(src.begin(), src.end(), '\n') + 1;
		src += ms[i].text + nl;
		long &w = late(*fs[i]) ? first_late : first_early;
		if (w < 0)
			w = i;
	}
	Prog rest;
	rest.st.assign(p.st.begin() + done, p.st.end());
	src += render(c, rest, st);
	src += "FARFWD = $9ABC" + nl + "*=$FFFF" + nl + "NOP" + nl + "PASTFWD" + nl;
	long hit = first_early >= 0 ? first_early : first_late;
	if (first_early >= 0 && c.below(6) == 5) {
		src += soup(x);
		x.cls("followed by arbitrary text");
	}
	Made &m = ms[hit];
	m.src = src;
	x.use(src);
	x.nontrivial = true;
	x.sample_text = src.size() < 1500 ? src : "";
	x.art("in.asm", src);
	x.cls(first_early < 0 ? "only faults found at the end" : first_late >= 0 && first_late < first_early ? "one found at the end before one found at once" : "others");
	x.cls(Str("reported: ") + err_text(fs[hit]->kind));
	judge(x, *fs[hit], m);
}
// every short program over a set of statements, most of them faulty
static const char *SMALL[] = {"P", "P NOP", "Q = $1FF", ".DEFINE P 3", "*=$200", "*=$FFE0", "NOP", "JMP P", "BNE Q", "LDA P", "STY Q",
	"LDX #Q", "JSR R", "BCS R", "INC R", "ROL #1", "BPL P,X", "CMP 65536", "CMP %", "BEQ 256", "P =", "=", "Q P", ".ENDS", "#", "'", "JMP (Q),Y", "R R", ".END",
	"JMP MORE_THAN_SIXTY_THREE_CHARACTERS_IN_A_SINGLE_NAME_IS_TOO_MANY_9"};
static const uint64_t SMALLS = sizeof SMALL / sizeof *SMALL;
static uint64_t small_count(bool thorough) { return SMALLS + SMALLS * SMALLS + SMALLS * SMALLS * SMALLS + (thorough ? SMALLS * SMALLS * SMALLS * SMALLS : 0); }
static void small_case(Ctx &x, uint64_t i)
{
	int n = 1;
	for (uint64_t m = SMALLS; i >= m; i -= m, m *= SMALLS)
		n++;
	Str src;
	for (; n > 0; n--, i /= SMALLS)
		src += Str(SMALL[i % SMALLS]) + "\n";
	RefResult f = RefAsm::run(src);
	x.use(src);
	x.nontrivial = !f.ok;
	x.art("in.asm", src);
	x.cls("short program");
	if (f.ok && f.past_end)
		return;
	Result r = x.run(src);
	if (f.ok)
		expect_accept(x, r, "short program");
	else
		expect_ref(x, r, f, true, "short program");
}
static Reg reg({"C29", "every program of up to 3 (thorough: 4) lines over 30 mostly faulty statements; random programs with 2-12 faulty lines of different kinds (from the templates of C14). Oracle: exactly one message is printed, for the first line in source order whose fault can be told at that line; faults that only the end of the source can tell (undefined symbols, branches out of range of a label defined later) are reported, first reference first, only if there is no other. Kind, line, text and marker as for C14, also against the reference assembler. Non-trivial: every case with a fault; distinct by source.",
	small_count, small_case, random_case, 130000, 1200000, {"plain"}});
}

// ============================================================ C15
namespace giants {
// Sources with lines of more than 2^31 bytes, or very many symbols, fed through a pipe; only the
// beginning and the end of what the program prints are kept.
typedef std::function<bool(const Str &)> Put;
struct Case { const char *name; std::function<void(Put)> feed; std::function<void(Ctx &, int, const Str &, const Str &, uint64_t, const Bytes &)> judge; };
static const uint64_t N = (1ull << 31) + 100;
static void many(const Put &put, const Str &unit, uint64_t n)
{
	Str blk;
	uint64_t per = std::max<uint64_t>(1, (1 << 20) / unit.size());
	for (uint64_t i = 0; i < std::min(per, n); i++)
		blk += unit;
	while (n >= per) {
		if (!put(blk))
			return;
		n -= per;
	}
	put(blk.substr(0, n * unit.size()));
}
static Str symbol_name(uint64_t i) // different for different i, and well spread
{
	uint64_t z = (i + 1) * 0x9E3779B97F4A7C15ull;
	z ^= z >> 29;
	z *= 0xBF58476D1CE4E5B9ull;
	z ^= z >> 32;
	Str s;
	do {
		s += (char)('B' + z % 22);
		z /= 22;
	} while (z);
	return s;
}
static const uint64_t SYMS = 21600000;
static void want_image(Ctx &x, int ex, const Str &head, const Bytes &img, const Bytes &w, const Str &summary)
{
	if (ex != 0)
		x.fail("rejected: " + esc(head, 300));
	if (img != w)
		x.fail("wrong image: " + first_diff(w, img));
	if (head.find(summary) == Str::npos)
		x.fail("wrong summary: " + esc(head, 300));
}
static void want_error(Ctx &x, int ex, const Str &head, long line, const char *text)
{
	if (ex != 1)
		x.fail(strf("exit status %d instead of 1", ex));
	if (head.find(strf("in.asm:%ld: ERROR: ", line)) == Str::npos || head.find(text) == Str::npos)
		x.fail(strf("not reported as \"%s\" on line %ld: ", text, line) + esc(head.substr(0, 200)));
}
static const std::vector<Case> &cases()
{
	static std::vector<Case> v = {
		{"21600000 symbols", [](Put put) {
			Str b;
			for (uint64_t i = 0; i < SYMS; i++) {
				b += symbol_name(i) + " =1\n";
				if (b.size() > (1 << 20)) {
					if (!put(b))
						return;
					b.clear();
				}
			}
			put(b + "LAST_ =$1234\nJMP LAST_\nJMP " + symbol_name(5) + "\n");
		}, [](Ctx &x, int ex, const Str &h, const Str &, uint64_t, const Bytes &img) {
			want_image(x, ex, h, img, {0x4C, 0x34, 0x12, 0x4C, 1, 0}, strf("%lu symbols", (unsigned long)SYMS + 1));
		}},
		{"decimal literal of more than 2^31 digits", [](Put put) { put("LDA #"); many(put, "0", N); put("12\nNOP\n"); },
			[](Ctx &x, int ex, const Str &h, const Str &, uint64_t, const Bytes &img) { want_image(x, ex, h, img, {0xA9, 12, 0xEA}, "3 (0x0003) bytes"); }},
		{"hexadecimal literal of more than 2^31 digits", [](Put put) { put("LDA $"); many(put, "0", N); put("12,X\nNOP\n"); },
			[](Ctx &x, int ex, const Str &h, const Str &, uint64_t, const Bytes &img) { want_image(x, ex, h, img, {0xB5, 0x12, 0xEA}, "3 (0x0003) bytes"); }},
		{"fault behind more than 2^31 blanks", [](Put put) { many(put, " ", N); put("NOP NOP\n"); },
			[](Ctx &x, int ex, const Str &h, const Str &t, uint64_t len, const Bytes &) {
				want_error(x, ex, h, 1, "illegal syntax");
				Str line = "in.asm:1: ERROR: illegal syntax\n";
				(void)line;
				size_t q = t.rfind("^~");
				if (q == Str::npos || q < 2000 || t.find_first_not_of(' ', 100) != q)
					x.fail("the marker is not behind the blanks");
				if (len < 2 * N || len > 2 * N + 200)
					x.fail(strf("%lu characters printed for a line of %lu", (unsigned long)len, (unsigned long)N + 7));
			}},
		{"comment of more than 2^31 characters", [](Put put) { put("NOP;"); many(put, "x", N); put("\nINX\n"); },
			[](Ctx &x, int ex, const Str &h, const Str &, uint64_t, const Bytes &img) { want_image(x, ex, h, img, {0xEA, 0xE8}, "2 (0x0002) bytes"); }},
		{"label of more than 2^31 characters", [](Put put) { put("JMP "); many(put, "L", N); put("\n"); },
			[](Ctx &x, int ex, const Str &h, const Str &, uint64_t, const Bytes &) { want_error(x, ex, h, 1, "label exceeds"); }},
		{"forward reference behind more than 2^31 blanks", [](Put put) { put("JMP"); many(put, " ", N); put("LL\nLL = $1234\n"); },
			[](Ctx &x, int ex, const Str &h, const Str &, uint64_t, const Bytes &img) { want_image(x, ex, h, img, {0x4C, 0x34, 0x12}, "1 symbols"); }},
	};
	return v;
}
static void run(Ctx &x, uint64_t i)
{
	const Case &k = cases()[i];
	Str d = x.dir + "/giant", in = d + "/in.asm", bin = x.binary("ubsan");
	mkdir(d.c_str(), 0755);
	unlink(in.c_str());
	if (mkfifo(in.c_str(), 0644))
		exit(3);
	int p[2];
	if (pipe2(p, O_CLOEXEC))
		exit(3);
	signal(SIGPIPE, SIG_IGN);
	pid_t feeder = fork();
	if (feeder == 0) {
		int f = open(in.c_str(), O_WRONLY);
		k.feed([&](const Str &b) {
			for (size_t at = 0; at < b.size();) {
				ssize_t w = write(f, b.data() + at, b.size() - at);
				if (w <= 0)
					return false;
				at += w;
			}
			return true;
		});
		_exit(0);
	}
	pid_t pid = fork();
	if (pid == 0) {
		dup2(p[1], 1);
		dup2(p[1], 2);
		signal(SIGPIPE, SIG_DFL);
		if (chdir(d.c_str()))
			_exit(98);
		struct rlimit l = {900, 902};
		setrlimit(RLIMIT_CPU, &l);
		l.rlim_cur = l.rlim_max = 0;
		setrlimit(RLIMIT_CORE, &l);
		l.rlim_cur = l.rlim_max = (rlim_t)12 << 30;
		setrlimit(RLIMIT_AS, &l);
		l.rlim_cur = l.rlim_max = 64 << 20;
		setrlimit(RLIMIT_FSIZE, &l);
		execl(bin.c_str(), "gaia", "-o", "out.bin", "in.asm", nullptr);
		_exit(99);
	}
	close(p[1]);
	Str head, tail;
	uint64_t len = 0;
	std::vector<char> b(1 << 18);
	for (ssize_t n; (n = read(p[0], b.data(), b.size())) > 0;) {
		len += n;
		if (head.size() < 4000)
			head.append(b.data(), std::min<size_t>(n, 4000 - head.size()));
		tail.append(b.data() + std::max<ssize_t>(0, n - 4000), std::min<ssize_t>(n, 4000));
		if (tail.size() > 4000)
			tail.erase(0, tail.size() - 4000);
	}
	close(p[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	kill(feeder, SIGKILL);
	waitpid(feeder, nullptr, 0);
	x.execs++;
	Bytes img = slurp(d + "/out.bin");
	unlink((d + "/out.bin").c_str());
	unlink(in.c_str());
	x.key = hash_str(k.name);
	x.nontrivial = true;
	x.sample_text = k.name;
	x.art("what was fed", k.name);
	x.cls(Str("giant sources: ") + k.name);
	if (!WIFEXITED(st))
		x.fail(strf("%s: killed by signal %d; %s", k.name, WTERMSIG(st), esc(tail, 1000).c_str()));
	if (tail.find("runtime error") != Str::npos)
		x.fail(Str(k.name) + ": " + esc(tail, 1000));
	if (WEXITSTATUS(st) > 1)
		x.fail(strf("%s: exit status %d", k.name, WEXITSTATUS(st)));
	k.judge(x, WEXITSTATUS(st), head, tail, len, img);
}
}

namespace c15 {
static const char ALPHA[] = "AXYaL09$%#(),=*.:;_ \t\n\r@\x01\x7f\x80\xff\"'-+&Ee\\/G";
static const int NA = sizeof ALPHA - 1;
// lines longer than the stack
static const char *LONG[] = {"&?", "NOP;&?", "&NOP@?; ", "LDA #&0?1", "LDA #&9?", "&A?", "JMP &Q?", ".&E?", "NOP &(? ", "BNE F;&c?", "& ?NOP\n&\t?@\n", "JMP F&\t?\t;\n", "L:&\t?\tJMP L", "*=&0?1\nNOP", ".DEFINE& ?Q& ?1", "&,?", "NOP&\r?"};
static const uint64_t NLONG = sizeof LONG / sizeof *LONG;
static const uint64_t NLOTS = 6;
static void safe(Ctx &x, const Str &src, const char *variant, long fsize = -1);
static void lots_case(Ctx &x, uint64_t i)
{
	static const char *what[] = {"references to one symbol", "references to as many symbols", "references to nothing", "constants", "labels", "lines"};
	long n = x.thorough ? 2000000 : 270000;
	Str src;
	for (long k = 0; k < n; k++)
		switch (i) {
		case 0: src += k % 20000 ? "JMP F\n" : "*=0\nBCC F\n"; break;
		case 1:
		case 2: src += strf(k % 20000 ? "JMP F%ld\n" : "*=0\nJSR F%ld\n", k); break;
		case 3: src += strf("C%ld = %ld\n", k, k & 0xFFFF); break;
		case 4: src += strf("L%ld:\n", k); break;
		case 5: src += k % 3 ? "\n" : "NOP ;\n*=0\n"; break;
		}
	if (i == 0)
		src += "F = 5\n";
	for (long k = 0; i == 1 && k < n; k++)
		src += strf("F%ld = 7\n", k);
	x.use(src);
	x.nontrivial = true;
	x.art("in.asm", strf("%ld %s", n, what[i]));
	x.cls("hundreds of thousands of something");
	safe(x, src, "asan");
}
static void long_case(Ctx &x, uint64_t i)
{
	if (i >= NLONG)
		return lots_case(x, i - NLONG);
	// "&x?" stands for ten million times x
	Str src;
	for (const char *p = LONG[i]; *p; p++)
		if (*p == '&') {
			Str what;
			for (p++; *p != '?'; p++)
				what += *p;
			size_t n = 10000000 / std::max<size_t>(1, what.size());
			if (what.size() == 1)
				src += Str(n, what[0]);
			else if (what.empty())
				src += Str(n, '\0');
			else
				while (n--)
					src += what;
		} else {
			src += *p;
		}
	x.use(src);
	x.nontrivial = true;
	x.art("in.asm", Str("the text ") + LONG[i] + " where &...? stands for ten million bytes of what is between");
	x.cls("lines longer than the stack");
	safe(x, src, "asan", 200 << 20);
	safe(x, src, "plain", 200 << 20);
}
static uint64_t count(bool thorough) { return NLONG + NLOTS + 257 + 256 + (thorough ? NA * NA + giants::cases().size() : NA) ; }
static void safe(Ctx &x, const Str &src, const char *variant, long fsize)
{
	RunOpts o;
	o.fsize = fsize;
	o.variant = variant;
	Result r = x.run(src, o);
	if (Str(variant) == "msan" && (r.exit == 86 || r.sig)) {
		// uninitialised values: ask memcheck about the uninstrumented program
		Str d = x.dir + "/vg";
		mkdir(d.c_str(), 0755);
		spill(d + "/in.asm", src);
		Str log = d + "/vg.log";
		Str cmd = "cd '" + d + "' && valgrind -q --error-exitcode=86 --log-file=vg.log '" + x.binary("plain") + "' -o out.bin in.asm > /dev/null 2>&1";
		int st = system(cmd.c_str());
		if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1)) {
			x.cls("msan reports not confirmed by memcheck");
			return;
		}
		Bytes b = slurp(log);
		x.fail("use of uninitialised memory: " + esc(Str(b.begin(), b.end()), 1500));
	}
	expect_clean(x, r, variant);
}
static void enum_case(Ctx &x, uint64_t i)
{
	// all files of 0, 1 and 2 bytes; files of 3 (thorough: 4) bytes over an alphabet
	Choices &c = x.c;
	std::vector<Str> all;
	if (i < NLONG + NLOTS)
		return long_case(x, i);
	i -= NLONG + NLOTS;
	if (x.thorough) {
		if (i < giants::cases().size()) {
			giants::run(x, i);
			return;
		}
		i -= giants::cases().size();
	}
	if (i == 0) {
		all.push_back("");
	} else if (i <= 256) {
		Str s(1, (char)(i - 1));
		all.push_back(s);
	} else if (i < 257 + 256) {
		for (int b = 0; b < 256; b++)
			all.push_back(Str(1, (char)(i - 257)) + (char)b);
	} else {
		uint64_t k = i - 513;
		Str pre(1, ALPHA[k % NA]);
		if (x.thorough)
			pre += ALPHA[k / NA];
		for (int a = 0; a < NA; a++)
			for (int b = 0; b < NA; b++)
				all.push_back(pre + ALPHA[a] + ALPHA[b]);
	}
	for (auto &s : all) {
		x.use(s);
		x.artifacts.clear();
		x.art("in.asm", s);
		safe(x, s, "asan");
	}
	x.nontrivial = true;
	x.cls("enumerated tiny files", all.size());
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	Str src = soup(x);
	if (c.below(6) == 5)
		src = x.behind(src);
	x.use(src);
	x.nontrivial = src.size() >= 3;
	x.sample_text = src.size() < 400 ? src : "";
	x.art("in.asm", src.size() < 100000 ? src : esc(src, 3000));
	safe(x, src, "asan");
	if (c.below(4) == 3) {
		safe(x, src, "msan");
		x.cls("also run with uninitialised-memory detection");
	}
}
static void text_case(Ctx &x, const Str &src)
{
	x.use(src);
	x.nontrivial = src.size() >= 3;
	x.art("in.asm", src);
	safe(x, src, "asan");
}
static Reg reg({"C15", "lines of ten million characters of 17 kinds; 270000 (thorough 2 million) references, symbols, lines; all files of 0-2 bytes, files of 3 (thorough 4) bytes over an alphabet; random bytes, token soup, valid programs with random byte/line/token mutations, extreme sizes (huge lines, literals, labels, token counts, NUL bytes, many symbols and references), under AddressSanitizer+UBSan with a CPU limit, a quarter of them also under MemorySanitizer (reports confirmed by memcheck); thorough: seven sources with a line of more than 2^31 characters or 21.6 million symbols, under UBSan; plus coverage-guided libFuzzer. Oracle: exit status 0 or 1, no sanitizer report, no signal, no time-out. Non-trivial: at least 3 bytes; distinct by source.",
	count, enum_case, random_case, 24000, 400000, {"asan", "msan", "plain", "ubsan"}, "exploration", text_case});
}

// ============================================================ C16
namespace c16 {
static void judge(Ctx &x, const Result &r, const RefResult &f, const Str &src)
{
	expect_clean(x, r, "program");
	size_t n = 0, q = 0;
	while ((q = r.out.find("ERROR: ", q)) != Str::npos) {
		n++;
		q++;
	}
	if (f.ok) {
		Str want = strf("Assembly successful.\n%ld (0x%04lx) bytes assembled.\n%d symbols.\n", f.bytes, f.bytes, f.symbols);
		if (r.exit != 0 || r.out != want)
			x.fail(strf("expected \"%s\", %s, output \"%s\"", esc(want).c_str(), r.status().c_str(), esc(r.out, 500).c_str()));
	} else {
		if (r.exit != 1 || n != 1 || claims_success(r.out) || r.out.find("assembled.") != Str::npos)
			x.fail(strf("a faulty program (line %d: %s): %s with %zu error messages, output \"%s\"", f.line, err_text(f.err), r.status().c_str(), n, esc(r.out, 500).c_str()));
	}
}
static const std::vector<long> &totals(bool thorough)
{
	static const std::vector<long> v = [] {
		std::vector<long> t;
		for (long n = 0; n <= 300; n++)
			t.push_back(n);
		for (long n : {4095L, 4096L, 4097L, 32767L, 32768L, 32769L, 65533L, 65534L, 65535L, 65536L, 65537L, 65538L, 99999L, 100000L, 131071L, 131072L, 196608L, 300000L, 1048577L, 16777217L, 16777219L})
			t.push_back(n);
		return t;
	}();
	static const std::vector<long> w = [] {
		std::vector<long> t = v;
		for (long n : {1000000L, 1048575L, 1048576L, 3000000L, 33554435L})
			t.push_back(n);
		return t;
	}();
	return thorough ? w : v;
}
static void enum_case(Ctx &x, uint64_t i)
{
	Choices &c = x.c;
	if (i < totals(x.thorough).size()) {
		// exactly n bytes, however often the same place is written again
		long n = totals(x.thorough)[i], left = n, pc = 0;
		Str src;
		while (left > 0) {
			int k = left >= 300000 ? 3 : (int)std::min<long>(left, 1 + c.below(3));
			if (pc + k > 0x10000) {
				src += "*=0\n";
				pc = 0;
			}
			src += k == 1 ? "NOP\n" : k == 2 ? "LDA #1\n" : "JMP 1\n";
			pc += k;
			left -= k;
		}
		x.use(src);
		x.nontrivial = n > 0;
		x.cls("enumerated totals");
		x.art("in.asm", esc(src, 200));
		RefResult f;
		f.ok = true;
		f.bytes = n;
		RunOpts o;
		o.cpu_s = 100;
		judge(x, x.run(src, o), f, src);
		return;
	}
	long n = (long)(i - totals(x.thorough).size());
	static const long many[] = {400, 999, 1000, 1001, 9999, 10000, 30000, 65535, 65536, 65537, 100001, 131073, 1000001};
	n = n < 300 ? n : many[(n - 300) % (sizeof many / sizeof *many)];
	Str src;
	for (long k = 0; k < n; k++)
		src += c.below(2) ? strf("S%ld = %ld\n", k, k & 0xFFFF) : strf("S%ld:\n", k);
	x.use(src);
	x.nontrivial = n > 0;
	x.cls("enumerated symbol counts");
	x.art("in.asm", esc(src, 200));
	RefResult f;
	f.ok = true;
	f.symbols = (int)n;
	judge(x, x.run(src), f, src);
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	GenOpts o;
	o.max_lines = 60;
	Names nm;
	Prog p = gen_prog(x, o, &nm);
	Image m = p.layout();
	long faulty = c.weighted({5, 3, 2, 1});
	for (long k = 0; k < faulty; k++) { // several faults: still one message
		static const char *bad[] = {"LDA", "STA # 1", "JMP NOSUCH", "BNE NOSUCH", "LDA NOSUCH", "NOP NOP", "X", "$12", "LDA $12345", "LDA @", ".BYTE", "* 5", "BNE $1234", "= 4", "LBL LBL"};
		std::vector<Str> t;
		Str s = c.pick(bad), w;
		for (char ch : s + " ")
			if (ch == ' ') {
				t.push_back(w);
				w.clear();
			} else
				w += ch;
		p.st.insert(p.st.begin() + c.below((uint32_t)p.st.size() + 1), raw_line(t));
	}
	if (faulty > 1 && c.below(2)) { // faults found at the end
		p.st.push_back(raw_line({"BNE", "NOWHERE1"}));
		p.st.push_back(raw_line({"JMP", "NOWHERE2"}));
	}
	Str src = render(c, p, random_style(c));
	x.use(src);
	x.nontrivial = p.st.size() >= 2;
	x.sample_text = src;
	x.art("in.asm", src);
	RefResult f = RefAsm::run(src);
	if (f.ok != (faulty == 0))
		x.set_aside("harness: reference and generator disagree on acceptance");
	if (f.ok && (f.bytes != m.bytes || f.symbols != m.symbols))
		x.set_aside("harness: reference and generator disagree on the counts");
	x.cls(f.ok ? "correct programs" : strf("programs with %ld faults", faulty));
	judge(x, x.run(src), f, src);
}
static Reg reg({"C16", "every total of 0..300 bytes and totals around 2^12, 2^15, 2^16, 10^5, 2^20, 2^24 (rewriting the same memory), every symbol count 0..300 and up to 131073 (thorough 10^6); random programs, correct or with 1-3 faults. Oracle: the exact summary text / exactly one error message. Non-trivial: at least one byte, symbol or two statements; distinct by source.",
	[](bool t) { return (uint64_t)totals(t).size() + (t ? 313 : 312); }, enum_case, random_case, 110000, 1000000, {"plain"}});
}

// ============================================================ C17
namespace c17 {
// a program and what it gives, sized to exercise stdio buffering
static Prog program(Ctx &x, int kind)
{
	Choices &c = x.c;
	GenOpts o;
	o.max_lines = kind == 0 ? 12 : 60;
	o.hi = kind == 0 ? 0x60 : kind == 1 ? 0x1800 : 0x10000;
	if (kind == 0)
		o.orgs = false;
	Prog p = gen_prog(x, o);
	if (kind == 2) { // long code without gaps, to fill several buffers
		long lo = c.range(0, 200);
		Prog q;
		q.st.push_back(org_line(lo));
		long n = c.range(1000, 6000);
		q.st.push_back(sym_line(mn_of("JMP"), ABS, "THEEND"));
		for (long i = 0; i < n; i++)
			q.st.push_back(instr_lit(c, mn_of("LDA"), IMM, i & 0xFF));
		q.st.push_back(label_line("THEEND"));
		p = q;
	}
	return p;
}
static long cut_line(const Str &src, long k) { return 1 + (long)std::count(src.begin(), src.begin() + std::min<long>(k, (long)src.size()), '\n'); }
// side: 1 the source is to blame, 2 the output, 0 either; cut: line which a read fault cuts short
static void must_fail(Ctx &x, const Result &r, const char *what, int side, const Str &source = "in.asm", long cut = 0)
{
	expect_clean(x, r, what);
	if (r.exit == 0 || claims_success(r.out))
		x.fail(strf("%s: success is claimed: %s, output \"%s\"", what, r.status().c_str(), esc(r.out, 300).c_str()));
	if (!has_error(r.out) && !has_error(r.err))
		x.fail(strf("%s: no error message; output \"%s\"", what, esc(r.out, 300).c_str()));
	Str all = r.out + r.err;
	size_t n = 0;
	for (size_t q = 0; (q = all.find("ERROR: ", q)) != Str::npos; q++)
		n++;
	Diag dg = parse_diag(all);
	if (n == 1 && cut && dg.ok && dg.line == cut)
		return; // the part of a line in front of the fault is found faulty first
	bool opened = all.find("ERROR: " + source + " could not be opened") != Str::npos, created = all.find("ERROR: assembled binary file could not be created") != Str::npos;
	if (n != 1 || (side == 1 && !opened) || (side == 2 && !created) || (!opened && !created))
		x.fail(strf("%s: one message is expected, that %s; output \"%s\"", what,
			side == 1 ? "the source could not be opened" : side == 2 ? "the binary file could not be created" : "a file could not be opened or created", esc(all, 300).c_str()));
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	int what = c.weighted({5, 4, 3, 2, 3, 1});
	Prog p = program(x, what == 2 ? 2 : c.weighted({4, 2, 1}));
	Image m = p.layout();
	Style st = c.below(3) == 2 ? random_style(c) : Style();
	Str src = render(c, p, st);
	if (c.below(3) == 2 && !m.overlap) {
		Str all = x.behind(src);
		RefResult f = RefAsm::run(all);
		if (f.ok && !f.overlap_fwd && !f.past_end) {
			src = all;
			m.img = f.image;
			m.bytes = f.bytes;
			m.symbols = f.symbols;
			x.cls("behind other lines");
		}
	}
	if (what == 1 && c.below(4) == 3 && (src.empty() || src.back() == '\n'))
		src += c.below(2) ? ".END" : ".END ; comment\njunk junk junk\n";
	x.use(src);
	x.sample_text = src.size() < 800 ? src : "";
	x.art("in.asm", src);
	RunOpts o;
	o.variant = "fault";
	if (what == 0 || what == 2) { // the output device fills up after k bytes
		// stdio may write any part more than once; a run without fault tells how much there is
		RunOpts dry = o;
		dry.fail_write = 1L << 40;
		Result r0 = x.run(src, dry);
		expect_ok(x, r0, m.img, m.bytes, m.symbols, "no fault");
		long top = (long)m.img.size() + 64;
		long times = what == 0 ? std::min<long>(top, 40) : 12;
		bool once = c.below(4) == 3;
		o.write_once = once;
		o.no_seek = c.below(4) == 3;
		if (o.no_seek)
			x.cls("output that cannot seek");
		for (long i = 0; i < times; i++) {
			o.fail_write = what == 0 && top <= 160 ? i * top / times : edgy(c, 0, what == 0 ? top : 3 * top);
			Result r = x.run(src, o);
			if (!r.cookies) {
				x.cls("output not written through stdio");
				return;
			}
			if (r.fired) {
				x.cls(once ? "passing write faults met" : "write faults met");
				if (once && r.exit == 0) // every byte arrived at a second attempt
					expect_ok(x, r, m.img, m.bytes, m.symbols, "passing write fault");
				else
					must_fail(x, r, strf("output device full after %ld bytes", o.fail_write).c_str(), 2);
			} else {
				x.cls("write faults not met");
				expect_ok(x, r, m.img, m.bytes, m.symbols, strf("fault beyond what is needed (%ld)", o.fail_write).c_str());
			}
		}
		x.nontrivial = !m.img.empty();
		if (c.below(4) == 3) {
			RunOpts q;
			q.variant = "fault";
			q.fail_close = true;
			Result r = x.run(src, q);
			if (r.fired) {
				x.cls("faults at closing met");
				must_fail(x, r, "closing the output file fails", 2);
			}
		}
	} else if (what == 1) { // the source cannot be read beyond k bytes
		RefResult f = RefAsm::run(src);
		for (int i = 0; i < 30; i++) {
			o.fail_read = c.range(0, (long)src.size() + 3);
			o.read_piece = c.below(3) == 2 ? c.range(1, 60) : 0;
			o.read_once = c.below(3) == 2;
			Result r = x.run(src, o);
			if (!r.cookies) {
				x.cls("source not read through stdio");
				return;
			}
			if (r.fired) {
				// text after .END is not needed, but may have been asked for
				size_t e = src.find(".END");
				bool after_end = e != Str::npos && src.find('\n', e) != Str::npos && o.fail_read > (long)src.find('\n', e);
				if (after_end) {
					x.cls("read faults after .END");
					if (r.exit == 0)
						expect_ok(x, r, m.img, m.bytes, m.symbols, "read fault after .END");
					else
						must_fail(x, r, "read fault after .END", 1, "in.asm", cut_line(src, o.fail_read));
					continue;
				}
				x.cls(o.read_once ? "passing read faults met" : "read faults met");
				must_fail(x, r, strf("source unreadable after %ld of %zu bytes", o.fail_read, src.size()).c_str(), 1, "in.asm", cut_line(src, o.fail_read));
			} else {
				x.cls("read faults not met");
				expect_ok(x, r, m.img, m.bytes, m.symbols, "fault beyond the source");
			}
		}
		x.nontrivial = src.size() > 1;
	} else if (what == 3) { // the size limit of the process
		o.variant = "plain";
		// leave room for what is printed to the standard output
		if (m.img.size() < 2048) {
			p.st.push_back(org_line(c.range(2048, 60000)));
			for (int i = 0; i < 20; i++)
				p.st.push_back(instr_lit(c, mn_of("LDX"), IMM, i));
			m = p.layout();
			src = render(c, p, st);
			x.artifacts.clear();
			x.art("in.asm", src);
		}
		if (m.overlap)
			return;
		long n = (long)m.img.size();
		for (long lim : {1024L, n / 2 > 1024 ? n / 2 : 1024, n - 2, n - 1, n, n + 1, n + 100}) {
			o.fsize = lim;
			Result r = x.run(src, o);
			if (lim < n) {
				x.cls("file size limit met");
				must_fail(x, r, strf("file size limit %ld, image of %ld bytes", lim, n).c_str(), 2);
			} else {
				x.cls("file size limit not met");
				expect_ok(x, r, m.img, m.bytes, m.symbols, strf("file size limit %ld, image of %ld bytes", lim, n).c_str());
			}
		}
		x.nontrivial = true;
	} else if (what == 4) { // files that cannot be opened or are not files
		Str d = x.dir + "/io";
		mkdir(d.c_str(), 0777);
		chmod(d.c_str(), 0777);
		Str sub = d + "/sub";
		mkdir(sub.c_str(), 0755);
		Str in = d + "/in.asm", out = d + "/out.bin";
		spill(in, src);
		chmod(in.c_str(), 0644);
		unlink(out.c_str());
		Str old = "previous contents";
		if (c.below(2)) {
			spill(out, old);
			chmod(out.c_str(), 0666);
		}
		bool had = access(out.c_str(), F_OK) == 0;
		ProcOpts po;
		po.cwd = d;
		bool nobody = false, src_bad = true;
		Str what;
		switch (c.below(11)) {
		case 0: po.args = {"-o", "out.bin", "missing.asm"}; what = "missing source"; break;
		case 1: po.args = {"-o", "out.bin", "missing/in.asm"}; what = "source in a missing directory"; break;
		case 2: po.args = {"-o", "out.bin", "sub"}; what = "source is a directory"; src_bad = false; break;
		case 3: po.args = {"-o", "out.bin", "in.asm/x"}; what = "source below a file"; break;
		case 4: po.args = {"-o", "out.bin", "in.asm"}; chmod(in.c_str(), 0); nobody = true; what = "unreadable source"; break;
		case 5: po.args = {"-o", "sub", "in.asm"}; what = "output is a directory"; src_bad = false; break;
		case 6: po.args = {"-o", "nodir/out", "in.asm"}; what = "output in a missing directory"; src_bad = false; break;
		case 7: po.args = {"-o", "sub/out", "in.asm"}; nobody = true; what = "output in a read-only directory"; src_bad = false; break;
		case 8: po.args = {"-o", "/dev/full", "in.asm"}; what = "output to a full device"; src_bad = false; if (m.img.empty()) return; break;
		case 9: po.args = {"-o", "", "in.asm"}; what = "empty output name"; src_bad = false; break;
		case 10: po.args = {"-o", "out.bin", ""}; what = "empty source name"; break;
		}
		po.as_nobody = nobody;
		Result r = x.proc(po);
		x.cls(what);
		x.nontrivial = true;
		bool dir = what == "source is a directory";
		must_fail(x, r, what.c_str(), src_bad || dir ? 1 : 2, src_bad || dir ? po.args.back() : Str("in.asm"));
		if (src_bad) {
			bool ok;
			Bytes b = slurp(out, &ok);
			if (ok != had || (had && Str(b.begin(), b.end()) != old))
				x.fail(what + ": the output file was touched");
		}
		chmod(in.c_str(), 0644);
		unlink(out.c_str());
	} else { // no fault at all through the same machinery
		Result r = x.run(src, o);
		expect_ok(x, r, m.img, m.bytes, m.symbols, "no fault");
		x.nontrivial = true;
	}
}
// every single byte position of a few programs
static uint64_t count(bool) { return 24; }
static void enum_case(Ctx &x, uint64_t i)
{
	Choices &c = x.c;
	x.size = 100;
	bool wr = i % 2;
	Prog p = program(x, i < 16 ? 0 : 1);
	Image m = p.layout();
	Str src = render(c, p, Style());
	if (i % 8 == 2)
		src += ".END";
	x.use(src);
	x.nontrivial = true;
	x.art("in.asm", src);
	RunOpts o;
	o.variant = "fault";
	long n = wr ? (long)m.img.size() + 20 : (long)src.size() + 2;
	long step = std::max(1L, n / 700);
	for (long k = 0; k < n; k += step) {
		(wr ? o.fail_write : o.fail_read) = k;
		Result r = x.run(src, o);
		if (!r.cookies)
			return;
		if (r.fired)
			must_fail(x, r, strf("%s fault after %ld bytes", wr ? "write" : "read", k).c_str(), wr ? 2 : 1, "in.asm", wr ? 0 : cut_line(src, k));
		else
			expect_ok(x, r, m.img, m.bytes, m.symbols, "fault beyond what is needed");
		x.cls(wr ? "enumerated write faults" : "enumerated read faults");
	}
}
static Reg reg({"C17", "read errors and full-device errors (both lasting or passing, the output a file or like a pipe) injected through the stdio streams after k bytes, for every k of some programs and random k of random ones, with short reads; errors at closing; a file size limit around the size of the image; sources and outputs that cannot be opened (missing, directory, no permission, /dev/full, empty name). Oracle: if the fault was met the run fails with a message and no success claim, else the result is right; an existing output is untouched when the source cannot be opened. Non-trivial: non-empty image or source; distinct by source.",
	count, enum_case, random_case, 2400, 60000, {"fault", "plain"}, "fault_enumeration"});
}

// ============================================================ C18
namespace c18 {
static void sweep(Ctx &x, const Str &src, long max_points)
{
	Choices &c = x.c;
	RunOpts o;
	o.variant = "fault";
	RefResult f = RefAsm::run(src);
	Result r0 = x.run(src, o);
	expect_ref(x, r0, f, false, "no allocation failure");
	long n = (long)r0.allocs;
	std::vector<long> at;
	if (n <= max_points) {
		for (long i = 1; i <= n; i++)
			at.push_back(i);
	} else {
		for (long i = 1; i <= max_points / 3; i++)
			at.push_back(i);
		for (long i = n - max_points / 3 + 1; i <= n; i++)
			at.push_back(i);
		for (long i = 0; i < max_points / 3; i++)
			at.push_back(c.range(1, n));
	}
	for (long k : at) {
		o.fail_alloc = k;
		Result r = x.run(src, o);
		Str what = strf("allocation %ld of %ld fails", k, n);
		x.cls("allocation failures injected");
		expect_clean(x, r, what.c_str());
		if (!r.fired)
			x.cls("not reached");
		if (r.exit == 0) {
			x.cls("survived");
			if (!f.ok)
				x.fail(what + ": a faulty program is accepted");
			expect_ok(x, r, f.image, f.bytes, f.symbols, what.c_str());
		} else if (!has_error(r.out) || claims_success(r.out)) {
			x.fail(what + strf(": no error message, or success is claimed: \"%s\"", esc(r.out, 300).c_str()));
		} else {
			Diag dg = parse_diag(r.out);
			if (!f.ok && dg.ok && dg.line == f.line)
				x.cls("the fault of the program comes first");
			else if (r.out.find("ERROR: could not allocate enough memory") != 0 && r.out.find("ERROR: in.asm could not be opened") != 0 && r.out.find("ERROR: assembled binary file could not be created") != 0)
				x.fail(what + strf(": the message is about something else: \"%s\"", esc(r.out, 300).c_str()));
			if (r.out.find("ERROR: ", r.out.find("ERROR: ") + 1) != Str::npos)
				x.fail(what + strf(": more than one message: \"%s\"", esc(r.out, 300).c_str()));
		}
	}
}
// number of symbols and of pending references around every growth of the tables
static std::vector<long> sizes(bool thorough)
{
	std::vector<long> v;
	for (long n = 0; n <= (thorough ? 150 : 70); n++)
		v.push_back(n);
	return v;
}
static void enum_case(Ctx &x, uint64_t i)
{
	static std::vector<long> q = sizes(false), t = sizes(true);
	long n = (x.thorough ? t : q)[i / 2];
	Str src;
	if (i % 2) {
		for (long k = 0; k < n; k++)
			src += strf("S%ld = %ld\n", k, k);
		for (long k = 0; k < n; k++)
			src += strf("JMP S%ld\n", k);
	} else {
		for (long k = 0; k < n; k++)
			src += strf("%s S%ld\n", k % 3 ? "JMP" : "BNE", k);
		for (long k = 0; k < n; k++)
			src += strf("S%ld:\n", k);
		if (n > 40) // branches would be too far
			src = "";
		for (long k = 0; n > 40 && k < n; k++)
			src += strf("JMP S%ld\n", k);
		for (long k = 0; n > 40 && k < n; k++)
			src += strf("S%ld = 7\n", k);
	}
	x.use(src);
	x.nontrivial = n > 0;
	x.art("in.asm", esc(src, 500));
	sweep(x, src, x.thorough ? 100000 : 400);
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	GenOpts o;
	o.max_lines = 40;
	o.branchy = 40;
	Prog p = gen_prog(x, o);
	if (c.below(6) == 5) {
		static const char *bad[] = {"LDA", "X", "NOP", "JMP", "1", "QQ"};
		p.st.insert(p.st.begin() + c.below((uint32_t)p.st.size() + 1), raw_line({c.pick(bad), c.pick(bad)}));
	}
	Style st = random_style(c);
	st.long_text = c.below(3) == 2 ? 15 : 0;
	if (st.long_text)
		st.comments = 40;
	Str src = render(c, p, st);
	if (c.below(4) == 3)
		src = x.behind(src);
	x.use(src);
	x.nontrivial = p.st.size() >= 2;
	x.sample_text = src;
	x.art("in.asm", src);
	sweep(x, src, x.thorough ? 400 : 60);
}
static Reg reg({"C18", "every single allocation made by the program's own objects failing in turn (NULL), for programs with n symbols / n pending references for every n up to 70 (thorough 150), and for random programs with long lines and faults; also behind other lines; under AddressSanitizer. Oracle: right result, or exit 1 with an error message. Non-trivial: at least one symbol or two statements; distinct by source.",
	[](bool t) { return (uint64_t)sizes(t).size() * 2; }, enum_case, random_case, 2500, 40000, {"fault"}, "fault_enumeration"});
}
