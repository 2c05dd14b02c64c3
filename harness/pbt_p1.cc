// C01-C06: encoding, rejection, literals, operand width, branches, forward references
#include "gen.h"
#include <algorithm>

static const long EDGE16[] = {0, 1, 2, 0x0F, 0x10, 0x7F, 0x80, 0x81, 0xFE, 0xFF, 0x100, 0x101, 0x17F, 0x180, 0x1FF, 0x200, 0xFFF, 0x1000, 0x1234, 0x7FFF, 0x8000, 0x8001, 0x80FF, 0xA5C3, 0xFEFF, 0xFF00, 0xFF7F, 0xFF80, 0xFFFD, 0xFFFE, 0xFFFF};

static int mn_of(const char *s) { return isa().find(s); }
static std::vector<int> branches()
{
	std::vector<int> b;
	for (size_t i = 0; i < isa().names.size(); i++)
		if (isa().is_branch((int)i))
			b.push_back((int)i);
	return b;
}
// position of a statement as a line number
static long line_no(const std::vector<long> &l, size_t i) { return l[i]; }

// ============================================================ C01
namespace c01 {
struct Chunk { int mn, mode; long lo, hi; bool sym; };
static const std::vector<Chunk> &chunks()
{
	static std::vector<Chunk> v = [] {
		std::vector<Chunk> r;
		for (auto &k : isa().combos) {
			if (mode_len(k.mode) == 1) {
				r.push_back({k.mn, k.mode, 0, 1, false});
				continue;
			}
			long lo = mode_min(k.mode, k.mn), hi = mode_max(k.mode, k.mn) + 1;
			for (long a = lo; a < hi; a += 16384)
				r.push_back({k.mn, k.mode, a, std::min(hi, a + 16384), false});
			r.push_back({k.mn, k.mode, 0, 0, true});
		}
		return r;
	}();
	return v;
}
static void enum_case(Ctx &x, uint64_t i)
{
	const Chunk &k = chunks()[i];
	Choices &c = x.c;
	Prog p;
	if (!k.sym) {
		long n = k.hi - k.lo;
		static const long bases[] = {0, 0x80, 0x200, 0x1000, 0x3FFF};
		p.st.push_back(org_line(c.pick(bases), (int)c.below(2)));
		if (k.mode == ACC)
			for (int a = 0; a < 2; a++) {
				Stmt s = instr_lit(c, k.mn, k.mode, 0);
				s.explicit_a = a;
				p.st.push_back(s);
			}
		else
			for (long v = k.lo; v < k.lo + n; v++) {
				Stmt s = instr_lit(c, k.mn, k.mode, v);
				s.num.zeros = v % 61 == 0 ? s.num.zeros : 0;
				s.num.radix = v % 3 == 0 ? s.num.radix : 0;
				p.st.push_back(s);
			}
		x.cls("enumerated lines with a literal", n);
	} else {
		// the same instruction through symbols of every kind and edge value
		std::vector<long> vals;
		for (long v : EDGE16)
			if (k.mode == REL || (v >= mode_min(k.mode, k.mn) && v <= mode_max(k.mode, k.mn)))
				vals.push_back(v);
		int n = 0;
		std::vector<std::pair<Str, long>> syms;
		for (long v : vals)
			for (int kind = 0; kind < 4; kind++) {
				Str name = strf("S%d_%ld", kind, v);
				if (kind < 3) {
					p.st.push_back(const_line(name, v, kind, (int)c.below(3)));
				} else {
					p.st.push_back(org_line(v, (int)c.below(2)));
					p.st.push_back(label_line(name));
				}
				syms.push_back({name, v});
			}
		p.st.push_back(org_line(0x200));
		for (auto &s : syms) {
			if (k.mode == REL)
				p.st.push_back(org_line(std::min(0xFFF0L, std::max(0L, s.second - c.range(0, 100)))));
			p.st.push_back(sym_line(k.mn, k.mode, s.first));
			n++;
		}
		x.cls("enumerated lines with a symbol", n);
	}
	Image m = p.layout();
	Style st;
	st.caps = c.weighted({2, 1, 1});
	Str src = render(c, p, st);
	x.use(src);
	x.nontrivial = true;
	x.cls(strf("mode %s", mode_name(k.mode)));
	x.art("source", esc(src, 600));
	Result r = x.run(src);
	expect_ok(x, r, m.img, -1, 0, strf("%s %s, operand values %ld..%ld", isa().names[k.mn].c_str(), mode_name(k.mode), k.lo, k.hi - 1).c_str());
}
static void random_case(Ctx &x)
{
	GenOpts o;
	o.branchy = 12;
	Prog p = gen_prog(x, o);
	Image m = p.layout();
	Style st = random_style(x.c);
	Str src = render(x.c, p, st);
	x.use(src);
	int n = 0;
	for (auto &s : p.st)
		if (s.k == Stmt::INSTR) {
			n++;
			x.cls(strf("random mode %s%s", mode_name(s.mode), s.sym ? " symbol" : ""));
		}
	x.nontrivial = n >= 2;
	x.sample_text = src;
	x.art("in.asm", src);
	Result r = x.run(src);
	expect_ok(x, r, m.img, -1, 0, "program");
}
static Reg reg({"C01", "each (mnemonic, mode) pair with every operand value of the mode as literal (16384-line programs), with edge values through constants and address labels, and rapidcheck-driven random programs of 1-60 statements; expected bytes come from an independent opcode matrix applied to the abstract program. Non-trivial: at least two instructions, distinct source text.",
	[](bool) { return (uint64_t)chunks().size(); }, enum_case, random_case, 120000, 1500000, {"plain"}});
}

// ============================================================ C02
namespace c02 {
enum Kind { LIT, CONSTANT, ADDR, FWD };
struct Bad { int mn, shape; long v; int kind; };
static const std::vector<Bad> &all()
{
	static std::vector<Bad> v = [] {
		std::vector<Bad> r;
		static const long vals[] = {0, 0x12, 0x7F, 0x80, 0xFF, 0x100, 0x1234, 0x8000, 0xFFFF};
		const Isa &I = isa();
		for (int mn = 0; mn < (int)I.names.size(); mn++)
			for (int sh = 0; sh < NSHAPES; sh++) {
				if (sh == S_NONE || sh == S_A) {
					if (resolve_mode(mn, sh, 0, false) == MODE_NONE)
						r.push_back({mn, sh, 0, LIT});
					continue;
				}
				for (long x : vals) {
					if (resolve_mode(mn, sh, x, false) == MODE_NONE)
						r.push_back({mn, sh, x, LIT});
					if (resolve_mode(mn, sh, x, true) == MODE_NONE) {
						r.push_back({mn, sh, x, CONSTANT});
						r.push_back({mn, sh, x, ADDR});
						if (I.is_branch(mn) || I.is_jump(mn))
							r.push_back({mn, sh, x, FWD});
					}
				}
			}
		return r;
	}();
	return v;
}
// the faulty statement, and what has to stand before and after it
static void compose(Choices &c, const Bad &b, Prog &pre, Prog &bad, Prog &post, const Str &name, const Str &lead)
{
	Str o = name;
	if (b.kind == LIT)
		o = num_text(c, gen_num(c, b.v), 0);
	else if (b.kind == CONSTANT)
		pre.st.push_back(const_line(name, b.v, (int)c.below(3)));
	else if (b.kind == ADDR) {
		pre.st.push_back(org_line(b.v));
		pre.st.push_back(label_line(name));
		pre.st.push_back(org_line(b.v < 0x200 ? 0x300 : b.v > 0xFF00 ? 0xFE00 : b.v));
	} else {
		post.st.push_back(c.below(2) ? label_line(name) : const_line(name, b.v, (int)c.below(3)));
	}
	std::vector<Str> t;
	if (!lead.empty())
		t.push_back(lead);
	t.push_back(isa().names[b.mn]);
	for (auto &w : shape_tokens(b.shape, o))
		t.push_back(w);
	bad.st.push_back(raw_line(t));
}
static void check(Ctx &x, const Bad &b, Prog pre, Prog post, const Style &st)
{
	Choices &c = x.c;
	Prog bad;
	Prog tail;
	compose(c, b, pre, bad, tail, "ZZTOP9", c.below(4) == 3 ? "ZZLEAD9" : "");
	Prog all;
	all.st = pre.st;
	size_t at = all.st.size();
	all.st.push_back(bad.st[0]);
	for (auto &s : tail.st)
		all.st.push_back(s);
	for (auto &s : post.st)
		all.st.push_back(s);
	std::vector<long> lines;
	Str src = render(c, all, st, &lines);
	x.use(src);
	x.nontrivial = true;
	static const char *kn[] = {"literal", "constant", "address label", "forward label"};
	x.cls(strf("illegal %s with %s", shape_name(b.shape), kn[b.kind]));
	x.sample_text = src;
	x.art("in.asm", src);
	Result r = x.run(src);
	expect_reject(x, r, E_MODE, line_no(lines, at), strf("%s with operand shape %s, value %ld as %s", isa().names[b.mn].c_str(), shape_name(b.shape), b.v, kn[b.kind]).c_str());
}
static void enum_case(Ctx &x, uint64_t i)
{
	Prog pre, post;
	if (i % 2)
		pre.st.push_back(org_line(0x400));
	pre.st.push_back(instr_lit(x.c, mn_of("NOP"), IMP, 0));
	post.st.push_back(instr_lit(x.c, mn_of("RTS"), IMP, 0));
	check(x, all()[i], pre, post, Style());
}
static void random_case(Ctx &x)
{
	GenOpts o;
	o.max_lines = 25;
	o.fwd = false;
	Names n;
	n.reserve("ZZTOP9");
	n.reserve("ZZLEAD9");
	Prog p = gen_prog(x, o, &n);
	size_t cut = x.c.below((uint32_t)p.st.size() + 1);
	Prog pre, post;
	pre.st.assign(p.st.begin(), p.st.begin() + cut);
	post.st.assign(p.st.begin() + cut, p.st.end());
	Bad b = all()[x.c.below((uint32_t)all().size())];
	if (b.v > 0x12 && b.shape != S_NONE && b.shape != S_A) {
		// another value of the same class
		long v = b.v > 0xFF ? edgy(x.c, 0x100, 0xFFFF) : edgy(x.c, 0, 0xFF);
		if (resolve_mode(b.mn, b.shape, v, b.kind != LIT) == MODE_NONE)
			b.v = v;
	}
	check(x, b, pre, post, random_style(x.c));
}
static Reg reg({"C02", "every illegal (mnemonic, operand shape, edge value, operand kind) with kind in literal / constant / address label / forward label, one program each; then random illegal lines inside random programs. Oracle: rejection with an illegal-addressing-mode error for exactly that line. Every case is non-trivial (it holds an illegal line); distinct by source text.",
	[](bool) { return (uint64_t)all().size(); }, enum_case, random_case, 200000, 1600000, {"plain"}});
}

// ============================================================ C03
namespace c03 {
static Str dec128(unsigned __int128 v)
{
	Str s;
	do {
		s.insert(s.begin(), '0' + (int)(v % 10));
		v /= 10;
	} while (v);
	return s;
}
static Str in_base(unsigned __int128 v, int base, Choices &c)
{
	if (base == 10)
		return dec128(v);
	Str s;
	do {
		int d = (int)(v % base);
		s.insert(s.begin(), d < 10 ? '0' + d : (c.below(2) ? 'a' : 'A') + d - 10);
		v /= base;
	} while (v);
	return (base == 16 ? "$" : "%") + s;
}
static Str zeros(Choices &c)
{
	static const int around[] = {0, 0, 0, 1, 2, 3, 4, 8, 11, 12, 15, 16, 17, 19, 20, 24, 30, 31, 32, 33, 59, 60, 61, 62, 63, 64, 65, 100, 120, 127, 128, 200, 255, 256, 300, 511, 512, 1000, 5000};
	static const int far[] = {8191, 16384, 32764, 32765, 32766, 32767, 32768, 32769, 40000, 65530, 65533, 65534, 65535, 65536, 65537, 65540, 70000, 100000, 131071, 131072};
	if (c.below(200) == 199)
		return Str(c.pick(far) + c.below(3), '0');
	return Str(c.pick(around), '0');
}
static Str lead(Str lit, const Str &z)
{
	size_t p = lit[0] == '$' || lit[0] == '%';
	return lit.substr(0, p) + z + lit.substr(p);
}
// where the literal stands; %s is the literal
struct Place { const char *fmt; int kind; }; // kind 0: any value, 1: up to 255
static const Place places[] = {{"\tJMP %s", 0}, {"\tJSR %s ; c", 0}, {"\tJMP (%s)", 0}, {"K%d = %s", 2}, {"K%d .EQU %s", 2}, {".DEFINE K%d %s", 2},
	{"\tLDA #%s", 1}, {"\tSTA (%s),Y", 1}, {"\tLDA (%s,X)", 1}, {"\tBNE %s", 1}, {"*=%s", 3}, {".ORG %s", 3}, {"\tLDX %s", 4}, {"LBL%d LDA %s,X", 5}};
static Str put(const Place &p, int n, const Str &lit)
{
	Str f = p.fmt, out;
	for (size_t i = 0; i < f.size(); i++) {
		if (f[i] == '%' && f[i + 1] == 'd') {
			out += strf("%d", n);
			i++;
		} else if (f[i] == '%' && f[i + 1] == 's') {
			out += lit;
			i++;
		} else {
			out += f[i];
		}
	}
	return out;
}
static void enum_case(Ctx &x, uint64_t i)
{
	// all 65536 values in 5 spellings, 16384 per program
	static const char *names[] = {"hex upper", "hex lower", "binary", "decimal", "hex mixed with zeros"};
	int sp = (int)(i / 4);
	long lo = (long)(i % 4) * 16384;
	Str src;
	Bytes img;
	for (long v = lo; v < lo + 16384; v++) {
		Str l = sp == 0 ? strf("$%lX", v) : sp == 1 ? strf("$%lx", v) : sp == 3 ? strf("%ld", v) : in_base(v, sp == 2 ? 2 : 16, x.c);
		if (sp == 4)
			l = lead(l, Str(v % 13, '0'));
		src += "JMP " + l + "\n";
		img.push_back(0x4C);
		img.push_back(v & 0xFF);
		img.push_back(v >> 8);
	}
	x.use(src);
	x.nontrivial = true;
	x.cls(strf("enumerated %s", names[sp]), 16384);
	x.art("in.asm", esc(src, 500));
	Result r = x.run(src);
	expect_ok(x, r, img, -1, 0, strf("%s literals %ld..%ld", names[sp], lo, lo + 16383).c_str());
}
static void accept_case(Ctx &x)
{
	Choices &c = x.c;
	Str src = "*=$1000\n";
	Bytes img(0x1000);
	long n = x.scaled(1, 40), pc = 0x1000;
	auto emit = [&](std::initializer_list<int> b) {
		if ((size_t)pc + 3 > img.size())
			img.resize(std::max(img.size(), (size_t)pc + b.size()));
		for (int v : b)
			img[pc++] = v;
	};
	size_t top = 0x1000;
	bool any = false;
	for (int i = 0; i < n; i++) {
		const Place &p = places[c.below(14)];
		long v = p.kind == 1 ? edgy(c, 0, 255) : p.kind == 4 ? edgy(c, 0, 0xFFFF) : p.kind == 5 ? edgy(c, 0x100, 0xFFFF) : edgy(c, 0, 0xFFFF);
		if (p.kind == 3)
			v = edgy(c, 0, 0xFF00);
		static const int bases[] = {16, 2, 10};
		int base = c.pick(bases);
		Str lit = lead(in_base(v, base, c), zeros(c));
		x.cls(strf("accepted base %d, %s", base, lit.size() > 64 ? "over 64 characters" : lit.size() > 17 ? "over 17 characters" : "short"));
		if (pc > 0xFFF0) {
			src += "*=$2000\n";
			pc = 0x2000;
		}
		src += put(p, i, lit) + "\n";
		int lo = v & 0xFF, hi = (int)(v >> 8);
		Str f = p.fmt;
		if (f[1] == 'J')
			emit({f.find("JSR") != Str::npos ? 0x20 : f.find("(") != Str::npos ? 0x6C : 0x4C, lo, hi});
		else if (p.kind == 2) {
			src += strf("JMP K%d\n", i);
			emit({0x4C, lo, hi});
		} else if (p.kind == 1)
			emit({f.find("BNE") != Str::npos ? 0xD0 : f.find("#") != Str::npos ? 0xA9 : f.find("STA") != Str::npos ? 0x91 : 0xA1, lo});
		else if (p.kind == 3) {
			pc = v;
			src += strf("Q%d JMP Q%d\n", i, i);
			emit({0x4C, lo, hi});
		} else if (p.kind == 4) {
			if (v > 255)
				emit({0xAE, lo, hi});
			else
				emit({0xA6, lo});
		} else {
			emit({0xBD, lo, hi});
		}
		top = std::max(top, (size_t)pc);
		any = true;
	}
	if (img.size() > top)
		img.resize(top);
	// trailing never-written part does not exist in the file
	x.use(src);
	x.nontrivial = any;
	x.sample_text = src;
	x.art("in.asm", src);
	Result r = x.run(src);
	expect_accept(x, r, "literals");
	RefResult f = RefAsm::run(src);
	if (!f.ok)
		x.set_aside("the reference rejects the generated literals (harness error)");
	if (r.image != f.image)
		x.fail("literals: wrong output image: " + first_diff(f.image, r.image));
	if (!f.overlap && r.image != (img.size() == f.image.size() ? img : f.image))
		x.fail("literals: wrong output image");
	if (!f.overlap && img.size() == f.image.size() && img != f.image)
		x.set_aside("the two oracles disagree (harness error): " + first_diff(img, f.image));
}
static void reject_case(Ctx &x)
{
	Choices &c = x.c;
	const Place &p = places[c.below(14)];
	Str lit;
	int kind;
	static const int bases[] = {16, 2, 10};
	int base = c.pick(bases);
	int how = c.weighted({5, 3, 5, 2});
	if (how == 0) { // too big: near a power of two where truncation would hide it
		static const int bits[] = {16, 16, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 72, 80, 96, 112, 120};
		unsigned __int128 v = (unsigned __int128)1 << c.pick(bits);
		if (c.below(2))
			v *= 1 + c.below(9);
		v += c.below(2) ? c.below(256) : edgy(c, 0, 0xFFFF);
		lit = lead(in_base(v, base, c), zeros(c));
		kind = E_BIGLIT;
		x.cls("rejected: near a power of two");
	} else if (how == 1) { // too big: many digits
		static const int lens[] = {20, 21, 40, 63, 64, 65, 100, 130, 255, 256, 1000, 4100};
		int n = c.pick(lens);
		Str d;
		d += '1';
		for (int i = 1; i < n; i++)
			d += c.below(3) ? '0' : base == 2 ? '1' : '0' + (int)c.below(10);
		lit = lead((base == 16 ? "$" : base == 2 ? "%" : "") + d, zeros(c));
		kind = E_BIGLIT;
		x.cls("rejected: many digits");
	} else if (how == 2) { // a wrong character somewhere
		long v = c.range(0, 0xFFFF);
		lit = in_base(v, base, c);
		if (c.below(3) == 2)
			lit = lead(lit, zeros(c));
		static const char any[] = "_GgZzXxOohH.$%#=*:'\"@!?&+-/<>[]{}^~|`\\\x80\xe9\x01\x7f";
		static const char dec[] = "_ABCDEFabcdefXx.$%#=*:'\"@!?&+-/<>[]{}^~|`\\\x80\xe9\x01\x7f";
		static const char bin[] = "23456789ABCDEFabcdef_Xx.$%#=*:'\"@!?&+-/<>[]{}^~|`\\\x80\xe9\x01\x7f";
		const char *set = base == 16 ? any : base == 10 ? dec : bin;
		char ch = set[c.below((uint32_t)strlen(set))];
		size_t first = 1; // after the prefix, or after the first digit
		size_t at = first + c.below((uint32_t)(lit.size() - first + 1));
		if (c.below(2) && at < lit.size())
			lit[at] = ch;
		else
			lit.insert(lit.begin() + at, ch);
		kind = E_CHAR;
		x.cls("rejected: wrong digit");
	} else {
		lit = base == 2 ? "%" : "$";
		if (c.below(2) && strcmp(p.fmt + strlen(p.fmt) - 2, "%s") == 0) {
			static const char *tail[] = {" ; comment", " 12", ";", "\t$10", " A", "\r", ",X"};
			lit += c.pick(tail);
		}
		kind = E_CHAR;
		x.cls("rejected: no digits");
	}
	Str src;
	long pre = c.range(0, 4);
	for (long i = 0; i < pre; i++)
		src += c.below(2) ? "\tNOP\n" : strf("\tLDA #%ld\n", c.range(0, 255));
	src += put(p, 1, lit);
	src += "\n\tRTS\n";
	x.use(src);
	x.nontrivial = true;
	x.sample_text = src;
	x.art("in.asm", src);
	Result r = x.run(src);
	expect_reject(x, r, kind, pre + 1, "literal");
}
static void random_case(Ctx &x)
{
	if (x.c.below(2))
		reject_case(x);
	else
		accept_case(x);
}
static Reg reg({"C03", "all 65536 values in five spellings; random literals with up to thousands of digits and leading zeros in 14 places of the grammar, accepted ones checked by value, and rejected ones (above 65535 near powers of two, many digits, one wrong character, no digits) by kind of error and line. Non-trivial: at least one literal under test; distinct by source text.",
	[](bool) { return (uint64_t)20; }, enum_case, random_case, 200000, 2000000, {"plain"}});
}

// ============================================================ C04
namespace c04 {
static const long VALS[] = {0, 1, 0x41, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x101, 0x1FF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF};
static const int NV = sizeof VALS / sizeof *VALS;
static std::vector<int> mns()
{
	std::vector<int> m;
	for (size_t i = 0; i < isa().names.size(); i++)
		if (!isa().is_branch((int)i))
			m.push_back((int)i);
	return m;
}
static const int NSP = 7; // spellings: hex bin dec = .EQU .DEFINE address
static Str spelled(Choices &c, int mn, int shape, long v, int sp, Str *operand_line, long *at)
{
	Str o, pre;
	*at = 3;
	if (sp < 3)
		o = num_text(c, Num{v, sp, (int)c.below(3)}, (int)c.below(3));
	else
		o = "SYMB_1";
	if (sp == 3)
		pre = strf("SYMB_1 = $%lX\n\n", v);
	else if (sp == 4)
		pre = strf("SYMB_1 .EQU %ld\n\n", v);
	else if (sp == 5)
		pre = strf(".DEFINE SYMB_1 $%lX\n\n", v);
	else if (sp == 6)
		pre = strf(".ORG %ld\nSYMB_1\n", v);
	else
		pre = "\n\n";
	Style st;
	std::vector<Str> t{isa().names[mn]};
	for (auto &w : shape_tokens(shape, o))
		t.push_back(w);
	*operand_line = join_tokens(c, t, st, false);
	*at = 4;
	return pre + "*=$0300\n" + *operand_line + "\n";
}
static void one(Ctx &x, int mn, int shape, long v)
{
	int mode = resolve_mode(mn, shape, v, false);
	Bytes img;
	if (mode != MODE_NONE) {
		img.resize(0x300);
		img.push_back(isa().code[mn][mode]);
		img.push_back(v & 0xFF);
		if (mode_len(mode) == 3)
			img.push_back(v >> 8);
	}
	x.cls(mode == MODE_NONE ? "rejected in every spelling" : strf("encoded as %s in every spelling", mode_name(mode)));
	for (int sp = 0; sp < NSP; sp++) {
		Str line;
		long at;
		Str src = spelled(x.c, mn, shape, v, sp, &line, &at);
		x.use(src);
		if (sp == 6)
			x.sample_text = src;
		Result r = x.run(src);
		static const char *names[] = {"hexadecimal", "binary", "decimal", "constant (=)", "constant (.EQU)", "constant (.DEFINE)", "address label"};
		Str what = strf("%s, value %ld as %s", line.c_str(), v, names[sp]);
		x.artifacts.clear();
		x.art("in.asm", src);
		if (mode == MODE_NONE)
			expect_reject(x, r, E_MODE, at, what.c_str());
		else
			expect_ok(x, r, img, -1, 0, what.c_str());
	}
	x.nontrivial = true;
}
static void enum_case(Ctx &x, uint64_t i)
{
	static std::vector<int> m = mns();
	int v = (int)(i % NV);
	int sh = (int)(i / NV % (NSHAPES - S_O)) + S_O;
	int mn = m[i / NV / (NSHAPES - S_O)];
	one(x, mn, sh, VALS[v]);
}
static void random_case(Ctx &x)
{
	// one program, every symbol spelling replaced by another: identical images
	Choices &c = x.c;
	struct L { int mn, mode; long v; };
	std::vector<L> ls;
	long n = x.scaled(1, 50);
	for (long i = 0; i < n; i++) {
		const Isa::Combo &k = isa().combos[c.below((uint32_t)isa().combos.size())];
		if (k.mode == REL || mode_len(k.mode) == 1) {
			ls.push_back({isa().find("INX"), IMP, 0});
			continue;
		}
		ls.push_back({k.mn, k.mode, edgy(c, mode_min(k.mode, k.mn), mode_max(k.mode, k.mn))});
	}
	auto build = [&](int variant, long *syms) {
		Prog head, body;
		std::set<Str> seen;
		body.st.push_back(org_line(0x0400, variant & 1));
		for (auto &l : ls) {
			Stmt s = instr_lit(c, l.mn, l.mode, l.v);
			int sp = variant == 0 ? 0 : variant == 1 ? 3 : variant == 2 ? 6 : (int)c.below(NSP);
			if (mode_len(l.mode) > 1 && sp >= 3) {
				Str name = strf("%s%ld", sp == 6 ? "ADR" : "CON", l.v);
				if (seen.insert(name).second) {
					if (sp == 6) {
						head.st.push_back(org_line(l.v, (int)c.below(2)));
						head.st.push_back(label_line(name));
					} else {
						head.st.push_back(const_line(name, l.v, sp - 3, (int)c.below(3)));
					}
				}
				s.sym = true;
				s.name = name;
			}
			body.st.push_back(s);
		}
		for (auto &s : body.st)
			head.st.push_back(s);
		*syms = (long)seen.size();
		return head;
	};
	Bytes first;
	for (int v = 0; v < 4; v++) {
		long syms;
		Prog p = build(v, &syms);
		Image m = p.layout();
		Style st = random_style(c);
		Str src = render(c, p, st);
		x.use(src);
		x.artifacts.clear();
		x.art("in.asm", src);
		x.sample_text = src;
		Result r = x.run(src);
		expect_ok(x, r, m.img, -1, 0, "program");
		if (v == 0)
			first = r.image;
		else if (first != r.image)
			x.fail("spelling the operands differently changed the image: " + first_diff(first, r.image));
	}
	x.nontrivial = n >= 2;
	x.cls("random programs in four spellings");
}
static Reg reg({"C04", "all non-branch mnemonics x operand shapes x 14 edge values, each in seven spellings (three bases, three constant forms, address label), expecting the same encoding or the same rejection; random programs rewritten in four spellings. Non-trivial: at least one operand; distinct by the source texts.",
	[](bool) { return (uint64_t)mns().size() * (NSHAPES - S_O) * NV; }, enum_case, random_case, 40000, 400000, {"plain"}});
}

// ============================================================ C05
namespace c05 {
static const long PCS[] = {0, 1, 0x7D, 0x7E, 0x7F, 0x80, 0xFE, 0x100, 0x1FE, 0x7FFD, 0x7FFE, 0x7FFF, 0x8000, 0xFE00, 0xFF7D, 0xFF7E, 0xFF80, 0xFFFD, 0xFFFE};
static std::vector<long> offs()
{
	std::vector<long> o;
	for (long d : {128L, 129L, 127L, 126L, 1L, 2L, 3L, 64L, 130L, 255L, 256L, 257L, 384L, 32767L, 32768L, 32769L, 65408L, 65535L, 65534L}) {
		o.push_back(d);
		o.push_back(-d);
	}
	o.push_back(0);
	return o;
}
enum { BACK_LABEL, FWD_LABEL, BACK_CONST, FWD_CONST };
struct Item { int mn, kind; long pc, off; };
static const std::vector<Item> &items()
{
	static std::vector<Item> v = [] {
		std::vector<Item> r;
		std::vector<long> o = offs();
		for (int mn : branches())
			for (int k = 0; k < 4; k++)
				for (long pc : PCS)
					for (long d : o)
						if (pc + 2 + d >= 0 && pc + 2 + d <= 0xFFFF)
							r.push_back({mn, k, pc, d});
		std::vector<int> b = branches();
		for (int k = 0; k < 4; k++)
			for (long d = -320; d <= 320; d++)
				r.push_back({b[(d + 320) % 8], k, 0x1000 + (d & 1), d});
		// between any two ends of the address space and of its halves
		static const long ends[] = {0, 0x8000, 0x10000};
		for (int k = 0; k < 4; k++)
			for (long e : ends)
				for (long a = -140; a <= 140; a += 7)
					for (long f : ends)
						for (long z = -140; z <= 140; z += z < -127 || z > 125 || (z >= -3 && z <= 3) ? 1 : 11)
							if (e + a >= 0 && e + a <= 0xFFFE && f + z >= 0 && f + z <= 0xFFFF)
								r.push_back({b[(a + z + 280) % 8], k, e + a, f + z - e - a - 2});
		return r;
	}();
	return v;
}
static void judge_item(Ctx &x, const Item &t)
{
	long target = t.pc + 2 + t.off;
	Str def, src;
	Str br = strf("%s TARGET", isa().names[t.mn].c_str());
	long line;
	if (t.kind == BACK_LABEL) {
		src = strf("*=$%lX\nTARGET\n*=$%lX\n%s\n", target, t.pc, br.c_str());
		line = 4;
	} else if (t.kind == FWD_LABEL) {
		src = strf("*=$%lX\n%s\n*=$%lX\nTARGET\n", t.pc, br.c_str(), target);
		line = 2;
	} else if (t.kind == BACK_CONST) {
		src = strf("TARGET = %ld\n.ORG %ld\n%s\n", target, t.pc, br.c_str());
		line = 3;
	} else {
		src = strf(".ORG %ld\n%s\nTARGET .EQU %ld\n", t.pc, br.c_str(), target);
		line = 2;
	}
	x.use(src);
	x.nontrivial = true;
	x.sample_text = src;
	x.art("in.asm", src);
	Result r = x.run(src);
	static const char *kn[] = {"backward label", "forward label", "earlier constant", "later constant"};
	Str what = strf("%s at $%04lX to %s $%04lX, displacement %ld", isa().names[t.mn].c_str(), t.pc, kn[t.kind], target, t.off);
	if (t.off < -128 || t.off > 127) {
		x.cls(strf("out of range, %s", kn[t.kind]));
		expect_reject(x, r, E_OFFSET, line, what.c_str());
	} else {
		x.cls(strf("in range, %s", kn[t.kind]));
		Bytes img(t.pc);
		img.push_back(isa().code[t.mn][REL]);
		img.push_back(t.off & 0xFF);
		expect_ok(x, r, img, -1, 0, what.c_str());
	}
}
static void enum_case(Ctx &x, uint64_t i) { judge_item(x, items()[i]); }
// real code between branch and target
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	int kind = c.weighted({10, 8, 2, 1});
	if (kind == 3) { // any two places
		Item t;
		t.mn = c.pick(branches());
		t.kind = (int)c.below(4);
		t.pc = edgy(c, 0, 0xFFFE);
		t.off = edgy(c, 0, 0xFFFF) - t.pc - 2;
		return judge_item(x, t);
	}
	if (kind == 0) { // valid programs dense with branches
		GenOpts o;
		o.branchy = 70;
		o.max_lines = 80;
		o.raw_branches = c.below(4) == 3;
		Prog p = gen_prog(x, o);
		Image m = p.layout();
		Str src = render(c, p, random_style(c));
		int n = 0;
		for (auto &s : p.st)
			if (s.k == Stmt::INSTR && s.mode == REL && s.sym) {
				n++;
				x.cls(s.fwd ? "random forward branch" : "random backward branch");
			}
		x.use(src);
		x.nontrivial = n > 0;
		x.sample_text = src;
		x.art("in.asm", src);
		Result r = x.run(src);
		expect_ok(x, r, m.img, -1, 0, "program");
		return;
	}
	if (kind == 2) { // literal displacement, in and out of one byte
		long v = c.below(2) ? edgy(c, 0x100, 0xFFFF) : edgy(c, 0, 0xFF);
		std::vector<int> b = branches();
		int mn = c.pick(b);
		Str src = strf("*=$%lX\n\t%s %s\n", 0x600L, isa().names[mn].c_str(), num_text(c, gen_num(c, v), 1).c_str());
		x.use(src);
		x.nontrivial = true;
		x.art("in.asm", src);
		Result r = x.run(src);
		if (v > 0xFF) {
			expect_reject(x, r, E_MODE, 2, "branch literal above 255");
		} else {
			Bytes img(0x600);
			img.push_back(isa().code[mn][REL]);
			img.push_back(v);
			expect_ok(x, r, img, -1, 0, "branch literal");
		}
		x.cls("literal displacement");
		return;
	}
	// one branch over a stretch of real instructions, around the limit
	std::vector<int> b = branches();
	int mn = c.pick(b);
	bool fwd = c.below(2);
	long want = fwd ? c.range(120, 136) : c.range(118, 136); // bytes of filler
	Prog p;
	p.st.push_back(org_line(edgy(c, 0, 0xFE00), (int)c.below(2)));
	Prog fill;
	long got = 0;
	while (got < want) {
		const Isa::Combo &k = isa().combos[c.below((uint32_t)isa().combos.size())];
		int len = mode_len(k.mode);
		if (len > want - got)
			continue;
		fill.st.push_back(instr_lit(c, k.mn, k.mode, edgy(c, mode_min(k.mode, k.mn), mode_max(k.mode, k.mn))));
		got += len;
	}
	Stmt br = sym_line(mn, REL, "FAR_AWAY");
	size_t at;
	if (fwd) {
		at = p.st.size();
		p.st.push_back(br);
		p.st.insert(p.st.end(), fill.st.begin(), fill.st.end());
		p.st.push_back(label_line("FAR_AWAY"));
	} else {
		p.st.push_back(label_line("FAR_AWAY"));
		p.st.insert(p.st.end(), fill.st.begin(), fill.st.end());
		at = p.st.size();
		p.st.push_back(br);
	}
	long off = fwd ? want : -want - 2;
	Image m = p.layout();
	std::vector<long> lines;
	Str src = render(c, p, random_style(c), &lines);
	x.use(src);
	x.nontrivial = true;
	x.art("in.asm", src);
	Result r = x.run(src);
	if (off < -128 || off > 127) {
		x.cls("random out of range");
		expect_reject(x, r, E_OFFSET, lines[at], strf("displacement %ld", off).c_str());
	} else {
		x.cls("random near the limit, in range");
		expect_ok(x, r, m.img, -1, 0, strf("displacement %ld", off).c_str());
	}
}
static Reg reg({"C05", "8 branches x 19 locations x 39 displacements (limits, byte and word boundaries, wrap-around distances) x label/constant x before/after, plus every displacement -320..320 and those between any two ends of the address space and its halves; random programs dense with branches, and branches over random code near the limits. Oracle: arithmetic on the abstract program. Non-trivial: at least one branch to a symbol or an edge literal; distinct by source.",
	[](bool) { return (uint64_t)items().size(); }, enum_case, random_case, 200000, 1600000, {"plain"}});
}

// ============================================================ C06
namespace c06 {
static const long ROUND = 20000; // a multiple of the periods below
static const std::vector<long> &counts()
{
	static std::vector<long> v = [] {
		std::vector<long> r;
		for (long i = 1; i <= 140; i++)
			r.push_back(i);
		for (long i : {150, 200, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 514, 777, 1022, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 20000})
			r.push_back(i);
		// more than memory has room for: the same places are used again, with the same bytes
		for (long i : {32767, 32768, 32769, 65535, 65536, 65537, 131072, 140000})
			r.push_back(i);
		return r;
	}();
	return v;
}
static void enum_case(Ctx &x, uint64_t i)
{
	// n references of all kinds, then the definitions: in order, reversed, or shuffled
	long n = counts()[i / 3];
	int order = (int)(i % 3);
	Choices &c = x.c;
	Prog p;
	p.st.push_back(org_line(0x200));
	int jmp = mn_of("JMP"), jsr = mn_of("JSR");
	std::vector<int> br = branches();
	std::vector<Stmt> defs;
	std::vector<long> value; // of the references of the first round
	long pc = 0x200;
	for (long k = 0; k < n; k++) {
		Str name = strf("F%ld", k / (k % 5 == 4 ? 2 : 1));
		int how = (int)(k % 4);
		long slot = k % ROUND;
		if (k && !slot) {
			p.st.push_back(org_line(0x200));
			pc = 0x200;
		}
		if (k % 5 == 4) {
			name = strf("F%ld", k - 1); // shared with the previous reference
			p.st.push_back(sym_line(jmp, k % 2 ? IND : ABS, name));
			pc += 3;
			if (k < ROUND)
				value.push_back(0);
			continue;
		}
		long lo = 0, hi = 0xFFFF;
		if (how == 3) {
			p.st.push_back(sym_line(br[k / 4 % 8], REL, name));
			lo = std::max(0L, pc + 2 - 128);
			hi = pc + 2 + 127;
			pc += 2;
		} else {
			p.st.push_back(sym_line(how == 1 ? jsr : jmp, how == 2 ? IND : ABS, name));
			pc += 3;
		}
		if (k < ROUND)
			value.push_back(std::min(edgy(c, lo, hi), 0xFFFFL));
		defs.push_back(const_line(name, value[slot], (int)(k % 3)));
	}
	if (order == 1)
		std::reverse(defs.begin(), defs.end());
	else if (order == 2)
		c.shuffle(defs);
	for (auto &d : defs)
		p.st.push_back(d);
	Image m = p.layout();
	Str src = render_plain(p);
	x.use(src);
	x.nontrivial = true;
	x.cls("enumerated counts of references", 1);
	x.art("in.asm", esc(src, 1500));
	Result r = x.run(src);
	expect_ok(x, r, m.img, -1, 0, strf("%ld forward references", n).c_str());
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	int kind = c.weighted({6, 2, 2});
	if (kind == 0) {
		GenOpts o;
		o.branchy = 60;
		o.max_lines = c.below(8) == 7 ? 400 : 70;
		o.raw_branches = false;
		Prog p = gen_prog(x, o);
		Image m = p.layout();
		int n = 0;
		std::map<Str, long> val;
		for (auto &s : p.st) {
			n += s.k == Stmt::INSTR && s.fwd;
			if (s.k == Stmt::CONST)
				val[s.label] = s.num.v;
			else if (!s.label.empty())
				val[s.label] = s.pc;
		}
		Str src = render(c, p, random_style(c));
		x.use(src);
		x.nontrivial = n > 0;
		x.cls("forward references in random programs", n);
		x.sample_text = src;
		x.art("in.asm", src);
		Result r = x.run(src);
		expect_ok(x, r, m.img, -1, 0, "program with forward references");
		// the same program with every symbol defined beforehand
		Prog q;
		for (auto &v : val)
			q.st.push_back(const_line(v.first, v.second, (int)c.below(3)));
		for (auto s : p.st) {
			if (s.k == Stmt::CONST || s.k == Stmt::LABEL)
				continue;
			s.label.clear();
			q.st.push_back(s);
		}
		Str src2 = render(c, q, Style());
		x.art("in.asm with every symbol defined first", src2);
		Result r2 = x.run(src2);
		expect_accept(x, r2, "program with every symbol defined first");
		if (r2.image != r.image)
			x.fail("forward and backward references assemble differently: " + first_diff(r2.image, r.image));
		return;
	}
	GenOpts o;
	o.max_lines = 40;
	o.branchy = 40;
	Names names;
	for (auto *s : {"NOSUCH1", "NOSUCH2", "LATER1"})
		names.reserve(s);
	Prog p = gen_prog(x, o, &names);
	size_t at = c.below((uint32_t)p.st.size() + 1);
	std::vector<long> lines;
	if (kind == 1) {
		// a reference to a symbol that is never defined; maybe several
		static const char *mn[] = {"JMP", "JSR", "BNE", "BCC"};
		std::vector<Str> t{c.pick(mn), "NOSUCH1"};
		if (t[0] == "JMP" && c.below(2))
			t = {"JMP", "(", "NOSUCH1", ")"};
		if (c.below(3) == 2) {
			size_t at2 = at + c.below((uint32_t)(p.st.size() - at) + 1);
			p.st.insert(p.st.begin() + at2, raw_line({"JMP", c.below(2) ? "NOSUCH2" : "NOSUCH1"}));
		}
		p.st.insert(p.st.begin() + at, raw_line(t));
		Str src = render(c, p, random_style(c), &lines);
		// the extra bytes may move later code; then other faults are possible
		RefResult f = RefAsm::run(src);
		if (f.past_end || f.err != E_MISSING || f.line != lines[at]) {
			x.cls("undefined symbol masked by another fault");
			return;
		}
		x.use(src);
		x.nontrivial = true;
		x.cls("undefined symbol");
		x.sample_text = src;
		x.art("in.asm", src);
		Result r = x.run(src);
		expect_reject(x, r, E_MISSING, lines[at], "reference to an undefined symbol");
	} else {
		// a forward reference by an instruction that may not have one
		std::vector<int> ms;
		for (size_t i = 0; i < isa().names.size(); i++)
			if (!isa().is_branch((int)i) && !isa().is_jump((int)i))
				ms.push_back((int)i);
		int m = c.pick(ms);
		int sh = S_O + (int)c.below(NSHAPES - S_O);
		std::vector<Str> t{isa().names[m]};
		for (auto &w : shape_tokens(sh, "LATER1"))
			t.push_back(w);
		p.st.insert(p.st.begin() + at, raw_line(t));
		if (c.below(3))
			p.st.push_back(c.below(2) ? label_line("LATER1") : const_line("LATER1", edgy(c, 0, 0xFFFF), (int)c.below(3)));
		Str src = render(c, p, random_style(c), &lines);
		x.use(src);
		x.nontrivial = true;
		x.cls("illegal forward reference");
		x.sample_text = src;
		x.art("in.asm", src);
		Result r = x.run(src);
		expect_reject(x, r, E_FWD, lines[at], "forward reference by a non-branch, non-jump instruction");
	}
}
static Reg reg({"C06", "n pending references for every n up to 140 and around every power of two up to 65536 and more (rewriting the same memory), definitions in order / reversed / shuffled; random programs dense with forward references, each also compared with its variant where all symbols are defined first; undefined symbols and forward references by other instructions. Non-trivial: at least one forward reference; distinct by source.",
	[](bool) { return (uint64_t)counts().size() * 3; }, enum_case, random_case, 160000, 1200000, {"plain"}});
}
