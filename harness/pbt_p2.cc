// C07-C12: layout, labels, symbols, letter case, text layout, directive forms
#include "gen.h"
#include <algorithm>
#include <numeric>

static int mn_of(const char *s) { return isa().find(s); }
static Stmt nop() { Stmt s; s.k = Stmt::INSTR; s.mn = mn_of("NOP"); s.mode = IMP; return s; }
static std::vector<int> of_len(int len)
{
	std::vector<int> r;
	for (size_t i = 0; i < isa().combos.size(); i++)
		if (mode_len(isa().combos[i].mode) == len)
			r.push_back((int)i);
	return r;
}
// an instruction of the given length with a literal operand
static Stmt any_instr(Choices &c, int len)
{
	static const std::vector<int> by[4] = {{}, of_len(1), of_len(2), of_len(3)};
	const Isa::Combo &k = isa().combos[c.pick(by[len])];
	Stmt s = instr_lit(c, k.mn, k.mode, edgy(c, mode_min(k.mode, k.mn), mode_max(k.mode, k.mn)));
	if (k.mode == ACC)
		s.explicit_a = c.below(2);
	return s;
}

// ============================================================ C07
namespace c07 {
// enumeration: every address once per program size, in permuted order; then the
// shapes of programs at the ends of memory
static const int BLOCK = 2048;
static uint64_t count(bool) { return 65536 / BLOCK * 3 + 64 + 8; }
static void enum_case(Ctx &x, uint64_t i)
{
	Choices &c = x.c;
	Prog p;
	Str what;
	uint64_t nb = 65536 / BLOCK * 3;
	if (i < nb) {
		int len = 1 + (int)(i % 3);
		long lo = (long)(i / 3) * BLOCK;
		std::vector<long> at;
		for (long a = lo; a + len <= lo + BLOCK; a += len)
			at.push_back(a);
		c.shuffle(at);
		for (long a : at) {
			p.st.push_back(org_line(a, (int)c.below(2)));
			p.st.push_back(any_instr(c, len));
		}
		what = strf("%d-byte instructions at every place in $%04lX..$%04lX, in random order", len, lo, lo + BLOCK - 1);
		x.cls("enumerated placements", at.size());
	} else if (i < nb + 64) {
		// the last code of the file ends exactly at an interesting place
		static const long ends[] = {1, 2, 3, 0xFF, 0x100, 0x101, 0x7FFF, 0x8000, 0x8001, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1000, 0xFFF, 0x200};
		int k = (int)(i - nb);
		long end = ends[k % 16];
		int len = (int)std::min<long>(1 + (k / 16) % 3, end);
		int shape = k / 16;
		if (shape >= 1)
			p.st.push_back(org_line(end - len, k & 1));
		if (shape == 0) // continuous code from 0 up to the end
			for (long a = 0; a < end;) {
				int n = (int)std::min<long>(end - a, 1 + c.below(3));
				p.st.push_back(any_instr(c, n));
				a += n;
			}
		else
			p.st.push_back(any_instr(c, len));
		if (shape == 2)
			p.st.push_back(org_line(0xFFFF)); // an origin alone does not extend the file
		if (shape == 3 && end > 8) {
			p.st.push_back(org_line(0));
			p.st.push_back(any_instr(c, 2));
		}
		what = strf("code ending at $%04lX", end);
		x.cls("enumerated ends", 1);
	} else {
		int k = (int)(i - nb - 64);
		if (k == 1) p.st.push_back(org_line(0x1234));
		if (k == 2) p.st.push_back(org_line(0xFFFF, 1));
		if (k == 3) p.st.push_back(const_line("K", 0xFFFF));
		if (k == 4) { p.st.push_back(org_line(0xFFFF)); p.st.push_back(label_line("L")); }
		if (k == 5) { Stmt s; s.k = Stmt::END; p.st.push_back(s); }
		if (k == 6) for (int j = 0; j < 300; j++) p.st.push_back(j % 3 ? Stmt() : org_line(j * 200));
		if (k == 7) { p.st.push_back(label_line("L")); p.st.push_back(const_line("M", 1, 1)); p.st.push_back(const_line("N", 1, 2)); }
		what = "program without code";
		x.cls("programs without code", 1);
	}
	Image m = p.layout();
	Str src = render(c, p, Style());
	x.use(src);
	x.nontrivial = true;
	x.art("in.asm", esc(src, 800));
	Result r = x.run(src);
	expect_ok(x, r, m.img, m.bytes, m.symbols, what.c_str());
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	Prog p;
	int kind = c.weighted({3, 4, 3});
	if (kind == 0) { // segments that may not overlap, with forward references
		GenOpts o;
		o.max_lines = 50;
		p = gen_prog(x, o);
	} else if (kind == 1) { // small overlapping segments in a narrow window
		long lo = edgy(c, 0, 0xFF00), span = c.range(4, 40);
		long n = x.scaled(1, 60), pc = 0;
		std::vector<Str> labs;
		for (long i = 0; i < n; i++) {
			if (c.below(3) == 0 || i == 0) {
				pc = lo + c.range(0, span);
				p.st.push_back(org_line(pc, (int)c.below(2)));
			}
			if (pc > 0xFFFD) {
				pc = lo;
				p.st.push_back(org_line(pc));
			}
			Stmt s = any_instr(c, 1 + (int)c.below(3));
			if (c.below(5) == 0) {
				s.label = strf("L%ld", i);
				labs.push_back(s.label);
			}
			if (!labs.empty() && c.below(4) == 0) {
				Stmt j = sym_line(mn_of(c.below(2) ? "JMP" : "JSR"), ABS, c.pick(labs));
				j.label = s.label;
				s = j;
			}
			pc += mode_len(s.mode);
			p.st.push_back(s);
			if (c.below(10) == 0)
				p.st.push_back(const_line(strf("K%ld", i), c.range(0, 0xFFFF), (int)c.below(3)));
		}
	} else { // far apart segments in any order
		long n = x.scaled(1, 40);
		for (long i = 0; i < n; i++) {
			p.st.push_back(org_line(edgy(c, 0, 0xFFF0), (int)c.below(2)));
			for (long k = c.range(0, 3); k > 0; k--)
				p.st.push_back(any_instr(c, 1 + (int)c.below(3)));
			if (c.below(3) == 0)
				p.st.push_back(label_line(strf("L%ld", i)));
		}
		if (c.below(2)) {
			std::vector<Str> labs;
			for (auto &s : p.st)
				if (s.k == Stmt::LABEL)
					labs.push_back(s.label);
			p.st.push_back(org_line(0x8000));
			for (auto &l : labs)
				p.st.push_back(sym_line(mn_of("JMP"), ABS, l));
		}
	}
	Image m = p.layout();
	Str src = render(c, p, random_style(c));
	x.use(src);
	int orgs = 0, ins = 0;
	for (auto &s : p.st) {
		orgs += s.k == Stmt::ORG;
		ins += s.k == Stmt::INSTR;
	}
	x.nontrivial = orgs >= 1 && ins >= 1;
	x.cls(m.overlap ? "overlapping segments" : orgs > 1 ? "several segments" : "one segment");
	x.cls("last byte of memory written", m.img.size() == 65536);
	x.sample_text = src;
	x.art("in.asm", src);
	Result r = x.run(src);
	expect_ok(x, r, m.img, m.bytes, m.symbols, "program with location directives");
}
static Reg reg({"C07", "1/2/3-byte instructions placed at every address by location directives in permuted order, code ending at every boundary, programs without code; random programs of segments (disjoint with forward references, overlapping in a narrow window without them, far apart in any order). Oracle: an array of memory written in source order. Non-trivial: at least one location directive and one instruction; distinct by source.",
	count, enum_case, random_case, 180000, 2400000, {"plain"}});
}

// ============================================================ C08
namespace c08 {
struct P2 { Prog p; std::vector<std::pair<size_t, long>> abs_label; }; // statements whose operand is an address
// one contiguous piece of code with only address labels; valid at any origin from 256
static Prog build(Ctx &x, long origin, int *nlab, int *nself)
{
	Choices &c = x.c;
	const Isa &I = isa();
	long n = x.scaled(2, 90);
	Prog p;
	p.st.push_back(org_line(origin, (int)c.below(2)));
	Names names;
	struct Where { Str n; long off; size_t idx; };
	std::vector<Where> labs;
	std::vector<long> offs;
	long off = 0;
	std::vector<Stmt> body;
	for (long i = 0; i < n; i++) {
		if (c.below(6) == 0) {
			Stmt s = label_line(names.fresh(c));
			labs.push_back({s.label, off, body.size()});
			offs.push_back(off);
			body.push_back(s);
			if (c.below(4) == 0)
				continue;
		}
		Stmt s;
		int k = c.weighted({4, 3, 3, 2});
		if (k == 0) {
			s = any_instr(c, 1 + (int)c.below(3));
		} else {
			s.k = Stmt::INSTR;
			s.sym = true;
			if (k == 1) {
				s.mn = mn_of(c.below(2) ? "JMP" : "JSR");
				s.mode = s.mn == mn_of("JMP") && c.below(2) ? IND : ABS;
			} else if (k == 2) {
				static const char *b[] = {"BCC", "BCS", "BEQ", "BMI", "BNE", "BPL", "BVC", "BVS"};
				s.mn = mn_of(c.pick(b));
				s.mode = REL;
			} else {
				std::vector<int> ok;
				for (size_t q = 0; q < I.combos.size(); q++)
					if ((I.combos[q].mode == ABS || I.combos[q].mode == ABX || I.combos[q].mode == ABY) && !I.is_jump(I.combos[q].mn))
						ok.push_back((int)q);
				auto &q = I.combos[c.pick(ok)];
				s.mn = q.mn;
				s.mode = q.mode;
			}
		}
		if (c.below(4) == 0) {
			s.label = names.fresh(c);
			labs.push_back({s.label, off, body.size()});
		}
		offs.push_back(off);
		body.push_back(s);
		off += mode_len(s.mode);
	}
	if (labs.empty() || c.below(3) == 0) {
		Stmt s = label_line(names.fresh(c));
		labs.push_back({s.label, off, body.size()});
		offs.push_back(off);
		body.push_back(s);
	}
	*nlab = (int)labs.size();
	for (size_t i = 0; i < body.size(); i++) {
		Stmt &s = body[i];
		if (s.k != Stmt::INSTR || !s.sym)
			continue;
		std::vector<size_t> ok;
		for (size_t l = 0; l < labs.size(); l++) {
			long d = labs[l].off - (offs[i] + 2);
			bool before = labs[l].idx <= i;
			if (s.mode == REL ? d >= -128 && d <= 127 : I.is_jump(s.mn) || before)
				ok.push_back(l);
		}
		if (ok.empty()) { // nothing it could name
			s.sym = false;
			s.raw = s.mode == REL;
			s.num = gen_num(c, s.mode == REL ? c.range(0, 255) : edgy(c, 0x100, 0xFFFF));
			continue;
		}
		s.name = labs[c.pick(ok)].n;
		*nself += s.name == s.label;
	}
	// a table naming every label
	if (c.below(2))
		for (auto &l : labs)
			body.push_back(sym_line(mn_of(c.below(2) ? "JMP" : "JSR"), ABS, l.n));
	for (auto &s : body)
		p.st.push_back(s);
	return p;
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	int nlab = 0, nself = 0;
	long a = edgy(c, 0x100, 0xF000);
	Prog p = build(x, a, &nlab, &nself);
	long size = 0;
	for (auto &s : p.st)
		if (s.k == Stmt::INSTR)
			size += mode_len(s.mode);
	long top = 0x10000 - size;
	long b = edgy(c, 0x100, top);
	if (c.below(4) == 0) // all of it up against the end of memory; a label after the last byte must not exist
		b = top;
	bool tail_label = p.st.back().k == Stmt::LABEL;
	if (b == top && tail_label)
		b--;
	if (b < 0x100)
		b = 0x100;
	Image ma = p.layout();
	Prog q = p;
	q.st[0].num.v = b;
	Image mb = q.layout();
	Choices keep = c;
	Style st = random_style(c);
	Str sa = render(c, p, st);
	Str sb = render(c, q, random_style(c));
	x.use(sa);
	x.nontrivial = nlab > 0;
	x.cls("labels", nlab);
	x.cls("instructions that name their own label", nself);
	x.cls("programs moved", a != b);
	x.sample_text = sa;
	x.art("in.asm", sa);
	Result ra = x.run(sa);
	expect_ok(x, ra, ma.img, ma.bytes, ma.symbols, strf("program at $%04lX", a).c_str());
	x.art("the same program at another origin", sb);
	Result rb = x.run(sb);
	expect_ok(x, rb, mb.img, mb.bytes, mb.symbols, strf("program moved to $%04lX", b).c_str());
	// relation between the two outputs alone
	std::vector<int> delta(size, 0);
	long off = 0;
	for (auto &s : p.st)
		if (s.k == Stmt::INSTR) {
			if (s.sym && s.mode != REL)
				delta[off + 1] = 1;
			off += mode_len(s.mode);
		}
	for (long i = 0; i < size; i++) {
		if (delta[i]) {
			long va = ra.image[a + i] | ra.image[a + i + 1] << 8, vb = rb.image[b + i] | rb.image[b + i + 1] << 8;
			if (vb - va != b - a)
				x.fail(strf("an operand that names a label did not move with the program: $%04lX became $%04lX, program moved by %ld", va, vb, b - a));
			i++;
		} else if (ra.image[a + i] != rb.image[b + i]) {
			x.fail(strf("a byte that names no label changed when the program was moved: offset %ld", i));
		}
	}
}
// every label position relative to every instruction form
static uint64_t count(bool) { return 65536 / 1024 + isa().combos.size(); }
static void enum_case(Ctx &x, uint64_t i)
{
	Choices &c = x.c;
	Prog p;
	Str what;
	if (i < 64) { // a label at every address, alone or in front of an instruction, each jumped to
		long lo = (long)i * 1024;
		for (long a = lo; a < lo + 1024; a++) {
			p.st.push_back(org_line(a, (int)c.below(2)));
			Str n = strf("AT%lX", a);
			if (c.below(2) && a < 0xFFFF) {
				Stmt s = nop();
				s.label = n;
				p.st.push_back(s);
			} else {
				p.st.push_back(label_line(n));
			}
		}
		std::vector<long> v(1024);
		std::iota(v.begin(), v.end(), lo);
		c.shuffle(v);
		p.st.push_back(org_line(lo < 0x8000 ? 0xC000 : 0x2000));
		for (long a : v)
			p.st.push_back(sym_line(mn_of("JMP"), c.below(2) ? IND : ABS, strf("AT%lX", a)));
		what = strf("labels at $%04lX..$%04lX", lo, lo + 1023);
		x.cls("labelled addresses", 1024);
	} else { // a label right after each instruction form, and one in front of it
		auto &k = isa().combos[i - 64];
		p.st.push_back(org_line(0x3000));
		for (int j = 0; j < 20; j++) {
			Stmt s = instr_lit(c, k.mn, k.mode, edgy(c, mode_min(k.mode, k.mn), mode_max(k.mode, k.mn)));
			s.label = strf("BEFORE%d", j);
			p.st.push_back(s);
			if (j % 2)
				p.st.push_back(label_line(strf("AFTER%d", j)));
		}
		for (int j = 0; j < 20; j++) {
			p.st.push_back(sym_line(mn_of("JMP"), ABS, strf("BEFORE%d", j)));
			if (j % 2)
				p.st.push_back(sym_line(mn_of("JSR"), ABS, strf("AFTER%d", j)));
		}
		what = strf("labels around %s %s", isa().names[k.mn].c_str(), mode_name(k.mode));
		x.cls("instruction forms between labels", 1);
	}
	Image m = p.layout();
	Str src = render(c, p, Style());
	x.use(src);
	x.nontrivial = true;
	x.art("in.asm", esc(src, 1000));
	Result r = x.run(src);
	expect_ok(x, r, m.img, -1, 0, what.c_str());
}
static Reg reg({"C08", "a label at each of the 65536 addresses and around each instruction form, jumped to afterwards; random contiguous programs whose operands name address labels, assembled at two origins. Oracles: abstract layout; the relation between the two outputs (label operands differ by the distance moved, all else equal). Non-trivial: at least one label; distinct by source.",
	count, enum_case, random_case, 100000, 1600000, {"plain"}});
}

// ============================================================ C09
namespace c09 {
static const char REST[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_";
// families of names built to be confused with one another
struct Family {
	int kind;
	Str prefix;
	int bits;
};
static Str name_of(int kind, uint64_t i, uint64_t salt)
{
	switch (kind) {
	case 0: return strf("L%llu", (unsigned long long)i);
	case 1: { // equal djb2-style hashes: every block is "AQ" or "B0"
		Str s = strf("H%llu_", (unsigned long long)salt % 10);
		for (int b = 0; b < 15; b++)
			s += (i >> b) & 1 ? "B0" : "AQ";
		return s;
	}
	case 2: { // 63 characters, differing only at the end
		Str t = strf("%llu", (unsigned long long)i);
		return Str("Z") + Str(62 - t.size(), '_') + t;
	}
	case 3: { // 63 characters, differing only near the front
		Str t = strf("Q%llu_", (unsigned long long)i);
		return t + Str(63 - t.size(), 'Q');
	}
	case 4: return Str(1 + i % 63, "BCDEFGHIJKLMNOPQRSTUVWZ"[(i / 63) % 23]) ; // prefixes of one another
	case 5: { // every short name
		Str s;
		uint64_t v = i;
		s += (char)('B' + v % 22);
		v /= 22;
		while (v) {
			v--;
			s += REST[v % 37];
			v /= 37;
		}
		return s;
	}
	case 6: { // anagrams
		Str s = "MNOPQRST";
		for (size_t k = s.size() - 1; k > 0; k--) {
			std::swap(s[k], s[i % (k + 1)]);
			i /= k + 1;
		}
		return s;
	}
	default: { // middles
		Str t = strf("%llX", (unsigned long long)i * 2654435761u);
		return Str(20, 'K') + t + Str(20, 'K');
	}
	}
}
static const int KINDS = 8;
static uint64_t distinct_limit(int kind)
{
	return kind == 1 ? 32768 : kind == 4 ? 63 * 23 : kind == 6 ? 40320 : 1000000;
}
static std::vector<Str> names(int kind, uint64_t n, uint64_t salt)
{
	std::vector<Str> v;
	std::set<Str> seen;
	for (uint64_t i = 0; v.size() < n && i < distinct_limit(kind); i++) {
		Str s = name_of(kind, i, salt);
		if (reserved_word(s) || !seen.insert(s).second)
			continue;
		v.push_back(s);
	}
	for (uint64_t i = 0; v.size() < n; i++) { // other names to make up the number
		Str s = strf("FILL%llu", (unsigned long long)i);
		if (seen.insert(s).second)
			v.push_back(s);
	}
	return v;
}
static const std::vector<std::pair<int, int>> &todo(bool thorough)
{
	static std::vector<std::pair<int, int>> q, t;
	if (q.empty()) {
		std::vector<int> ns;
		for (int n = 1; n <= 150; n++)
			ns.push_back(n);
		for (int n : {255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 3000})
			ns.push_back(n);
		for (int n : ns)
			for (int k = 0; k < KINDS; k++)
				q.push_back({k, n});
		for (int k = 0; k < KINDS; k++)
			q.push_back({k, k == 1 ? 6000 : 20000});
		q.push_back({0, 34000});
		q.push_back({5, 70000});
		t = q;
		for (int k : {0, 2, 3, 5, 7})
			t.push_back({k, 120000});
		t.push_back({1, 20000});
	}
	return thorough ? t : q;
}
static void enum_case(Ctx &x, uint64_t i)
{
	Choices &c = x.c;
	auto k = todo(x.thorough)[i];
	std::vector<Str> v = names(k.first, k.second, i);
	c.shuffle(v);
	std::map<Str, long> val;
	Str src;
	Bytes img;
	auto jump = [&](const Str &n, long a) {
		src += "JMP " + n + "\n";
		img.push_back(0x4C);
		img.push_back(a & 0xFF);
		img.push_back(a >> 8);
	};
	long pc = 0;
	for (size_t j = 0; j < v.size(); j++) {
		long a = (long)((mix64(j * 77 + i) >> 5) & 0xFFFF);
		int form = (int)c.below(4);
		if (form == 3 && pc < 0xF000) {
			a = pc;
			src += v[j] + (c.below(2) ? ":\n" : "\n");
		} else if (form == 2)
			src += ".DEFINE " + v[j] + strf(" %ld\n", a);
		else if (form == 1)
			src += v[j] + strf(" .EQU $%lX\n", a);
		else
			src += v[j] + strf(" = $%lx\n", a);
		val[v[j]] = a;
		if (v.size() <= 3000 && c.below(3) == 0) { // an early reference to something defined
			const Str &w = v[c.below((uint32_t)j + 1)];
			jump(w, val[w]);
			pc += 3;
		}
	}
	std::vector<Str> ask = v;
	if (c.below(2))
		c.shuffle(ask);
	if (ask.size() > 20000)
		ask.resize(20000);
	while (pc + 3 * (long)ask.size() > 65000)
		ask.pop_back();
	for (auto &w : ask) {
		jump(w, val[w]);
		pc += 3;
	}
	x.use(src);
	x.nontrivial = true;
	x.cls(strf("name family %d", k.first), 1);
	x.cls("symbols defined in enumerated programs", v.size());
	x.art("in.asm", esc(src, 1500));
	RunOpts o;
	o.cpu_s = 60;
	Result r = x.run(src, o);
	expect_ok(x, r, img, pc, (long)v.size(), strf("%d symbols of name family %d", k.second, k.first).c_str());
	// one more definition of an existing name, and a reference to a name that does not exist
	Str twice = src;
	Str again = v[c.below((uint32_t)v.size())];
	int form = (int)c.below(5);
	Str line = form == 0 ? again + " = 1" : form == 1 ? again + " .EQU 1" : form == 2 ? ".DEFINE " + again + " 1" : form == 3 ? again : again + " NOP";
	long ln = (long)std::count(src.begin(), src.end(), '\n') + 1;
	Result r2 = x.run(twice + line + "\nNOP\n", o);
	expect_reject(x, r2, E_REDEF, ln, strf("second definition of %s", again.c_str()).c_str());
	Str other;
	std::set<Str> have(v.begin(), v.end());
	for (uint64_t q = 0; q < 5000 && (other.empty() || have.count(other) || reserved_word(other)); q++)
		other = name_of(k.first, (k.second + 3 + q) % distinct_limit(k.first), i);
	if (have.count(other) || reserved_word(other))
		other = "NOTDEFINED";
	Result r3 = x.run(src + "JMP " + other + "\n", o);
	expect_reject(x, r3, E_MISSING, ln, strf("reference to %s, which is not defined", other.c_str()).c_str());
	Result r4 = x.run(src + "LDA " + other + "\n", o);
	expect_reject(x, r4, E_FWD, ln, strf("reference to %s, which is not defined", other.c_str()).c_str());
}
// a history of definitions and look-ups against a map
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	long n = x.scaled(2, 260);
	std::map<Str, long> m;
	std::vector<Str> made;
	std::map<Str, std::vector<std::pair<size_t, long>>> fwd; // pending: image offset
	Names nm;
	Str src;
	Bytes img;
	std::vector<std::pair<size_t, Str>> patch;
	long lines = 0, first_missing_line = 0;
	int fams = (int)c.range(1, 3);
	std::vector<int> fam;
	for (int i = 0; i < fams; i++)
		fam.push_back((int)c.below(KINDS + 1));
	uint64_t salt = c.below(10);
	auto fresh = [&]() -> Str {
		for (int t = 0; t < 20; t++) {
			int f = c.pick(fam);
			Str s;
			if (f == KINDS) {
				s = nm.fresh(c);
			} else {
				uint64_t range = std::min<uint64_t>(distinct_limit(f), c.below(3) ? 64 : 5000);
				s = name_of(f, c.below((uint32_t)range), salt);
			}
			if (!reserved_word(s))
				return s;
		}
		return "FALLBACK" + strf("%zu", made.size());
	};
	Str what;
	int expect = E_NONE;
	long expect_line = 0;
	int redefs = 0, looks = 0;
	for (long i = 0; i < n && expect == E_NONE; i++) {
		int op = c.weighted({5, 6, 2});
		lines++;
		Str cased;
		if (op == 0 || m.empty()) {
			Str s = fresh();
			bool have = m.count(s);
			if (have && c.below(4) != 3) { // rarely let a redefinition happen
				lines--;
				continue;
			}
			cased = recase(c, s, c.below(3) ? 0 : 2);
			long v = edgy(c, 0, 0xFFFF);
			int form = (int)c.below(5);
			if (form >= 3) {
				v = (long)img.size();
				src += cased + (c.below(2) ? ":" : "");
				if (form == 4) {
					src += " NOP";
				}
			} else if (form == 2)
				src += ".define " + cased + strf(" %ld", v);
			else
				src += cased + (form ? " .EQU " : " = ") + strf("%ld", v);
			src += "\n";
			if (have) {
				expect = E_REDEF;
				expect_line = lines;
				redefs++;
				break;
			}
			if (form == 4)
				img.push_back(0xEA);
			m[s] = v;
			made.push_back(s);
		} else if (op == 1) {
			Str s = made[c.below((uint32_t)made.size())];
			src += "JMP " + recase(c, s, c.below(3) ? 0 : 2) + "\n";
			img.push_back(0x4C);
			img.push_back(m[s] & 0xFF);
			img.push_back(m[s] >> 8);
			looks++;
		} else { // a name that may or may not be defined (yet)
			Str s = fresh();
			src += "JSR " + s + "\n";
			img.push_back(0x20);
			patch.push_back({img.size(), s});
			img.push_back(0);
			img.push_back(0);
			if (!first_missing_line)
				first_missing_line = 0;
			fwd[s].push_back({img.size() - 2, lines});
		}
	}
	if (expect == E_NONE) {
		// define the missing ones, except sometimes one of them
		bool leave = c.below(6) == 5;
		Str left;
		long best = 0;
		for (auto &f : fwd) {
			if (m.count(f.first))
				continue;
			if (leave && left.empty() && c.below(3) == 0) {
				left = f.first;
				best = f.second[0].second;
				continue;
			}
			long v = edgy(c, 0, 0xFFFF);
			src += f.first + strf(" = %ld\n", v);
			lines++;
			m[f.first] = v;
		}
		if (!left.empty()) {
			expect = E_MISSING;
			expect_line = best;
		}
	}
	x.use(src);
	x.nontrivial = m.size() >= 2 && looks >= 1;
	x.sample_text = src;
	x.art("in.asm", src);
	Result r = x.run(src);
	x.cls(expect == E_NONE ? "histories of correct definitions" : expect == E_REDEF ? "histories ending in a redefinition" : "histories with an undefined name");
	if (expect != E_NONE) {
		expect_reject(x, r, expect, expect_line, "history of definitions");
		return;
	}
	for (auto &q : patch) {
		img[q.first] = m[q.second] & 0xFF;
		img[q.first + 1] = m[q.second] >> 8;
	}
	expect_ok(x, r, img, (long)img.size(), (long)m.size(), "history of definitions");
	if (c.below(8) == 7) { // names that are too long are refused, whatever they start with
		Str base = made[c.below((uint32_t)made.size())];
		static const int lens[] = {64, 65, 66, 100, 127, 128, 129, 256, 1000};
		Str l = base + Str(c.pick(lens) - std::min<size_t>(base.size(), 63), base.back() == '_' ? 'Z' : '_');
		if (l.size() < 64)
			l += Str(64 - l.size(), 'Z');
		static const char *f[] = {"%s = 1", "%s NOP", "%s", "JMP %s", "BNE %s", ".DEFINE %s 4", "LDA %s,X", "%s .EQU 1"};
		Str s2 = src + strf(c.pick(f), l.c_str()) + "\n";
		x.art("in.asm with a long name", s2);
		Result r2 = x.run(s2);
		expect_reject(x, r2, E_LONGLABEL, lines + 1, "a label of more than 63 characters");
		x.cls("names over 63 characters");
	}
}
static Reg reg({"C09", "1..150, powers of two and thousands of names from 8 adversarial families (equal hashes, common prefixes/suffixes of 63 characters, prefixes of one another, anagrams), every one looked up, then redefined / looked up under a name not defined; random histories of definitions, references before and after, redefinitions, against a map. Non-trivial: at least 2 symbols and one look-up; distinct by source.",
	[](bool t) { return (uint64_t)todo(t).size(); }, enum_case, random_case, 50000, 800000, {"plain"}});
}

// ============================================================ C10
namespace c10 {
static Str flip(Choices &c, const Str &s, int how)
{
	Str r = s;
	for (char &ch : r) {
		bool up = ch >= 'A' && ch <= 'Z', lo = ch >= 'a' && ch <= 'z';
		if (!up && !lo)
			continue;
		bool want_low = how == 0 ? false : how == 1 ? true : c.below(2);
		if (up && want_low)
			ch += 32;
		if (lo && !want_low)
			ch -= 32;
	}
	return r;
}
static const std::vector<std::pair<Str, Bytes>> &lines()
{
	// source with one word in every casing (%), and the bytes it stands for
	static std::vector<std::pair<Str, Bytes>> v = [] {
		std::vector<std::pair<Str, Bytes>> r;
		const Isa &I = isa();
		std::set<int> seen;
		for (auto &k : I.combos) {
			Str o;
			Bytes b{(uint8_t)k.op};
			if (mode_len(k.mode) == 2)
				b.push_back(0xAB);
			if (mode_len(k.mode) == 3) {
				b.push_back(0xCD);
				b.push_back(0xEF);
			}
			Str n = mode_len(k.mode) == 3 ? "$EFCD" : "$AB";
			for (auto &t : shape_tokens(mode_shape(k.mode), n))
				o += t;
			r.push_back({I.names[k.mn] + " " + o, b});
		}
		r.push_back({"LABEL_Z =$BEEF\nJMP LABEL_Z", {0x4C, 0xEF, 0xBE}});
		r.push_back({"LABEL .EQU $BEEF\nJMP LABEL", {0x4C, 0xEF, 0xBE}});
		r.push_back({".DEFINE L $FACE\nJMP L", {0x4C, 0xCE, 0xFA}});
		r.push_back({".ORG $0A\nJMP FWD\nFWD:", {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x4C, 0x0D, 0}});
		r.push_back({"BNE FWD\nNOP\nFWD", {0xD0, 1, 0xEA}});
		r.push_back({"JMP (FW)\nFW = $DEAD", {0x6C, 0xAD, 0xDE}});
		r.push_back({"NOP\n.END\nBROKEN BROKEN", {0xEA}});
		r.push_back({"AA: LDX #$FF\nDEX\nBNE AA\nSTX AA", {0xA2, 0xFF, 0xCA, 0xD0, 0xFB, 0x86, 0}});
		for (char a = 'A'; a <= 'F'; a++)
			r.push_back({strf("JMP $%c%c%c%c", a, a, a, a), {0x4C, (uint8_t)((a - 'A' + 10) * 17), (uint8_t)((a - 'A' + 10) * 17)}});
		for (char a = 'A'; a <= 'Z'; a++) {
			if (a != 'A' && a != 'X' && a != 'Y')
				r.push_back({strf("%c =1\nJMP %c", a, a), {0x4C, 1, 0}});
			r.push_back({strf("Q%c =1\nJMP Q%c", a, a), {0x4C, 1, 0}});
		}
		return r;
	}();
	return v;
}
static void enum_case(Ctx &x, uint64_t i)
{
	// all casings when there are few letters, else many random ones
	auto &l = lines()[i];
	int letters = 0;
	for (char ch : l.first)
		letters += ch >= 'A' && ch <= 'Z';
	uint64_t n = letters <= 9 ? 1u << letters : 512;
	if (l.first.find("BROKEN") != Str::npos)
		n = 64;
	for (uint64_t k = 0; k < n; k++) {
		Str s = l.first;
		int bit = 0;
		for (char &ch : s)
			if (ch >= 'A' && ch <= 'Z') {
				if (letters <= 9 ? (k >> bit & 1) : x.c.below(2))
					ch += 32;
				bit++;
			}
		x.use(s);
		x.artifacts.clear();
		x.art("in.asm", s);
		Result r = x.run(s + "\n");
		expect_ok(x, r, l.second, -1, 0, "letter case");
	}
	x.nontrivial = true;
	x.cls("enumerated casings", n);
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	GenOpts o;
	o.branchy = 30;
	Names nm;
	Prog p = gen_prog(x, o, &nm);
	Image m = p.layout();
	Str src = render(c, p, random_style(c));
	int spoil = c.weighted({6, 2, 1, 2});
	Str more;
	int kind = E_NONE;
	if (spoil == 1) { // a redefinition that differs only in case
		std::vector<Str> have;
		for (auto &s : p.st)
			if (s.k == Stmt::CONST || s.k == Stmt::LABEL || (s.k == Stmt::INSTR && !s.label.empty()))
				have.push_back(s.label);
		if (!have.empty()) {
			static const char *f[] = {"%s = 1", "%s .EQU 2", ".DEFINE %s 3", "%s", "%s NOP", "%s:"};
			more = strf(c.pick(f), c.pick(have).c_str());
			kind = E_REDEF;
		}
	} else if (spoil == 2) {
		more = "LDA (" + (c.below(2) ? Str("$FF") : Str("$ABCD")) + ")";
		kind = E_MODE;
	} else if (spoil == 3) {
		static const char *f[] = {"JMP JMP", "LDA A,X", "X = 1", "A: NOP", ".ORG X", "LDA #A", "STA Y", "LDA ($12,Y)", "LDA ($12),X", "STX X", "ASL A,X", "LDA $GA", ".EQU $A", ".ENDX", ".DEFIN X 1", ".OR $A", "NOP NOP", "Y", "LDA X"};
		more = c.pick(f);
		kind = 0;
	}
	if (spoil && !more.empty())
		src += (src.empty() || src.back() == '\n' ? "" : "\n") + more + "\n";
	Str a = flip(c, src, 0), b = flip(c, src, 1 + (int)c.below(2)), d = flip(c, src, 2);
	x.use(d);
	x.nontrivial = a != d && p.st.size() >= 2;
	x.sample_text = d;
	x.cls(more.empty() ? "correct programs" : "faulty programs");
	for (auto &s : {a, b, d}) {
		x.artifacts.clear();
		x.art("in.asm", s);
		Result r = x.run(s);
		if (more.empty()) {
			expect_ok(x, r, m.img, m.bytes, m.symbols, "program in other letter case");
			continue;
		}
		expect_reject(x, r, kind ? kind : -1, -1, "faulty program in other letter case");
		RefResult f = RefAsm::run(s);
		if (f.ok)
			x.set_aside("harness: the reference accepts the spoiled program");
		Diag g = parse_diag(r.out);
		if (g.line != f.line || g.msg != err_text(f.err))
			x.fail(strf("faulty program in other letter case: diagnostic differs: expected line %d \"%s\", output \"%s\"", f.line, err_text(f.err), esc(r.out, 300).c_str()));
	}
}
static Reg reg({"C10", "every casing of each instruction form, hex digit, directive and register (up to 2^9 casings per line, else 512 random ones); random programs, correct or spoiled by one fault, each in upper case and two other casings of the whole text. Oracle: abstract layout / same rejection. Non-trivial: the casings differ and the program has at least two statements; distinct by source.",
	[](bool) { return (uint64_t)lines().size(); }, enum_case, random_case, 80000, 600000, {"plain"}});
}

// ============================================================ C11
namespace c11 {
// a small program; slots where text may be lengthened
static const char *PARTS[] = {"", "START", "", "LDA", " ", "(", "", "$12", "", ",", "", "X", "", ")", "", ";c"};
static std::vector<long> lengths(bool thorough)
{
	std::vector<long> v;
	for (long n = 0; n <= 700; n++)
		v.push_back(n);
	for (long c : {1000L, 1024L, 2048L, 4096L, 8192L, 65536L, 131072L})
		for (long d = -8; d <= 8; d++)
			v.push_back(c + d);
	for (long c : {1048575L, 1048577L, 5000000L, 16777217L})
		v.push_back(c);
	if (thorough)
		for (long n = 701; n < 5000; n++)
			v.push_back(n);
	return v;
}
static void enum_case(Ctx &x, uint64_t i)
{
	// a line of length n made by padding at one of 12 places, followed by a line that shows whether it was read whole
	Choices &c = x.c;
	static std::vector<long> len = lengths(false), lent = lengths(true);
	auto &L = x.thorough ? lent : len;
	long n = L[i / 4];
	int set = (int)(i % 4);
	for (int place = set * 3; place < set * 3 + 3; place++) {
		for (int nl = 0; nl < 2; nl++) {
			Str pad;
			Str line;
			auto fill = [&](char ch, size_t base) { return Str(n > (long)base ? n - base : 0, ch); };
			switch (place) {
			case 0: line = "START LDA ($12,X) ;" + fill('x', 19); break;
			case 1: line = fill(' ', 17) + "START LDA ($12,X)"; break;
			case 2: line = "START\t" + fill('\t', 17) + "LDA ($12,X)"; break;
			case 3: line = "START LDA " + fill(' ', 17) + "($12,X)"; break;
			case 4: line = "START LDA (" + fill(' ', 17) + "$12,X)"; break;
			case 5: line = "START LDA ($12" + fill('\t', 17) + ",X)"; break;
			case 6: line = "START LDA ($12," + fill(' ', 17) + "X)"; break;
			case 7: line = "START LDA ($12,X" + fill(' ', 17) + ")"; break;
			case 8: line = "START LDA ($12,X)" + fill(' ', 17); break;
			case 9: line = "START LDA ($" + fill('0', 17) + "12,X)"; break;
			case 10: line = "START LDA ($12,X) ;" + fill(' ', 24) + "LDA #"; break;
			case 11: line = ";" + fill(';', 1); break;
			}
			Bytes img{0xA1, 0x12};
			Str src = "NOP\n" + line;
			img.insert(img.begin(), 0xEA);
			if (place == 11) {
				src += "\nSTART LDA ($12,X)";
			}
			if (nl == 0) {
				src += (n % 2 ? "\r\n" : "\n") + Str("JMP START");
				img.insert(img.end(), {0x4C, 1, 0});
			}
			x.use(src);
			x.artifacts.clear();
			x.art("in.asm", esc(src, 600));
			Result r = x.run(src);
			expect_ok(x, r, img, -1, 0, strf("line of %zu characters, padded at place %d", line.size(), place).c_str());
		}
	}
	x.nontrivial = true;
	x.cls("enumerated line lengths x places", 6);
}
static Str wild(Choices &c, size_t n, bool nul)
{
	Str s;
	for (size_t i = 0; i < n; i++) {
		unsigned ch = c.below(256);
		if (ch == '\n' || (ch == 0 && !nul))
			ch = ';';
		s += (char)ch;
	}
	return s;
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	GenOpts o;
	o.max_lines = 40;
	Prog p = gen_prog(x, o);
	Image m = p.layout();
	// the same tokens, laid out anew
	Style st;
	st.space = (int)c.below(3);
	static const int pct[] = {0, 20, 60};
	st.comments = c.pick(pct);
	st.blanks = c.pick(pct) / 2;
	st.crlf = (int)c.below(3);
	st.colons = c.pick(pct);
	st.const_colons = c.pick(pct);
	st.final_nl = c.below(2) == 0;
	st.long_text = c.below(3) == 2 ? 10 : 0;
	Str src = render(c, p, st);
	if (c.below(3) == 2) { // comments of any bytes after some lines
		Str t;
		bool nul = c.below(2);
		for (size_t i = 0; i < src.size();) {
			size_t e = src.find('\n', i);
			if (e == Str::npos)
				e = src.size();
			Str l = src.substr(i, e - i);
			if (c.below(4) == 3) {
				if (!l.empty() && l.back() == '\r')
					l.pop_back();
				l += ";" + wild(c, c.below(40), nul);
			}
			t += l;
			if (e < src.size())
				t += '\n';
			i = e + 1;
		}
		src = t;
		x.cls("comments of arbitrary bytes");
	}
	x.use(src);
	x.nontrivial = p.st.size() >= 2;
	x.sample_text = src;
	x.art("in.asm", src);
	x.cls(strf("line ends %d, spacing %d", st.crlf, st.space));
	Result r = x.run(src);
	expect_ok(x, r, m.img, m.bytes, m.symbols, "program laid out anew");
	if (c.below(4) == 3) {
		// a faulty program stays faulty in the same way
		Prog q = p;
		static const char *bad[] = {"LDA", "STA #1", "JMP (1),Y", "LDA 65536", "BNE", "= 1", "LDA NOSUCHNAME9", "NOP 1", "INX INY", "LDA $10,A"};
		Str b = c.pick(bad);
		std::vector<Str> t;
		Str w;
		for (char ch : b + " ") {
			if (ch == ' ') {
				if (!w.empty())
					t.push_back(w);
				w.clear();
			} else if (strchr("#(),=", ch)) {
				if (!w.empty())
					t.push_back(w);
				w.clear();
				t.push_back(Str(1, ch));
			} else {
				w += ch;
			}
		}
		q.st.insert(q.st.begin() + c.below((uint32_t)q.st.size() + 1), raw_line(t));
		Str s1 = render(c, q, Style()), s2 = render(c, q, st);
		RefResult f = RefAsm::run(s1);
		if (f.ok)
			x.set_aside("harness: the reference accepts the spoiled program");
		x.artifacts.clear();
		x.art("in.asm", s1);
		x.art("laid out anew", s2);
		Result r1 = x.run(s1), r2 = x.run(s2);
		expect_reject(x, r1, f.err, f.line, "faulty program");
		expect_reject(x, r2, f.err, -1, "faulty program laid out anew");
		x.cls("faulty programs");
	}
}
static Reg reg({"C11", "lines of every length 0..700 (thorough 0..5000) and around 1000..131072, and up to 16777217, padded at each of 12 places, with LF/CRLF and with/without a final line end; random programs re-laid out (minimal, conventional or random spacing, comments of any bytes, blank lines, colons, LF/CRLF/mixed). Oracle: abstract layout. Non-trivial: at least two statements; distinct by source.",
	[](bool t) { return (uint64_t)lengths(t).size() * 4; }, enum_case, random_case, 120000, 1400000, {"plain"}});
}

// ============================================================ C12
namespace c12 {
static Str form_line(int f, const Str &n, const Str &v)
{
	switch (f) {
	case 0: return n + " = " + v;
	case 1: return n + " .EQU " + v;
	case 2: return ".DEFINE " + n + " " + v;
	case 3: return n + "\t=" + v;
	default: return n + ": .EQU " + v;
	}
}
static uint64_t count(bool) { return 64 + 36; }
static void enum_case(Ctx &x, uint64_t i)
{
	Choices &c = x.c;
	if (i < 64) { // 1024 values in all forms of both directives
		long lo = (long)i * 1024;
		Str base;
		for (int f = 0; f < 3; f++) {
			Str src = "*=$4000\n";
			Bytes img(0x4000);
			for (long v = lo; v < lo + 1024; v++) {
				src += form_line(f, strf("K%ld", v), v % 3 == 0 ? strf("$%lX", v) : v % 3 == 1 ? strf("%ld", v) : strf("$%lx", v)) + "\n";
				src += strf("JMP K%ld\n", v);
				img.insert(img.end(), {0x4C, (uint8_t)(v & 0xFF), (uint8_t)(v >> 8)});
			}
			x.use(src);
			x.artifacts.clear();
			x.art("in.asm", esc(src, 400));
			Result r = x.run(src);
			expect_ok(x, r, img, 3072, 1024, strf("constants, form %d", f).c_str());
			if (f == 0)
				base = r.out;
			if (r.out != base)
				x.fail("the forms give different summaries");
		}
		for (int f = 0; f < 2; f++) {
			Str src;
			Bytes img(lo + 1024);
			for (long v = lo; v < lo + 1024; v++) {
				src += (f ? ".ORG " : "*=") + strf("%ld\nNOP\n", v);
				img[v] = 0xEA;
			}
			x.artifacts.clear();
			x.art("in.asm", esc(src, 400));
			Result r = x.run(src);
			expect_ok(x, r, img, 1024, 0, strf("locations, form %d", f).c_str());
		}
		x.cls("enumerated values", 1024);
		x.nontrivial = true;
		return;
	}
	// a redefinition by any form after any form
	int a = (int)(i - 64) / 6, b = (int)(i - 64) % 6;
	auto line = [&](int f) { return f < 4 ? form_line(f, "NAME", "$12") : f == 4 ? Str("NAME") : Str("NAME NOP"); };
	Str src = "NOP\n" + line(a) + "\nNOP\n" + line(b) + "\n";
	x.use(src);
	x.nontrivial = true;
	x.cls("pairs of definitions");
	x.art("in.asm", src);
	Result r = x.run(src);
	expect_reject(x, r, E_REDEF, 4, "second definition");
}
static void random_case(Ctx &x)
{
	Choices &c = x.c;
	GenOpts o;
	o.max_lines = 50;
	Prog p = gen_prog(x, o);
	// add more directives: constants anywhere have no effect on the code
	long extra = c.range(0, 8);
	Names nm;
	for (auto &s : p.st) {
		nm.reserve(s.label);
		nm.reserve(s.name);
	}
	int dirs = 0;
	for (auto &s : p.st)
		dirs += s.k == Stmt::CONST || s.k == Stmt::ORG;
	Prog q = p;
	for (auto &s : q.st) {
		if (s.k == Stmt::CONST && c.below(2))
			s.form = (s.form + 1 + (int)c.below(2)) % 3;
		if (s.k == Stmt::ORG && c.below(2))
			s.form = !s.form;
	}
	Image m = p.layout();
	Choices fix = c;
	Style st = random_style(c);
	Str s1 = render(c, p, st), s2 = render(c, q, st);
	x.use(s2);
	x.nontrivial = dirs > 0 && s1 != s2;
	x.sample_text = s2;
	x.cls("directives", dirs);
	x.art("in.asm", s1);
	x.art("with other forms", s2);
	Result r1 = x.run(s1), r2 = x.run(s2);
	expect_ok(x, r1, m.img, m.bytes, m.symbols, "program");
	expect_ok(x, r2, m.img, m.bytes, m.symbols, "program with other directive forms");
	if (r1.out != r2.out)
		x.fail("the summaries differ");
	// constants in between emit nothing
	if (extra) {
		Prog w = q;
		for (long i = 0; i < extra; i++)
			w.st.insert(w.st.begin() + c.below((uint32_t)w.st.size() + 1), const_line(nm.fresh(c), edgy(c, 0, 0xFFFF), (int)c.below(3)));
		Str s3 = render(c, w, st);
		x.art("with more constants", s3);
		Result r3 = x.run(s3);
		expect_ok(x, r3, m.img, m.bytes, m.symbols + extra, "program with unused constants added");
		x.cls("constants added", extra);
	}
	// and faulty programs are refused in every form
	if (c.below(4) == 3) {
		static const char *vals[] = {"65536", "$10000", "%2", "$", "LBL", "#5", "($5)", "5 5", "A", "X", "", ".END", "5,X", "-1", "=5", "NOP", "*"};
		Str v = c.pick(vals);
		int org = (int)c.below(2);
		std::vector<Str> forms;
		if (org)
			forms = {"*= " + v, ".ORG " + v};
		else
			forms = {"NM9 = " + v, "NM9 .EQU " + v, ".DEFINE NM9 " + v};
		for (auto &f : forms) {
			Str s = s1 + (s1.empty() || s1.back() == '\n' ? "" : "\n") + f + "\nNOP\n";
			x.artifacts.clear();
			x.art("in.asm", s);
			Result r = x.run(s);
			RefResult g = RefAsm::run(s);
			if (g.ok)
				x.set_aside("harness: reference accepts " + f);
			expect_reject(x, r, g.err, g.line, ("faulty directive " + f).c_str());
		}
		x.cls("faulty directives", forms.size());
	}
}
static Reg reg({"C12", "all 65536 values through every form of constant definition and location directive; every pair of definition forms as a redefinition; random programs with the forms of their directives exchanged at random, and with unused constants inserted anywhere; faulty directives in all forms. Oracles: abstract layout, identical summary. Non-trivial: at least one directive changed form; distinct by source.",
	count, enum_case, random_case, 80000, 500000, {"plain"}});
}
