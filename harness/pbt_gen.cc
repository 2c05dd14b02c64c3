#include "gen.h"
#include <algorithm>

Str upper(Str s)
{
	for (char &c : s)
		if (c >= 'a' && c <= 'z')
			c -= 32;
	return s;
}
bool reserved_word(const Str &u) { return u == "A" || u == "X" || u == "Y" || isa().find(u) >= 0; }

Str recase(Choices &c, const Str &s, int caps)
{
	if (caps == 0)
		return s;
	Str r = s;
	for (char &ch : r)
		if (ch >= 'A' && ch <= 'Z' && (caps == 1 || c.below(2)))
			ch += 32;
	return r;
}
Str num_text(Choices &c, const Num &n, int caps)
{
	Str z(n.zeros, '0');
	if (n.radix == 2)
		return z + strf("%ld", n.v);
	if (n.radix == 1) {
		Str b;
		for (long v = n.v; v || b.empty(); v >>= 1)
			b.insert(b.begin(), '0' + (v & 1));
		return "%" + z + b;
	}
	return "$" + z + recase(c, strf("%lX", n.v), caps);
}
Num gen_num(Choices &c, long v)
{
	Num n;
	n.v = v;
	n.radix = c.weighted({6, 2, 3});
	int z = c.weighted({6, 3, 1});
	n.zeros = z == 0 ? 0 : z == 1 ? (int)c.range(1, 4) : (int)c.range(5, 40);
	return n;
}
long edgy(Choices &c, long lo, long hi)
{
	static const long near[] = {0, 1, 2, 0x7F, 0x80, 0x81, 0xFD, 0xFE, 0xFF, 0x100, 0x101, 0x17F, 0x1FF, 0x200, 0x7FFF, 0x8000, 0x8001, 0xFEFF, 0xFF00, 0xFFFD, 0xFFFE, 0xFFFF};
	static const long others[] = {3, 9, 10, 15, 16, 32, 64, 99, 100, 0xA0, 0xC0, 0xF0, 0x2FF, 0x300, 0x3FF, 0x400, 0xFFF, 0x1000, 0x1234, 0x2000, 0x3FFF, 0x4000, 0xA000, 0xABCD, 0xC000, 0xD000, 0xE000, 0xF000, 0xFFFA, 0xFFFB, 0xFFFC};
	int how = c.weighted({3, 3, 4, 1});
	if (how == 3) {
		long v = c.pick(others);
		if (v >= lo && v <= hi)
			return v;
	}
	switch (how) {
	case 0:
	case 3:
		return c.range(lo, hi);
	case 1: {
		long d = c.range(0, std::min<long>(3, hi - lo));
		return c.below(2) ? hi - d : lo + d;
	}
	default: {
		std::vector<long> ok;
		for (long v : near)
			if (v >= lo && v <= hi)
				ok.push_back(v);
		return ok.empty() ? c.range(lo, hi) : c.pick(ok);
	}
	}
}

// --------------------------------------------------------------- names
bool Names::reserve(const Str &s)
{
	Str u = upper(s);
	if (u.empty() || reserved_word(u) || !used.insert(u).second)
		return false;
	made.push_back(u);
	return true;
}
Str Names::fresh(Choices &c)
{
	static const char first[] = "LABCDEFGHIJKMNOPQRSTUVWXYZ";
	static const char rest[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_";
	Str s;
	int kind = c.weighted({8, 3, 3, 2, 2, 2});
	switch (kind) {
	case 0: // ordinary
		s = Str(1, first[c.below(26)]);
		for (long n = c.range(1, 7); n > 0; n--)
			s += rest[c.below(37)];
		break;
	case 1: // numbered
		s = c.below(2) ? strf("L%u", c.below(1000)) : strf("LOOP_%u", c.below(1000));
		break;
	case 2: // similar to an existing one
		if (!made.empty()) {
			s = made[c.below((uint32_t)made.size())];
			int how = (int)c.below(4);
			if (how == 0 && s.size() < 63)
				s += rest[c.below(37)];
			else if (how == 1)
				s[s.size() - 1] = s.size() == 1 ? first[c.below(26)] : rest[c.below(37)];
			else if (how == 2 && s.size() >= 3 && s[s.size() - 1] >= '0' + 33) { // same djb2 hash
				s[s.size() - 2]++;
				s[s.size() - 1] -= 33;
			} else if (how == 3 && s.size() > 1)
				s.pop_back();
			for (char &ch : s)
				if (!((ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '_'))
					ch = 'Q';
		}
		break;
	case 3: // looks like a mnemonic or register
		s = isa().names[c.below(56)];
		s += rest[c.below(37)];
		if (c.below(3) == 0)
			s = c.below(2) ? "A" : c.below(2) ? "X" : "Y", s += rest[c.below(37)];
		else if (c.below(3) == 0)
			s = isa().names[c.below(56)].substr(0, 2);
		break;
	case 4: // long, often sharing a prefix
		s = c.below(2) ? Str("LONGLABELWITHACOMMONPREFIX") : Str();
		if (s.empty())
			s = Str(1, first[c.below(26)]);
		{
			static const int lens[] = {63, 62, 61, 32, 31, 33, 16};
			size_t n = c.pick(lens);
			if (c.below(2))
				while (s.size() + 3 < n)
					s += '0';
			while (s.size() < n)
				s += rest[c.below(37)];
		}
		break;
	case 5: // directive-like and hex-like
		{
			static const char *w[] = {"ORG", "EQU", "DEFINE", "END", "FF", "BEEF", "E", "B", "D", "F0", "CAFE", "DB", "L", "AX", "XY", "YA", "X_", "A_", "Y0", "STOP"};
			s = c.pick(w);
		}
		break;
	}
	if (!s.empty() && reserve(s))
		return upper(s);
	// fall back to something certainly new
	for (size_t i = used.size();; i++) {
		Str t = strf("U%zu", i);
		if (reserve(t))
			return t;
	}
}

// --------------------------------------------------------------- meaning
Image Prog::layout()
{
	Image r;
	std::map<Str, long> sym;
	long pc = 0;
	std::vector<uint8_t> used(1 << 17);
	bool ended = false;
	size_t n = 0;
	for (auto &s : st) {
		s.pc = pc;
		n++;
		switch (s.k) {
		case Stmt::ORG: pc = s.num.v; break;
		case Stmt::CONST: sym[upper(s.label)] = s.num.v; break;
		case Stmt::LABEL: sym[upper(s.label)] = pc; break;
		case Stmt::END: ended = true; break;
		case Stmt::INSTR:
			if (!s.label.empty())
				sym[upper(s.label)] = pc;
			s.fwd = s.sym && !sym.count(upper(s.name));
			pc += mode_len(s.mode);
			r.bytes += mode_len(s.mode);
			break;
		default: break;
		}
		if (ended)
			break;
	}
	r.symbols = (long)sym.size();
	for (size_t i = 0; i < n; i++) {
		Stmt &s = st[i];
		if (s.k != Stmt::INSTR)
			continue;
		long v = s.sym ? sym.at(upper(s.name)) : s.num.v;
		if (s.mode == REL && !s.raw)
			v = v - (s.pc + 2);
		int len = mode_len(s.mode);
		if (r.img.size() < (size_t)s.pc + len)
			r.img.resize(s.pc + len);
		for (int b = 0; b < len; b++) {
			if (used[s.pc + b])
				r.overlap = true;
			used[s.pc + b] = 1;
			r.img[s.pc + b] = b == 0 ? isa().code[s.mn][s.mode] : b == 1 ? v & 0xFF : (v >> 8) & 0xFF;
		}
	}
	return r;
}

// --------------------------------------------------------------- text
Style random_style(Choices &c)
{
	Style s;
	s.caps = c.weighted({4, 2, 2});
	s.space = c.weighted({0, 5, 2, 0}) == 1 ? 1 : (c.below(2) ? 2 : 0);
	static const int pct[] = {0, 10, 40};
	s.comments = c.pick(pct);
	s.blanks = c.pick(pct) / 2;
	s.crlf = c.weighted({6, 2, 1});
	s.colons = c.pick(pct);
	s.final_nl = c.below(4) != 3;
	return s;
}
Str blank_text(Choices &c, const Style &st)
{
	Str s;
	if (st.long_text && (int)c.below(100) >= 100 - st.long_text) {
		static const int around[] = {126, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 1023, 1024, 4095, 4096, 4097};
		s.assign(c.pick(around) + c.range(0, 3), c.below(2) ? '\t' : ' ');
		return s;
	}
	for (long n = c.range(0, 4); n > 0; n--)
		s += c.below(3) == 2 ? '\t' : ' ';
	return s;
}
Str comment_text(Choices &c, const Style &st)
{
	static const char *w[] = {" comment", " LDA #$01", ";;;", "", " X,Y (A) = * .ORG $1000", "\t%210 $XYZ \"quoted\" 'c'", " label: .END", " \\ back\\n", " @!?&^~`|<>{}[]", " RTS ; nested"};
	Str s = ";";
	s += c.pick(w);
	if (st.long_text && (int)c.below(100) >= 100 - st.long_text) {
		static const int around[] = {100, 120, 121, 122, 123, 124, 125, 126, 127, 128, 250, 254, 255, 256, 300, 510, 512, 1000, 4090, 4096, 9000};
		static const char *fill[] = {"x", "LDA #1 ", " ", "\t", "NOP\t", ";"};
		Str f = c.pick(fill);
		size_t want = c.pick(around) + c.range(0, 8);
		while (s.size() < want)
			s += f;
	}
	return s;
}
static bool wordy(const Str &t) { return isalnum((unsigned char)t[0]) || t[0] == '$' || t[0] == '%' || t[0] == '.' || t[0] == '_'; }

std::vector<Str> stmt_tokens(Choices &c, const Stmt &s, const Style &st)
{
	std::vector<Str> t;
	auto word = [&](const Str &w) { t.push_back(recase(c, w, st.caps)); };
	auto num = [&](Num n) {
		if (st.reradix)
			n = gen_num(c, n.v);
		t.push_back(num_text(c, n, st.caps));
	};
	switch (s.k) {
	case Stmt::BLANK: break;
	case Stmt::RAW:
		for (auto &w : s.toks)
			t.push_back(recase(c, w, st.caps));
		break;
	case Stmt::LABEL: word(s.label); break;
	case Stmt::END: word(".END"); break;
	case Stmt::ORG:
		if (s.form == 0) {
			t.push_back("*");
			t.push_back("=");
		} else {
			word(".ORG");
		}
		num(s.num);
		break;
	case Stmt::CONST:
		if (s.form == 2) {
			word(".DEFINE");
			word(s.label);
		} else {
			word(s.label);
			if (s.form == 0)
				t.push_back("=");
			else
				word(".EQU");
		}
		num(s.num);
		break;
	case Stmt::INSTR: {
		if (!s.label.empty())
			word(s.label);
		word(isa().names[s.mn]);
		int sh = mode_shape(s.mode);
		if (sh == S_NONE)
			break;
		if (sh == S_A) {
			if (s.explicit_a)
				word("A");
			break;
		}
		if (sh == S_IMM)
			t.push_back("#");
		if (sh == S_IND || sh == S_INDX || sh == S_INDY)
			t.push_back("(");
		if (s.sym)
			word(s.name);
		else
			num(s.num);
		if (sh == S_INDX) {
			t.push_back(",");
			word("X");
			t.push_back(")");
		} else if (sh == S_INDY) {
			t.push_back(")");
			t.push_back(",");
			word("Y");
		} else if (sh == S_IND) {
			t.push_back(")");
		} else if (sh == S_OX || sh == S_OY) {
			t.push_back(",");
			word(sh == S_OX ? "X" : "Y");
		}
		break;
	}
	}
	return t;
}
Str join_tokens(Choices &c, const std::vector<Str> &t, const Style &st, bool colon)
{
	Str l;
	for (size_t i = 0; i < t.size(); i++) {
		if (i) {
			bool need = wordy(t[i - 1]) && !(i == 1 && colon) && t[i] != "," && t[i] != "(" && t[i] != ")";
			Str sp;
			if (st.space == 1) {
				// conventional: operand parts together, everything else apart
				bool tight = t[i] == "," || t[i] == ")" || t[i - 1] == "," || t[i - 1] == "(" || t[i - 1] == "#";
				sp = tight ? "" : " ";
			} else if (st.space == 2) {
				sp = blank_text(c, st);
			}
			if (need && sp.empty())
				sp = st.space == 2 && c.below(3) == 2 ? "\t" : " ";
			l += sp;
		}
		l += t[i];
		if (i == 0 && colon)
			l += ":";
	}
	return l;
}
Str render(Choices &c, const Prog &p, const Style &st, std::vector<long> *line_of)
{
	Str out;
	long line = 1;
	auto eol = [&] { out += st.crlf == 1 || (st.crlf == 2 && c.below(2)) ? "\r\n" : "\n"; line++; };
	for (size_t i = 0; i < p.st.size(); i++) {
		const Stmt &s = p.st[i];
		while (st.blanks && (int)c.below(100) >= 100 - st.blanks) {
			if (st.space == 2)
				out += blank_text(c, st);
			if (c.below(2))
				out += comment_text(c, st);
			eol();
		}
		std::vector<Str> t = stmt_tokens(c, s, st);
		bool colon = false;
		if (!s.label.empty() && (s.k == Stmt::LABEL || s.k == Stmt::INSTR))
			colon = st.colons && (int)c.below(100) >= 100 - st.colons;
		else if (s.k == Stmt::CONST && s.form != 2)
			colon = st.const_colons && (int)c.below(100) >= 100 - st.const_colons;
		if (st.space == 2)
			out += blank_text(c, st);
		else if (st.space == 1 && s.k == Stmt::INSTR && s.label.empty())
			out += "\t";
		out += join_tokens(c, t, st, colon);
		if (line_of)
			line_of->push_back(line);
		if (st.space == 2)
			out += blank_text(c, st);
		if (st.comments && (int)c.below(100) >= 100 - st.comments) {
			if (st.space == 1)
				out += " ";
			out += comment_text(c, st);
		}
		if (i + 1 < p.st.size() || st.final_nl)
			eol();
	}
	return out;
}
Str render_plain(const Prog &p)
{
	Choices c;
	c.fresh = false;
	return render(c, p, Style());
}

// --------------------------------------------------------------- programs
long mode_max(int mode, int mn)
{
	switch (mode) {
	case ABS: case ABX: case ABY: case IND: return 0xFFFF;
	default: return 0xFF;
	}
}
long mode_min(int mode, int mn)
{
	if (mode == IND || isa().is_jump(mn))
		return 0;
	switch (mode) {
	case ABS: case ABX: case ABY: return 0x100;
	default: return 0;
	}
}
Stmt instr_lit(Choices &c, int mn, int mode, long v)
{
	Stmt s;
	s.k = Stmt::INSTR;
	s.mn = mn;
	s.mode = mode;
	s.raw = mode == REL;
	s.num = gen_num(c, v);
	return s;
}

Prog gen_prog(Ctx &x, const GenOpts &o, Names *np)
{
	Choices &c = x.c;
	const Isa &I = isa();
	Names own;
	Names &names = np ? *np : own;
	Prog p;
	std::vector<bool> used(65536 + 16);
	std::map<Str, long> sym;               // defined so far
	std::vector<Str> zp_syms, abs_syms, all_syms;
	struct Pend { Str name; long lo, hi; }; // allowed values (branch targets); jumps allow 0..FFFF
	std::vector<Pend> pend;
	long pc = 0;
	long lines = x.scaled(1, o.max_lines);

	auto define = [&](const Str &n, long v) {
		sym[n] = v;
		all_syms.push_back(n);
		(v <= 0xFF ? zp_syms : abs_syms).push_back(n);
	};
	auto room = [&](long at, long len) {
		if (at < o.lo || at + len > o.hi)
			return false;
		if (!o.overlap)
			for (long i = 0; i < len; i++)
				if (used[at + i])
					return false;
		return true;
	};
	auto set_org = [&](long at) {
		Stmt s;
		s.k = Stmt::ORG;
		s.form = (int)c.below(2);
		s.num = gen_num(c, at);
		p.st.push_back(s);
		pc = at;
	};
	auto find_place = [&]() -> long {
		for (int i = 0; i < 12; i++) {
			long at = edgy(c, o.lo, o.hi - 3);
			if (room(at, 3) && room(std::min(at + 12, o.hi - 3), 3))
				return at;
		}
		for (long at = o.lo; at + 3 <= o.hi; at++)
			if (room(at, 3))
				return at;
		return -1;
	};
	// pending names whose allowed interval contains v
	auto take_pending = [&](long v, Str &out) {
		for (size_t i = 0; i < pend.size(); i++)
			if (v >= pend[i].lo && v <= pend[i].hi && (c.below(2) || pend[i].hi - v < 6)) {
				out = pend[i].name;
				pend.erase(pend.begin() + i);
				return true;
			}
		return false;
	};

	if (o.start_org && o.orgs && c.chance(2, 3))
		set_org(edgy(c, o.lo, o.hi - 3));
	else if (o.lo > 0)
		set_org(o.lo);

	for (long li = 0; li < lines; li++) {
		int what = c.weighted({74, o.consts ? 8 : 0, o.labels ? 5 : 0, o.orgs ? 5 : 0, 4});
		Stmt s;
		if (what == 1) {
			s.k = Stmt::CONST;
			s.form = (int)c.below(3);
			long v;
			size_t i = pend.empty() ? 0 : c.below((uint32_t)pend.size() + 2);
			if (!pend.empty() && i < pend.size()) {
				s.label = pend[i].name;
				v = edgy(c, pend[i].lo, pend[i].hi);
				pend.erase(pend.begin() + i);
			} else {
				s.label = names.fresh(c);
				v = edgy(c, 0, 0xFFFF);
			}
			s.num = gen_num(c, v);
			define(s.label, v);
			p.st.push_back(s);
			continue;
		}
		if (what == 2 && pc <= 0xFFFF) {
			s.k = Stmt::LABEL;
			if (!take_pending(pc, s.label))
				s.label = names.fresh(c);
			define(s.label, pc);
			p.st.push_back(s);
			continue;
		}
		if (what == 3) {
			long at = find_place();
			if (at >= 0)
				set_org(at);
			continue;
		}
		if (what == 4) {
			p.st.push_back(s);
			continue;
		}
		// an instruction
		if ((int)c.below(100) >= 100 - o.branchy) {
			if (c.below(2)) {
				std::vector<int> b;
				for (size_t i = 0; i < I.names.size(); i++)
					if (I.is_branch((int)i))
						b.push_back((int)i);
				s.mn = c.pick(b);
				s.mode = REL;
			} else {
				int k = (int)c.below(3);
				s.mn = I.find(k == 1 ? "JSR" : "JMP");
				s.mode = k == 2 ? IND : ABS;
			}
		} else {
			const Isa::Combo &k = I.combos[c.below((uint32_t)I.combos.size())];
			s.mn = k.mn;
			s.mode = k.mode;
		}
		s.k = Stmt::INSTR;
		int len = mode_len(s.mode);
		if (!room(pc, len)) {
			long at = find_place();
			if (at < 0)
				break;
			set_org(at);
			if (!room(pc, len))
				break;
		}
		if (o.labels && c.chance(1, 5)) {
			if (!take_pending(pc, s.label))
				s.label = names.fresh(c);
			define(s.label, pc);
		}
		if (s.mode == ACC)
			s.explicit_a = c.below(2) == 0;
		if (len > 1) {
			long lo = mode_min(s.mode, s.mn), hi = mode_max(s.mode, s.mn);
			if (s.mode == REL) {
				lo = std::max(0L, pc + 2 - 128);
				hi = std::min(0xFFFFL, pc + 2 + 127);
				int how = c.weighted({3, 4, o.raw_branches ? 2 : 0});
				bool done = false;
				if (how == 0) { // backward
					std::vector<Str> ok;
					for (auto &n : all_syms)
						if (sym[n] >= lo && sym[n] <= hi)
							ok.push_back(n);
					if (!ok.empty()) {
						s.sym = done = true;
						s.name = ok[c.below((uint32_t)ok.size())];
					}
				}
				if (!done && how != 2 && o.fwd && !o.overlap) {
					s.sym = done = true;
					size_t i = pend.empty() ? 0 : c.below((uint32_t)pend.size() + 1);
					if (i < pend.size() && std::max(lo, pend[i].lo) <= std::min(hi, pend[i].hi)) {
						pend[i].lo = std::max(lo, pend[i].lo);
						pend[i].hi = std::min(hi, pend[i].hi);
						s.name = pend[i].name;
					} else {
						s.name = names.fresh(c);
						pend.push_back({s.name, lo, hi});
					}
				}
				if (!done && !o.raw_branches) {
					// a new constant just for this branch
					Stmt k;
					k.k = Stmt::CONST;
					k.label = names.fresh(c);
					k.form = (int)c.below(3);
					long v = edgy(c, lo, hi);
					k.num = gen_num(c, v);
					define(k.label, v);
					p.st.push_back(k);
					s.sym = done = true;
					s.name = k.label;
				}
				if (!done) {
					s.raw = true;
					s.num = gen_num(c, edgy(c, 0, 0xFF));
				}
			} else {
				bool jump = I.is_jump(s.mn);
				int how = c.weighted({5, 3, jump && o.fwd && !o.overlap ? 4 : 0});
				auto &pool = jump ? all_syms : hi > 0xFF ? abs_syms : zp_syms;
				if (how == 2) {
					s.sym = true;
					size_t i = pend.empty() ? 0 : c.below((uint32_t)pend.size() + 1);
					if (i < pend.size()) {
						s.name = pend[i].name;
					} else {
						s.name = names.fresh(c);
						pend.push_back({s.name, 0, 0xFFFF});
					}
				} else if (how == 1 && !pool.empty()) {
					s.sym = true;
					s.name = pool[c.below((uint32_t)pool.size())];
				} else {
					s.num = gen_num(c, edgy(c, lo, hi));
				}
			}
		}
		for (int i = 0; i < len; i++)
			used[pc + i] = true;
		pc += len;
		p.st.push_back(s);
	}
	// resolve what is left, in random order
	c.shuffle(pend);
	for (auto &q : pend) {
		Stmt s;
		if (pc <= 0xFFFF && pc >= q.lo && pc <= q.hi && c.below(2)) {
			s.k = Stmt::LABEL;
			s.label = q.name;
		} else if (o.orgs && c.below(3) == 0) {
			long v = edgy(c, q.lo, q.hi);
			set_org(v);
			s.k = Stmt::LABEL;
			s.label = q.name;
		} else {
			s.k = Stmt::CONST;
			s.form = (int)c.below(3);
			s.label = q.name;
			s.num = gen_num(c, edgy(c, q.lo, q.hi));
		}
		p.st.push_back(s);
	}
	return p;
}

Stmt raw_line(const std::vector<Str> &toks) { Stmt s; s.k = Stmt::RAW; s.toks = toks; return s; }
Stmt const_line(const Str &name, long v, int form, int radix) { Stmt s; s.k = Stmt::CONST; s.label = name; s.form = form; s.num.v = v; s.num.radix = radix; return s; }
Stmt org_line(long v, int form) { Stmt s; s.k = Stmt::ORG; s.form = form; s.num.v = v; return s; }
Stmt label_line(const Str &name) { Stmt s; s.k = Stmt::LABEL; s.label = name; return s; }
Stmt sym_line(int mn, int mode, const Str &name) { Stmt s; s.k = Stmt::INSTR; s.mn = mn; s.mode = mode; s.sym = true; s.name = name; return s; }
std::vector<Str> shape_tokens(int shape, const Str &o)
{
	switch (shape) {
	case S_NONE: return {};
	case S_A: return {"A"};
	case S_O: return {o};
	case S_OX: return {o, ",", "X"};
	case S_OY: return {o, ",", "Y"};
	case S_IMM: return {"#", o};
	case S_IND: return {"(", o, ")"};
	case S_INDX: return {"(", o, ",", "X", ")"};
	default: return {"(", o, ")", ",", "Y"};
	}
}
