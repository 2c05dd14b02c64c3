// ref.h - independent reference assembler working on source text.
//
// Written from the documented rules (README, grammar, 6502 data sheet), not
// from the structure of the code under test: it tokenises a whole source into
// statements, matches each statement against the list of sentence forms of the
// grammar, lays the program out, and only then encodes.
#ifndef REF_H
#define REF_H
#include "isa.h"
#include <cstring>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

enum ErrKind { E_NONE, E_CHAR, E_BIGLIT, E_LONGLABEL, E_SYNTAX, E_REDEF, E_FWD, E_MODE, E_OFFSET, E_MISSING, E_DIRECTIVE, E_BASE };
inline const char *err_text(int k)
{
	static const char *t[] = {"", "illegal character", "value of literal exceeds 2 bytes", "label exceeds 63 characters",
		"illegal syntax", "no redefinition of labels", "illegal forward reference", "illegal addressing mode",
		"branch offset too far away", "label definition was not found", "illegal assembler directive", "illegal base"};
	return t[k];
}

struct RefResult {
	bool ok = false;
	std::vector<uint8_t> image;
	long bytes = 0;            // sum of instruction lengths
	int symbols = 0;
	int err = E_NONE;
	int line = 0;              // 1-based line of the first fault
	long col = -1;             // byte offset of the offending text, -1 = no marker
	std::string text;          // the faulty line
	std::string also;          // the line has faults of more than one kind, in this order
	// facts about the program that some checks exclude
	bool overlap = false;      // some byte is written by two lines
	bool overlap_fwd = false;  // ... one of which is a forward reference
	bool past_end = false;     // code or a label beyond $FFFF
	int nlines = 0, ninstr = 0, nfwd = 0;
	bool located = false;      // it says where it stands: origins, address labels, branches to symbols
	std::vector<uint8_t> used; // not 0 where a line puts a byte
};

struct RefAsm {
	struct Tok { char k; long off; long val = 0; std::string s; };
	struct Fault { int kind; long col; };

	static bool is_end(unsigned char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == 0 || c == ',' || c == '(' || c == ')' || c == ';' || c == 0xFF; }
	static bool eol(unsigned char c) { return c == '\r' || c == '\n' || c == ';' || c == 0 || c == 0xFF; }
	static bool alpha(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
	static bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
	static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }

	static const std::vector<std::string> &sentences()
	{
		static std::vector<std::string> v = [] {
			std::vector<std::string> r = {"", "L", "L=N", "LEN", "DLN", "ON", "Z", "*=N"};
			const char *ops[] = {"I", "IA", "Io", "Io,X", "Io,Y", "I#o", "I(o)", "I(o,X)", "I(o),Y"};
			for (int lab = 0; lab < 2; lab++)
				for (auto *o : ops)
					for (char c : {'L', 'N'}) {
						std::string s = lab ? std::string("L") + o : o;
						for (char &x : s)
							if (x == 'o')
								x = c;
						r.push_back(s);
					}
			return r;
		}();
		return v;
	}

	// Tokens of one line; returns false with a fault on a lexical error.
	static bool tokenise(const std::string &l, std::vector<Tok> &out, Fault &f)
	{
		size_t p = 0, n = l.size();
		auto at = [&](size_t i) -> unsigned char { return i < n ? l[i] : 0; };
		auto skip = [&] { while (at(p) == ' ' || at(p) == '\t') p++; };
		skip();
		while (!eol(at(p))) {
			unsigned char c = at(p);
			Tok t;
			t.off = (long)p;
			if (strchr("#(),=*", c)) {
				t.k = c;
				p++;
			} else if (alpha(c)) {
				size_t q = p;
				while (!is_end(at(q)) && at(q) != ':') {
					if (q - p >= 64)
						break;
					if (!(alpha(at(q)) || digit(at(q)) || at(q) == '_'))
						return f = {E_CHAR, (long)q}, false;
					q++;
				}
				if (q - p > 63)
					return f = {E_LONGLABEL, (long)p}, false;
				for (size_t i = p; i < q; i++)
					t.s += up(l[i]);
				t.k = t.s == "A" || t.s == "X" || t.s == "Y" ? t.s[0] : isa().find(t.s) >= 0 ? 'I' : 'L';
				p = q;
			} else if (c == '$' || c == '%' || digit(c)) {
				int base = c == '$' ? 16 : c == '%' ? 2 : 10;
				size_t q = p + (base != 10), d0 = q;
				bool big = false;
				for (; !is_end(at(q)); q++) {
					int d = digit(at(q)) ? at(q) - '0' : alpha(at(q)) ? up(at(q)) - 'A' + 10 : 99;
					if (d >= base)
						return f = {E_CHAR, (long)q}, false;
					if (!big)
						t.val = t.val * base + d;
					if (t.val > 65535)
						big = true;
				}
				if (q == d0)
					return f = {E_CHAR, (long)q}, false;
				if (big)
					return f = {E_BIGLIT, (long)p}, false;
				t.k = 'N';
				p = q;
			} else if (c == '.') {
				size_t q = p + 1;
				std::string s;
				for (; !is_end(at(q)) && q - p < 64; q++) {
					if (!alpha(at(q)))
						return f = {E_CHAR, (long)q}, false;
					s += up(l[q]);
				}
				t.k = s == "DEFINE" ? 'D' : s == "EQU" ? 'E' : s == "ORG" ? 'O' : s == "END" ? 'Z' : '?';
				if (t.k == '?')
					return f = {E_DIRECTIVE, (long)p}, false;
				p = q;
			} else {
				return f = {E_CHAR, (long)p}, false;
			}
			out.push_back(t);
			if (out.size() > 8)
				return true; // certainly not a sentence; what follows is not looked at
			if (at(p) == ':') {
				if (t.k == 'L' && out.size() == 1)
					p++;
				else
					return f = {E_CHAR, (long)p}, false;
			}
			skip();
		}
		// behind a carriage return (or $FF, which the lexer takes for an end of
		// file) there must be the end of the line
		if ((at(p) == '\r' || at(p) == 0xFF) && at(p + 1))
			return f = {E_CHAR, (long)p}, false;
		return true;
	}

	// index of the first token at which no sentence can be continued, or -1
	static int bad_token(const std::vector<Tok> &t)
	{
		std::string k;
		for (auto &x : t)
			k += x.k;
		size_t best = 0;
		for (auto &s : sentences()) {
			if (s == k)
				return -1;
			size_t i = 0;
			while (i < s.size() && i < k.size() && s[i] == k[i])
				i++;
			best = std::max(best, i);
		}
		return (int)best;
	}

	static RefResult run(const std::string &src)
	{
		const Isa &I = isa();
		RefResult r;
		std::unordered_map<std::string, long> sym;
		struct Item { long pc; int mn, mode; long val; };
		struct Pending { size_t item; std::string name; int line; long col; std::string text; };
		std::vector<Item> items;
		std::vector<Pending> pend;
		long pc = 0;
		auto reject = [&](int line, const std::string &t, int kind, long col) {
			r.ok = false; r.err = kind; r.line = line; r.col = col; r.text = t;
			return r;
		};
		size_t pos = 0;
		int ln = 0;
		while (pos < src.size()) {
			size_t nl = src.find('\n', pos);
			std::string l = src.substr(pos, nl == std::string::npos ? std::string::npos : nl - pos);
			pos = nl == std::string::npos ? src.size() : nl + 1;
			size_t z = l.find('\0');
			if (z != std::string::npos)
				l.resize(z);
			ln++;
			r.nlines = ln;
			std::vector<Tok> t;
			Fault f;
			if (!tokenise(l, t, f))
				return reject(ln, l, f.kind, f.col);
			if (z != std::string::npos && t.size() <= 8 && l.find(';') == std::string::npos)
				return reject(ln, l, E_CHAR, (long)z);
			int bad = bad_token(t);
			if (bad >= 0)
				return reject(ln, l, !t.empty() && t[0].k == '*' ? E_BASE : E_SYNTAX, bad < (int)t.size() ? t[bad].off : -1);
			if (t.empty())
				continue;
			if (t[0].k == 'Z')
				break;
			if (t[0].k == 'O' || t[0].k == '*') {
				pc = t.back().val;
				r.located = true;
				continue;
			}
			auto define = [&](const Tok &n, long v) {
				if (!sym.emplace(n.s, v).second)
					return false;
				if (v > 65535)
					r.past_end = true;
				r.symbols++;
				return true;
			};
			if (t[0].k == 'D') {
				if (!define(t[1], t[2].val))
					return reject(ln, l, E_REDEF, t[1].off);
				continue;
			}
			if (t[0].k == 'L') {
				bool constant = t.size() > 1 && (t[1].k == '=' || t[1].k == 'E');
				if (!constant)
					r.located = true;
				if (!define(t[0], constant ? t[2].val : pc))
					return reject(ln, l, E_REDEF, t[0].off);
				if (constant || t.size() == 1)
					continue;
				t.erase(t.begin());
			}
			// t[0] is the mnemonic
			int mn = I.find(t[0].s);
			std::string k;
			const Tok *op = nullptr;
			for (size_t i = 1; i < t.size(); i++) {
				k += t[i].k == 'L' || t[i].k == 'N' ? 'o' : t[i].k;
				if (t[i].k == 'L' || t[i].k == 'N')
					op = &t[i];
			}
			static const char *shapes[] = {"", "A", "o", "o,X", "o,Y", "#o", "(o)", "(o,X)", "(o),Y"};
			int shape = 0;
			while (k != shapes[shape])
				shape++;
			bool is_sym = op && op->k == 'L', fwd = false;
			long val = op ? op->val : 0;
			if (is_sym) {
				auto it = sym.find(op->s);
				if (it != sym.end()) {
					val = it->second;
				} else if (I.is_branch(mn) || I.is_jump(mn)) {
					fwd = true;
				} else {
					return reject(ln, l, E_FWD, op->off);
				}
			}
			if (is_sym && !fwd && val > 65535 && !I.is_branch(mn))
				return reject(ln, l, E_BIGLIT, op->off);
			int mode = resolve_mode(mn, shape, val, is_sym);
			if (mode == MODE_NONE)
				return reject(ln, l, E_MODE, -1);
			if (mode == REL && is_sym)
				r.located = true;
			if (mode == REL && is_sym && !fwd) {
				long d = val - (pc + 2);
				if (d < -128 || d > 127)
					return reject(ln, l, E_OFFSET, op->off);
				val = d & 0xFF;
			}
			r.ninstr++;
			items.push_back({pc, mn, mode, val});
			if (fwd) {
				r.nfwd++;
				pend.push_back({items.size() - 1, op->s, ln, op->off, l});
			}
			pc += mode_len(mode);
			r.bytes += mode_len(mode);
			if (pc > 0x10000)
				r.past_end = true;
		}
		std::set<size_t> fwd_items;
		for (auto &p : pend) {
			auto it = sym.find(p.name);
			if (it == sym.end())
				return reject(p.line, p.text, E_MISSING, p.col);
			Item &x = items[p.item];
			fwd_items.insert(p.item);
			if (x.mode == REL) {
				long d = it->second - (x.pc + 2);
				if (d < -128 || d > 127)
					return reject(p.line, p.text, E_OFFSET, p.col);
				x.val = d & 0xFF;
			} else {
				if (it->second > 65535)
					return reject(p.line, p.text, E_BIGLIT, p.col);
				x.val = it->second;
			}
		}
		r.ok = true;
		std::vector<uint8_t> &used = r.used;
		for (size_t i = 0; i < items.size(); i++) {
			Item &x = items[i];
			int n = mode_len(x.mode);
			if (r.image.size() < (size_t)x.pc + n) {
				r.image.resize(x.pc + n);
				used.resize(x.pc + n);
			}
			bool fw = fwd_items.count(i);
			for (int b = 0; b < n; b++) {
				uint8_t &u = used[x.pc + b];
				if (u) {
					r.overlap = true;
					if (fw || (u & 2))
						r.overlap_fwd = true;
				}
				u |= fw ? 3 : 1;
			}
			r.image[x.pc] = (uint8_t)I.code[x.mn][x.mode];
			if (n > 1)
				r.image[x.pc + 1] = x.val & 0xFF;
			if (n > 2)
				r.image[x.pc + 2] = (x.val >> 8) & 0xFF;
		}
		return r;
	}
};
#endif
