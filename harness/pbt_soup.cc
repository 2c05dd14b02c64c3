#include "soup.h"
#include <algorithm>

static const char *WORDS[] = {"LDA", "STA", "JMP", "JSR", "BNE", "BCC", "NOP", "ASL", "INX", "LDX", "STX", "CPX", "A", "X", "Y", "#", "(", ")", ",", "=", "*", ".EQU", ".DEFINE", ".ORG", ".END", ".", ":",
	";", "$", "%", "$12", "$1234", "$FFFF", "%1", "0", "255", "256", "65535", "65536", "LABEL", "L1", "L2", "LOOP", "\t", " ", "  ", "\n", "\n", "\n", "\r\n", "_", "$12345678901234567890", "99999999999999999999999999", ".equ", ".Byte", "\x80", "\xff", "@", "'", "\"", "BNE L1", "L1:", "L2 ="};

Str mutate_text(Choices &c, Str s, int n)
{
	for (int i = 0; i < n; i++) {
		size_t at = c.below((uint32_t)s.size() + 1);
		switch (c.weighted({4, 4, 4, 4, 2, 2, 2, 1, 1})) {
		case 0: // replace a byte
			if (at < s.size())
				s[at] = (char)(c.below(3) ? 32 + c.below(95) : c.below(256));
			break;
		case 1: // delete a few bytes
			s.erase(at, 1 + c.below(4));
			break;
		case 2: // insert a word
			s.insert(at, WORDS[c.below(sizeof WORDS / sizeof *WORDS)]);
			break;
		case 3: { // duplicate a piece
			size_t len = 1 + c.below(30);
			s.insert(c.below((uint32_t)s.size() + 1), s.substr(at, len));
			break;
		}
		case 4: { // delete a line
			size_t b = s.rfind('\n', at ? at - 1 : 0), e = s.find('\n', at);
			b = b == Str::npos ? 0 : b + 1;
			if (e == Str::npos)
				e = s.size();
			if (b < e)
				s.erase(b, e - b + 1);
			break;
		}
		case 5: { // move a line
			size_t b = s.rfind('\n', at ? at - 1 : 0), e = s.find('\n', at);
			b = b == Str::npos ? 0 : b + 1;
			if (e == Str::npos || b >= e)
				break;
			Str l = s.substr(b, e - b + 1);
			s.erase(b, l.size());
			size_t q = s.find('\n', c.below((uint32_t)s.size() + 1));
			s.insert(q == Str::npos ? 0 : q + 1, l);
			break;
		}
		case 6: // flip case
			if (at < s.size() && isalpha((unsigned char)s[at]))
				s[at] ^= 32;
			break;
		case 7: // truncate
			s.resize(at);
			break;
		case 8: { // swap two neighbouring bytes
			if (at + 1 < s.size())
				std::swap(s[at], s[at + 1]);
			break;
		}
		}
	}
	return s;
}
static Str times(const Str &s, size_t n)
{
	Str r;
	while (r.size() < n)
		r += s;
	r.resize(n);
	return r;
}
Str soup(Ctx &x)
{
	Choices &c = x.c;
	Str s;
	switch (c.weighted({3, 5, 8, 4, 2})) {
	case 0: { // bytes
		long n = x.scaled(1, 400);
		int bias = (int)c.below(3);
		for (long i = 0; i < n; i++)
			s += (char)(bias == 0 ? c.below(256) : bias == 1 ? 32 + c.below(95) : "LDA #$12,(X)=*.:;\n\t%09_Y"[c.below(26)]);
		break;
	}
	case 1: { // words
		long n = x.scaled(1, 150);
		for (long i = 0; i < n; i++) {
			s += WORDS[c.below(sizeof WORDS / sizeof *WORDS)];
			if (c.below(3))
				s += ' ';
			if (c.below(6) == 0)
				s += '\n';
		}
		break;
	}
	case 2: { // a valid program, damaged
		GenOpts o;
		o.branchy = 30;
		Prog p = gen_prog(x, o);
		s = mutate_text(c, render(c, p, random_style(c)), (int)c.range(1, 12));
		break;
	}
	case 3: { // something extreme in one line
		static const int n[] = {50, 62, 63, 64, 65, 66, 70, 100, 120, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1024, 4095, 4096, 4097, 8192, 20000, 70000};
		size_t k = c.pick(n) + c.below(3);
		switch (c.below(14)) {
		case 0: s = Str(k, 'A'); break;
		case 1: s = "JMP " + Str(k, 'Q'); break;
		case 2: s = "LDA $" + Str(k, "0F1"[c.below(3)]); break;
		case 3: s = "LDA %" + Str(k, c.below(2) ? '1' : '0'); break;
		case 4: s = "LDA #" + Str(k, '9'); break;
		case 5: s = "." + Str(k, c.below(2) ? 'E' : 'q'); break;
		case 6: s = times("( ", k); break;
		case 7: s = times(c.below(2) ? "LDA " : "LAB ", k); break;
		case 8: s = "NOP;" + Str(k, 'c') + "\nLDA $12\n"; break;
		case 9: s = Str(k, c.below(2) ? ' ' : '\t') + "LDA @"; break;
		case 10: s = Str(k, '\0') + "NOP\n"; break;
		case 11: s = "LDA " + Str(k, '\t') + "@"; break;
		case 12: s = times(",", k); break;
		case 13: s = "LDA $12," + times("X ", k); break;
		}
		if (c.below(2))
			s = "NOP\n" + s;
		if (c.below(2))
			s += "\nNOP\n";
		break;
	}
	default: { // many of something
		long n = x.scaled(1, 600);
		int how = (int)c.below(6);
		for (long i = 0; i < n; i++)
			switch (how) {
			case 0: s += strf("L%ld = %ld\n", i, i); break;
			case 1: s += strf("JMP L%ld\n", i % 97); break;
			case 2: s += strf("*=%ld\nJMP F%ld\n", edgy(c, 0, 65535), i); break;
			case 3: s += strf("L%ld: BNE L%ld\n", i, i + (long)c.below(60)); break;
			case 4: s += "\n\n;\n"; break;
			case 5: s += strf("*=$FFFF\nA%ld JMP A%ld\nJMP B%ld\n", i, i, i); break;
			}
		if (how == 2)
			for (long i = 0; i < n; i++)
				s += strf("F%ld = 1\n", i);
		if (how == 5)
			for (long i = 0; i < n; i++)
				s += strf("B%ld\n", i);
		break;
	}
	}
	if (c.below(6) == 5)
		s = mutate_text(c, s, (int)c.range(1, 4));
	return s;
}
