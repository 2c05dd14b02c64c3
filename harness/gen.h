// gen.h - abstract programs, their meaning, and their rendering as text.
#ifndef GEN_H
#define GEN_H
#include "kit.h"
#include <set>
#include <unordered_set>

struct Num { long v = 0; int radix = 0; int zeros = 0; };  // radix 0 hex, 1 bin, 2 dec

struct Stmt {
	enum K { BLANK, LABEL, CONST, ORG, INSTR, END, RAW } k = BLANK;
	Str label;            // leading label (LABEL, INSTR), or the constant's name
	int form = 0;         // CONST: 0 "L = n", 1 ".EQU", 2 ".DEFINE"; ORG: 0 "*=", 1 ".ORG"
	Num num;              // CONST, ORG, literal operand
	int mn = 0, mode = IMP;
	bool explicit_a = true; // accumulator written as A
	bool sym = false;     // operand is the symbol `name`
	bool raw = false;     // branch with a literal displacement
	Str name;
	std::vector<Str> toks; // RAW: arbitrary tokens, no meaning of its own
	// filled in by layout()
	long pc = 0;
	bool fwd = false;
};

struct Image {
	Bytes img;
	long bytes = 0, symbols = 0;
	bool overlap = false;
};

struct Prog {
	std::vector<Stmt> st;
	Image layout();        // meaning; fills in Stmt::pc
};

struct Style {
	int caps = 0;          // 0 upper, 1 lower, 2 mixed per letter
	int space = 1;         // 0 minimal, 1 conventional, 2 random
	int comments = 0;      // percent of lines with a comment
	int blanks = 0;        // percent of extra blank lines
	int crlf = 0;          // 0 LF, 1 CRLF, 2 mixed
	int colons = 0;        // percent of address labels written with a colon
	int const_colons = 0;
	bool final_nl = true;
	int long_text = 0;     // percent of comments/blanks that are long
	bool reradix = false;  // choose radix and zeros anew for every literal
};
Style random_style(Choices &c);

// token text, with letters cased by the style
Str recase(Choices &c, const Str &s, int caps);
Str num_text(Choices &c, const Num &n, int caps);
std::vector<Str> stmt_tokens(Choices &c, const Stmt &s, const Style &st);
Str join_tokens(Choices &c, const std::vector<Str> &t, const Style &st, bool colon);
Str render(Choices &c, const Prog &p, const Style &st, std::vector<long> *line_of = nullptr);
Str render_plain(const Prog &p);
Str blank_text(Choices &c, const Style &st);
Str comment_text(Choices &c, const Style &st);

struct Names {
	std::set<Str> used;    // upper-case
	std::vector<Str> made;
	Str fresh(Choices &c);
	bool reserve(const Str &s);
};
bool reserved_word(const Str &upper);
Str upper(Str s);
Num gen_num(Choices &c, long v);
long edgy(Choices &c, long lo, long hi); // values biased to the ends and to byte boundaries

struct GenOpts {
	int max_lines = 60;
	bool fwd = true;
	bool orgs = true;
	bool consts = true;
	bool labels = true;
	bool overlap = false;   // allow overlapping segments (no forward references then)
	bool start_org = true;
	long lo = 0, hi = 0x10000; // address range used
	bool raw_branches = true;
	int branchy = 15;       // percent of branch/jump lines
	bool small_labels = true; // address labels below 256 may be used by zero-page forms
};
Stmt raw_line(const std::vector<Str> &toks);
Stmt const_line(const Str &name, long v, int form = 0, int radix = 0);
Stmt org_line(long v, int form = 0);
Stmt label_line(const Str &name);
Stmt sym_line(int mn, int mode, const Str &name);
Prog gen_prog(Ctx &x, const GenOpts &o, Names *names = nullptr);
Stmt instr_lit(Choices &c, int mn, int mode, long v);
// operand tokens of a shape around operand text `o`
std::vector<Str> shape_tokens(int shape, const Str &o);
long mode_max(int mode, int mn);
long mode_min(int mode, int mn);
#endif
