// kit.h - choices, execution of the program under test, case context.
#ifndef KIT_H
#define KIT_H
#include "isa.h"
#include "ref.h"
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef std::string Str;
typedef std::vector<uint8_t> Bytes;

inline uint64_t mix64(uint64_t z)
{
	z += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
	const uint8_t *c = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++)
		h = (h ^ c[i]) * 1099511628211ull;
	return h;
}
inline uint64_t hash_str(const Str &s, uint64_t h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

// Every decision of a case.  Fresh cases expand one rapidcheck-generated word;
// every decision is recorded, so that a case can be replayed and shrunk as the
// list of its decisions (0 is always the simplest option).
struct Choices {
	bool fresh = true;
	uint64_t state = 0;
	std::vector<uint32_t> in, used;
	size_t pos = 0;
	uint32_t below(uint32_t n)
	{
		if (n <= 1)
			return 0;
		uint32_t x;
		if (fresh) {
			state += 0x9E3779B97F4A7C15ull;
			x = (uint32_t)((mix64(state) >> 16) % n);
		} else {
			x = pos < in.size() ? in[pos] % n : 0;
		}
		pos++;
		used.push_back(x);
		return x;
	}
	long range(long lo, long hi) { return hi <= lo ? lo : lo + (long)below((uint32_t)(hi - lo + 1)); }
	bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
	template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[below(N)]; }
	// index by weights; the first is the simplest
	int weighted(std::initializer_list<int> w)
	{
		int tot = 0, i = 0;
		for (int x : w)
			tot += x;
		int r = (int)below(tot);
		for (int x : w) {
			if (r < x)
				return i;
			r -= x;
			i++;
		}
		return 0;
	}
	template <class T> void shuffle(std::vector<T> &v)
	{
		for (size_t i = 0; i + 1 < v.size(); i++)
			std::swap(v[i], v[i + below((uint32_t)(v.size() - i))]);
	}
};

struct Result {
	int exit = -1;        // exit status, or -1
	int sig = 0;          // terminating signal
	bool hang = false;
	double user_s = 0;    // CPU time in user mode (proc() only)
	bool fired = false;   // the injected fault was reached
	uint64_t allocs = 0;
	int cookies = 0;
	Str out, err;         // standard output / error
	bool have_image = false;
	Bytes image;          // contents of the output file
	Str status() const;
};

struct RunOpts {
	long cpu_s = 20;
	long fsize = -1;       // -1 = no limit
	long fail_alloc = 0;
	long fail_read = -1;
	long read_piece = 0;
	long fail_write = -1;
	bool fail_close = false;
	bool read_once = false;
	bool write_once = false;  // the write fault passes
	bool no_seek = false;     // the output is like a pipe (with fail_write only)
	bool keep_output = false; // leave whatever stands in out.bin
	long strange = 0;      // not 0: made-up surroundings and junk in new memory (variant fault)
	long fifo = 0;         // >0: the source is a pipe, written in pieces of this size
	Str variant = "plain";
};

// Result of a plain fork/exec of the binary.
struct ProcOpts {
	std::vector<Str> args;    // after argv[0]
	Str cwd;
	std::vector<Str> env;     // NAME=VALUE, replaces the environment
	Str stdin_file = "/dev/null";
	bool as_nobody = false;
	long cpu_s = 20;
	Str variant = "plain";
	Str argv0 = "gaia";
	int stdout_kind = 0;      // 0 file, 1 pipe, 2 terminal
	int mask = -1;            // umask
	long stack_kb = 0;        // limit of the stack
	long data_kb = 0;         // limit of the data
	int closed = 0;           // bit n: the program starts without descriptor n
};

struct Fail { Str msg; };
struct Inconclusive { Str msg; };

struct Server;
struct Ctx {
	Choices c;
	int size = 0;          // 0..100, grows over a run
	bool thorough = false;
	bool replaying = false;
	bool context = false;  // sources are sometimes run as part of a larger program
	Str dir;               // private scratch directory
	uint64_t execs = 0;
	std::map<Str, uint64_t> classes;
	bool nontrivial = false;
	uint64_t key = 0;      // identity of the case
	Str sample_text;
	std::vector<std::pair<Str, Str>> artifacts;
	std::vector<Str> known; // known findings met
	std::map<Str, Server *> servers;

	void cls(const Str &s, uint64_t n = 1) { classes[s] += n; }
	void use(const Str &src) { key = hash_str(src, key ^ 0x1234567); }
	void art(const Str &name, const Str &body) { artifacts.push_back({name, body}); }
	[[noreturn]] void fail(const Str &m) { throw Fail{m}; }
	[[noreturn]] void set_aside(const Str &m) { throw Inconclusive{m}; }
	long scaled(long lo, long hi) // a length that grows with size
	{
		long top = lo + (hi - lo) * (size + 1) / 101;
		return c.range(lo, top);
	}
	Result run(const Str &src, const RunOpts &o = RunOpts());
	Str behind(const Str &src); // the source behind other lines of no influence
	Result run_alone(const Str &src, const RunOpts &o = RunOpts());
	Result proc(const ProcOpts &o);
	Str binary(const Str &variant);
	~Ctx();
};

struct Property {
	Str id;
	Str technique_rule;    // how cases are made and what is non-trivial
	std::function<uint64_t(bool thorough)> enum_count;  // may be null
	std::function<void(Ctx &, uint64_t)> enum_case;
	std::function<void(Ctx &)> random_case;             // may be null
	uint64_t quick = 0, thorough = 0;                   // random cases over all shards
	std::vector<Str> variants;
	Str level = "exploration";
	std::function<void(Ctx &, const Str &)> text_case; // judges one source text (fuzzing findings); may be null
};
std::vector<Property> &registry();
struct Reg { Reg(Property p) { registry().push_back(std::move(p)); } };

// ---- small helpers
// NAME of every variable the program could ask its environment for: the upper-case words among its texts
const std::vector<Str> &words_of_binary(Ctx &);
Str strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
Str esc(const Str &s, size_t max = 4000);
Str hexdump(const Bytes &b, size_t from, size_t n);
Bytes slurp(const Str &path, bool *ok = nullptr);
void spill(const Str &path, const void *p, size_t n);
inline void spill(const Str &path, const Str &s) { spill(path, s.data(), s.size()); }

// ---- expectations on one run of the assembler
struct Diag { bool ok = false; Str file; long line = 0; Str msg; Str text; long caret = -1; Str raw; };
Diag parse_diag(const Str &out);         // file:line: ERROR: ...
bool has_error(const Str &out);          // an error message is present
bool claims_success(const Str &out);
long visual_col(const Str &line, size_t off);
void expect_clean(Ctx &, const Result &, const char *what);  // no signal, no hang, exit 0/1
void expect_ok(Ctx &, const Result &, const Bytes &image, long bytes, long symbols, const char *what);
void expect_accept(Ctx &, const Result &, const char *what);
void expect_reject(Ctx &, const Result &, int kind, long line, const char *what); // kind<0: any, line<0: any
void expect_same(Ctx &, const Result &a, const Result &b, const char *what);       // same acceptance and, if accepted, same image
void expect_ref(Ctx &, const Result &, const RefResult &, bool diag, const char *what);
Str first_diff(const Bytes &a, const Bytes &b);
#endif
