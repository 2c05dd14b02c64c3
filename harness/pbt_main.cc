// pbt_main.cc - runs one property: enumerated cases, then rapidcheck-driven
// random cases, over a fixed number of shards; shrinks, confirms and records a
// failure; merges the measured coverage into the evidence file.
#include "soup.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <rapidcheck.h>
#include <signal.h>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

Str g_build_dir, g_scratch;
static Str g_known_file;
std::map<Str, Str> g_known; // id -> text of the finding, for the current property
static const int SHARDS = 8;

static double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}
static Str json(const Str &s)
{
	Str r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += c;
		} else if (c < 32 || c >= 127) {
			r += strf("\\u%04x", c);
		} else {
			r += c;
		}
	}
	return r + "\"";
}
static Str b64ish(const std::vector<uint32_t> &v)
{
	Str r;
	for (uint32_t x : v)
		r += strf("%u ", x);
	return r;
}

struct Failure {
	bool set = false;
	Str msg;
	Str mode;
	uint64_t index = 0;
	int size = 0;
	std::vector<uint32_t> choices;
	std::vector<std::pair<Str, Str>> artifacts;
	int shrinks = 0;
};
struct Totals {
	uint64_t evals = 0, execs = 0, enumerated = 0, skipped = 0, nontrivial = 0;
	std::set<uint64_t> keys;
	std::map<Str, uint64_t> classes;
	std::vector<Str> samples;
	std::map<Str, uint64_t> known;
};

// one evaluation; true = held
static bool evaluate(const Property &p, Ctx &x, const Str &mode, uint64_t index, Failure *f)
{
	x.classes.clear();
	x.artifacts.clear();
	x.known.clear();
	x.nontrivial = false;
	x.key = 0;
	x.sample_text.clear();
	x.execs = 0;
	static const std::set<Str> alone = {"C15", "C17", "C18", "C19", "C20", "C22", "C30", "C31", "C32", "C33"};
	x.context = !alone.count(p.id);
	try {
		if (mode == "enum") {
			p.enum_case(x, index);
		} else if (mode == "text") {
			Str t;
			x.c.fresh = false;
			for (size_t i = 0; i < x.c.in.size(); i++)
				t += (char)x.c.below(256);
			p.text_case(x, t);
		}
		else
			p.random_case(x);
		return true;
	} catch (const Inconclusive &e) { // the oracles disagree among themselves: no verdict on the program
		static bool told;
		if (!told)
			fprintf(stderr, "pbt: %s: %s\n", p.id.c_str(), e.msg.substr(0, 400).c_str());
		told = true;
		x.nontrivial = false;
		x.cls("set aside because the oracles disagree");
		return true;
	} catch (const Fail &e) {
		if (f) {
			f->set = true;
			f->msg = e.msg;
			f->mode = mode;
			f->index = index;
			f->size = x.size;
			f->choices = x.c.used;
			f->artifacts = x.artifacts;
		}
		return false;
	}
}

static void shrink(const Property &p, Ctx &x, Failure &best, double budget)
{
	double end = now() + budget;
	int tries = 0;
	auto attempt = [&](const std::vector<uint32_t> &v, int size) {
		if (now() > end || tries > 3000)
			return false;
		tries++;
		x.c = Choices();
		x.c.fresh = false;
		x.c.in = v;
		x.size = size;
		Failure f;
		if (evaluate(p, x, best.mode, best.index, &f))
			return false;
		// simpler means fewer decisions, or smaller ones
		if (f.choices.size() > best.choices.size() ||
		    (f.choices.size() == best.choices.size() && !(f.choices < best.choices) && size >= best.size))
			return false;
		int n = best.shrinks + 1;
		best = f;
		best.shrinks = n;
		return true;
	};
	for (int s : {0, 2, 5, 10, 20, 40})
		if (s < best.size && attempt(best.choices, s))
			break;
	bool progress = true;
	while (progress && now() < end && tries < 3000) {
		progress = false;
		for (size_t k = best.choices.size(); k >= 1; k /= 2) { // delete chunks
			for (size_t i = 0; i + k <= best.choices.size();) {
				std::vector<uint32_t> v = best.choices;
				v.erase(v.begin() + i, v.begin() + i + k);
				if (attempt(v, best.size))
					progress = true;
				else
					i += k;
				if (now() > end)
					return;
			}
		}
		for (size_t k = std::min<size_t>(64, best.choices.size()); k >= 1; k /= 4) { // zero chunks
			for (size_t i = 0; i + k <= best.choices.size(); i += k) {
				std::vector<uint32_t> v = best.choices;
				bool any = false;
				for (size_t j = i; j < i + k; j++) {
					any |= v[j] != 0;
					v[j] = 0;
				}
				if (any && attempt(v, best.size))
					progress = true;
				if (now() > end)
					return;
			}
		}
		for (size_t i = 0; i < best.choices.size() && now() < end; i++) // smaller values
			for (uint32_t cand : {best.choices[i] / 2, best.choices[i] - 1}) {
				if (i >= best.choices.size() || best.choices[i] == 0)
					break;
				std::vector<uint32_t> v = best.choices;
				v[i] = cand;
				if (cand < best.choices[i] && attempt(v, best.size)) {
					progress = true;
					break;
				}
			}
	}
}

static void put(FILE *f, const Str &s)
{
	fprintf(f, "%zu ", s.size());
	fwrite(s.data(), 1, s.size(), f);
	fputc('\n', f);
}
static Str get(FILE *f)
{
	size_t n = 0;
	if (fscanf(f, "%zu", &n) != 1)
		return "";
	fgetc(f);
	Str s(n, 0);
	if (fread(&s[0], 1, n, f) != n)
		return "";
	fgetc(f);
	return s;
}

// source texts for the fuzzers to start from
static int emit_seeds(const Str &dir, int n, uint64_t seed)
{
	for (int i = 0; i < n; i++) {
		Ctx x;
		x.c.state = mix64(seed * 77777 + i);
		x.size = i % 60;
		Str s;
		if (i % 4 == 3) {
			s = soup(x);
		} else {
			GenOpts o;
			o.max_lines = 25;
			o.branchy = 25;
			Prog p = gen_prog(x, o);
			s = render(x.c, p, random_style(x.c));
		}
		if (s.size() < 3000)
			spill(dir + strf("/seed%04d", i), s);
	}
	return 0;
}
static std::vector<Str> g_texts; // files with source texts that fuzzing kept

static int worker(const Property &p, int shard, bool thorough, uint64_t seed, double deadline, const Str &resfile)
{
	Ctx x;
	x.thorough = thorough;
	x.dir = g_scratch + strf("/s%d", shard);
	mkdir(x.dir.c_str(), 0755);
	Totals t;
	Failure fail;
	bool stop = false;
	auto account = [&](const Str &mode) {
		t.evals++;
		t.execs += x.execs;
		if (mode == "enum")
			t.enumerated++;
		if (x.nontrivial) {
			t.nontrivial++;
			t.keys.insert(x.key);
		}
		for (auto &c : x.classes)
			t.classes[c.first] += c.second;
		for (auto &k : x.known)
			t.known[k]++;
		if (!x.sample_text.empty() && t.samples.size() < 2 && (t.evals % 7 == 3 || t.samples.empty()) && x.nontrivial)
			t.samples.push_back(x.sample_text);
	};
	auto handle_failure = [&](Failure &f) {
		shrink(p, x, f, thorough ? 60 : 25);
		// confirm from the recorded decisions
		// (the harness itself is deterministic; code whose behaviour depends on
		// what memory happens to hold may need more than three attempts)
		int again = 0;
		for (int i = 0; i < 10 && again < 3; i++) {
			x.c = Choices();
			x.c.fresh = false;
			x.c.in = f.choices;
			x.size = f.size;
			Failure g;
			if (!evaluate(p, x, f.mode, f.index, &g)) {
				again++;
				f.msg = g.msg;
				f.artifacts = g.artifacts;
			}
		}
		if (again < 3) {
			fprintf(stderr, "pbt: %s: a failure did not repeat (%d of 10), not reported: %s\n", p.id.c_str(), again, f.msg.c_str());
			t.classes["unconfirmed failures"]++;
			f.set = false;
			return;
		}
		fail = f;
		stop = true;
	};
	for (size_t i = shard; p.text_case && i < g_texts.size() && !stop; i += SHARDS) {
		Bytes b = slurp(g_texts[i]);
		x.c = Choices();
		x.c.fresh = false;
		x.c.in.assign(b.begin(), b.end());
		x.size = 0;
		Failure f;
		bool ok = evaluate(p, x, "text", i, &f);
		account("text");
		x.classes.clear();
		t.classes["source texts kept by coverage-guided fuzzing, run again"]++;
		if (!ok)
			handle_failure(f);
	}
	uint64_t n = p.enum_count ? p.enum_count(thorough) : 0;
	// visit the enumeration in a seed-independent but spread-out order
	for (uint64_t i = shard; i < n && !stop; i += SHARDS) {
		if (now() > deadline) {
			t.skipped += (n - i + SHARDS - 1) / SHARDS;
			break;
		}
		x.c = Choices();
		x.c.state = mix64(seed * 1000003 + i);
		x.size = 50;
		Failure f;
		bool ok = evaluate(p, x, "enum", i, &f);
		account("enum");
		if (!ok)
			handle_failure(f);
	}
	uint64_t cases = thorough ? p.thorough : p.quick;
	cases = (cases + SHARDS - 1) / SHARDS;
	if (cases && !stop && p.random_case) {
		uint64_t rcseed = mix64(mix64(seed * SHARDS + (uint64_t)shard) ^ hash_str(p.id));
		setenv("RC_PARAMS", strf("seed=%llu max_success=%llu max_size=100 noshrink=1", (unsigned long long)rcseed, (unsigned long long)cases).c_str(), 1);
		std::ostringstream quiet;
		auto *old = std::cerr.rdbuf(quiet.rdbuf());
		rc::check(p.id, [&] {
			uint64_t word = *rc::gen::resize(100, rc::gen::arbitrary<uint64_t>());
			int size = *rc::gen::withSize([](int s) { return rc::gen::just(s); });
			if (stop)
				return;
			if (now() > deadline) {
				t.skipped++;
				return;
			}
			x.c = Choices();
			x.c.state = mix64(word);
			x.size = std::min(size, 100);
			Failure f;
			bool ok = evaluate(p, x, "random", 0, &f);
			account("random");
			if (!ok) {
				handle_failure(f);
				if (stop)
					RC_FAIL("violated");
			}
		});
		std::cerr.rdbuf(old);
	}
	FILE *f = fopen((resfile + ".tmp").c_str(), "w");
	fprintf(f, "%llu %llu %llu %llu %llu\n", (unsigned long long)t.evals, (unsigned long long)t.execs, (unsigned long long)t.enumerated,
		(unsigned long long)t.skipped, (unsigned long long)t.nontrivial);
	fprintf(f, "%zu\n", t.keys.size());
	for (uint64_t k : t.keys)
		fprintf(f, "%llx\n", (unsigned long long)k);
	fprintf(f, "%zu\n", t.classes.size());
	for (auto &c : t.classes) {
		put(f, c.first);
		fprintf(f, "%llu\n", (unsigned long long)c.second);
	}
	fprintf(f, "%zu\n", t.samples.size());
	for (auto &s : t.samples)
		put(f, s);
	fprintf(f, "%zu\n", t.known.size());
	for (auto &k : t.known) {
		put(f, k.first);
		fprintf(f, "%llu\n", (unsigned long long)k.second);
	}
	fprintf(f, "%d\n", fail.set ? 1 : 0);
	if (fail.set) {
		put(f, fail.msg);
		put(f, fail.mode);
		fprintf(f, "%llu %d %d %zu\n", (unsigned long long)fail.index, fail.size, fail.shrinks, fail.choices.size());
		for (uint32_t v : fail.choices)
			fprintf(f, "%u ", v);
		fprintf(f, "\n%zu\n", fail.artifacts.size());
		for (auto &a : fail.artifacts) {
			put(f, a.first);
			put(f, a.second);
		}
	}
	fclose(f);
	rename((resfile + ".tmp").c_str(), resfile.c_str());
	return fail.set ? 10 : 0;
}

static void remove_tree(const Str &d)
{
	// only ever called on our own scratch directory
	DIR *h = opendir(d.c_str());
	if (h) {
		while (struct dirent *e = readdir(h)) {
			Str n = e->d_name;
			if (n == "." || n == "..")
				continue;
			Str p = d + "/" + n;
			struct stat st;
			if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode))
				remove_tree(p);
			else
				unlink(p.c_str());
		}
		closedir(h);
	}
	rmdir(d.c_str());
}

static void load_known(const Str &prop)
{
	// lines "known: property=<id> id=<finding> <what fails>"
	std::ifstream in(g_known_file);
	Str l;
	while (std::getline(in, l)) {
		if (l.compare(0, 7, "known: ") != 0)
			continue;
		size_t a = l.find("property="), b = l.find(" id=");
		if (a == Str::npos || b == Str::npos)
			continue;
		if (l.substr(a + 9, l.find(' ', a) - a - 9) != prop)
			continue;
		size_t e = l.find(' ', b + 4);
		g_known[l.substr(b + 4, e - b - 4)] = e == Str::npos ? "" : l.substr(e + 1);
	}
}

int main(int argc, char **argv)
{
	Str id, replay, evidence, replays = ".", seeds = "1", tier = "quick", merge, texts, emit;
	for (int i = 1; i < argc; i++) {
		Str a = argv[i];
		auto val = [&] { return i + 1 < argc ? Str(argv[++i]) : Str(); };
		if (a == "--build") g_build_dir = val();
		else if (a == "--seed") seeds = val();
		else if (a == "--tier") tier = val();
		else if (a == "--evidence") evidence = val();
		else if (a == "--replays") replays = val();
		else if (a == "--known") g_known_file = val();
		else if (a == "--replay") replay = val();
		else if (a == "--extra") merge = val();   // file with "key<TAB>json" lines for the coverage object
		else if (a == "--texts") texts = val();   // directory with source texts
		else if (a == "--emit") emit = val();
		else if (a == "--list") {
			for (auto &p : registry())
				printf("%s\n", p.id.c_str());
			return 0;
		} else if (a == "--variants") {
			Str q = val();
			for (auto &p : registry())
				if (p.id == q)
					for (auto &v : p.variants)
						printf("%s ", v.c_str());
			return 0;
		} else id = a;
	}
	if (!emit.empty())
		return emit_seeds(emit, 400, strtoull(seeds.c_str(), nullptr, 10));
	if (!texts.empty())
		if (DIR *h = opendir(texts.c_str())) {
			while (struct dirent *e = readdir(h))
				if (e->d_name[0] != '.')
					g_texts.push_back(texts + "/" + e->d_name);
			closedir(h);
			std::sort(g_texts.begin(), g_texts.end());
		}
	bool thorough = tier == "thorough";
	Failure rf;
	if (!replay.empty()) {
		std::ifstream in(replay);
		Str k;
		while (in >> k && k != "---") {
			if (k == "property") in >> id;
			else if (k == "mode") in >> rf.mode;
			else if (k == "index") in >> rf.index;
			else if (k == "size") in >> rf.size;
			else if (k == "tier") in >> tier;
			else if (k == "choices") {
				size_t n;
				in >> n;
				rf.choices.resize(n);
				for (auto &v : rf.choices)
					in >> v;
			}
		}
		thorough = tier == "thorough";
	}
	const Property *p = nullptr;
	for (auto &q : registry())
		if (q.id == id)
			p = &q;
	if (!p) {
		fprintf(stderr, "pbt: unknown property %s\n", id.c_str());
		return 3;
	}
	load_known(id);
	signal(SIGPIPE, SIG_IGN);
	const char *base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
	g_scratch = strf("%s/gaia-pbt-XXXXXX", base);
	if (!mkdtemp(&g_scratch[0]))
		return 3;
	chmod(g_scratch.c_str(), 0755);
	double t0 = now();

	if (!replay.empty()) {
		bool ok;
		{
			Ctx x;
			x.thorough = thorough;
			x.replaying = true;
			x.dir = g_scratch + "/r";
			mkdir(x.dir.c_str(), 0755);
			x.c.fresh = false;
			x.c.in = rf.choices;
			x.size = rf.size;
			Failure f;
			ok = evaluate(*p, x, rf.mode, rf.index, &f);
			for (auto &a : f.artifacts)
				printf("----- %s\n%s\n", a.first.c_str(), a.second.c_str());
			if (!ok)
				printf("FAILS: %s\n", f.msg.c_str());
			else
				printf("holds\n");
		}
		remove_tree(g_scratch);
		return ok ? 0 : 1;
	}

	uint64_t seed = strtoull(seeds.c_str(), nullptr, 10);
	double deadline = t0 + (thorough ? 560 : 240);
	std::vector<pid_t> pids(SHARDS);
	fflush(stdout);
	if (getenv("PBT_SHARD")) // for debugging the harness
		return worker(*p, atoi(getenv("PBT_SHARD")), thorough, seed, deadline, g_scratch + "/res0");
	for (int s = 0; s < SHARDS; s++) {
		pids[s] = fork();
		if (pids[s] == 0) {
			setpgid(0, 0);
			int rc = worker(*p, s, thorough, seed, deadline, g_scratch + strf("/res%d", s));
			_exit(rc);
		}
		setpgid(pids[s], pids[s]);
	}
	bool broken = false, cut = false;
	int left = SHARDS;
	while (left > 0) {
		int st;
		pid_t w = wait(&st);
		if (w < 0)
			break;
		left--;
		int s = (int)(std::find(pids.begin(), pids.end(), w) - pids.begin());
		if (s >= SHARDS)
			continue;
		pids[s] = -1;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
			// a confirmed failure ends the run; the other shards are stopped
			cut = true;
			for (pid_t q : pids)
				if (q > 0)
					kill(-q, SIGKILL);
		} else if (!WIFEXITED(st) || WEXITSTATUS(st)) {
			if (!cut) {
				broken = true;
				fprintf(stderr, "pbt: worker %d ended with wait status %x\n", s, st);
			}
		}
	}
	Totals t;
	Failure fail;
	for (int s = 0; s < SHARDS; s++) {
		FILE *f = fopen((g_scratch + strf("/res%d", s)).c_str(), "r");
		if (!f) {
			if (!cut)
				broken = true;
			continue;
		}
		unsigned long long a, b, c, d, e;
		size_t n;
		if (fscanf(f, "%llu %llu %llu %llu %llu", &a, &b, &c, &d, &e) != 5)
			broken = true;
		t.evals += a; t.execs += b; t.enumerated += c; t.skipped += d; t.nontrivial += e;
		if (fscanf(f, "%zu", &n) != 1) broken = true;
		for (size_t i = 0; i < n; i++) {
			if (fscanf(f, "%llx", &a) != 1) broken = true;
			t.keys.insert(a);
		}
		if (fscanf(f, "%zu", &n) != 1) broken = true;
		for (size_t i = 0; i < n; i++) {
			Str k = get(f);
			if (fscanf(f, "%llu", &a) != 1) broken = true;
			t.classes[k] += a;
		}
		if (fscanf(f, "%zu", &n) != 1) broken = true;
		for (size_t i = 0; i < n; i++) {
			Str q = get(f);
			if (t.samples.size() < 5)
				t.samples.push_back(q);
		}
		if (fscanf(f, "%zu", &n) != 1) broken = true;
		for (size_t i = 0; i < n; i++) {
			Str k = get(f);
			if (fscanf(f, "%llu", &a) != 1) broken = true;
			t.known[k] += a;
		}
		int has = 0;
		if (fscanf(f, "%d", &has) != 1) broken = true;
		if (has) {
			Failure g;
			g.set = true;
			g.msg = get(f);
			g.mode = get(f);
			size_t m;
			if (fscanf(f, "%llu %d %d %zu", &a, &g.size, &g.shrinks, &m) != 4) broken = true;
			g.index = a;
			g.choices.resize(m);
			for (auto &v : g.choices)
				if (fscanf(f, "%u", &v) != 1) broken = true;
			if (fscanf(f, "%zu", &n) != 1) broken = true;
			for (size_t i = 0; i < n; i++) {
				Str k = get(f), v = get(f);
				g.artifacts.push_back({k, v});
			}
			if (!fail.set || g.choices.size() < fail.choices.size())
				fail = g;
		}
		fclose(f);
	}
	remove_tree(g_scratch);
	if (broken && !fail.set) {
		fprintf(stderr, "pbt: a worker did not finish\n");
		return 3;
	}
	if (t.evals == 0) {
		fprintf(stderr, "pbt: nothing was evaluated\n");
		return 3;
	}
	Str rp;
	if (fail.set) {
		mkdir(replays.c_str(), 0755);
		rp = strf("%s/%s-%016llx.replay", replays.c_str(), id.c_str(), (unsigned long long)hash_str(fail.msg));
		std::ofstream o(rp);
		o << "property " << id << "\nmode " << fail.mode << "\nindex " << fail.index << "\nsize " << fail.size << "\ntier " << tier
		  << "\nchoices " << fail.choices.size() << " " << b64ish(fail.choices) << "\n---\nseed " << seed << ", " << fail.shrinks
		  << " successful shrinking steps\n" << fail.msg << "\n";
		for (auto &a : fail.artifacts)
			o << "----- " << a.first << "\n" << a.second << "\n";
		printf("%s\n", fail.msg.c_str());
		for (auto &a : fail.artifacts)
			if (a.second.size() < 3000)
				printf("----- %s\n%s\n", a.first.c_str(), a.second.c_str());
	}
	for (auto &k : g_known)
		if (t.known.count(k.first))
			printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), k.second.c_str());
	if (!evidence.empty()) {
		std::ofstream o(evidence);
		o << "{\n \"property\": " << json(id) << ",\n \"tier\": " << json(tier) << ",\n \"seed\": " << seed << ",\n \"level\": " << json(p->level)
		  << ",\n \"coverage\": {\n  \"evaluations\": " << t.evals << ",\n  \"distinct_nontrivial\": " << t.keys.size()
		  << ",\n  \"rule\": " << json(p->technique_rule) << ",\n  \"enumerated_cases\": " << t.enumerated << ",\n  \"random_cases\": " << t.evals - t.enumerated
		  << ",\n  \"program_executions\": " << t.execs << ",\n  \"not_run_for_time\": " << t.skipped << ",\n  \"classes\": {";
		bool first = true;
		for (auto &c : t.classes) {
			o << (first ? "" : ",") << "\n   " << json(c.first) << ": " << c.second;
			first = false;
		}
		o << "\n  },\n  \"samples\": [";
		first = true;
		for (auto &s : t.samples) {
			o << (first ? "" : ",") << "\n   " << json(s.size() > 1500 ? s.substr(0, 1500) + "..." : s);
			first = false;
		}
		o << "\n  ]";
		if (!merge.empty()) {
			std::ifstream in(merge);
			Str l;
			while (std::getline(in, l)) {
				size_t tab = l.find('\t');
				if (tab != Str::npos)
					o << ",\n  " << json(l.substr(0, tab)) << ": " << l.substr(tab + 1);
			}
		}
		o << "\n },\n \"assumptions\": [\"the 6502 opcode matrix in harness/isa.h\", \"the compiler and C library\"],\n \"wall_s\": " << strf("%.2f", now() - t0)
		  << ",\n \"violations\": " << (fail.set ? 1 : 0) << "\n}\n";
	}
	if (fail.set) {
		printf("VIOLATION property=%s replay=%s\n", id.c_str(), rp.c_str());
		return 1;
	}
	printf("%s held: %llu cases (%zu distinct non-trivial), %llu program runs, %.1f s\n", id.c_str(), (unsigned long long)t.evals, t.keys.size(),
		(unsigned long long)t.execs, now() - t0);
	return 0;
}
