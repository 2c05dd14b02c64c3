// fuzz_text.cc - libFuzzer target: the whole assembler in-process on one source
// text, under AddressSanitizer and UBSan.  With GAIA_FUZZ=ref the outcome is
// also compared with the reference assembler.  What it finds is only a
// candidate: the checker runs every finding again through the real program.
#include "ref.h"
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

extern "C" int gaia_main(int argc, char **argv);
static jmp_buf out_of_main;
static int exit_code;
extern "C" void gaia_exit(int code)
{
	exit_code = code;
	longjmp(out_of_main, 1);
}
static std::string dir, in_path, out_path;
static bool with_ref;
static int out_fd;
static void cleanup()
{
	unlink(in_path.c_str());
	unlink(out_path.c_str());
	rmdir(dir.c_str());
}
extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
	// a folder that whoever started this removes: a killed process cannot
	const char *under = getenv("GAIA_FUZZ_TMP");
	std::string t = std::string(under ? under : "/tmp") + "/gaia-fuzz-XXXXXX";
	char *d = mkdtemp(&t[0]);
	if (!d)
		_exit(3);
	dir = d;
	in_path = dir + "/in.asm";
	out_path = dir + "/out.bin";
	atexit(cleanup);
	const char *m = getenv("GAIA_FUZZ");
	with_ref = m && std::string(m) == "ref";
	out_fd = memfd_create("stdout", 0);
	dup2(out_fd, 1);
	return 0;
}
static std::string slurp(const std::string &p)
{
	std::string s;
	int f = open(p.c_str(), O_RDONLY);
	struct stat st;
	if (f >= 0 && !fstat(f, &st) && st.st_size > 0) {
		s.resize(st.st_size);
		s.resize(read(f, &s[0], s.size()));
	}
	if (f >= 0)
		close(f);
	return s;
}
static void wrong(const char *what)
{
	fprintf(stderr, "fuzz_text: %s\n", what);
	cleanup();
	abort();
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *p, size_t n)
{
	int f = open(in_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (write(f, p, n) != (ssize_t)n)
		_exit(3);
	close(f);
	unlink(out_path.c_str());
	std::string a1 = "-o";
	char a0[] = "gaia";
	char *argv[] = {a0, &a1[0], &out_path[0], &in_path[0], nullptr};
	int rc;
	if (setjmp(out_of_main) == 0)
		rc = gaia_main(4, argv);
	else
		rc = exit_code;
	fflush(stdout);
	std::string out;
	struct stat st;
	if (!fstat(out_fd, &st) && st.st_size > 0) {
		out.resize(st.st_size);
		out.resize(std::max<ssize_t>(0, pread(out_fd, &out[0], out.size(), 0)));
	}
	if (ftruncate(out_fd, 0))
		_exit(3);
	lseek(out_fd, 0, SEEK_SET);
	if (rc != 0 && rc != 1)
		wrong("exit status");
	if (!with_ref)
		return 0;
	RefResult r = RefAsm::run(std::string((const char *)p, n));
	if (r.ok != (rc == 0))
		wrong(r.ok ? "a correct program is rejected" : "a faulty program is accepted");
	if (!r.ok) {
		std::string want = in_path + ":" + std::to_string(r.line) + ": ERROR: ";
		if (out.compare(0, want.size(), want) != 0)
			wrong("wrong line");
	} else if (!r.past_end && !r.overlap_fwd) {
		std::string img = slurp(out_path);
		if (img != std::string(r.image.begin(), r.image.end()))
			wrong("wrong image");
	}
	return 0;
}
