#ifndef FORKSRV_H
#define FORKSRV_H
#include <stdint.h>
#define FS_MAGIC 0x6a1a5e12u
struct fs_req {
	int64_t cpu_s;
	int64_t fsize;      /* RLIMIT_FSIZE, 0 = none unless fsize_zero */
	int64_t fsize_zero;
	int64_t fail_alloc; /* 1-based, 0 = none */
	int64_t fail_read;  /* bytes delivered before EIO, -1 = none */
	int64_t read_piece; /* deliver at most this many bytes per read, 0 = all */
	int64_t fail_write; /* bytes accepted before ENOSPC, -1 = none */
	int64_t fail_close; /* closing the output reports EIO */
	int64_t read_once;  /* the read fault happens only once */
	int64_t write_once; /* the write fault happens only once */
	int64_t no_seek;    /* the output cannot seek, like a pipe */
	int64_t strange;    /* not 0: new memory is filled with bytes made from it; so are answers about the surroundings */
};
struct fs_shared { uint64_t allocs; int64_t written; int fired; int cookies; };
struct fs_rep {
	uint32_t magic;
	int32_t pid, started, status, fired;
	int32_t cookies;
	uint64_t allocs;
};
#endif
