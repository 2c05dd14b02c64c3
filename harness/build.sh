#!/bin/bash
# build.sh VARIANT...  builds gaia from /repo's current working tree with the
# repository's own Makefile, in /verif/build/<content hash>/<variant>/, and
# prints nothing.  Variants: plain asan ubsan msan fault ; "driver" builds the checker ;
# fuzz-<x> builds a libFuzzer target.  The directory is printed by "dir".
set -u
export LC_ALL=C
unset MAKEFLAGS MFLAGS MAKELEVEL
H=$(cd "$(dirname "$0")" && pwd)
V=$(dirname "$H")
REPO=${GAIA_REPO:-/repo}

srcs() { (cd "$REPO" && find . -path ./.git -prune -o -path ./_build -prune -o -path ./tests -prune \
	-o -path ./unity -prune -o -path ./obj -prune -o -path ./example -prune -o -type f \( -name '*.c' -o -name '*.h' \
	-o -name Makefile -o -name '*.inc' -o -name '*.def' -o -name '*.mk' -o -path './src/*' \) ! -name '*.o' -print0 | sort -z | xargs -0 sha256sum
	cd "$H" && sha256sum ccwrap forksrv.c forksrv.h build.sh *.cc *.h; gcc --version | head -1); }
hash=$(srcs | sha256sum | cut -c1-16)
B=$V/build/$hash
mkdir -p "$B" || exit 3
[ "${1:-}" = dir ] && { echo "$B"; exit 0; }

exec 9> "$B/.lock"
flock 9

copy() { # copy the tree without build products
	local d=$1
	rm -rf "$d.tmp"; mkdir -p "$d.tmp"
	(cd "$REPO" && tar cf - --exclude=./.git --exclude=./_build --exclude='*.o' --exclude=./gaia --exclude=./tests --exclude=./unity .) | tar xf - -C "$d.tmp"
	mkdir -p "$d.tmp/obj"
}
gaia() { # VARIANT OPT XFLAGS LINKWRAP [CC]
	local v=$1 d=$B/$1 cc=${5:-gcc}
	[ -x "$d/gaia" ] && return 0
	copy "$d" || return 1
	local fsdef=
	[ -n "$4" ] && fsdef=-DFS_WRAP
	$cc -O2 -g -w $3 $fsdef -c "$H/forksrv.c" -I"$H" -o "$d.tmp/.forksrv.o" &&
	GAIA_CC=$cc GAIA_OPT="$2" GAIA_XFLAGS="$3" GAIA_LINK="$d.tmp/.forksrv.o $4" \
		make -s -C "$d.tmp" CC="$H/ccwrap" gaia > "$d.log" 2>&1 &&
	[ -x "$d.tmp/gaia" ] && rm -rf "$d" && mv "$d.tmp" "$d"
}
WRAP="-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=strndup,--wrap=reallocarray,--wrap=aligned_alloc,--wrap=getline,--wrap=getdelim,--wrap=fopen,--wrap=getenv,--wrap=secure_getenv,--wrap=time,--wrap=clock,--wrap=gettimeofday,--wrap=clock_gettime,--wrap=rand,--wrap=random,--wrap=isatty,--wrap=getpid,--wrap=getuid,--wrap=geteuid"
SAN="-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
driver() {
	local bin=$V/build/driver-$( (cd "$H" && cat *.cc *.h build.sh | sha256sum; g++ --version | head -1) | sha256sum | cut -c1-16)
	if [ ! -x "$bin/pbt" ]; then
		mkdir -p "$bin"
		exec 8> "$bin/.lock"; flock 8
		if [ ! -x "$bin/pbt" ]; then
			local fail=0 pids=() p f o=()
			for f in "$H"/pbt_*.cc; do
				g++ -std=c++17 -O1 -g -w -I"$H" -c "$f" -o "$bin/$(basename "$f" .cc).o" & pids+=($!)
				o+=("$bin/$(basename "$f" .cc).o")
			done
			for p in "${pids[@]}"; do wait "$p" || fail=1; done
			[ $fail = 0 ] || return 1
			g++ -o "$bin/pbt.tmp" "${o[@]}" -lrapidcheck -lpthread && mv "$bin/pbt.tmp" "$bin/pbt" || return 1
		fi
		exec 8>&-
	fi
	ln -sfn "$bin/pbt" "$B/pbt"
}
fuzz() { # NAME
	local d=$B/fuzz-$1
	[ -x "$d/fuzz" ] && return 0
	copy "$d" || return 1
	(cd "$d.tmp/src" && for f in *.c; do
		clang -g -O1 -std=gnu11 -w -Dmain=gaia_main -Dexit=gaia_exit -I. -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=all -c "$f" -o "../$f.o" & done; wait
	 cd .. && clang++ -g -O1 -std=c++17 -w -I"$H" -fsanitize=fuzzer,address,undefined -fno-sanitize-recover=all "$H/fuzz_$1.cc" ./*.c.o -lm -o fuzz) > "$d.log" 2>&1 &&
	[ -x "$d.tmp/fuzz" ] && rm -rf "$d" && mv "$d.tmp" "$d"
}
api() { # the unit-level entry points the project's own tests call
	local d=$B/api
	[ -x "$d/api" ] && return 0
	copy "$d" || return 1
	(cd "$d.tmp/src" && for f in *.c; do
		[ "$f" = main.c ] && continue
		gcc -g -O2 -std=gnu11 -w -I. $SAN -c "$f" -o "../$f.o" & done; wait
	 cd .. && g++ -g -O2 -std=c++17 -w -I"$H" -Isrc $SAN "$H/api_main.cc" ./*.c.o -lm -o api) > "$d.log" 2>&1 &&
	[ -x "$d.tmp/api" ] && rm -rf "$d" && mv "$d.tmp" "$d"
}
rc=0
for t in "$@"; do
	case $t in
	plain) gaia plain "" "" "" ;;
	asan) gaia asan -O1 "$SAN" "" ;;
	ubsan) gaia ubsan -O2 "-fsanitize=undefined -fno-sanitize-recover=all" "" ;;
	fault) gaia fault -O1 "$SAN" "$WRAP" ;;
	msan) gaia msan -O1 "-fsanitize=memory -fno-sanitize-recover=all -fno-omit-frame-pointer" "" clang ;;
	driver) driver ;;
	api) api ;;
	fuzz-*) fuzz "${t#fuzz-}" ;;
	*) echo "build.sh: unknown target $t" >&2; false ;;
	esac || { echo "build.sh: $t failed" >&2; cat "$B/$t.log" 2>/dev/null | tail -20 >&2; rc=3; }
done
exit $rc
