#!/bin/bash
# replay.sh PROP HARNESS VALUES: builds the harness of PROP natively against /repo and runs it on the recorded inputs
cd "$(dirname "$0")/.." || exit 2
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
for f in harness/$1.cpp harness/$1_*.cpp; do
	[ -e "$f" ] || continue
	fl=$(sed -n 's|^//[ ]*FLAGS:||p' "$f")
	case "$fl" in *-fopenmp*)
		for s in "$f" engine/replay.cpp engine/replay_omp.cpp; do clang++ -std=c++14 -O0 -g -w -DREPLAY_THREADS -fsanitize=thread -I engine -I "${VERIF_REPO:-/repo}/src" -DTHEORETICA_NO_PRINT $fl -c "$s" -o "$d/$(basename $s).o" || exit 2; done
		clang++ -fsanitize=thread -rdynamic "$d"/*.o -o "$d/r" -ldl -lpthread || exit 2;;
	*)
	g++ -std=c++14 -O0 -g -w -fsanitize=address,undefined -fno-sanitize=signed-integer-overflow,float-cast-overflow -rdynamic -I engine -I "${VERIF_REPO:-/repo}/src" -DTHEORETICA_NO_PRINT $fl "$f" engine/replay.cpp -o "$d/r" -ldl || exit 2
	esac
	if nm "$d/r" | grep -q " h_$2\$"; then ASAN_OPTIONS=detect_leaks=0 "$d/r" "$2" "$3"; exit $?; fi
done
echo "no harness $2 in $1"; exit 2
