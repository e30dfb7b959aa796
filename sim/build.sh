#!/bin/bash
# build.sh VARIANT OUTDIR : compiles the sources of /repo (as they are) and links them with the simulator
set -e -o pipefail
V=$1; OUT=$2; REPO=${REPO:-/repo}; H=$(dirname "$(readlink -f "$0")"); CACHE=${SIM_CACHE:-$H/../build}/harness-$V
case $V in
  plain) CC=gcc; SUTF="-g -O2 -fPIC -DPIC"; HF="-O2 -g"; LF="";;
  tsan)  CC=gcc; SUTF="-g -O1 -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -w"; HF="-O2 -g -DSIM_TSAN"; LF="";;
  asan)  CC=gcc; SUTF="-g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"; HF="-O1 -g -DSIM_ASAN"; LF="-fsanitize=address,undefined";;
esac
mkdir -p "$OUT" "$CACHE"
WRAPS=""
for f in malloc calloc realloc free fopen fopen64 fread fclose open open64 __open_2 openat read __read_chk close getrandom getentropy arc4random_buf fork atexit exit abort __assert_fail __gmp_set_memory_functions pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock sched_yield usleep nanosleep; do WRAPS="$WRAPS -Wl,--wrap=$f"; done
# harness objects (kept between checks; rebuilt when their sources or the public headers change)
for c in "$H"/*.cc; do
  o=$CACHE/$(basename "$c" .cc).o; k=$(cat "$c" "$H"/*.h "$H"/*.inc "$REPO"/include/ecc.h "$REPO"/include/ecc/*.h "$H/build.sh" | sha256sum | cut -c1-32)
  if [ "$(cat "$o.key" 2>/dev/null)" != "$k" ] || [ ! -f "$o" ]; then ( g++ -std=c++17 $HF -w -DSIM_VARIANT="\"$V\"" -I"$REPO/include" -I"$H" -c "$c" -o "$o.tmp" && mv "$o.tmp" "$o" && echo "$k" > "$o.key" ) & fi
done
for s in "$REPO"/src/*.c; do $CC $SUTF -DSAFE_CLEAN -I"$REPO/include" -c "$s" -o "$OUT/$(basename "$s" .c).sut.o" & done
fail=0; for j in $(jobs -p); do wait $j || fail=1; done; [ $fail = 0 ] || { echo "build failed"; exit 3; }
# every call into GMP or the memory and string functions is a preemption point too
EXTRA=""
if [ "$V" = tsan ]; then
  TR=$(nm -u "$OUT"/*.sut.o | awk '{print $NF}' | sort -u | grep -E '^(__gmp[nzqf]?_|mem(cpy|move|set|cmp)$|__mem(cpy|move|set)_chk$|str(cpy|ncpy|len|cmp|ncmp|dup|cat)$|__str(cpy|ncpy|cat)_chk$)' | grep -v __gmp_set_memory_functions || true)
  for f in $TR; do WRAPS="$WRAPS -Wl,--wrap=$f"; printf '.globl __wrap_%s\n__wrap_%s:\n push %%rdi\n push %%rsi\n push %%rdx\n push %%rcx\n push %%r8\n push %%r9\n push %%rax\n call sim_call_hook\n pop %%rax\n pop %%r9\n pop %%r8\n pop %%rcx\n pop %%rdx\n pop %%rsi\n pop %%rdi\n jmp __real_%s\n' $f $f $f; done > "$OUT/tramp.s"
  printf '.section .note.GNU-stack,"",@progbits\n' >> "$OUT/tramp.s"; as "$OUT/tramp.s" -o "$OUT/tramp.o"; EXTRA=$OUT/tramp.o
fi
ls "$CACHE"/*.o >/dev/null
OBJS=""; for c in "$H"/*.cc; do OBJS="$OBJS $CACHE/$(basename "$c" .cc).o"; done
g++ -no-pie -pthread $LF -o "$OUT/sim" $OBJS "$OUT"/*.sut.o $EXTRA $WRAPS -lgmpxx -lgmp
