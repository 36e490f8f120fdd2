#!/bin/bash
# usage: build.sh OUTDIR [st|mt|x|all]   builds simbin_st (C library), simbin_mt (every memory access a scheduling point)
# and simbin_x (with the C++ classes) from the working tree of $REPO
set -u
REPO=${REPO:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd); OUT=$1; mkdir -p "$OUT"; cd "$OUT" || exit 2
SYMS="open open64 creat read write pread pread64 pwrite pwrite64 readv writev lseek lseek64 ftruncate ftruncate64 truncate truncate64 fsync fdatasync close stat stat64 lstat lstat64 fstat fstat64 access fcntl fcntl64 unlink rename flock umask gettimeofday time clock_gettime exit _exit abort __assert_fail malloc calloc realloc free strdup pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_self pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_unlock usleep sleep nanosleep sched_yield"
WRAP=""; for s in $SYMS; do WRAP="$WRAP -Wl,--wrap=$s"; done
BASE="-g1 -O1 -fno-omit-frame-pointer -fsanitize=address -D_FILE_OFFSET_BITS=64 -D_GNU_SOURCE -w"
LIBF="$BASE -fsanitize-coverage=trace-pc-guard -ftrivial-auto-var-init=pattern -I$REPO/filehash -I$REPO/src"
WHAT=${2:-all}
CC=clang; CXX=clang++
pids=(); fail=0
go() { "$@" & pids+=($!); }
rm -f ./*.o
for v in st mt; do
  X=""; [ $v = mt ] && X="-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"
  [ $WHAT != all ] && [ $WHAT != $v ] && ! [ $WHAT$v = xst ] && continue
  for f in $REPO/filehash/ffdb_*.c; do go $CC $LIBF $X -c "$f" -o lib_${v}_$(basename "$f" .c).o; done
done
if [ $WHAT = x ] || [ $WHAT = all ]; then
  # the C++ library sources, without programs
  CPPS=$(cd $REPO/src && for f in *.cpp; do case $f in *[Tt]est*) ;; *) grep -q 'main *(' $f || echo $f;; esac; done)
  for f in $CPPS; do go $CXX -std=c++17 $LIBF -c $REPO/src/$f -o xlib_$(basename $f .cpp).o; done
  go $CXX -std=c++17 $LIBF -c $HERE/xglue.cpp -o xlib_xglue.o
fi
for f in core simfs sched; do go $CXX -std=c++17 $BASE -c $HERE/$f.cpp -o sim_$f.o; done
for f in engine gen main; do go $CXX -std=c++17 $BASE -I$REPO/filehash -I$REPO/src -c $HERE/$f.cpp -o sim_$f.o; done
for p in "${pids[@]}"; do wait $p || fail=1; done
[ $fail = 0 ] || { echo "BUILD FAILED"; exit 2; }
# the library's variables in sections of their own: every simulated process starts with them as loaded
for f in lib_*.o; do
  A=$(readelf -S -W "$f" | sed -n 's/^ *\[ *[0-9]*\] \(\.\(data\|bss\)\(\.[^ ]*\)\?\) .*/\1/p' | grep -v '^\.data\.rel\.ro' | sed 's/^\.\(data\|bss\).*/--rename-section &=ffdb\1/')
  [ -z "$A" ] || objcopy $A "$f" || { echo "OBJCOPY FAILED"; exit 2; }
done
pids=()
for v in st mt; do
  [ $WHAT != all ] && [ $WHAT != $v ] && continue
  go $CXX -fsanitize=address -o simbin_$v sim_*.o lib_${v}_*.o $WRAP -lpthread
done
[ $WHAT = x ] || [ $WHAT = all ] && go $CXX -fsanitize=address -o simbin_x sim_*.o lib_st_*.o xlib_*.o $WRAP -lpthread
for p in "${pids[@]}"; do wait $p || fail=1; done
[ $fail = 0 ] || { echo "LINK FAILED"; exit 2; }
