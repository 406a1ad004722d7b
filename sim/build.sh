#!/bin/bash
# build.sh OUTDIR [race]: build the simulator together with clingcon from $REPO
set -eu
here=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
out=$1
race=${2:-}
CLINGO=/opt/vp/pydeps/lib/python3.12/site-packages/clingo
SO=$(ls "$CLINGO"/_clingo*.so | head -1)
mkdir -p "$out"
TP="-isystem $REPO/third_party -isystem $REPO/third_party/wide-integer"
INC="-I$REPO/libclingcon -I$CLINGO $TP"
DEF="-DCLINGCON_NO_VISIBILITY"
python3 "$here/gen_wrap.py" "$CLINGO" "$out/wrap.cc" "$out/wrap.flags"
LIBF="-std=c++17 -O2 -g1 -DNDEBUG -fsanitize-coverage=trace-pc"
if [ "$race" = race ]; then LIBF="-std=c++17 -O1 -g1 -DNDEBUG -fsanitize-coverage=trace-pc -fsanitize=thread"; fi
SIMF="-std=c++17 -O2 -g1 -Wall"
pids=()
run() { "$@" & pids+=($!); }
objs=()
for f in $(cd "$REPO/libclingcon/src" && ls *.cc | sed "s/\.cc$//"); do
  run g++ $LIBF $DEF $INC -c "$REPO/libclingcon/src/$f.cc" -o "$out/lib_$f.o"; objs+=("$out/lib_$f.o")
done
run g++ $LIBF $DEF $INC -Dmain=clingcon_main -c "$REPO/app/main.cc" -o "$out/lib_main.o"; objs+=("$out/lib_main.o")
R=race_stub; [ "$race" = race ] && R=race
for f in rt shim model gen host main $R; do
  run g++ $SIMF $DEF $INC -I"$here" -c "$here/$f.cc" -o "$out/sim_$f.o"; objs+=("$out/sim_$f.o")
done
run g++ $SIMF $DEF $INC -I"$here" -c "$out/wrap.cc" -o "$out/sim_wrap.o"; objs+=("$out/sim_wrap.o")
for p in "${pids[@]}"; do wait $p; done
W=""
if [ "$race" = race ]; then W="-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__cxa_guard_release,--wrap=__cxa_guard_acquire"; fi
g++ -o "$out/sim" "${objs[@]}" $(cat "$out/wrap.flags") $W -rdynamic -Wl,--no-as-needed "$SO" -lpython3.12 -ldl -lpthread -Wl,-rpath,"$CLINGO"
