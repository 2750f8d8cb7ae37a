#!/bin/bash
# build.sh sim OUTDIR | build.sh coder REPO OUTDIR : build the simulator / the generator under test
set -e
here=$(cd "$(dirname "$0")" && pwd)
J=${JOBS:-8}
case "$1" in
sim)
  out=$2; mkdir -p "$out/o"
  ls "$here"/sim/*.cpp | xargs -P "$J" -I{} sh -c 'f={}; b=$(basename $f .cpp); g++ -std=c++17 -O2 -g1 -w -c "$f" -o "'"$out"'/o/$b.o"'
  g++ -o "$out/sim.new" "$out"/o/*.o -Wl,--dynamic-list="$here/sim/exports.list" -ldl
  mv "$out/sim.new" "$out/sim"
  ;;
coder)
  repo=$2; out=$3; mkdir -p "$out/c"
  cd "$repo/src"
  find . -name '*.cpp' -not -path './tests/*' -not -path './_build/*' | sed 's|^\./||' | sort > "$out/c/list"
  xargs -a "$out/c/list" -P "$J" -I{} sh -c 'f={}; b=$(echo $f | tr / _); g++ -std=c++17 -O1 -fPIC -w -U_FORTIFY_SOURCE -D_GLIBCXX_ASSERTIONS -fno-gnu-unique -fsanitize=bounds -fsanitize-trap=bounds -I. -c "$f" -o "'"$out"'/c/$b.o"'
  g++ -shared -Wl,-z,now -o "$out/coder.so.new" "$out"/c/*.o
  mv "$out/coder.so.new" "$out/coder.so"
  ;;
esac
