#!/bin/bash
# build.sh REPO OUTDIR VARIANT   (VARIANT: asan | rel)
# Builds libnoja + the nj driver + the CLI out of tree.
set -eu
REPO=$1; OUT=$2; VAR=$3
HERE=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$OUT/obj"
case $VAR in
  asan) CF="-O1 -g -fsanitize=address -fno-omit-frame-pointer -DNDEBUG"; LF="-fsanitize=address";;
  rel)  CF="-O3 -DNDEBUG"; LF="";;
  *) exit 2;;
esac
gcc -w -o "$OUT/embedder" "$REPO/misc/embedder.c"
JOBS=()
i=0
cd "$REPO/src/lib"
for n in $(find . -name '*.noja' | sort); do
  b=$(basename "$n" .noja)
  "$OUT/embedder" "$n" "${b}_noja" "$OUT/obj/${b}_n.c"
done
{
  for c in $(find . -name '*.c' | sort); do
    o="$OUT/obj/$(echo "$c" | sed 's#^\./##; s#/#__#g; s#\.c$#.o#')"
    echo "gcc -w $CF -c $REPO/src/lib/$c -o $o"
  done
  for c in "$OUT"/obj/*_n.c; do echo "gcc -w $CF -c $c -o ${c%.c}.o"; done
  echo "gcc -w $CF -I$REPO/src/lib -c $HERE/harness/nj.c -o $OUT/nj.o"
  echo "gcc -w $CF -c $REPO/src/cli/main.c -o $OUT/main.o"
} | xargs -P 8 -I{} sh -c '{} || exit 255'
rm -f "$OUT/libnoja.a"
ar rcs "$OUT/libnoja.a" "$OUT"/obj/*.o
W="-Wl,--wrap=fopen,--wrap=fclose,--wrap=opendir,--wrap=closedir"
gcc $LF -o "$OUT/nj" "$OUT/nj.o" "$OUT/libnoja.a" $W -lm
gcc $LF -o "$OUT/noja" "$OUT/main.o" "$OUT/libnoja.a" -lm
