#!/bin/bash
# Builds the simulator from /repo's current working tree: tools/build.sh OUTDIR
# mairix's own sources are compiled unchanged; objcopy redirects its libc calls to the simulator.
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C TZ=UTC
V=$(cd "$(dirname "$0")/.." && pwd); REPO=${MXREPO:-/repo}; B=${1:-$V/build}
mkdir -p "$B/mx/dfasyn" "$B/h" || exit 3
exec 9>"$B/lock"; flock 9
# --- mairix sources: copy what differs
changed=0
cur=$(cd $REPO && find . dfasyn -maxdepth 1 -type f \( -name '*.[chly]' -o -name '*.nfa' -o -name Makefile.in -o -name mkversion -o -name version.txt -o -path dfasyn/Makefile -o -path dfasyn/configure \) \
   ! -name 'datescan.[ch]' ! -name 'fromcheck.[ch]' ! -name 'nvpscan.[ch]' ! -name version.h ! -path 'dfasyn/parse.[ch]' ! -path './dfasyn/parse.[ch]' ! -path 'dfasyn/scan.c' | sort -u)
(cd $REPO && echo "$cur" | xargs sha256sum) > "$B/src.new" || exit 3
hsum=$(cat $V/sim/*.cpp $V/sim/*.h $V/tools/build.sh | sha256sum)
if [ -f "$B/src.sum" ] && cmp -s "$B/src.new" "$B/src.sum" && [ -x "$B/mxsim" ] && [ "$(cat $B/h.sum 2>/dev/null)" = "$hsum" ]; then exit 0; fi
rm -f "$B/src.sum" "$B/mxsim"
if ! cmp -s "$B/src.new" "$B/src.mx" 2>/dev/null; then
  rm -f "$B/mx.o" "$B/src.mx"
  rm -rf "$B/mx"; mkdir -p "$B/mx/dfasyn"
  (cd $REPO && for f in $cur; do cp "$f" "$B/mx/$f" || exit 1; done) || exit 3
fi
# --- harness objects, in parallel with mairix
CXX="g++ -std=c++17 -O1 -g -fno-pic -Wall -Wno-unused -Wno-misleading-indentation -Wno-parentheses -Wno-unused-result"
pids=()
for f in $V/sim/*.cpp; do o=$B/h/$(basename $f .cpp).o; k=$(cat $f $V/sim/*.h $0 | sha256sum); if [ ! -f $o ] || [ "$(cat $o.k 2>/dev/null)" != "$k" ]; then ( rm -f $o.k; $CXX -c $f -o $o && echo "$k" > $o.k ) & pids+=($!); fi; done
if [ ! -f "$B/mx.o" ]; then
  cd "$B/mx" || exit 3
  ( cd dfasyn && bison -v -d -o parse.c parse.y >/dev/null 2>&1 && flex -s -o scan.c scan.l 2>/dev/null && gcc -O1 -w *.c -o dfasyn ) || { echo "dfasyn build failed"; exit 3; }
  ./dfasyn/dfasyn -o datescan.c -ho datescan.h -r /dev/null -u datescan.nfa >/dev/null 2>&1 && ./dfasyn/dfasyn -o fromcheck.c -ho fromcheck.h -r /dev/null -u fromcheck.nfa >/dev/null 2>&1 && ./dfasyn/dfasyn -o nvpscan.c -ho nvpscan.h -r /dev/null -u nvp.nfa >/dev/null 2>&1 || { echo "dfasyn run failed"; exit 3; }
  sh ./mkversion || exit 3
  objs=$(sed -n '/^OBJ *=/,/[^\\]$/p' Makefile.in | tr ' \t\\' '\n\n\n' | grep '\.o$')
  echo "$objs" | xargs -P8 -I{} sh -c 'f={}; gcc -O1 -g -w -fno-pic -fno-pie -fno-strict-aliasing -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector -DHAS_STDINT_H -DHAS_INTTYPES_H -DUSE_GZIP_MBOX -DUSE_BZIP_MBOX -DUSE_XZ_MBOX -DUSE_OPENSSL $MXDEFS -c ${f%.o}.c -o $f || exit 255' || { echo "mairix compile failed"; exit 3; }
  printf 'SECTIONS { mxdata : { *(.data .data.* .bss .bss.* COMMON) } }\n' > m.ld
  ld -r -d -T m.ld -o ../mx0.o $objs || exit 3
  cd "$B"
fi
for p in "${pids[@]}"; do wait $p || { echo "harness compile failed"; exit 3; }; done
if [ ! -f "$B/mx.o" ] || [ ! -f "$B/redef.k" ] || [ "$(cat $B/h/core.o.k $B/h/shim_z.o.k $B/h/imapsrv.o.k 2>/dev/null|sha256sum)" != "$(cat $B/redef.k)" ]; then
  nm "$B"/h/*.o | awk '$2=="T"||$2=="B"||$2=="D"{print $3}' | grep '^sim_' | sed 's/^sim_//' | sort -u > "$B/shims"
  nm -u "$B/mx0.o" | awk '{print $2}' | sort -u > "$B/und"
  comm -12 "$B/shims" "$B/und" | sed 's/\(.*\)/\1 sim_\1/' > "$B/redef"; echo "main mairix_main" >> "$B/redef"
  objcopy --redefine-syms="$B/redef" "$B/mx0.o" "$B/mx.o" || exit 3
  cat $B/h/core.o.k $B/h/shim_z.o.k $B/h/imapsrv.o.k 2>/dev/null|sha256sum > "$B/redef.k"
fi
g++ -no-pie -g -o "$B/mxsim.tmp" "$B"/h/*.o "$B/mx.o" -lz -lbz2 -llzma -lssl -lcrypto 2>"$B/link.log" || { cat "$B/link.log"; echo "link failed"; exit 3; }
mv "$B/mxsim.tmp" "$B/mxsim"; cp "$B/src.new" "$B/src.mx"; mv "$B/src.new" "$B/src.sum"; echo "$hsum" > "$B/h.sum"
exit 0
