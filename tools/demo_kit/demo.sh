#!/bin/bash
# Builds demo.cc with the library sources of the current directory (the
# repository root) in a scratch folder and runs it there. Exit 0: behaves as
# specified; anything else: it does not.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'find "$T" -delete' EXIT
mkdir "$T/gen" "$T/obj"
read -r PARTS FLAGS < "$D/parts"
src() { ls $1 2>/dev/null | grep -vE '(_test|_benchmark|status_matchers)\.cc$'; }
S=""; P=""
for g in ${PARTS//,/ }; do case $g in
  dpf) S+=" $(src 'dpf/*.cc dpf/internal/*.cc')"; P+=" $(ls dpf/*.proto dpf/internal/*.proto 2>/dev/null)";;
  dcf) S+=" $(src 'dcf/*.cc dcf/fss_gates/*.cc dcf/fss_gates/prng/*.cc')"; P+=" $(ls dcf/*.proto dcf/fss_gates/*.proto)";;
  hash) S+=" $(src 'pir/hashing/*.cc')"; P+=" $(ls pir/hashing/*.proto)";;
  prng) S+=" $(src 'pir/prng/*.cc')";;
  pir) S+=" $(src 'pir/*.cc pir/internal/*.cc') pir/testing/pir_selection_bits.cc"; P+=" $(ls pir/*.proto)";;
esac; done
[ -z "$P" ] || protoc -I"$R" --cpp_out="$T/gen" $P 2>/dev/null || exit 99
CRYPTO=/usr/lib/x86_64-linux-gnu/android
CF="-std=c++17 -O1 -w $FLAGS -I$R -I$T/gen -I$D/compat -I$D -isystem /usr/include/android"
for f in $S; do grep -q SerializeAsCord "$f" && echo "$R/$f -include $D/compat/vp_cord.h" || echo "$R/$f"; done > "$T/list"
find "$T/gen" -name '*.pb.cc' >> "$T/list"
echo "$D/demo.cc" >> "$T/list"
n=0; while read -r l; do n=$((n+1)); echo "$l -o $T/obj/$n.o"; done < "$T/list" |
  xargs -P 8 -d '\n' -I{} sh -c "g++ $CF -c {}" || exit 99
ABSL=$(pkg-config --libs $(pkg-config --list-package-names | grep ^absl_))
g++ $FLAGS -o "$T/demo" "$T"/obj/*.o -Wl,--start-group $ABSL -Wl,--end-group $CRYPTO/libcrypto.so \
  -Wl,-rpath,$CRYPTO -lprotobuf -lfarmhash -lhwy -lpthread || exit 99
cd "$T" && timeout 120 ./demo
