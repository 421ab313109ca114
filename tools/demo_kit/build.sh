# source build.sh; demo <flags> -- <sources under /repo/src>: compile demo.cc against /repo and run it
demo() {
  local flags=() srcs=(); while [ $# -gt 0 ] && [ "$1" != -- ]; do flags+=("$1"); shift; done; shift
  local s; for s in "$@"; do srcs+=("/repo/src/$s"); done
  local d t L=/repo/lib P=/repo/_build/lib; d=$(cd "$(dirname "${BASH_SOURCE[1]}")" && pwd); t=$(mktemp -d)
  g++ -std=c++17 -w -g0 -O1 -fno-pie -no-pie -ffunction-sections -include thread "${flags[@]}" -I"$d/kit" -I"$d/kit/config" -I"$d/kit/magistrate" -I"$d/kit/mpi" -I/repo/src \
    -I$L/fmt/include -I$L/CLI -I$L/json/include -I$L/EngFormat-Cpp/include -I$L/yaml-cpp/include -I$L/brotli/c/include -I$L/libfort/lib \
    "$d/demo.cc" "${srcs[@]}" $P/fmt/libfmt-vt.a $P/EngFormat-Cpp/libEngFormat-Cpp.a $P/yaml-cpp/libyaml-cpp.a $P/brotli/libbrotlienc-static.a $P/brotli/libbrotlidec-static.a $P/brotli/libbrotlicommon-static.a \
    -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -ldl -lpthread -lz -lm -o "$t/demo" && (cd "$t" && timeout 200 ./demo); local rc=$?
  rm -rf -- "$t"; return $rc
}
