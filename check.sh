#!/bin/bash
# check.sh <property> quick|thorough            run the check
# check.sh <property> replay <file>             run one saved failing case
# Builds the harness against /repo's current working tree in a private
# directory, runs it, and removes the directory.
id=$1; mode=${2:-quick}
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
case $id in
  C0[1-9]|C1[0-2]) pkg=core ;;
  C13|C14) pkg=colorp ;;
  C15|C16|C17|C18|C19|C20) pkg=blendp ;;
  C2[1-8]|C32) pkg=comp ;;
  C29) pkg=exporter ;;
  C30|C31) pkg=core ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
work=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
bin=$work/bin
if ! (cd "$here/harness" && go build -o "$bin" "./cmd/$pkg") >"$work/build.log" 2>&1; then
  cat "$work/build.log" >&2
  echo "ERROR: the harness does not build against /repo" >&2
  exit 2
fi
if [ $id = C31 ]; then
  export VERIF_WASM_EXEC="$(go env GOROOT)/lib/wasm/wasm_exec_node.js"
  if ! (cd "$here/harness" && GOARCH=386 go build -o "$work/peer386" ./cmd/peer && GOOS=js GOARCH=wasm go build -o "$work/peer.wasm" ./cmd/peer) >"$work/build.log" 2>&1; then
    cat "$work/build.log" >&2
    echo "ERROR: the peers do not build against /repo" >&2
    exit 2
  fi
fi
if [ $pkg = exporter ] && ! (cd "$here/harness" && go build -o "$work/psdexporter" github.com/oov/psd/psdexporter) >"$work/build.log" 2>&1; then
  cat "$work/build.log" >&2
  echo "ERROR: psdexporter does not build" >&2
  exit 2
fi
export VERIF_WORK=$work VERIF_HARNESS=$here/harness
args=(-prop "$id" -dir "$work" -replays "$here/replays" -known "$here/known_findings.txt")
# variant <name> <go build arguments...> builds the harness in another way.
variant() {
  local out=$1; shift
  if ! (cd "$here/harness" && env "$@" -o "$out" "./cmd/$pkg") >"$work/build.log" 2>&1; then
    cat "$work/build.log" >&2
    echo "ERROR: the $out variant of the harness does not build" >&2
    exit 2
  fi
}
case $id in C29|C30|C31) variants= ;; C12|C19|C2[1-8]) variants="race 386" ;; *) variants=386 ;; esac
build_variant() {
  case $1 in
    386) variant "$work/bin386" GOARCH=386 go build; bin2=$work/bin386 ;;
    race) variant "$work/binrace" CGO_ENABLED=1 GORACE=halt_on_error=1 go build -race; bin2=$work/binrace; export GORACE="halt_on_error=1 exitcode=66" ;;
  esac
}
if [ "$mode" = replay ]; then
  "$bin" "${args[@]}" -replay "$3" || exit $?
  for v in $variants; do
    if grep -q "\"variant\": \"$v\"" "$3"; then
      build_variant $v
      "$bin2" "${args[@]}" -variant $v -replay "$3"
      exit $?
    fi
  done
  exit 0
fi
"$bin" "${args[@]}" -tier "$mode" -seed "${VERIF_SEED:-1}" -evidence "$here/evidence/$id.json" ${CASES:+-cases $CASES} || exit $?
# Where concurrency matters, some cases run under the race detector as well.
quickrace=
[ -n "$VERIF_FAST" ] || case $id in
  C12) quickrace=5000 ;;
  C19) quickrace=100000 ;;
  C21|C25|C28) quickrace=5000 ;;
  C22|C23|C24|C26|C27) quickrace=3000 ;;
esac
if [ "$mode" != thorough ]; then
  [ -n "$quickrace" ] || exit 0
  build_variant race
  echo "variant race"
  "$bin2" "${args[@]}" -variant race -tier quick -seed $((${VERIF_SEED:-1}+1000)) -evidence "$here/evidence/$id.json" -cases $quickrace
  exit $?
fi
# The same check as a 32-bit program and, where concurrency matters, under the
# race detector; fewer cases, other seeds.
n=1
for v in $variants; do
  build_variant $v
  echo "variant $v"
  "$bin2" "${args[@]}" -variant $v -tier quick -seed $((${VERIF_SEED:-1}+1000*n)) -evidence "$here/evidence/$id.json" || exit $?
  n=$((n+1))
done
# The same cases again, searched by Go's coverage-guided fuzzer, which mutates
# the choices they are made from.
case $id in
  C12|C26|C29|C31) ;;
  *)
    if ! (cd "$here/harness" && go test -c -vet=off -fuzz=FuzzProp -o "$work/guided.test" "./cmd/$pkg") >"$work/build.log" 2>&1; then
      cat "$work/build.log" >&2
      echo "ERROR: the guided search does not build" >&2
      exit 2
    fi
    "$bin" "${args[@]}" -tier thorough -seed "${VERIF_SEED:-1}" -evidence "$here/evidence/$id.json" -guided "$work/guided.test" -fuzztime "${GUIDED:-300}" || exit $?
    ;;
esac
exit 0
