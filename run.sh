#!/bin/bash
# run.sh PROPERTY [quick|thorough]: one check. Exit 0: held; 1: VIOLATION line printed; 2: the check itself failed.
# run.sh replay FILE: replays a violation file. Exit 1: it happens again; 0: it does not.
. "$(dirname "$0")/env.sh"
id=$1 tier=${2:-${VERIF_TIER:-quick}} seed=${VERIF_SEED:-1}
mkdir -p "$VERIF/evidence" "$VERIF/replays"
work=$(mktemp -d) || exit 2
export TMPDIR="$work"
trap 'rm -rf -- "$work"' EXIT
failed() { tail -n 40 "$work/build.log"; echo "build failed"; exit 2; }
T="$VERIF/target"
build() { bash "$VERIF/build.sh" "$@" 2>>"$work/build.log" || failed; }
main_of() { if [ "$1" = C14 ]; then echo cost; else echo dfa; fi; }
peer_of() { # what the check of a property runs besides the simulator
  case $1 in
  C03|C04) build plain parse >/dev/null; echo "$T/plain/release/parse;$T/os/libsimos.so" ;;
  C08|C09) build plain lexer-generator parser-generator >/dev/null; build gen >/dev/null
    echo "$T/plain/release/lexer-generator;$T/gen/release/parser-generator;$T/os/libsimos.so;$T/os/bin;/repo;$T/gensrc/crates/parser-generator/resources/gram.y" ;;
  C20) python3 "$VERIF/full/tables.py" "$VERIF/full/gram.tables" "$work/tables" || exit 2; echo "$work/tables" ;;
  C21) python3 "$VERIF/full/tables.py" "$VERIF/full/gram.tables" "$work/tables" plain || exit 2; echo "$work/tables" ;;
  C11) build regex ;;
  C23) build empty ;;
  C13) bash "$VERIF/build.sh" wasm 2>>"$work/build.log" || echo "no WebAssembly build: the engine is left out" >&2 ;;
  esac
}
full() { # the second clause of C08: both generators on the repository's specifications
  local n=4000
  [ "$tier" = thorough ] && n=60000
  python3 "$VERIF/full/full.py" "$work" "$seed" "$n" "$VERIF/replays"
}
if [ "$id" = replay ]; then
  f=$2
  p=$(python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print(d["prop"], d["kind"])' "$f") || exit 2
  set -- $p
  bin=$(build $(main_of "$1")) || { echo "$bin"; exit 2; }
  case "$1 $2" in
  "C08 document"|"C08 full")
    tier=quick; seed=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("seed", 1))' "$f")
    peer_of C08 >/dev/null
    if [ "$2" = full ]; then full; exit $?; fi
    FULL_KEEP=1 full >/dev/null 2>&1
    exec "$bin" replay "$f" --peer "docs:$T/regen/x86_64-unknown-linux-gnu/release/pgsim" ;;
  esac
  peer=$(peer_of "$1") || { echo "$peer"; exit 2; }
  "$bin" replay "$f" --peer "$peer"
  exit $?
fi
case $id in
C01|C02|C03|C04|C05|C06|C07|C08|C09|C10|C11|C12|C13|C14|C15|C20|C21|C22|C23) ;;
*) echo "unknown property $id"; exit 2;;
esac
bin=$(build $(main_of "$id")) || { echo "$bin"; exit 2; }
peer=$(peer_of "$id") || { echo "$peer"; exit 2; }
if [ "$id" = C08 ]; then
  full > "$work/full.txt" 2>&1 &
  fullpid=$!
fi
"$bin" run "$id" --tier "$tier" --seed "$seed" --out "$VERIF/evidence/$id.json" --replays "$VERIF/replays" --work "$work" --known "$VERIF/known-findings.txt" --peer "$peer"
code=$?
if [ "$id" = C08 ]; then
  wait $fullpid
  fc=$?
  cat "$work/full.txt"
  python3 - "$work/full.json" "$VERIF/evidence/C08.json" <<'P' || { [ $code = 1 ] || [ $fc = 1 ] || code=2; }
import json, sys
e = json.load(open(sys.argv[2]))
f = json.load(open(sys.argv[1]))
e["coverage"]["specifications_of_the_repository"] = f
e["violations"] = e.get("violations", 0) + (1 if f["result"] == "other behaviour" or f["result"].startswith(("lexer", "parser")) else 0)
json.dump(e, open(sys.argv[2], "w"), indent=1)
print("the repository's specifications:", f["result"][:300])
P
  [ $fc = 1 ] && code=1
fi
exit $code
