#!/bin/bash
# Builds from /repo's working tree: build.sh dfa|regex|empty|cost|plain|gen|wasm. Prints the path(s) of what it built.
set -e
. "$(dirname "$0")/env.sh"
what=${1:-dfa}
export CARGO_TARGET_DIR="$VERIF/target/$what"
SANCOV="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
wrap() { # the workload crate is not part of what is simulated
  mkdir -p "$CARGO_TARGET_DIR"
  cat > "$CARGO_TARGET_DIR/wrap" <<'EOF'
#!/bin/bash
case " $* " in
*" --crate-name wl "*)
  a=()
  for x in "$@"; do case $x in -Cpasses=sancov* | -Cllvm-args=-sanitizer*) ;; *) a+=("$x") ;; esac; done
  exec "${a[@]}"
  ;;
*) exec "$@" ;;
esac
EOF
  chmod 755 "$CARGO_TARGET_DIR/wrap"
  export RUSTC_WRAPPER="$CARGO_TARGET_DIR/wrap"
}
shim() { # the simulated operating system and the rustfmt stand-in
  mkdir -p "$VERIF/target/os/bin"
  local o="$VERIF/target/os"
  if [ "$VERIF/sim/os/simos.c" -nt "$o/libsimos.so" ] || [ "$VERIF/sim/os/rustfmt_stub.c" -nt "$o/bin/rustfmt" ]; then
    gcc -O2 -Wall -shared -fPIC -o "$o/libsimos.so" "$VERIF/sim/os/simos.c" -ldl -lpthread >&2
    gcc -O2 -Wall -o "$o/bin/rustfmt" "$VERIF/sim/os/rustfmt_stub.c" >&2
  fi
}
case $what in
dfa|regex|empty) # empty: without the remove-empty-node feature
  feat=()
  [ "$what" = regex ] && feat=(--features regex)
  [ "$what" = empty ] && feat=(--no-default-features)
  fresh "$CARGO_TARGET_DIR" /repo
  wrap
  RUSTFLAGS="$SANCOV" cargo build --release --offline --locked --target x86_64-unknown-linux-gnu --manifest-path "$VERIF/sim/Cargo.toml" "${feat[@]}" >&2
  echo "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/pgsim"
  ;;
cost) # std instrumented as well, and what libc moves counted (edges only: this build measures work)
  fresh "$CARGO_TARGET_DIR" /repo
  wrap
  PGSIM_COST=1 RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard" cargo build -Zbuild-std=std,panic_unwind --release --offline --locked --target x86_64-unknown-linux-gnu --manifest-path "$VERIF/sim/Cargo.toml" >&2
  echo "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/pgsim"
  ;;
regen) # the simulator on the sources full.py has generated
  fresh "$CARGO_TARGET_DIR" "$VERIF/target/regensrc"
  wrap
  RUSTFLAGS="$SANCOV" cargo build --release --offline --locked --target x86_64-unknown-linux-gnu --manifest-path "$VERIF/target/regensrc/sim/Cargo.toml" >&2
  echo "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/pgsim"
  ;;
plain)
  shim
  fresh "$CARGO_TARGET_DIR" /repo
  [ -f /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock 2>/dev/null || true
  shift
  pk=("$@"); [ ${#pk[@]} = 0 ] && pk=(parse lexer-generator parser-generator)
  for p in "${pk[@]}"; do
    if [ "$p" = parse ]; then a=(-p postgresql-cst-parser --bin parse); else a=(-p "$p"); fi
    cargo build --release --offline --manifest-path /repo/Cargo.toml "${a[@]}" >&2
  done
  echo "$CARGO_TARGET_DIR/release"
  ;;
gen) # the parser generator with a placeholder for its grammar
  shim
  src="$VERIF/target/gensrc"
  mkdir -p "$src"
  [ -d "$src/crates" ] && rm -rf "$src/crates"
  cp -a /repo/Cargo.toml /repo/crates "$src/"
  if [ -f /repo/Cargo.lock ]; then cp /repo/Cargo.lock "$src/"; else cp /opt/vp/Cargo.lock "$src/"; fi
  awk 'BEGIN { printf "%%%%\nplaceholder: PLACEHOLDER ;\n%%%%\n"; for (i = 0; i < 400; i++) printf "placeholder %04d placeholder %04d\n", i, i * 7 }' > "$src/crates/parser-generator/resources/gram.y"
  fresh "$CARGO_TARGET_DIR" "$src"
  cargo build --release --offline --manifest-path "$src/Cargo.toml" -p parser-generator >&2
  echo "$CARGO_TARGET_DIR/release/parser-generator"
  ;;
wasm) # the WebAssembly entry point for a real engine; std is built for it from rust-src
  fresh "$CARGO_TARGET_DIR" /repo
  python3 "$VERIF/sim/wasm/vendor.py" "$CARGO_TARGET_DIR" >&2
  RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Clink-arg=--import-memory -Clink-arg=--max-memory=1073741824" cargo build --config "$CARGO_TARGET_DIR/vend.toml" -Zbuild-std=std,panic_abort --release --offline --locked --target wasm32-unknown-unknown --manifest-path "$VERIF/sim/wasm/Cargo.toml" >&2
  printf '#!/bin/bash\nexec node --single-threaded --no-liftoff --no-wasm-tier-up --no-wasm-lazy-compilation --stack-size=3900 %q %q\n' "$VERIF/sim/wasm/drive.js" "$CARGO_TARGET_DIR/wasm32-unknown-unknown/release/pgwasm.wasm" > "$CARGO_TARGET_DIR/peer"
  chmod 755 "$CARGO_TARGET_DIR/peer"
  echo "$CARGO_TARGET_DIR/peer"
  ;;
esac
