# Sourced by the other scripts.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_TARGET
# fresh TARGET_DIR SOURCE_DIR: cargo decides by time stamps what to rebuild; make it decide by content
fresh() {
  local h
  h=$(cd "$2" && find . \( -name target -o -name .git -o -name node_modules \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -path '*/resources/*' -o -path '*/templates/*' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
  mkdir -p "$1"
  if [ "$(cat "$1/sources.sha" 2>/dev/null)" != "$h" ]; then
    find "$1" -type d -path '*/.fingerprint/*' \( -name 'postgresql-cst-parser*' -o -name 'pgsim*' -o -name 'lexer-generator*' -o -name 'parser-generator*' -o -name 'automata*' \) -prune -exec rm -rf {} +
    echo "$h" > "$1/sources.sha"
  fi
}
