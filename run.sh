#!/bin/bash
# run.sh ID [TIER]      build the checker of property ID against /repo's working tree and run it
# run.sh replay FILE    re-execute a recorded violation
# run.sh build          build every checker
# Exit: 0 held on everything explored, 1 violation, 2 could not decide (build or harness error).
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export MC_VERIF="$here" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mc="$here/mc"
id="${1:?property id}"
tier="${2:-${VERIF_TIER:-quick}}"

bin_of() {
  case "$1" in
    C01|C02|C03|C04) echo edits ;;
    C05|C06|C21) echo life ;;
    C07|C08|C09) echo locks ;;
    C10|C11|C12|C13|C20) echo iters ;;
    C14|C15|C16|C17) echo serial ;;
    C18|C22|C24|C25) echo misc ;;
    C19) echo print ;;
    C26) echo heap ;;
    C23) echo macros ;;
    C27) echo work ;;
    *) return 1 ;;
  esac
}

stamp() {
  (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum
   cd "$mc" && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1
}

# Cargo compares times, not contents: forget the crate whenever any content differs.
prepare() {
  mkdir -p "$mc/target"
  local s; s="$(stamp)"
  if [ "$(cat "$mc/target/stamp" 2>/dev/null)" != "$s" ]; then
    for d in "$mc"/target/a/chk/.fingerprint "$mc"/target/b/bare/.fingerprint "$mc"/target/c/bare/.fingerprint; do
      [ -d "$d" ] && find "$d" -maxdepth 1 \( -name 'dendron-*' -o -name 'mc-*' \) -exec rm -rf {} +
    done
    echo "$s" > "$mc/target/stamp"
  fi
}

build() { # $1: --bins or "--bin X"
  local log="$mc/target/build.log"
  ( cd "$mc" && cargo build --offline --locked --quiet --profile chk --target-dir target/a $1 >"$log.a" 2>&1 ) &
  local pa=$!
  ( cd "$mc" && cargo build --offline --locked --quiet --profile bare --no-default-features --target-dir target/b $1 >"$log.b" 2>&1 ) &
  local pb=$!
  local ok=0
  wait $pa || ok=1
  wait $pb || ok=1
  if [ $ok != 0 ]; then
    echo "ERROR: the checker does not build against /repo" >&2
    tail -n 40 "$log.a" "$log.b" >&2
    return 2
  fi
}

build_counted() { # Build C: what users run, with its executed regions counted.
  local log="$mc/target/build.log"
  if ! ( cd "$mc" && RUSTFLAGS="-C instrument-coverage" cargo build --offline --locked --quiet --profile bare --no-default-features --features count --target-dir target/c --bin work >"$log.c" 2>&1 ); then
    echo "ERROR: the checker does not build against /repo" >&2
    tail -n 40 "$log.c" >&2
    return 2
  fi
}

# The counters are read in the process and never written to a file.
export LLVM_PROFILE_FILE=/dev/null

mkdir -p "$mc/target"
exec 9>"$mc/target/lock"
flock 9
prepare
case "$id" in
  build)
    build --bins || exit 2
    build_counted || exit 2
    exit 0 ;;
  replay)
    f="$(realpath "$2")"
    p="$(sed -n 's/^property=//p' "$f")"
    b="$(bin_of "$p")" || { echo "unknown property $p" >&2; exit 2; }
    if [ "$b" = work ]; then
      build_counted || exit 2
      flock -u 9
      exec "$mc/target/c/bare/$b" replay "$f"
    fi
    build "--bin $b" || exit 2
    flock -u 9
    exec "$mc/target/a/chk/$b" replay "$f" ;;
esac
b="$(bin_of "$id")" || { echo "unknown property $id" >&2; exit 2; }
if [ "$b" = work ]; then
  build_counted || exit 2
  flock -u 9
  exec 9>&-
  exec "$mc/target/c/bare/$b" run "$id" "$tier" "counted=$mc/target/c/bare/$b"
fi
if ! build "--bin $b"; then
  # The programs of C23 are compiled, not interpreted: a written tree that the macros refuse while
  # everything else builds is a violation of its own.
  if [ "$id" = C23 ] && grep -q 'macro_cases.rs' "$mc/target/build.log.a" && build "--bin edits" 2>/dev/null; then
    mkdir -p "$here/replays" "$here/evidence"
    r="$here/replays/C23.$tier.replay"
    ( cd "$mc" && cargo build --offline --locked --quiet --profile chk --target-dir target/a --bin macros 2>&1 ) | head -c 20000 > "$r"
    printf '{\n "property": "C23",\n "tier": "%s",\n "seed": %s,\n "level": "model_checking",\n "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "exhaustive": false, "bounds": "stopped at the first program that does not compile"},\n "wall_s": 0,\n "violations": 1,\n "violation": "a legally written tree does not compile",\n "assumptions": []\n}\n' "$tier" "${VERIF_SEED:-1}" > "$here/evidence/C23.json"
    grep -m3 -A12 '^error' "$r"
    echo "VIOLATION property=C23 replay=$r"
    exit 1
  fi
  exit 2
fi
flock -u 9
exec 9>&-
exec "$mc/target/a/chk/$b" run "$id" "$tier" "checked=$mc/target/a/chk/$b" "bare=$mc/target/b/bare/$b"
