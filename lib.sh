# Sourced by check.sh and setup.sh: builds everything from /repo's working tree.
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="--cfg tsfile_verif"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
T="$VERIF_DIR/target"
H="$VERIF_DIR/harness"
mkdir -p "$T" "$VERIF_DIR/out" "$VERIF_DIR/evidence"

# Cargo compares times, which copies of a tree may not keep; contents decide here.
fingerprint() {
  (cd /repo && find . -path ./target -prune -o -path ./tsfile-writer/target -prune -o -path ./.git -prune -o \
    \( -name '*.rs' -o -name '*.toml' -o -name 'Cargo.lock' -o -name '*.h' -o -name '*.c' -o -name '*.thrift' \) -type f -print0 | sort -z | xargs -0 sha256sum
   cd "$VERIF_DIR" && find harness c22 c17 -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.c' \) -print0 2>/dev/null | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1
}
FP="$(fingerprint)"

# fresh DIR: forgets what was built in DIR from other sources
fresh() {
  mkdir -p "$1"
  if [ "$(cat "$1/.sources" 2>/dev/null)" != "$FP" ]; then
    # newer versions of cargo keep everything below build/<package>
    find "$1" \( \( -name '.fingerprint' -o -name build \) -prune \) -type d -print0 2>/dev/null | while IFS= read -r -d '' d; do
      find "$d" -maxdepth 1 -type d \( -name 'tsfile*' -o -name 'tsv*' -o -name 'c17*' -o -name 'c22*' \) -print0 | xargs -0 -r rm -rf
    done
  fi
}
stamp() { echo "$FP" > "$1/.sources"; }

# quiet CMD...: shows the output only when the command fails
quiet() {
  local log; log="$(mktemp)"
  if ! "$@" > "$log" 2>&1; then
    tail -n 60 "$log" >&2; rm -f "$log"; return 1
  fi
  rm -f "$log"
}

# hooked CMD...: with the hooks of /repo, or without if they do not build: then
# flushes are only the real ones and fewer shapes are reached
hooked() {
  quiet "$@" && return 0
  echo "note: trying without the hooks" >&2
  RUSTFLAGS="${RUSTFLAGS/--cfg tsfile_verif/}" quiet "$@" && : > "$T/nohooks-$FP"
}
unhook() { if [ -e "$T/nohooks-$FP" ]; then export RUSTFLAGS="${RUSTFLAGS/--cfg tsfile_verif/}"; fi; }

build_release() {
  fresh "$T/r"
  hooked cargo build --offline --manifest-path "$H/Cargo.toml" --release --bin tsv --target-dir "$T/r" || return 1
  stamp "$T/r"
  export TSV="$T/r/release/tsv"
}
build_checked() {
  fresh "$T/c"
  hooked cargo build --offline --manifest-path "$H/Cargo.toml" --profile checked --bin tsv --target-dir "$T/c" || return 1
  stamp "$T/c"
  export TSV_CHECKED="$T/c/checked/tsv"
}
build_sync() {
  fresh "$T/s"
  set -- cargo build --offline --manifest-path "$H/Cargo.toml" --release --features sync --bin tsv --target-dir "$T/s"
  # without a hook that does not build, or without all that can be missed
  quiet "$@" || {
    local ok=1 h all=""
    for h in no_flush no_digest no_mlog no_log no_session; do
      all="$all --cfg tsfile_verif_$h"
      RUSTFLAGS="$RUSTFLAGS --cfg tsfile_verif_$h" quiet "$@" 2>/dev/null && { ok=0; break; }
    done
    [ $ok = 0 ] || RUSTFLAGS="$RUSTFLAGS ${all% --cfg tsfile_verif_no_session}" quiet "$@" || RUSTFLAGS="$RUSTFLAGS $all" quiet "$@" || return 1
  }
  stamp "$T/s"
  export TSV="$T/s/release/tsv"
}
NT=x86_64-unknown-linux-gnu
build_c17() {
  local M="$VERIF_DIR/c17/Cargo.toml"
  fresh "$T/c17a"; fresh "$T/c17c"; fresh "$T/c17m"
  RUSTFLAGS="-Zsanitizer=address --cfg leaks" quiet cargo +nightly build --offline --release --bin c17 --manifest-path "$M" --target $NT --target-dir "$T/c17a" & local a=$!
  { RUSTFLAGS="" quiet cargo build --offline --release --lib --manifest-path "$M" --target-dir "$T/c17c" &&
    quiet gcc -g -O1 -Wall -o "$T/c17c/driver" "$VERIF_DIR/c17/driver.c" -L "$T/c17c/release" -ltsfile_writer_c -Wl,-rpath,"$T/c17c/release"; } & local b=$!
  { : > "$T/c17m.script"; RUSTFLAGS="" MIRIFLAGS="-Zmiri-disable-isolation" quiet cargo +nightly miri run -q --offline --bin c17 --manifest-path "$M" --target-dir "$T/c17m" -- "$T/c17m.script"; } & local c=$!
  wait $a && wait $b && wait $c || return 1
  stamp "$T/c17a"; stamp "$T/c17c"; stamp "$T/c17m"
  export TSV_C17_ASAN="$T/c17a/$NT/release/c17" TSV_C17_C="$T/c17c/driver" TSV_C17_MIRI="$T/c17m"
}

# the C library for the Python wrapper
build_c24() {
  fresh "$T/c17c"
  RUSTFLAGS="" quiet cargo build --offline --release --lib --manifest-path "$VERIF_DIR/c17/Cargo.toml" --target-dir "$T/c17c" || return 1
  stamp "$T/c17c"
  export TSV_C24_LIB="$T/c17c/release/libtsfile_writer_c.so" TSV_PYTHON="$(python3-vt -c 'import sys, cffi; print(sys.executable)')"
  [ -n "$TSV_PYTHON" ]
}

# the program that writes histories natively, twice
build_c22() {
  local M="$VERIF_DIR/c22/Cargo.toml"
  fresh "$T/c22r"
  hooked cargo build --offline --release --manifest-path "$M" --target-dir "$T/c22r" &&
  hooked cargo build --offline --manifest-path "$M" --target-dir "$T/c22r" || return 1
  stamp "$T/c22r"
  export TSV_C22="$T/c22r/release/c22" TSV_C22_CHECKED="$T/c22r/debug/c22"
}
# miri_for TARGET: the same program for the interpreter
miri_for() {
  local t="$1" D="$T/c22m-$1"
  fresh "$D"
  if [ "$t" != $NT ]; then
    export XDG_CACHE_HOME="$T/sysroot-$t"; mkdir -p "$XDG_CACHE_HOME"
    quiet cargo +nightly miri setup --target "$t" || return 1
  fi
  MIRIFLAGS="-Zmiri-disable-isolation" hooked cargo +nightly miri run -q --offline --bin c22 --target "$t" --manifest-path "$VERIF_DIR/c22/Cargo.toml" --target-dir "$D" -- nothing || return 1
  stamp "$D"
}
export TSV_C22_MIRI="$T/c22m" TSV_C22_SYSROOT="$T/sysroot"
build_platforms() {
  local p ps=() t
  build_c22 & ps+=($!)
  for t in $NT i686-unknown-linux-gnu s390x-unknown-linux-gnu; do ( miri_for $t ) & ps+=($!); done
  for p in "${ps[@]}"; do wait "$p" || return 1; done
  export TSV_C22="$T/c22r/release/c22" TSV_C22_CHECKED="$T/c22r/debug/c22"
}
build_threads() {
  local a b c
  build_c22 & a=$!
  ( miri_for $NT ) & b=$!
  fresh "$T/c23t"
  RUSTFLAGS="-Zsanitizer=thread --cfg tsfile_verif" hooked cargo +nightly build --offline --release -Zbuild-std --target $NT --manifest-path "$VERIF_DIR/c22/Cargo.toml" --target-dir "$T/c23t" & c=$!
  wait $a && wait $b && wait $c || return 1
  stamp "$T/c23t"
  export TSV_C22="$T/c22r/release/c22" TSV_C23_TSAN="$T/c23t/$NT/release/c22"
}
