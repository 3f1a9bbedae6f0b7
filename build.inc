# sourced by check and setup: rebuild from /repo's working tree
export VH_REPO=/repo
srchash() {
  (cd /repo && find Cargo.toml dess dess-examples dess-examples-pyo3 -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
}
# cargo decides by time stamps; when the sources' contents differ from what this target directory was built
# from, drop the crates of /repo so that they are compiled again whatever their time stamps say
refresh() { # manifest, target dir, further crate options
  local h; h=$(srchash)
  if [ -d "$2" ] && [ "$(cat "$2/src.hash" 2>/dev/null)" != "$h" ]; then
    cargo clean --offline --manifest-path "$1" --target-dir "$2" -p dess -p dess-proc-macros -p dess-examples ${3-} >/dev/null 2>&1
  fi
  mkdir -p "$2" && echo "$h" > "$2/src.hash"
}
build_driver() {
  refresh /repo/Cargo.toml target-bin
  local log; log=$(mktemp)
  if ! cargo build --offline --manifest-path /repo/Cargo.toml -p dess-examples --bin dess-examples --target-dir target-bin >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"; echo "ERROR: the example driver does not build" >&2; return 1
  fi
  rm -f "$log"
}
build_harness() {
  refresh harness/Cargo.toml target
  local log; log=$(mktemp)
  if ! cargo build --offline --manifest-path harness/Cargo.toml --target-dir target >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"; echo "ERROR: the harness does not build" >&2; return 1
  fi
  rm -f "$log"
}
build_module() {
  refresh /repo/Cargo.toml target-py "-p dess-examples-pyo3"
  local log; log=$(mktemp)
  if ! PYO3_PYTHON=/usr/bin/python3.12 cargo build --offline --manifest-path /repo/Cargo.toml -p dess-examples-pyo3 --target-dir target-py >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"; echo "ERROR: the Python module does not build" >&2; return 1
  fi
  rm -f "$log"
  rm -rf "$VERIF_DIR/target-py/mod" && mkdir -p target-py/mod && cp target-py/debug/libdess_pyo3.so target-py/mod/dess_pyo3.so
}
