#!/bin/bash
# builds main.rs (beside this file) against the workspace build.sh prepared and runs it
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp /opt/vp/ws/Cargo.lock "$d/Cargo.lock"
{
  printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n[profile.dev]\ndebug = false\n[dependencies]\n'
  cat "$here/deps.txt"
} > "$d/Cargo.toml"
cd "$d" && cargo run -q --offline 2>"$d/err" || { rc=$?; tail -40 "$d/err"; exit $rc; }
