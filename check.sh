#!/bin/bash
# check.sh PROPERTY [TIER]: rebuilds the simulator against /repo's working tree and runs one check.
set -u
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR
# Cargo goes by mtime; go by content: recompile the library whenever its sources differ from the last build.
stamp=target/repo-sources.sum
sum=$(cd /repo && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$sum" ]; then
  [ -d target/debug/.fingerprint ] && find target/debug/.fingerprint -path '*/japanese_law_xml_schema-*' -type f -delete
fi
out=$(cargo build --offline 2>&1) || { echo "$out"; echo "BUILD FAILED"; exit 2; }
echo "$sum" > "$stamp"
cd ..
export VERIF_DIR="$PWD"
exec sim/target/debug/lawsim check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
