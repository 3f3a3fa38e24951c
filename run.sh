#!/bin/bash
# run.sh check C01 | replay FILE | seed ID SEED | trace ID N [BASE]
# Rebuilds the check binary from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
id="$2"
case "$1" in
  replay) id=$(basename "$2" | cut -c1-3);;
esac
case "$id" in
  C15|C16|C17|C18|C19|C20|C28) crate=checks-io; bin=iocheck;;
  *) crate=checks-core; bin=pcheck;;
esac
mkdir -p target evidence replays
exec 9> target/.lock
flock 9
bash tools/build.sh $crate || exit 2
flock -u 9
exec 9>&-
export VERIF_ROOT="$PWD"
exec target/release/$bin "$@"
