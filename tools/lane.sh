#!/bin/bash
# Runs a command in a lane: a private mount namespace in which /repo and /verif are copies under /tmp/lane<N>.
# usage: lane.sh N command...      (lane.sh N --sync brings the copies up to date first)
set -eu
n=$1; shift
l=/tmp/lane$n
mkdir -p "$l"
if [ "${1:-}" = --sync ]; then
  shift
  rsync -a --delete --exclude /target /repo/ "$l/repo/"
  [ -d "$l/repo/target" ] || cp -a /repo/target "$l/repo/target"
  rsync -a --delete --exclude /evidence --exclude /replays --exclude '/harness/target*' /verif/ "$l/verif/"
  mkdir -p "$l/verif/evidence" "$l/verif/replays"
  [ -d "$l/verif/harness/target" ] || cp -a /verif/harness/target /verif/harness/target-asan "$l/verif/harness/"
fi
[ $# -gt 0 ] || exit 0
exec unshare -m bash -c 'mount --bind '"$l"'/repo /repo; mount --bind '"$l"'/verif /verif; cd /verif; exec "$@"' lane "$@"
