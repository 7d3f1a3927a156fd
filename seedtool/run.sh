#!/usr/bin/env bash
# Tries planted bugs in scratch copies of /repo and /verif (in a private mount namespace).
# usage: run.sh ID...
mkdir -p /tmp/sc
exec 9>/tmp/sc/lock; flock 9
if [ ! -d /tmp/sc/repo ]; then cp -a /repo /tmp/sc/repo; fi
(cd /tmp/sc/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD)
if [ ! -d /tmp/sc/verif ]; then cp -a /verif /tmp/sc/verif; fi
rsync -a --exclude target --exclude evidence --exclude .git /verif/ /tmp/sc/verif/ 2>/dev/null || (cd /verif && tar cf - --exclude=./target --exclude=./evidence --exclude=./.git . | tar xf - -C /tmp/sc/verif)
unshare -Urm bash /verif/seedtool/inner.sh "$@"
