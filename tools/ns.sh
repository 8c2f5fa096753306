#!/bin/bash
# developer helper: ns.sh NAME COMMAND...: run a command in a private mount
# namespace in which /repo and /verif are scratch copies (kept in /tmp/ns/NAME)
n=/tmp/ns/$1; shift
mkdir -p $n
rsync -a --delete /repo/ $n/repo/
rsync -a --delete --exclude evidence /verif/ $n/verif/
mkdir -p $n/verif/evidence
cd /
exec unshare -Urm bash -c 'mount --bind '$n'/repo /repo && mount --bind '$n'/verif /verif && cd /verif && exec "$@"' sh "$@"
