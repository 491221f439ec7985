#!/bin/bash
# iso_bugs.sh OUT [ID...]: run_bugs.sh in a mount namespace with copies of /repo and /verif, so that both can be edited meanwhile
out=$1; shift
d=$(mktemp -d /tmp/iso.XXXXXX)
cp -a /repo $d/repo; cp -a /verif $d/verif
unshare -m bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd /verif/plant && ./run_bugs.sh $*" > $out 2>&1
[ -n "$d" ] && rm -rf "$d"
