#!/bin/bash
# runs a command with a private copy of /repo mounted on /repo
D=$(mktemp -d /tmp/rwXXXX); cp -a /repo/. $D/
unshare -Urm bash -c "mount --bind $D /repo && cd /verif && $*"
rc=$?; rm -rf "$D"; exit $rc
