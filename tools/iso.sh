#!/bin/bash
# iso.sh DIR: copies /verif and /repo's packages to DIR/verif and DIR/repo, with the
# copy's checks pointed at the copied repo, so that planted bugs and refactorings can
# be tried while /repo and /verif stay as they are.
set -e
D=$1; mkdir -p "$D"; rm -rf "$D/verif" "$D/repo"
cp -a /verif "$D/verif"; rm -rf "$D/verif/.git" "$D/verif/replay"
mkdir "$D/repo"; cd /repo; cp -a bip32 bip39 bip44 util go.mod go.sum examples "$D/repo/"
cd "$D/repo"; git init -q; git add -A; git -c user.name=x -c user.email=x@x commit -qm base
sed -i "s#/repo\b#$D/repo#g" "$D/verif/run.sh" "$D/verif/harness/go.mod" "$D/verif/harness/cmd/mc/lib.go"
sed -i "s#/repo\b#$D/repo#g; s#/verif\b#$D/verif#g" "$D/verif/tools/catch.sh"
