#!/bin/bash
# copy.sh DIR   put copies of this directory and /repo into DIR/verif and DIR/repo, the former checking the latter,
# to try checks on changed code, or under many seeds, while /repo is in use. Not used by any check.
set -e
dir=$1
[ -n "$dir" ] && [ ! -e "$dir" ]
mkdir -p "$dir/verif"
cp -a /repo "$dir/repo"
cd "$(dirname "$0")/.."
tar cf - --exclude=./.git --exclude=./.build --exclude=./replays --exclude=./seeded . | tar xf - -C "$dir/verif"
cd "$dir/verif"
sed -i "s#\"/repo\"#\"$dir/repo\"#" cmd/check/main.go
sed -i "s#\"/verif\"#\"$dir/verif\"#" cmd/check/main.go
sed -i "s#=> /repo#=> $dir/repo#" go.mod
