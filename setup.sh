#!/bin/bash
# build everything once, to show that it builds; every check builds again what changed
set -e
cd "$(dirname "$0")"
mkdir -p evidence work target
for id in C01 C24 C26; do
    VMON_BUILD_ONLY=1 bash check.sh $id quick
done
