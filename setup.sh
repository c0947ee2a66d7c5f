#!/bin/bash
# builds the simulator from the committed files, offline
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh" || exit 1
"$bin" selftest --runs 60
