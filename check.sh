#!/bin/bash
# check.sh <property> quick|thorough
cd "$(dirname "$0")" || exit 2
. ./env.sh
need=core
case $1 in C1[3-9]|C2[1-7]|C29) need=cli ;; esac
./build.sh $need || exit 2
export MC_VERIF="$PWD"
ulimit -c 0
exec ./target/mc/release/mc check "$1" "${2:-quick}"
