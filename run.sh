#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]
V=$(cd "$(dirname "$0")" && pwd)
L=
[ "$1" = C10 ] && L=lib
"$V/build.sh" $L || { echo "build failed"; exit 3; }
export VERIF_ROOT=$V
exec "$V/target/release/driver" check "$1" ${2:+"$2"}
