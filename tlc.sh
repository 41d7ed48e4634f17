#!/bin/bash
# tlc.sh MODULE [CFG] [extra]: run TLC on one specification by hand
cd "$(dirname "$0")/spec"; M=$1; C=${2:-$1.cfg}; shift; shift
D=$(mktemp -d)
java -Xmx6g -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 6 -noGenerateSpecTE -metadir $D -deadlock -config $C "$@" $M.tla
rm -rf "$D"
