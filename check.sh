#!/bin/bash
# check.sh <property>: builds the simulator from /repo's working tree and runs
# the check of one property. 0 = held, 1 = VIOLATION, 2 = no answer.
cd "$(dirname "$0")" || exit 2
bash sim/setup.sh || exit 2
exec "$PWD/target/debug/ypsim" check "$1"
