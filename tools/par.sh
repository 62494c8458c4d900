#!/bin/bash
# Runs the lines "patch prop..." of standard input on J (default 4) slots of nsrun.sh, named P0, P1, ... (two runs at the same
# time need different names: P, default s).
export P=${P:-s}
xargs -P ${J:-4} -d '\n' -n 1 --process-slot-var=SLOT bash -c '/verif/tools/nsrun.sh $P$SLOT $(echo $0)'
