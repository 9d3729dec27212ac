#!/bin/bash
# short form of try.sh: errors only
u=$1; shift
$(dirname $0)/try.sh $u --multiple-errors 5 --rlimit 30 "$@" 2>&1 | grep -A12 "^error\|^verif\|^real\|^PROB"
