#!/bin/sh
# like triage.sh, for any harness: all failures by signature with one example each (for development only)
F=/tmp/tri.txt; rm -f $F
MC_ALL=1 MC_TRIAGE=$F "$(dirname "$0")/../check.sh" "$@" 2>&1 | grep -aE "executions=|mc:|ERROR|error:|crash"
[ -f $F ] && LC_ALL=C awk '{n[$1]++; if (!($1 in e) || length($0) < length(e[$1])) e[$1]=$0} END {for (k in n) print n[k], substr(e[k],1,330)}' $F | sort -rn | head -40
