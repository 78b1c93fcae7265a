#!/bin/sh
# all failures of a check, counted by signature (for development only): triage.sh ID [--part P]
F=/tmp/triage.txt; rm -f $F
MC_ALL=1 MC_DEBUG=$F MC_VERBOSE=1 "$(dirname "$0")/../check.sh" "$@" 2>&1 | grep -E "executions=|mc:|ERROR|error:|part "
[ -f $F ] && cut -d' ' -f1 $F | sort | uniq -c | sort -rn | head -300
