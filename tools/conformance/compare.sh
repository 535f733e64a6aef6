#!/bin/bash
# compare.sh [FROM TO]: runs fs.c with each seed on the real kernel (as an unprivileged user in a scratch directory) and on the
# simulated kernel and reports seeds whose printed results differ. A model check of the simulator, not a property check.
D="$(cd "$(dirname "$0")" && pwd)"; S="${SIM_BUILD:-$D/../../build}/bin/sim"; T=$(mktemp -d /tmp/conf.XXXXXX); chmod 755 "$T"
gcc -O1 -w -o "$T/fs" "$D/fs.c" || exit 2
bad=0; for i in $(seq ${1:-1} ${2:-200}); do mkdir "$T/w"; chown nobody "$T/w"; setpriv --reuid=65534 --regid=65534 --clear-groups timeout 20 "$T/fs" $i "$T/w" ${OPS:-60} >"$T/real" 2>&1 </dev/null
  "$S" try "$T/fs" $i /tmp/empty ${OPS:-60} 2>/dev/null >"$T/sim"; rm -rf "$T/w"
  if ! cmp -s "$T/real" "$T/sim"; then bad=$((bad+1)); echo "seed $i differs:"; diff "$T/real" "$T/sim" | head -${LINES_MAX:-6}; fi; done
echo "$bad of the seeds differ"; rm -rf "$T"; [ $bad = 0 ]
