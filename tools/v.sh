set -e
U=$1; shift
/verif/tools/vx/target/release/vx $U ${REPO:-/repo} /verif/contracts /tmp/w/$U.rs /tmp/w/$U.json
python3 -c "
import json;d=json.load(open('/tmp/w/$U.json'))
for p in d['problems']: print('PROBLEM',p)"
cd /tmp/w; time verus $U.rs --multiple-errors ${ME:-0}  "$@" 2>&1 | tee /tmp/w/$U.log >/dev/null; python3 /tmp/w/errs.py /tmp/w/$U.log ${N:-8}
tail -3 /tmp/w/$U.log
