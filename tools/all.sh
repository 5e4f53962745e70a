#!/bin/bash
# run every registered check (or the ids given) in parallel and show what each prints
cd /verif
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(python3 -c "
import sys; sys.path[:0]=['lib','rules']
import registry; print(*registry.RULES)"))
python3 lib/build.py default >/dev/null 2>&1
printf '%s\n' "${ids[@]}" | xargs -P 6 -I{} bash -c 's=$(date +%s.%N); o=$(timeout 900 python3 check.py {} --tier ${TIER:-quick} 2>&1 | tail -${N:-4}); r=$?; echo "== {} $(echo "$(date +%s.%N)-$s"|bc)s"; echo "$o"'
