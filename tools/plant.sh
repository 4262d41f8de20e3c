#!/bin/bash
# tools/plant.sh ID [PROP...]: try the planted bug seeded/ID in a scratch copy
# of /repo: demo without patch, patch applies, tests, demo with patch, then the
# quick checks PROP (default: the property in meta.json) against the copy.
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; shift
D=/tmp/plant/$ID; S=$V/seeded/$ID
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
mkdir -p /tmp/plant && rm -rf "$D" && cp -a /repo "$D" && cd "$D" || exit 2
export PYTHONPATH=$D/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PATH=/opt/venv/bin:$PATH
timeout 300 bash "$S/demo.sh" >"$D.d0" 2>&1; echo "$ID demo clean: $? (0)"
git apply "$S/patch.diff" || { echo "$ID NO APPLY"; exit 2; }
if [ -z "$NOTEST" ]; then
PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider \
  --timeout=300 tests formatting_test 2>&1 | grep -E "^(FAILED|ERROR)|passed|failed" | sed "s/^/$ID /"
fi
timeout 300 bash "$S/demo.sh" >"$D.d1" 2>&1; echo "$ID demo bug: $? (nonzero) $(tail -n 1 "$D.d1" | cut -c1-150)"
for P in $PROPS; do
  VSIM_SRC=$D/src VSIM_NOMIN=1 /opt/venv/bin/python "$V/run_check.py" "$P" quick >"$D.$P" 2>&1
  echo "$ID check $P: $? (1) $(grep -m1 -A1 VIOLATION "$D.$P" | cut -c1-200)"
done
rm -rf "$D"
