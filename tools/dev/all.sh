cd /verif; for f in fpsa/rules/c[0-9]*.py; do c=$(basename $f .py | tr c C); (python3 check.py $c > /tmp/all.$c 2>&1; echo "$(grep -c . /tmp/all.$c) $(tail -1 /tmp/all.$c | cut -c1-150)") & done; wait
