#!/bin/bash
# try.sh BUG..: applies each planted bug to /repo, runs its property's quick check, and undoes it.
for b in "$@"; do
	d=/verif/seeded/$b
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	git -C /repo apply "$d/patch.diff" || { echo "$b: does not apply"; continue; }
	s=$(date +%s)
	/verif/check.sh "$p" quick > /tmp/try.$b.out 2>&1
	rc=$?
	git -C /repo checkout -- .
	c=no
	[ $rc = 1 ] && grep -q "VIOLATION property=$p " /tmp/try.$b.out && c="by $p ($(grep -A1 -m1 VIOLATION /tmp/try.$b.out | tail -1 | grep -o 'in [A-Za-z0-9]*' | head -1 | cut -c4-))"
	touch /verif/tools/caught.txt
	grep -v "^$b " /verif/tools/caught.txt > /tmp/caught.$$; { cat /tmp/caught.$$; echo "$b $c"; } | sort > /verif/tools/caught.txt
	rm -f "/tmp/caught.$$"
	echo "$b $p rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/try.$b.out)"
done
