#!/bin/bash
# mut.sh "CHECKS" file 'python-expr old' 'new' : mutate /repo, run tests and checks, restore
cd /repo; git diff --quiet || { echo dirty; exit 1; }
python3 - "$2" "$3" "$4" <<'P'
import sys
p,a,b=sys.argv[1:]
a=a.encode().decode('unicode_escape'); b=b.encode().decode('unicode_escape')
s=open(p).read()
assert s.count(a)>=1,"not found"
s=s.replace(a,b,1); open(p,'w').write(s)
P
[ $? = 0 ] || exit 1
git diff --stat | tail -1; [ -z "$NOTEST" ] && bash /opt/vp/test.sh /tmp/o.json | tail -1
cd /verif; for c in $1; do ./check.sh $c | tail -${LINES_:-3}; done
git -C /repo checkout -q -- .
