#!/bin/bash
# mutc.sh "CHECKS" file old new: mutate a scratch copy of /repo, run its tests (unless NOTEST=1) and the checks against the copy
M=$(mktemp -d /tmp/mutc.XXXXXX); cp -a /repo/. $M/; cd $M || exit 1
python3 - "$2" "$3" "$4" <<'P'
import sys
p,a,b=sys.argv[1:]
a=a.encode().decode('unicode_escape'); b=b.encode().decode('unicode_escape')
s=open(p).read()
assert s.count(a)>=1,"not found"
s=s.replace(a,b,1); open(p,'w').write(s)
P
[ $? = 0 ] || { rm -rf "$M"; exit 1; }
echo "== $2: $(git diff -U0 | grep '^[-+] ' | tr '\n' '|' | cut -c1-200)"
if [ -z "$NOTEST" ]; then
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMPI_MCA_ess_singleton_isolated=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 \
 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors 2>&1 | tail -1; fi
cd /verif; for c in $1; do PYCONFORM_REPO=$M ./check.sh $c | tail -${LINES_:-1}; done
rm -rf "$M"
