#!/bin/bash
# usage: mkseed.sh ID   (expects /verif/seeded/ID/{demo.py,meta.json} and a
# changed scratch tree /tmp/seed/ID); makes patch.diff and demo.sh, checks them
ID=$1; D=/verif/seeded/$ID; W=/tmp/seed/$ID
cp /verif/tools/demolib.py $D/
if grep -q 'stubs()' $D/demo.py; then rsync -a --delete --exclude random.py --exclude time.py --exclude '__pycache__' --exclude '*.class' /verif/stubs $D/ 2>/dev/null || { cp -r /verif/stubs $D/; rm -f $D/stubs/random.py $D/stubs/time.py; }; fi
cat > $D/demo.sh <<'X'
#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
export JYTHONPATH=/opt/jylib:$PWD LC_ALL=C.UTF-8
exec timeout 250 jython -B "$HERE/demo.py"
X
chmod +x $D/demo.sh
[ -d $W ] && git -C $W diff > $D/patch.diff
C=/tmp/seedchk.$ID; rm -rf "$C"; cp -a /repo $C; git -C $C checkout -q -- .
cd $C && git apply --check $D/patch.diff || { echo "$ID patch does not apply"; exit 1; }
bash $D/demo.sh >/tmp/seed.$ID.0 2>&1; a=$?
git apply $D/patch.diff; bash $D/demo.sh >/tmp/seed.$ID.1 2>&1; b=$?
JYTHONPATH=/opt/jylib:$C jython -B -c "
import os
for r,d,fs in os.walk('.'):
    for f in fs:
        if f.endswith('.py') and '.git' not in r: compile(open(os.path.join(r,f)).read(), f, 'exec')
" || echo "$ID compile failure"
JYTHONPATH=/opt/jylib:$C LC_ALL=C.UTF-8 timeout 600 jython -B /opt/vp/run_nose.py -v openquake/commonlib/tests/valid_test.py >/tmp/seed.$ID.t 2>&1; t=$?
echo "$ID demo unchanged=$a changed=$b tests=$t: $(tail -1 /tmp/seed.$ID.1)"
rm -rf "$C"
