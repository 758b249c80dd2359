#!/bin/bash
# seedtest.sh SLOT ID [checks...] : validates a planted bug in a slot (sync the slot's trees first)
slot=$1; id=$2; shift 2
s=/tmp/slots/$slot
/tmp/slot.sh $slot true
rsync -a --delete --exclude sim/target --exclude simsrc/target --exclude simutxo/target --exclude evidence /verif/ $s/verif/ 
git -C $s/repo fetch -q /repo HEAD 2>/dev/null && git -C $s/repo reset -q --hard FETCH_HEAD; git -C $s/repo clean -fdq
log=/tmp/seedlog/$id; mkdir -p /tmp/seedlog
rm -rf /tmp/seeddemo-$slot; cp -r /verif/seeded/$id /tmp/seeddemo-$slot
if [ -z "$NOTEST" ]; then
/tmp/slot.sh $slot "bash /opt/vp/build.sh >$log.build0 2>&1; bash /tmp/seeddemo-$slot/demo.sh >$log.demo0 2>&1"; echo "$id demo clean rc $?"
fi
git -C $s/repo apply /verif/seeded/$id/patch.diff || exit 9
if [ -z "$NOTEST" ]; then
/tmp/slot.sh $slot "bash /opt/vp/build.sh >$log.build1 2>&1"; echo "$id build rc $?"
/tmp/slot.sh $slot "bash /tmp/seeddemo-$slot/demo.sh >$log.demo1 2>&1"; echo "$id demo patched rc $?"
[ -z "$NOSUITE" ] && { /tmp/slot.sh $slot "bash /opt/vp/test.sh $log.json >$log.test 2>&1; tail -1 $log.test"; }
fi
for p in "$@"; do
  /tmp/slot.sh $slot "cd /verif; ./check.sh $p quick > $log.$p 2>&1; echo \"$id check $p rc \$?: \$(grep -a 'violation in\|VIOLATION' $log.$p | head -1 | cut -c1-220)\""
done
git -C $s/repo checkout -q -- .
