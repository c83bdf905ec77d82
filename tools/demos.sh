# run every seeded demo against the clean /repo copy
rm -rf /tmp/rc; cp -a /repo /tmp/rc
for d in /verif/seeded/*/; do id=$(basename $d); cp -r $d /tmp/dm_$id; rm -f /tmp/dm_$id/*.diff
(cd /tmp/rc && timeout 200 bash /tmp/dm_$id/demo.sh > /tmp/dm.log 2>&1 || { echo "BAD $id"; tail -3 /tmp/dm.log | cut -c1-200; })
rm -r /tmp/dm_$id; (cd /tmp/rc && git checkout -q . && git apply --check $d/patch.diff || echo "NOAPPLY $id"); done; echo done
