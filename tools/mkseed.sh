#!/bin/bash
# mkseed.sh ID: completes /verif/seeded/ID from demo.cc, parts and an edited
# scratch copy of /repo at /tmp/sb/repo (patch.diff = its git diff), then runs
# the demonstration with and without the change.
D=/verif/seeded/$1
cp /verif/tools/demo_kit/demo.sh $D/; cp -r /verif/compat $D/; cp /verif/tools/demo_kit/demo.h $D/
chmod +x $D/demo.sh

find /tmp/sb/run -delete 2>/dev/null; mkdir -p /tmp/sb/run; git -C /repo archive HEAD dpf dcf pir | tar -x -C /tmp/sb/run
(cd /tmp/sb/run && git init -q . && bash $D/demo.sh; echo "clean rc=$?")
(cd /tmp/sb/run && git apply $D/patch.diff && bash $D/demo.sh; echo "patched rc=$?")
