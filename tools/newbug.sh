#!/bin/bash
# newbug.sh <id> : take the diff in the scratch copy /tmp/bug as /verif/seeded/<id>/patch.diff, reset the copy
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/bug diff > $d/patch.diff; git -C /tmp/bug checkout -q -- .; cat $d/patch.diff | head -40
