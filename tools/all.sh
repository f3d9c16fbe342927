#!/bin/bash
# run every check (quick) for the given seeds; print only what is not quiet
cd /verif
for s in "${@:-1}"; do for f in checks/[A-Z]*.py; do i=$(basename $f .py)
 o=$(VERIF_SEED=$s ./run.sh $i quick 2>&1); r=$?
 t=$(echo "$o" | grep -oE '[0-9.]+s$' | tail -1)
 echo "seed=$s $i rc=$r $t"; [ $r -ne 0 ] && echo "$o" | grep -v KNOWN | cut -c1-600 | tail -12
done; done
