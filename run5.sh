#!/bin/bash
# run5.sh ID [seeds...]: the check on several seeds, short output
id=$1; shift; for s in ${@:-1 2 3 4 5}; do VERIF_SEED=$s python3 check.py $id 2>&1 | grep -E "error:|tier=|VIOL|\[|CHECK-ERR|KNOWN" | cut -c1-330 | head -${LINES_MAX:-14}; done
