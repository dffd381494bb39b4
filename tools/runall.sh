#!/bin/bash
cd "$(dirname "$0")/.."
for i in ${@:-$(ls checks | grep -o '^P[0-9]*' | sort -u)}; do ( ./run.sh $i quick 2>&1; echo "RC=$? $i" ) | grep -v '^ ' | tail -4; done
