#!/bin/bash
# tools/viol_wrap.sh ID...: run the quick check and, when it is not OK, show why
for x in "$@"; do rm -f /verif/build/$x.violation.json; python3 /verif/lib/mbt.py $x > /tmp/chk.$x 2>&1; c=$?; tail -1 /tmp/chk.$x | cut -c1-300; [ $c = 1 ] && python3 /verif/tools/viol.py $x; [ $c = 2 ] && tail -25 /tmp/chk.$x | cut -c1-400; done; true
