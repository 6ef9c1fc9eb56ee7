#!/bin/bash
# dbg.sh Cxx [grep]: run a check serially with debug output, lines cut
cd /verif; SA_DEBUG=1 SA_SERIAL=1 python3 check.py "$1" -v 2>&1 | grep -a "${2:-.}" | cut -c1-${3:-420} | head -${4:-60}
