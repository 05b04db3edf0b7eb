#!/bin/bash
# Run a harness driver under Jython with the stand-ins in front of /opt/jysite
H=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
J=/usr/share/java
REPO=${VERIF_REPO:-/repo}
export JYTHONPATH=$H:$H/stubs:/opt/jysite:$REPO PYTHONDONTWRITEBYTECODE=1 PRIVCOUNT_DIRECTORY=$REPO LC_ALL=C.UTF-8 TZ=UTC
unset PYTHONPATH PYTHONHOME
exec /usr/bin/java ${JYOPTS:--XX:+UseSerialGC -XX:TieredStopAtLevel=1 -Xss8m} -Djava.net.preferIPv4Stack=true \
    -cp $J/jython.jar:$J/bcprov.jar:$J/bcpkix.jar:$J/bcutil.jar \
    -Dpython.home=/usr/share/jython -Dpython.executable=/usr/bin/jython -Dpython.cachedir.skip=true \
    org.python.util.jython -B "$@"
