#!/bin/bash
# dev helper: r.sh PROP SECS [variant] [extra args]
v=${3:-native}; p=${4:-chk}
/verif/target/$v/$p/fhemon --prop $1 --secs $2 "${@:5}" --out /tmp/r-$1.json; python3 -c "
import json;d=json.load(open('/tmp/r-$1.json'));print(d['cases'],round(d['wall'],1),d['distinct'],d['counters'],'MISSING',d['missing'],d['harness'][:4]);[print('VIOL',v['workload'],v['idx'],v['sig'],v['msg'][:1200],v['trace'][-12:]) for v in d['violations'][:12]]"
