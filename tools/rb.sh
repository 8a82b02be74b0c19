#!/bin/bash
# rb.sh C13
cd /verif && PYTHONDONTWRITEBYTECODE=1 timeout 300 /opt/pvenv/bin/python bounded/run.py $1 2>/dev/null | python3 -c "
import sys,json
d=json.load(sys.stdin)
print(d.get('import_error',''), d.get('errors',''), d.get('truncated',''))
for c in d['checks']: print(c['name'],c['cases'],c['secs'])
for f in d['failures'][:int('${2:-12}')]: print('FAIL',f['check'],json.dumps(f['case'])[:600],'\n     ',f['message'][:1200])
print('fails',len(d['failures']),'secs',d.get('secs'))
"
