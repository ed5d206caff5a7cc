#!/bin/bash
# newseed.sh ID PROP FILE: reads python-free edit: stdin = three blocks separated by lines of "====": old text, new text, needs|what
id=$1; prop=$2; file=$3
rm -rf /tmp/seed/$id; mkdir -p /tmp/seed /verif/seeded/$id; git clone -q /repo /tmp/seed/$id || exit 1
python3 - "$id" "$prop" "$file" <<'P' || exit 1
import sys,json
id,prop,file=sys.argv[1:]
t=open('/tmp/newseed.in').read().split('\n====\n')
p='/tmp/seed/%s/%s'%(id,file); s=open(p).read()
for k in range(0,len(t)-1,2):
    assert s.count(t[k])>=1, 'old text not found: '+t[k]
    s=s.replace(t[k],t[k+1],1)
open(p,'w').write(s)
n,w=t[-1].strip().split('|')
json.dump({"property":prop,"needs":n.strip(),"what_it_breaks":w.strip()},open('/verif/seeded/%s/meta.json'%id,'w'))
P
/verif/tools/mkseed.sh $id && rm -rf /tmp/seed/$id && /verif/tools/seedcheck.sh $id $4
