#!/bin/bash
# mut.sh FILE(relative to interoperability/mqtt) 'python-expr s->s' CHECK... : run checks against a scratch copy with one edit (development aid)
D=$(mktemp -d /tmp/mutXXXX); cp -r /repo/interoperability $D/
F=$D/interoperability/$1; python3 - "$F" "$2" "$3" <<'P'
import sys
p,a,b=sys.argv[1:4]; s=open(p).read()
a=a.encode().decode('unicode_escape'); b=b.encode().decode('unicode_escape')
assert a in s, "not found: "+a
s=s.replace(a,b,1); open(p,'w').write(s)
P
shift 3
for c in "$@"; do VERIF_REPO=$D python3 -m sa.run $c | cut -c1-400; done
rm -rf $D
