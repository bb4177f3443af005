#!/usr/bin/env python3
"""claim.py ID LEVEL 'technique' 'note': mark a property as claimed in props.py, regenerate."""
import sys,os,subprocess,re
i,lv,te,no=sys.argv[1:5]
p=os.path.join(os.path.dirname(__file__),'props.py'); s=open(p).read()
a=s.index("prop('%s'"%i); b=s.find("\nprop('",a+1); b=len(s) if b<0 else b
blk=s[a:b].rstrip()
blk=re.sub(r",\n level=.*",")",blk,flags=re.S)
assert blk.endswith(')')
blk=blk[:-1]+",\n level=%r,technique=%r,\n note=%r)"%(lv,te,no)
open(p,'w').write(s[:a]+blk+"\n"+s[b:].lstrip('\n') if s[b:].strip() else s[:a]+blk+"\n")
subprocess.check_call(['python3-vt',os.path.join(os.path.dirname(p),'gen.py')])
