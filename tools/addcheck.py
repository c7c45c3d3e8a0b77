import sys
p='/verif/vf/checks.py'; s=open(p).read().rstrip(); assert s.endswith('}')
open(p,'w').write(s[:-1]+sys.stdin.read().rstrip()+"\n}\n")
