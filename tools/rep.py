"""rep.py FILE  (reads OLD\n=====\nNEW from stdin); keeps CRLF line endings."""
import sys
p=sys.argv[1]; s=open(p,newline='').read(); crlf='\r\n' in s
t=s.replace('\r\n','\n')
old,new=sys.stdin.read().split('\n=====\n')
new=new.rstrip('\n'); old=old.rstrip('\n')
assert t.count(old)==int(sys.argv[2] if len(sys.argv)>2 else 1),(t.count(old),old)
t=t.replace(old,new)
open(p,'w',newline='').write(t.replace('\n','\r\n') if crlf else t)
