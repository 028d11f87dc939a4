import re,sys
t=open(sys.argv[1]).read()
n=int(sys.argv[2]) if len(sys.argv)>2 else 12
blocks=re.split(r'\n(?=(?:error|warning|note)[\[:])',t)
k=0
for b in blocks:
    if b.startswith('error'):
        k+=1
        if k<=n: print(b[:900]); print()
print('errors:',k)
