#!/usr/bin/env python3
"""blame.py: for each planted bug, tells how many lines it removes are original and how many were added by fix commits."""
import subprocess,os,re
os.chdir('/repo')
base=subprocess.check_output(['git','rev-list','--max-parents=0','HEAD'],text=True).split()[0]
bl={}
def blame(f):
    if f not in bl:
        bl[f]=[l.split()[0].lstrip('^') for l in subprocess.check_output(['git','blame','-s','-l',f],text=True).splitlines()]
    return bl[f]
for d in sorted(os.listdir('/verif/seeded')):
    f=None;n=0;o=m=0
    for l in open(f'/verif/seeded/{d}/patch.diff'):
        if l.startswith('--- a/'): f=l[6:].strip()
        elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l)[1])
        elif l.startswith('-') and not l.startswith('---'):
            if blame(f)[n-1].startswith(base[:39]): o+=1
            else: m+=1
            n+=1
        elif l.startswith(' '): n+=1
    print(d,'original',o,'mine',m)
