#!/usr/bin/env python3
"""For each planted bug: does its patch remove/alter a line of the original repository (not one a fix commit added)?"""
import subprocess,re,glob,os
def blame(f):
    out=subprocess.run(["git","-C","/repo","blame","-s",f],capture_output=True,text=True).stdout.splitlines()
    return [l.split()[0].startswith("^") for l in out]
for d in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f=None;n=0;orig=0;mine=0;adds=0
    for l in open(d):
        if l.startswith("--- a/"): f=l[6:].strip(); b=blame(f)
        elif l.startswith("@@"): n=int(re.match(r"@@ -(\d+)",l).group(1))-1
        elif l.startswith("+++") or l.startswith("diff") or l.startswith("index"): pass
        elif l.startswith("-"):
            if l[1:].strip():
                if b[n]: orig+=1
                else: mine+=1
            n+=1
        elif l.startswith("+"): adds+=1
        elif f and l.startswith(" "): n+=1
    print(os.path.basename(os.path.dirname(d)),"orig",orig,"mine",mine,"added",adds, "" if orig else "<== check")
