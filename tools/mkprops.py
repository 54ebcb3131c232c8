#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80, (id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})
U="internal/webrtc/utils/"; R="internal/webrtc/recorder/"; S="internal/server/"; E="internal/pubsub/events/"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"props_data.py")).read())
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
