#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json
and, if given, a results file with lines 'ID Cxx rc=N ...' from running the checks against them."""
import json, os, re, sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res={}
for f in sys.argv[1:]:
    for l in open(f):
        m=re.match(r"(\S+) (C\d\d) rc=(\d+)",l)
        if m: res.setdefault(m[1],{})[m[2]]=m[3]
t=["| bug | property | needs | caught by (quick) |","|---|---|---|---|"]
old={}
p=os.path.join(here,"DESIGN.md"); s=open(p).read()
for m in re.finditer(r"^\| (c\d\d-\S+) \| C\d\d \| .* \| (.*) \|$",s,re.M): old[m[1]]=m[2]
for i in sorted(os.listdir(os.path.join(here,"seeded"))):
    d=json.load(open(os.path.join(here,"seeded",i,"meta.json")))
    by=", ".join(sorted(c for c,r in res.get(i,{}).items() if r=="1")) or ("none" if i in res else old.get(i,"?"))
    t.append(f"| {i} | {d['property']} | {d['needs'].replace('|','/')} | {by} |")
a,b="<!-- planted -->","<!-- /planted -->"
s=re.sub(a+".*?"+b,lambda m:a+"\n"+"\n".join(t)+"\n"+b,s,flags=re.S)
open(p,"w").write(s)
