#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md with the table of planted changes (from seeded/*/meta.json and
tools/seedresults.json) filled in."""
import json, os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=open(ROOT+"/tools/design.md").read()
res=json.load(open(ROOT+"/tools/seedresults.json"))
rows=[]
for i in sorted(os.listdir(ROOT+"/seeded"), key=lambda s:(s[0],int(''.join(c for c in s.split('-')[0] if c.isdigit())))):
    m=json.load(open(ROOT+"/seeded/%s/meta.json"%i))
    rows.append("| %s | %s | %s | %s | %s |"%(i,m["property"],m["what_it_breaks"].replace("|","/"),m["needs"].replace("|","/"),res.get(i,"not run")))
t=t.replace("@@SEEDED@@","| change | property | what it breaks | what it needs | its check |\n|---|---|---|---|---|\n"+"\n".join(rows))
open(ROOT+"/DESIGN.md","w").write(t)
