#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from fixed.txt and the messages of the commits."""
import json,os,subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=root+"/known_findings.json"; k=json.load(open(p))
msg=dict(l.split(" ",1) for l in subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines())
k["fixed"]=[f"fixed: property={a} {c} repaired: {msg[c].removeprefix('fix: ')}" for a,c in (l.split() for l in open(root+"/tools/fixed.txt"))]
json.dump(k,open(p,"w"),indent=1,ensure_ascii=False); open(p,"a").write("\n")
