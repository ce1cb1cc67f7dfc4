#!/usr/bin/env python3
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
done={l.split()[0]:l.split(None,1)[1].strip() for l in open(root+"/tools/done.txt") if l.strip()} if os.path.exists(root+"/tools/done.txt") else {}
checks=[];na=[]
for p in props:
    if p["id"] in done:
        checks.append({"property":p["id"],"quick_cmd":f"./check.sh {p['id']} quick","thorough_cmd":f"./check.sh {p['id']} thorough",
          "evidence_file":f"evidence/{p['id']}.json","technique":done[p["id"]],"level":"model_checking","level_note":"bounded exhaustive; see DESIGN.md"})
    else: na.append({"property":p["id"],"reason":"check not built yet"})
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none","enable":"none","source_commits":[]},"checks":checks,"not_applicable":na}
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
