import json,re,sys
sys.argv=['x']; src=open('/verif/check').read()
ids=re.findall(r'^    "(C\d\d)":',src,re.M)
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notes=json.load(open('/verif/tools/levels.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in ids:
        n=notes.get(i,{})
        checks.append({"property":i,"quick_cmd":"./check %s"%i,"thorough_cmd":"VERIF_TIER=thorough ./check %s"%i,"technique":n.get("technique","runtime monitoring against an exact reference model"),"level":"exploration","level_note":n.get("note","Held on the executions listed in the evidence; trusts the reference model in /verif.")})
    else:
        na.append({"property":i,"reason":notes.get(i,{}).get("na","check not built yet")})
import subprocess
fx=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.split('\n')
m={"version":1,"setup_cmd":"./check --setup","checks":checks,"not_applicable":na,"hooks":{"guard":"cargo feature verif_hooks of packages/Spartan-secq","enable":"the shadow crate /verif/rust/shadow/spartan builds /repo/packages/Spartan-secq/src with the feature on","source_commits":["3293441"]},"notes":"One command per property: ./check ID. The one hook re-exports internal modules; all other observation is at public interfaces, through path-included modules, or through replaced collaborators (transcript, wasm runtime, JS libraries) in /verif."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
