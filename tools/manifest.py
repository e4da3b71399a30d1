import json,re,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
src=''.join(open(f).read() for f in __import__('glob').glob('/verif/sim/p*.go'))
have=set(re.findall(r'register\(&Property\{ID: "(P\d\d)"',src))
note={}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough","evidence_file":f"evidence/{i}.json",
         "technique":"deterministic simulation with fault injection (seeded search over schedules and faults, reference-model oracle)",
         "level":"exploration","level_note":"Seeded random exploration of simulated runs of the real library code on VERIF_SEED; not exhaustive. Network, time, disks, crashes, scheduling and Byzantine members are simulated; sha2, math/big and btcec underneath are trusted."})
    else:
        na.append({"property":i,"reason":{
 "A01":"Pure functions of their input (hashing, XMD expansion, hash to curve): no schedule, time, I/O, fault, history or second party for a simulator to vary; equality with a specification for all inputs is a matter for vectors or proof.",
 "A02":"Pure arithmetic: nothing for a simulator to vary; laws over all operands are a matter for proof or property-based testing. (Its results are used and compared with a reference model throughout the other checks.)",
 "A03":"The simulator has no notion of real execution time, and the printed forms are constants."}.get(i,"Not built yet.")})
json.dump({"version":1,"setup_cmd":"d=$(mktemp -d) && ./check build $d && rm -rf $d","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
