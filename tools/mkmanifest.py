import os
base=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import json,sys
claimed=sys.argv[1].split(',') if len(sys.argv)>1 and sys.argv[1] else []
props=[json.loads(l) for l in open(base+'/properties.jsonl')]
pure="A pure function of its input: no schedule, clock, I/O, fault or history takes part, so a seeded scheduler or fault injector has nothing to decide; sampling inputs would not be simulation."
na={"N07":"A comparison of the same pure function between Java versions: nothing in it depends on a schedule, a fault or a history. (The simulations themselves run on several Java versions.)"}
m={"version":1,"setup_cmd":"./check --setup","checks":[],"not_applicable":[]}
notes=json.load(open(base+'/tools/levelnotes.json'))
for p in props:
    i=p['id']
    if i in claimed:
        m["checks"].append({"property":i,"quick_cmd":"./check %s --tier quick"%i,"thorough_cmd":"./check %s --tier thorough"%i,
          "evidence_file":"/verif/evidence/%s.json"%i,
          "technique":"deterministic simulation with fault injection: seeded search over schedules and fault sequences of the real library code under a controlled scheduler, judged against a sequential reference execution",
          "level":"exploration","level_note":notes.get(i,"Sampled schedules and faults, not exhaustive; sequentially consistent memory; see DESIGN.md.")})
    elif i[0]=='N':
        m["not_applicable"].append({"property":i,"reason":na.get(i,pure)})
    else:
        m["not_applicable"].append({"property":i,"reason":"Check not built yet."})
json.dump(m,open(base+'/MANIFEST.json','w'),indent=1); open(base+'/MANIFEST.json','a').write('\n')
