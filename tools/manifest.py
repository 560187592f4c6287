import json,subprocess
props=[json.loads(l) for l in open('properties.jsonl')]
built=set(subprocess.run(['.build/worker','props'],capture_output=True,text=True).stdout.split())
NA={
"C30":"Version comparison is a pure function of two strings: no schedule, clock, I/O or second party for a simulated environment to vary, so simulation adds nothing over a plain property test and would decide nothing.",
"C31":"Whether a resolution satisfies its constraints depends only on the index contents and the request; there is no fault, schedule or crash to inject. (That the answer is the same every time does depend on scheduling and map order: C22.)",
"C32":"The index and database text formats are pure encoders and decoders of in-memory values; failures of the readers and writers under them are covered by C10 and C14, the round trip itself has no environment to simulate.",
"C33":"Parsing and printing of passwd and group entries is a pure function; the I/O failures around it are covered by C14.",
}
LEVEL={}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in built:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
        "technique":"deterministic simulation with fault injection (seeded search over schedules and fault sequences of the real code under a simulated scheduler, clock, disk and network)",
        "level":"exploration","level_note":"Seeded random search: it covers the schedules, faults and workloads it draws, not all of them; every violation comes with a seed and a minimised, exactly replayable schedule and fault trace."})
    else:
        na.append({"property":i,"reason":NA.get(i,"No simulation scenario decides this property yet.")})
m={"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":na,"notes":"See DESIGN.md. The simulator is built with go build -overlay from /repo's working tree; /repo carries no hooks."}
json.dump(m,open('MANIFEST.json','w'),indent=1);open('MANIFEST.json','a').write('\n')
print(len(checks),len(na))
