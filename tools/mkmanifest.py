import json,sys,os,subprocess
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,H)
from checks import CHECKS
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
NA={
 'C50':'An amount of work and memory is a cost, not an event or state that a schedule or a fault decides; the simulator has no oracle for "near-linear", and every run would measure the same deterministic count.',
 'C51':'Depends only on the numerical content of one input matrix: no schedule, fault, clock or history enters. Deterministic simulation adds nothing to sampling inputs, and a sound bound needs numerical analysis. (The limit case, nothing dropped, is decided by C21, the thresholds by C24.)'}
TECH='deterministic simulation with fault injection: seeded search over histories, faults and schedules, replayable tapes'
m=dict(version=1,setup_cmd='python3 -m py_compile check.py checks.py && clang++ --version >/dev/null || g++ --version >/dev/null',checks=[],not_applicable=[])
for p in props:
    i=p['id']
    if i in CHECKS:
        c=CHECKS[i]
        m['checks'].append(dict(property=i,quick_cmd='python3 check.py %s --tier quick'%i,thorough_cmd='python3 check.py %s --tier thorough'%i,
            evidence_file='evidence/%s.json'%i,technique=c.get('technique',TECH),level=c['level'],level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i,reason=NA.get(i,'no check built yet')))
m['notes']='No hooks were needed in the code under test: every seam is a replaceable symbol (operator new, malloc, LAPACK, clock, streams, OpenMP runtime, memory-access callbacks) or an interface the library already has (message sinks, null-space filters, operators). known_findings.txt lists findings and repaired defects.'
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1)
print(len(m['checks']),'checks')
