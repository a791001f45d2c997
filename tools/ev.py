import json,sys
for c in sys.argv[1:]:
    e=json.load(open(f'/verif/evidence/{c}.json'))['coverage'], json.load(open(f'/verif/evidence/{c}.json'))
    c0,e0=e
    print(e0['property'],'ev',c0['evaluations'],'nt',c0['distinct_nontrivial'],'wall',round(e0['wall_s'],1),'notrun',c0.get('not_run_count'),(c0.get('not_run') or [])[:1],'unrep',[x[:1500] for x in c0.get('failures_that_did_not_come_back',[])])
    print('  ',c0.get('classes'))
