import json,subprocess,sys
p='/verif/known_findings.json'
d=json.load(open(p))
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.split('\n')
m=dict(a.split('=',1) for a in sys.argv[1:])
for l in log:
    if ' fix: ' not in l: continue
    h,s=l.split(' fix: ',1)
    if not any(h in x for x in d['fixed']):
        k=[v for q,v in m.items() if q in s]
        if k: d['fixed'].append('fixed: property=%s %s %s'%(k[0],h,s))
        else: print('no map',l)
json.dump(d,open(p,'w'),indent=1)
