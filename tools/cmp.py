import json,sys
t=json.load(open(sys.argv[1] if len(sys.argv)>1 else '/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b['stable']) if 'stable' in b else None
p=set(t.get('passed',[]))
print('missing',sorted(st-p)[:20],len(st),len(st&p))
