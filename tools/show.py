import json,sys
v=json.load(open(f'/verif/evidence/replay-{sys.argv[1]}.json'))
for d in v[:int(sys.argv[2]) if len(sys.argv)>2 else 8]: print(d['key'][:80],'|',str(d['detail'])[:int(sys.argv[3]) if len(sys.argv)>3 else 200])
