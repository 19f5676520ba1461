import json,sys
d=json.load(open('/tmp/pv_%s.json'%sys.argv[1]))
print(d['wall'],sum(o['time'] for o in d['obligations']))
for o in sorted(d['obligations'],key=lambda o:-o['time'])[:int(sys.argv[2])]: print(o['status'],round(o['time'],1),o['name'])
