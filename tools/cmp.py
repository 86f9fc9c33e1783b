import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1])); P=set(t[t.index('dist/'):] for t in o['passed'])
m=[t for t in b['stable'] if t not in P]; print(len(m),'stable tests missing',m[:10])
