import json,sys,re
d=json.load(open(sys.argv[1]))
print('\n'.join(d['plan'])); print('\n'.join(d['violations']))
pat=sys.argv[2] if len(sys.argv)>2 else 'write|screen|calls|sends|returns|read\\('
print('\n'.join(l for l in d['trace'] if re.search(pat,l)))
