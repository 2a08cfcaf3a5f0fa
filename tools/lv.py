"""lv.py ID technique note : add/replace an entry of levels.json"""
import json,sys,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'levels.json')
d=json.load(open(p)); d[sys.argv[1]]={"technique":sys.argv[2],"note":sys.argv[3]}
json.dump(dict(sorted(d.items())),open(p,'w'),indent=1)
