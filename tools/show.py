#!/usr/bin/env python3
"""summary of a replay file"""
import json,sys
d=json.load(open(sys.argv[1])); s=d['scenario']; print(d['key'],'|',d['message']); e=s['ego']
if e: print({k:v for k,v in e.items() if v not in (0,None,False,[])})
print(s['p'],s['crashes']); 
for p in s['plans']: print({k:v for k,v in p.items() if v not in (0,None,False,[]) and k!='trace'})
