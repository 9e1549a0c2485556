#!/usr/bin/env python3
"""show.py replay.json : print a recorded violating trace"""
import json,sys
d=json.load(open(sys.argv[1]))
print(d['cfg'])
for i,e in enumerate(d['trace'][:d['bad_event']+3]):
    print(i+1,e.get('t'),e.get('e'),{k:v for k,v in e.items() if k not in('final','t','e')}, '<==' if i+1==d['bad_event'] else '')
