#!/usr/bin/env python3
"""kf.py PROP HARNESS COMMIT WHAT: append a 'fixed' line to known_findings.jsonl"""
import sys, json
p,h,c,w=sys.argv[1:5]
open('/verif/known_findings.jsonl','a').write(json.dumps({'status':'fixed','property':p,'harness':h,'assertion':'','commit':c,'what':f'fixed: property={p} {c} {w}'})+'\n')
