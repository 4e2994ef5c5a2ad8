"""Replays a file written next to a VIOLATION line: /opt/venv-pypy/bin/python replay.py FILE"""
import json
import sys

import native

with open(sys.argv[1]) as f:
    for job in json.load(f):
        out = native.run(job)
        print('%s: %s -> %s' % (job['case'], json.dumps(job['inputs'])[:400], out['failures'] or out['status']))
        if out['exception']:
            print(out['exception'])
