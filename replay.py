#!/usr/bin/env python3
"""Replay a recorded counterexample against the native build: python3 replay.py FILE.json"""
import sys, json, importlib.util, os
sys.argv = [sys.argv[0]] + sys.argv[1:]
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'check.py')).read().rsplit('\nmain()', 1)[0]
g = {'__file__': os.path.join(os.path.dirname(os.path.abspath(__file__)), 'check.py'), '__name__': 'check'}
exec(compile(src, 'check.py', 'exec'), g)
r = json.load(open(sys.argv[1]))
b = g['build']()
o = g['replay'](b, r['entry'], r['args'], r['inputs'])
print(o['out'], o.get('err', ''))
sys.exit(1 if g['reproduces'](r, o) else 0)
