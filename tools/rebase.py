"""records the text of the functions that the contracts were written for (run after a commit in /repo)"""
import sys, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import verify
json.dump(verify.make_baseline('/repo'), open(os.path.join(HERE, 'baseline.json'), 'w'), separators=(',', ':'))
