"""Freeze the function names that exist when the checker is written.

Functions in this list stay opaque unless a rule expands them; any function
NOT in it (a helper someone extracts later) is always expanded in place.
"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tnsa.model import Program
P = Program(raw=True)
json.dump(sorted(P.funcs), open(os.path.join(V, 'tnsa', 'known_api.json'), 'w'), indent=0)
print(len(P.funcs))
