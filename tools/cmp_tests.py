"""Compares a test.sh result with the stable tests."""
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
t = set(json.load(open(sys.argv[1]))['passed'])
print("missing:", sorted(b - t))
sys.exit(bool(b - t))
