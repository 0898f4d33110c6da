"""list the violations of the last run of a check, short"""
import glob, json, sys
for p in sorted(glob.glob(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))), 'replay', sys.argv[1], '*.json')))[:int(sys.argv[2]) if len(sys.argv) > 2 else 40]:
    d = json.load(open(p))
    m = d['message'].strip().splitlines()
    print('-', m[0][:330], '|', m[-1][:200] if len(m) > 1 else '')
