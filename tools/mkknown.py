#!/usr/bin/env python3
"""Writes known_findings.json; the fixed entries are taken from /repo's fix: commits and the table below."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ATTR = {
 '5e591e4': 'C11', '75ff8d3': 'C14', '9c2ce65': 'C14', '0b77dc7': 'C16', '7df75cf': 'C23', '9f0b050': 'C16', '386f7cf': 'C20',
 '549dfae': 'C15',
 'dc8d52a': 'C19', '0e1bff2': 'C19', '756905e': 'C05', 'b8bb9b9': 'C05', '565fe1e': 'C11', 'e65edd6': 'C08', 'd4360a0': 'C08', '0c4f4e8': 'C08',
 'b6a1017': 'C08', '1f484c8': 'C08', '3197e39': 'C07', 'e8ffd89': 'C07', '1a2d8e8': 'C02', '86977aa': 'C04', 'a4ea105': 'C02', '50fe673': 'C13',
 'f78f543': 'C09', '7c6ae0e': 'C19', '4f365d9': 'C09', '19a4348': 'C02', 'dd10412': 'C02', 'e054332': 'C04', '67828e4': 'C03', 'adf64ba': 'C02',
 'bda34cd': 'C02', '4b98487': 'C12', '359eb6c': 'C01', '018255d': 'C02', '5819404': 'C13', '6c1e69a': 'C02', '1d53b80': 'C01', 'b6c5c78': 'C01',
 '69b0f6d': 'C10', '36a6565': 'C01', 'a382c22': 'C10', '45d3abe': 'C04',
}
EXTRA = {}
path = os.path.join(HERE, 'known_findings.json')
findings = json.load(open(path))['findings'] if os.path.exists(path) else []
fixed = []
for line in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        fixed.append('fixed: property=%s %s %s' % (ATTR[h[:7]], h, s[5:]))
with open(path, 'w') as f:
    json.dump({'findings': findings, 'fixed': fixed}, f, indent=1)
    f.write('\n')
