"""Rewrites the 'fixed' entries of known_findings.jsonl from the fix: commits of /repo (development tool, not a check)."""
import json, subprocess, os
MAP = {'fa32ad7':'C33','5be971b':'C34','2bb7657':'C36','9adb6fa':'C31','a9386f3':'C31','41e30c1':'C31','23844b8':'C01','ce32ab2':'C04','fde96dd':'C01','2bf1ee5':'C01','c3957e2':'C20','fa02074':'C25','c3ac149':'C08','5685efc':'C08',
 '8cbd0c1':'C09','c27fa87':'C02','427c7b8':'C16','e740a1a':'C16','ac7b603':'C16','f8716d7':'C17','b562973':'C20','3e51b38':'C29','63df4b8':'C20',
 '72f3f59':'C21','f6ea88d':'C11','aa34b49':'C29','c01fc10':'C14','6bfe446':'C27','4fc29fa':'C27','4d854e2':'C27','8114346':'C26','bec4a12':'C24',
 '367b80c':'C23','e592d20':'C24','9d3e430':'C24','99b26b8':'C22','3ae4fac':'C31','205f8bf':'C31','5b11720':'C31','5591efb':'C31','da56dc3':'C30',
 'b0b740f':'C28','06ef862':'C26','9e830f0':'C07','e1a7f3f':'C11'}
out = subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','58b9031..HEAD']).decode().split('\n')
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl')
known = []
if os.path.exists(path):
    known = [l for l in open(path) if l.strip() and json.loads(l).get('status') == 'known']
with open(path, 'w') as f:
    for l in known:
        f.write(l)
    for l in out:
        if ' fix: ' in l:
            h, s = l.split(' fix: ')
            p = MAP[h]
            f.write(json.dumps({'id': 'fix-' + h, 'property': p, 'status': 'fixed', 'commit': h, 'what': s,
                                'line': 'fixed: property=%s %s %s' % (p, h, s)}) + '\n')
