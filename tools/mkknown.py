"""Writes known-findings.txt: the defects found and repaired in /repo."""
import subprocess
MAP = {
    '762c022': 'C22',
    '21ba324': 'C26',
    '0c942e3': 'C18',
    '10dcb30': 'C12',
    '8a6fce0': 'C15',}
for line in '''4bd8552 C17
0d623f5 C16
2961f6c C13
9d33341 C14
005aed3 C14
0698b29 C15
6080b0f C14
7b5c9a7 C14
880e573 C13
8db5275 C27
3f0a06d C27
87b82f4 C08
7482969 C08
73c75a1 C08
b3ddbd3 C10
4a620f2 C12
ba3b55a C12
1c168ff C05
b041b6b C10
0fd0c1b C28
b709441 C10
49d6cc0 C11
1edc437 C26
844a284 C30
c5f2bea C26
2b1fdca C20
5be7c56 C18
3cecd5d C20
e5829a4 C18
80c088c C20
25fed27 C23
651dfab C23
3229744 C23
0c38891 C23
a1ff6fa C23
f4c5fc2 C23
8779008 C23
d599544 C23
9ec88b3 C23
05df5cc C23
54d5a80 C23
502d368 C23
4b0b1e0 C23
71b7823 C27
0a6fa4d C27
b186ee8 C27
ebd0522 C29
630d6cf C12
0f3859d C29
dce1306 C29
c55348c C29
b5aa28c C23
e4ec153 C29
ab39a5e C24'''.splitlines():
    h, p = line.split()
    MAP[h] = p
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h\t%s\t%b%x00',
                      'dbb565d..HEAD'], capture_output=True, text=True).stdout
out = ['# Genuine defects of jfinkels/sbclassifier found by the analysis.',
       '# known: property=<id> key="<rule>|<construct>" <what fails>   (not repaired: reported '
       'as KNOWN-FINDING)',
       '# fixed: property=<id> <commit> <what failed>                   (repaired: suppresses '
       'nothing)', '']
for rec in log.split('\0'):
    rec = rec.strip()
    if not rec:
        continue
    h, s, b = (rec.split('\t') + [''])[:3]
    b = ' '.join(b.split())
    out.append('fixed: property=%s %s %s%s' % (MAP[h], h, s.replace('fix: ', ''),
                                              ': ' + b if b else ''))
open('/verif/known-findings.txt', 'w').write('\n'.join(out) + '\n')
