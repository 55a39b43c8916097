#!/usr/bin/env python3
"""lits.py REPO: numbers written in the library's sources, to widen the operand
alphabets around them ("N": on a line that base.hash does not know, "A": any;
"C": sizes and counts in the calculator's sources, for its session shapes).
lits.py REPO --base: write mc/base.hash.  Only the alphabets use this: what is
right or wrong is never decided by it."""
import glob, hashlib, os, re, sys
R = sys.argv[1]
BASE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc', 'base.hash')
NUM = re.compile(r"(?<![\w.])(0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][+-]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)[uUlLfF]*")
def lines():
    for f in sorted(glob.glob(R + '/src/*.[ch]') + glob.glob(R + '/takum.h')):
        for l in open(f, errors='replace'):
            l = ''.join(l.split())
            if f.endswith('takum.h'):
                l = '@' + l
            if l and not l.startswith(('/*', '*', '//')):
                yield l, hashlib.md5(l.encode()).hexdigest()[:10]
if '--base' in sys.argv:
    open(BASE, 'w').write('\n'.join(sorted({h for _, h in lines()})) + '\n')
    sys.exit()
known = set(open(BASE).read().split())
new, every = [], []
for l, h in lines():
    l = re.sub(r'(U?INT(?:8|16|32|64|MAX)_C)\(', '(', l)
    for t in NUM.findall(l):
        if re.match(r'0[0-7]+$', t):
            t = str(int(t, 8))
        if l[0] != '@':
            every.append(t)
        if h not in known:
            new.append(t)
new = list(dict.fromkeys(new))[:48]
every = [t for t in dict.fromkeys(every) if t not in new][:400]
sys.stdout.write(''.join('N %s\n' % t for t in new) + ''.join('A %s\n' % t for t in every))
size = {t for f in glob.glob(R + '/example/*.[ch]') for l in open(f, errors='replace') for t in re.findall(r'(?<![\w.])([0-9]+|0x[0-9a-fA-F]+)\b', l)}
sys.stdout.write(''.join('C %d\n' % n for n in sorted({int(t, 0) if t[:1] != '0' or t[1:2] == 'x' else 0 for t in size}) if 5 <= n <= 70000))
