#!/usr/bin/env python3
"""mkcuda.py IN OUT: turns the kernel launches of a CUDA source into calls of the simulated device; the rest is C++ already."""
import re, sys
s = open(sys.argv[1]).read(); out = ''; i = 0
def close(t, j, a, b):  # t[j] is a; the position behind the matching b
    n = 0
    while j < len(t):
        if t[j] == a: n += 1
        elif t[j] == b:
            n -= 1
            if n == 0: return j + 1
        j += 1
    raise SystemExit('mkcuda: unbalanced')
while True:
    k = s.find('<<<', i)
    if k < 0: out += s[i:]; break
    j = k  # the name of the kernel, with template arguments, ends here
    while s[j - 1].isspace(): j -= 1
    e = j
    if s[j - 1] == '>':
        n = 0
        while True:
            j -= 1
            if s[j] == '>': n += 1
            elif s[j] == '<':
                n -= 1
                if n == 0: break
        while s[j - 1].isspace(): j -= 1
    while re.match(r'[\w:]', s[j - 1]): j -= 1
    name = s[j:e]; c = s.index('>>>', k); cfg = s[k + 3:c]; p = s.index('(', c); q = close(s, p, '(', ')')
    out += s[i:j] + 'simgpu::launch(simgpu::cfg(%s), [=](auto... sim_a){ %s(sim_a...); }, %s)' % (cfg, name, s[p + 1:q - 1]); i = q
open(sys.argv[2], 'w').write(out)
