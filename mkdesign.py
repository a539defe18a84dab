#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md between the markers from props.py and the templates."""
import os, re
import props
V = os.path.dirname(os.path.abspath(__file__))
def fns(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen or not os.path.exists(t): return []
    seen.add(t); out = []
    for l in open(t):
        m = re.match(r'\s*//@include (\S+)', l)
        if m: out += fns(os.path.join(V, 'verus', m[1]), seen) or fns(os.path.join(os.path.dirname(t), m[1]), seen)
        m = re.match(r'\s*//@fn (\S+) (\S+)', l)
        if m: out.append((m[1].replace('src/', '', 1), m[2]))
    return out
o = []
for k in sorted(props.PROPS):
    p = props.PROPS[k]
    o.append(f"### {k}: {p['title']}\n")
    o.append(p['note'] + "\n")
    by = {}
    for t in p['templates']:
        for f, n in fns(os.path.join(V, 'verus', t + '.rs')):
            n = re.sub(r'#[ac]\d+', lambda m: ' (async block)' if m[0][1] == 'a' else ' (closure)', n)
            by.setdefault(f, [])
            if n not in by[f]: by[f].append(n)
    o.append("* Under contract (`verus/" + ".rs`, `verus/".join(p['templates']) + ".rs`): " + "; ".join(f"`{f}`: {', '.join(n)}" for f, n in by.items()) + ".")
    if p.get('theorems'): o.append("* Lemmas over the contracts: " + ", ".join(f"`{t}`" for t in p['theorems']) + ".")
    if p.get('standin'): o.append("* Out of reach, bounded search stands in (`replay/" + k.lower() + ".rs`): " + "; ".join(p['standin']) + ".")
    o.append("* Assumed: " + "; ".join(a.rstrip('.') for a in [a for a in p['assumptions'] if a not in (props.EXTRACT, props.USIZE, props.DERIVE)]) + ".")
    o.append("")
for k, v in props.NOT_APPLICABLE.items(): o.append(f"### {k}: not applicable\n{v}.\n")
f = os.path.join(V, 'DESIGN.md'); s = open(f).read()
a, b = '<!-- generated by mkdesign.py -->\n', '<!-- end -->'
i, j = s.index(a) + len(a), s.index(b)
open(f, 'w').write(s[:i] + "\n".join(o) + "\n" + s[j:])
