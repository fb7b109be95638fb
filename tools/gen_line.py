"""Scenarios for terminals used line by line (C05, C06)."""
from gen_screen import SUP, LINETERMS, text
TERMS = ['xterm', 'xterm', 'xterm-256color', 'linux', 'rxvt']
BIG = ['2147483647', '2147483648', '4294967295', '4294967296', '4294967297', '9223372036854775807', '18446744073709551615', '65536']

def scn(h, w, term='xterm', **kw):
    return dict(op='scn', term=term, h=h, w=w, sysl=True, sup=SUP[term], **kw)

def wrap(ops, h, w, term='xterm', via='path', guard=False):
    on = 'w' if guard else 't'
    ops = [dict(o, on=on) for o in ops]
    if guard: ops = [dict(op='lockw')] + ops + [dict(op='flush', on='w'), dict(op='unlockw')]
    pre = [dict(op='stdfds', err=True)] if via != 'path' else []
    return {'ops': [scn(h, w, term)] + pre + [dict(op='open', via=via)] + ops + [dict(op='dropt')]}

def attr(r):
    k = r.random()
    C = lambda: r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8])
    S = lambda: r.choice([0, 1, 2, 4, 8, 3, 5, 6, 9, 10, 12, 7, 14, 15])
    if k < 0.2: return dict(op='fg', c=C())
    if k < 0.4: return dict(op='bg', c=C())
    if k < 0.52: return dict(op='add', s=S())
    if k < 0.64: return dict(op='rem', s=S())
    if k < 0.76: return dict(op='set', s=S()) if r.random() < 0.8 else dict(op='set', s=0, none=True)
    if k < 0.82: return dict(op=r.choice(['bold', 'italic', 'underline', 'reverse']))
    if k < 0.92: return dict(op='theme', f=C(), b=C(), s=S())
    return dict(op='clrattr')

def move(r, h, w):
    k = r.random()
    if k < 0.6:
        o = dict(op=r.choice(['up', 'down', 'left', 'right']))
        if r.random() < 0.12: o['cntbig'] = r.choice(BIG)
        else: o['cnt'] = r.choice([0, 1, 1, 2, 3, 5, h, w, 100, 65535])
        return o
    if k < 0.68: return dict(op='cr')
    if k < 0.76: return dict(op='el')
    if k < 0.84: return dict(op='ed')
    if k < 0.90: return dict(op='clr')
    if k < 0.97: return dict(op='curmode', m=r.choice(['normal', 'invisible', 'overwrite']))
    return dict(op='size')

def texts(r, w, n=None):
    t = [c for c in text(r, n or r.choice([1, 1, 2, 4, w, w + 1, 2 * w + 1])) if c[1] != 6 and (c[1] != 2 or w > 1)]
    while t and t[0][1] == 0: t = t[1:]
    out = []
    for c in t:  # marks only directly after a spacing character
        if c[1] == 0 and out[-1][1] not in (0, 1, 2): continue
        out.append(c)
    return out or [[97, 1]]

def put(r, w):
    k = r.random()
    if k < 0.45: return dict(op='str', t=texts(r, w))
    if k < 0.6: return dict(op='chr', t=texts(r, w)[:1])
    if k < 0.8: return dict(op=r.choice(['fmt', 'fmt2']), t=texts(r, w))
    return dict(op='styled', f=r.randrange(9), b=r.randrange(9), s=r.randrange(16), t=texts(r, w))

def short(r):
    return dict(op='wplan', p=[r.choice([1, 2, 3, 5, 9, -4]) for _ in range(r.randrange(1, 14))])

def faulty(r):
    p = [r.choice([1, 2, 3, 5, 9, -4]) for _ in range(r.randrange(0, 5))]
    return dict(op='wplan', p=p + [r.choice([-5, -11, 0])] * r.randrange(1, 3))

def bulk(r, n):
    """Much more output than any buffer holds, gathered by a write guard."""
    h, w = 1, 6
    pool = [dict(op='curmode', m='invisible'), dict(op='curmode', m='normal'), dict(op='clrattr'), dict(op='add', s=15), dict(op='fg', c=3), dict(op='bg', c=5), dict(op='cr'), dict(op='right', cnt=3), dict(op='el')]
    if n > 4000: pool = [dict(op='theme', f=2, b=3, s=5), dict(op='theme', f=4, b=0, s=10), dict(op='theme', f=0, b=8, s=1), dict(op='curmode', m='invisible'), dict(op='curmode', m='normal')]
    ops = [scn(h, w, r.choice(['xterm', 'xterm-256color'])), dict(op='open', via='path'), dict(op='lockw')]
    if r.random() < 0.7: ops.append(dict(op='wplan', p=[r.choice([1, 100, 4096, 8192, 65536, -4]) for _ in range(r.randrange(1, 12))]))
    ops += [dict(r.choice(pool), on='w') for _ in range(n)] + [dict(op='str', on='w', t=texts(r, w))]
    if r.random() < 0.5: ops.append(dict(op='flush', on='w'))
    ops += [dict(op='unlockw'), dict(op='str', on='t', t=[[122, 1]]), dict(op='dropt')]
    return {'ops': ops}

def history(r, n, attrs=0.4, moves=0.3, shorts=0.05, macs=None, hard=0, panics=0.0):
    h, w = r.choice([(1, 1), (1, 5), (2, 3), (3, 4), (4, 9), (3, 20), (6, 10)])
    term = r.choice(TERMS if r.random() < 0.5 else LINETERMS)
    if moves > 0.5 and not macs and not panics and r.random() < 0.15: term = r.choice(['vp-single', 'vp-poor'])
    via = r.choice(['path', 'path', 'path', 'std', 'err']) if not hard else 'path'
    ops = [scn(h, w, term)] + ([dict(op='stdfds', err=via == 'err', two=r.random() < 0.5)] if via != 'path' else []) + [dict(op='open', via=via)]
    guard = False
    while len(ops) < n:
        k = r.random()
        on = 'w' if guard else 't'
        if k < 0.05:
            ops.append(dict(op='unlockw') if guard else dict(op='lockw')); guard = not guard
        elif k < 0.08 and guard: ops.append(dict(op='flush', on='w'))
        elif k < 0.08 + shorts: ops.append(short(r))
        elif k < 0.08 + shorts + hard: ops.append(faulty(r))
        elif macs and r.random() < macs[0]: ops.append(dict(macs[1](r), on=on))
        else:
            k = r.random()
            if k < attrs: ops.append(dict(attr(r), on=on))
            elif k < attrs + moves: ops.append(dict(move(r, h, w), on=on))
            else: ops.append(dict(put(r, w), on=on))
    on = 'w' if guard else 't'
    if hard: ops.append(dict(op='wplan', p=[]))
    if r.random() < panics:
        # a panic while a write guard is held: what was written is shown all the same
        if guard: ops.append(dict(op='unlockw'))
        for _ in range(r.choice([1, 1, 2])):
            ops.append(dict(op='panic', g='w', ops=[dict(r.choice([attr, lambda r: put(r, w), lambda r: move(r, h, w)])(r), on='w') for _ in range(r.randrange(1, 6))]))
        guard, on = True, 'w'
        ops.append(dict(op='lockw'))
    if guard or not hard or r.random() < 0.5: ops.append(dict(op='str', on=on, t=[[122, 1]]))   # or dropped with what a failure left behind
    if guard: ops += [dict(op='flush', on='w'), dict(op='unlockw')]
    ops.append(dict(op='dropt'))
    return {'ops': ops}
