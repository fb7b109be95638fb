"""Scenarios for the output path (C01)."""
SIZES = [0, 1, 1, 2, 3, 5, 12, 13, 40, 100, 500, 1000, 2047, 4096, 4097, 8000, 8180, 8190, 8191, 8192, 8193, 8200, 9000, 16384, 16385, 20000]

def scn(): return dict(op='scn', term='xterm', h=4, w=20, sysl=True, seg=True)
def wrap(ops):
    return {'ops': [scn(), dict(op='open', via='path')] + ops + [dict(op='wplan', p=[])] +
            ([dict(op='flush', on='w'), dict(op='unlockw')] if guarded(ops) else [dict(op='lockw'), dict(op='flush', on='w'), dict(op='unlockw')])}
def guarded(ops):
    g = False
    for o in ops:
        if o['op'] == 'lockw': g = True
        if o['op'] == 'unlockw': g = False
    return g

def plan(r):
    k = r.random()
    if k < 0.4: return [r.choice([1, 2, 3, 7, 50, 1000, 4096, 8191, -4, -4]) for _ in range(r.randrange(1, 12))]
    if k < 0.5: return [-4] * r.randrange(1, 6)
    p = [r.choice([1, 5, 100, 4000, 8192, -4]) for _ in range(r.randrange(0, 4))]
    return p + [r.choice([-5, -11, 0, -5])] * r.randrange(1, 4)

def history(r, n):
    ops, k, g = [], 0, False
    faults = r.random() < 0.85
    for _ in range(n):
        x = r.random()
        if x < 0.12:
            ops.append(dict(op='unlockw') if g else dict(op='lockw')); g = not g
        elif x < 0.2 and g: ops.append(dict(op='flush', on='w'))
        elif x < 0.4 and faults: ops.append(dict(op='wplan', p=plan(r)))
        else:
            k += 1
            L = r.choice(SIZES) if r.random() < 0.6 else r.randrange(1, 60)
            op = r.choice(['str', 'str', 'fmt', 'chr'])
            if op == 'chr': L = 1
            # short pieces cannot be told apart when only a part of them arrives
            if faults and 0 < L < 12: L = 12 if op != 'chr' else 1
            if faults and op == 'chr': op, L = 'str', 12
            ops.append(dict(op=op, on='w' if g else 't', pat=[k, L]))
    return wrap(ops)
