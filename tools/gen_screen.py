"""Scenarios for screens (C02, C03, C04)."""
import gen_input as gi

NARROW = [97, 98, 99, 233, 48, 126]
WIDE = [0x4e16, 0x754c, 0xac00]
MARK = [0x301, 0x308, 0x20d7]
IGN = [7, 0x200b, 1, 127, 0]
# What the terminal types support: styles, 16 hiding the cursor, 32 colours.
_NI, _ALL = [1, 4, 8, 16, 32], [1, 2, 4, 8, 16, 32]
SUP = {t: _ALL for t in 'xterm xterm-256color tmux tmux-256color rxvt-unicode rxvt-unicode-256color xterm-vt220'.split()}
SUP.update({t: _NI for t in 'linux screen screen-256color screen.xterm-256color rxvt Eterm wsvt25 xterm-xfree86'.split()})
SUP.update({'vt100': [1, 4, 8], 'vt102': [1, 4, 8], 'vt220': [1, 4, 8, 16], 'xterm-mono': [1, 4, 8], 'xterm-r6': [1, 4, 8], 'xterm-color': [1, 4, 8, 32], 'rxvt-basic': [1, 4, 8, 16]})
SUP['vp-pad'] = _ALL
SCREENTERMS = sorted(SUP)                       # all of them have scroll regions
SUP.update({'ansi': [1, 4, 8, 32], 'cygwin': [1, 4, 8, 32]})
SUP['vp-noend'] = _ALL
LINETERMS = sorted(SUP)
# without counted moves (64), without anything to erase (128)
SUP.update({'vp-single': _ALL + [64], 'vp-poor': _ALL + [64, 128]})

def text(r, n, wide=True, mark=True):
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.55: out.append([r.choice(NARROW), 1])
        elif k < 0.72 and wide: out.append([r.choice(WIDE), 2])
        elif k < 0.82 and mark: out.append([r.choice(MARK), 0])
        elif k < 0.87: out.append([10, 5])
        elif k < 0.91: out.append([9, 3])
        elif k < 0.95: out.append([13, 4])
        elif k < 0.97: out.append([r.choice(IGN), 6])
        elif k < 0.985: out += [[36, 1], [60, 1], [53, 1], [62, 1]]   # like padding in a control sequence
        else: out.append([32, 1])
    return out

def fit(t, w):
    """In a one-column screen text ends at the first wide character."""
    if w > 1: return t
    for i, c in enumerate(t):
        if c[1] == 2: return t[:i + 1]
    return t

# Positions far outside; the specification and the trace call all of them FAR.
FAR = 2000000000
FARS = [2**64 - 1, 2**64 - 1, 2**64 - 2, 2**63, 2**32, 2**32 + 1, 2**32 + 2]

def far(r, o):
    """A position far outside: also such that it is inside if cut to 32, 16 or 8 bits."""
    for k in 'lc':
        if k not in o: continue
        x = r.random()
        if x < 0.35: o.update({k: FAR, k + 'big': str(r.choice(FARS))})
        elif x < 0.5: o[k] = r.choice([256, 257, 65536, 65537])
    return o

def buf_op(r, h, w, on):
    o = buf_op0(r, h, w, on)
    return far(r, o) if o['op'] in ('setcur', 'at', 'styledat', 'nextline') and r.random() < 0.06 else o

def buf_op0(r, h, w, on):
    k = r.random()
    h, w = max(1, h), max(1, w)
    L = lambda: r.choice([r.randrange(h), r.randrange(h), h - 1, 0, r.choice([h, h + 3])] if r.random() < 0.3 else [r.randrange(h)])
    C = lambda: r.choice([r.randrange(w), w - 1, max(0, w - 2), 0, r.choice([w, w + 2])] if r.random() < 0.3 else [r.randrange(w)])
    st = lambda: dict(f=r.choice([0, 0, 2, 5]), b=r.choice([0, 0, 3, 8]), s=r.choice([0, 0, 1, 2, 4, 8, 5, 10, 15]))
    T = lambda n=None: fit(text(r, n if n is not None else r.choice([1, 1, 2, 3, 5, w, w + 1, h * w + 2])), w)
    if k < 0.30: return dict(op='str', on=on, t=T())
    if k < 0.34: return dict(op='chr', on=on, t=T(1)[:1] or [[97, 1]])
    if k < 0.38: return dict(op=r.choice(['fmt', 'fmt2']), on=on, t=T()) if w > 1 else dict(op='fmt', on=on, t=T())
    if k < 0.50: return dict(op='at', on=on, l=L(), c=C(), t=T())
    if k < 0.55: return dict(op='styled', on=on, t=T(), **st())
    if k < 0.61: return dict(op='styledat', on=on, l=L(), c=C(), t=T(), **st())
    if k < 0.71: return dict(op='setcur', on=on, l=L(), c=C())
    if k < 0.74: return dict(op='nextline', on=on, c=C())
    if k < 0.77: return dict(op='clr', on=on)
    if k < 0.81: return dict(op='fg', on=on, c=r.choice([0, 1, 2, 8]))
    if k < 0.84: return dict(op='bg', on=on, c=r.choice([0, 1, 4, 8]))
    if k < 0.90: return dict(op=r.choice(['add', 'rem', 'set']), on=on, s=r.choice([1, 2, 4, 8, 3, 12, 15]))
    if k < 0.92: return dict(op=r.choice(['bold', 'italic', 'underline', 'reverse']), on=on)
    if k < 0.94: return dict(op='theme', on=on, **st())
    if k < 0.96: return dict(op='clrattr', on=on)
    if k < 0.98: return dict(op='cursor', on=on)
    return dict(op='size', on=on)

def panics(r):
    """A write guard is released by a panic: what it holds is shown; the screen is used on through the poisoned lock."""
    h, w = r.choice([(1, 4), (2, 3), (2, 3), (3, 4), (2, 10)])
    ops = [scn(h, w, r.choice(SCREENTERMS)), dict(op='open', via='path'), dict(op='screen')]
    ops += [x for _ in range(r.randrange(4)) for x in [buf_op(r, h, w, 's')] + ([dict(op='refresh', on='s')] if r.random() < 0.3 else [])]
    for k in range(r.choice([1, 1, 2, 3])):
        inner = [buf_op(r, h, w, 'g') for _ in range(r.randrange(5))]
        if r.random() < 0.2: inner.insert(r.randrange(len(inner) + 1), dict(op='refresh', on='g'))
        if r.random() < 0.1: inner.append(dict(op='curmode', on='g', m=r.choice(['normal', 'invisible'])))
        if r.random() < 0.2: ops.append(fault(r))
        ops += [dict(op='panic', g='g', ops=inner)]
        if r.random() < 0.5: ops.append(dict(op='wplan', p=[]))
        if r.random() < 0.6: ops += [dict(op='slockw')] + [buf_op(r, h, w, 'g') for _ in range(r.randrange(4))] + [dict(op='sunlockw')]
    return {'ops': ops + [dict(op='wplan', p=[]), dict(op='slockw'), dict(op='cursor', on='g'), dict(op='size', on='g'), dict(op='refresh', on='g'), dict(op='sunlockw')]}

ZERO = [(0, 0), (0, 3), (2, 0), (0, 0)]

def scn(h, w, term='xterm', **kw):
    return dict(op='scn', term=term, h=h, w=w, sysl=True, sup=SUP[term], **kw)

def wrap(ops, h, w, term='xterm'):
    return {'ops': [scn(h, w, term), dict(op='open', via='path'), dict(op='screen')] + ops}

def fault(r):
    k = r.random()
    if k < 0.4: return dict(op='wplan', p=[r.choice([1, 2, 3, 7, 20, -4, -4]) for _ in range(r.randrange(1, 12))])
    p = []
    if r.random() < 0.8: p.append(r.choice([0, 1, 3, 5, 9, 17, 33, 80]))
    p += [r.choice([-5, -11, 0]) for _ in range(r.randrange(1, 4))]
    return dict(op='wplan', p=p)

def history(r, n, faults=False, resizes=False, refreshes=True, sizes=None, big=False):
    h, w = r.choice(sizes or [(1, 1), (1, 4), (2, 3), (2, 3), (3, 4), (2, 10), (3, 17), (4, 1), (3, 2)])
    if not sizes and r.random() < 0.06: h, w = r.choice(ZERO)
    term = r.choice(SCREENTERMS if r.random() < 0.5 else ['xterm', 'xterm-256color', 'linux', 'screen'])
    via = r.choice(['path'] * 4 + ['std', 'err']) if not faults else 'path'
    ops = [scn(h, w, term)] + ([dict(op='stdfds', err=via == 'err', two=r.random() < 0.7)] if via != 'path' else []) + [dict(op='open', via=via), dict(op='screen')]
    guard = False
    while len(ops) < n:
        k = r.random()
        on = 'g' if guard else 's'
        if refreshes and k < 0.10:
            if faults and r.random() < 0.5: ops.append(fault(r))
            ops.append(dict(op='refresh', on=on))
        elif k < 0.16:
            if guard:
                if faults and r.random() < 0.4: ops.append(fault(r))
                ops.append(dict(op='sunlockw')); guard = False
            elif refreshes: ops.append(dict(op='slockw')); guard = True
        elif resizes and k < 0.24 and not guard:
            h, w = r.choice([(1, 2), (2, 3), (3, 4), (2, 10), (3, 3), (1, 1), (h, w), (h + 1, w), (h, max(1, w - 1)), (h, w + 1), (max(1, h - 1), w)])
            if r.random() < 0.07: h, w = r.choice(ZERO)
            ops.append(dict(op='winsz', l=h, c=w, sig=True))
            if r.random() < 0.3: ops.append(buf_op(r, h, w, on))
            if r.random() < 0.2: ops.append(dict(op='refresh', on=on))
            if r.random() < 0.2:
                h, w = max(1, h - 1), w + 1
                ops.append(dict(op='winsz', l=h, c=w, sig=True))
            ops.append(dict(op='ev', on='s', to=0) if r.random() < 0.7 else dict(op='raw', on='s', cnt=r.choice([0, 1, 1, 2, 8, 64]), to=0))
            ops.append(dict(op='size', on='s'))
        elif k < 0.27: ops.append(dict(op='curmode', on=on, m=r.choice(['normal', 'invisible', 'overwrite'])))
        else: ops.append(buf_op(r, h, w, on))
    on = 'g' if guard else 's'
    ops += [dict(op='cursor', on=on), dict(op='wplan', p=[]), dict(op='refresh', on=on)]
    return {'ops': ops}

def changing(r):
    """The size changes while it is being asked for: during the opening of the screen or the reading of an earlier change."""
    h, w = r.choice([(2, 3), (3, 4), (1, 4), (2, 10)])
    other = lambda: r.choice([(h + 1, w), (h, w + 1), (h, w), (max(1, h - 1), w + 2), (3, 3), (1, 2)])
    plan = lambda n: [dict(skip=r.choice([0, 0, 0, 1]), l=a, c=b) for a, b in [other() for _ in range(n)]]
    ops = [scn(h, w, r.choice(['xterm', 'linux', 'vt100'])), dict(op='open', via='path')]
    early = r.random() < 0.6
    if early: ops.append(dict(op='wsplan', p=plan(r.choice([1, 1, 2]))))
    ops += [dict(op='screen', ws=True), dict(op='wsplan', p=[])]
    rd = lambda: dict(op='ev', on='s', to=0) if r.random() < 0.7 else dict(op='raw', on='s', cnt=r.choice([0, 1, 1, 2, 8, 64]), to=0)
    for _ in range(r.randrange(1, 4)):
        ops += [buf_op(r, h, w, 's') for _ in range(r.randrange(3))]
        if r.random() < 0.3: ops.append(dict(op='refresh', on='s'))
        if not early or r.random() < 0.5:
            a, b = other()
            ops += [dict(op='winsz', l=a, c=b, sig=True), dict(op='wsplan', p=plan(r.choice([1, 1, 2])))]
        early = False
        for _ in range(r.randrange(1, 5)):
            ops += [rd(), dict(op='size', on='s')]
        if r.random() < 0.5: ops.append(dict(op='refresh', on='s'))
    ops += [dict(op='wsplan', p=[])] + [rd() for _ in range(3)] + [dict(op='size', on='s'), dict(op='cursor', on='s'), dict(op='refresh', on='s')]
    return {'ops': ops}

def late(r):
    """The size changes while a read waits, or between two of its steps."""
    h, w = r.choice([(2, 3), (3, 4), (1, 4), (2, 10)])
    ops = [scn(h, w, r.choice(['xterm', 'linux', 'vt100'])), dict(op='open', via='path'), dict(op='screen')]
    ops += [buf_op(r, h, w, 's') for _ in range(r.randrange(6))]
    if r.random() < 0.5: ops.append(dict(op='refresh', on='s'))
    def rd(to, on): return gi.to(dict(op='ev', on=on) if r.random() < 0.7 else dict(op='raw', on=on, cnt=r.choice([0, 1, 8])), to)
    for _ in range(r.randrange(1, 5)):
        q = r.random() < 0.2
        if q: ops.append(dict(op='slockr'))
        on = 'q' if q else 's'
        if r.random() < 0.2: ops.append(dict(op='winsz', l=r.randrange(1, 5), c=r.randrange(1, 6), sig=True))
        z = [dict(l=r.randrange(1, 5), c=r.randrange(1, 6)) for _ in range(r.choice([1, 1, 2, 3]))]
        ops.append(dict(op='szplan', p=z))
        k = r.random()
        if k < 0.35: ops.append(dict(op='splan', p=[dict(k='race', s='winch') for _ in z]))
        elif k < 0.5: ops.append(dict(op='splan', p=[dict(k='sig', ms=r.choice([0, 1, 4]), s='winch') for _ in z]))
        elif k < 0.9: ops.append(dict(op='aplan', p=[dict(skip=r.choice([0, 0, 1, 2, 3, 4, 6, 9]), s='winch') for _ in z]))
        else: ops += [dict(op='in', bytes=[97]), dict(op='rplan', p=['winch' for _ in z])]
        ops += [rd(r.choice([0, 5, 5, 1000, None]), on), dict(op='size', on='s')]
        ops += [dict(op='splan', p=[]), dict(op='aplan', p=[]), dict(op='rplan', p=[]), dict(op='szplan', p=[])]
        for _ in range(r.randrange(3)): ops += [rd(0, on), dict(op='size', on='s')]
        if q: ops.append(dict(op='sunlockr'))
        if r.random() < 0.3: ops.append(buf_op(r, h, w, 's'))
        if r.random() < 0.3: ops.append(dict(op='refresh', on='s'))
    ops += [x for _ in range(4) for x in (rd(0, 's'), dict(op='size', on='s'))] + [dict(op='cursor', on='s'), dict(op='refresh', on='s')]
    return {'ops': ops}

def wide(r):
    """More lines or columns than a byte counts."""
    h, w = r.choice([(3, 300), (300, 3), (2, 270), (260, 2)])
    ops = [scn(h, w, r.choice(['xterm', 'linux', 'vt100'])), dict(op='open', via='path'), dict(op='screen')]
    for _ in range(r.randrange(2, 4)):
        for _ in range(r.randrange(2, 12)):
            l, c = r.randrange(h), r.randrange(w)
            if r.random() < 0.6:
                if h > 200: l = r.choice([0, 1, 5, 254, 255, 256, 257, h - 1, l])
                else: c = r.choice([0, 1, 9, 254, 255, 256, 257, w - 1, c])
            l, c = min(l, h - 1), min(c, w - 1)
            ops.append(dict(op='at', on='s', l=l, c=c, t=fit(text(r, r.choice([1, 1, 2, 4])), w)))
        if r.random() < 0.5:
            # a single change and a cursor (or another change) whose numbers differ from where that leaves the cursor by 256
            ops.append(dict(op='refresh', on='s'))
            l, c = r.randrange(h), r.randrange(w)
            if h > 256 and c < w - 1: l %= h - 256; l2, c2 = l + 256, c + 1
            elif w > 256: c = 255 + r.randrange(w - 256); l2, c2 = l, c + 1 - 256
            else: l2, c2 = l, c
            if h > 256 and r.random() < 0.5 and c < w - 1: l, c, l2, c2 = l2, c2 - 1, l, c + 1
            ops += [dict(op='at', on='s', l=l, c=c, t=[[r.choice(NARROW), 1]]), dict(op=r.choice(['setcur', 'setcur', 'at']), on='s', l=l2, c=c2, t=[[98, 1]])]
        elif r.random() < 0.5: ops.append(dict(op='setcur', on='s', l=r.choice([0, h - 1, r.randrange(h)]), c=r.choice([0, w - 1, r.randrange(w)])))
        ops += [dict(op='cursor', on='s'), dict(op='refresh', on='s')]
    return {'ops': ops}

def stacked(r):
    """Cells of many combining marks that change in a few of them."""
    h, w = r.choice([(1, 3), (2, 2), (1, 5), (2, 4)])
    ops = [scn(h, w, r.choice(['xterm', 'linux'])), dict(op='open', via='path'), dict(op='screen')]
    cell = lambda: [r.choice([[97, 1], [98, 1], [0x4e16, 2], [32, 1]])] + [[r.choice(MARK), 0] for _ in range(r.choice([0, 1, 3, 4, 6, 9, 20]))]
    keep = [cell() for _ in range(3)]
    for _ in range(r.randrange(2, 8)):
        l, c = r.randrange(h), r.randrange(w)
        t = [list(x) for x in r.choice(keep)]
        for _ in range(r.choice([0, 1, 1, 2])):
            k = r.randrange(len(t))
            if k: t[k] = [r.choice(MARK), 0]
        if r.random() < 0.3: t = t[:r.randrange(1, len(t) + 1)]
        ops.append(dict(op='at', on='s', l=l, c=c, t=t))
        if r.random() < 0.2: ops.append(dict(op='str', on='s', t=[[r.choice(MARK), 0] for _ in range(r.randrange(1, 9))]))
        if r.random() < 0.6: ops.append(dict(op='refresh', on='s'))
    ops += [dict(op='cursor', on='s'), dict(op='refresh', on='s')]
    return {'ops': ops}

def huge(r):
    """A cell of more text than the terminal's buffer holds; the device fails within it."""
    h, w = r.choice([(1, 3), (2, 2)])
    ops = [scn(h, w, r.choice(['xterm', 'linux'])), dict(op='open', via='path'), dict(op='screen')]
    if r.random() < 0.5: ops += [dict(op='str', on='s', t=text(r, 2)), dict(op='refresh', on='s')]
    l, c = r.choice([(0, 0), (0, 0), (h - 1, 0), (0, w - 1)])
    ops.append(dict(op='at', on='s', l=l, c=c, t=[[97, 1]] + [[0x20d7, 0]] * 2800))
    if r.random() < 0.5: ops.append(dict(op='setcur', on='s', l=0, c=r.randrange(w)))
    p = [r.choice([1, 100, 3001, 8192, 8300]) for _ in range(r.choice([0, 1, 1, 2]))]
    ops += [dict(op='wplan', p=p + [r.choice([-5, -11, 0])] * r.choice([1, 2])), dict(op='refresh', on='s'), dict(op='wplan', p=[]), dict(op='cursor', on='s'), dict(op='refresh', on='s')]
    return {'ops': ops}

PLANS = lambda r: r.choice([[-5] * 2, [r.randrange(1, 9000), -5, -5], [-4, 3000, -4, 5000, 700, -11], [100] * r.randrange(1, 150), [8192, -5, 100, -5], [r.choice([-5, -11, 0])] * r.randrange(1, 3),
                            [r.randrange(1, 9000)] + [r.choice([0, -11, -5])] * r.randrange(1, 3), [r.randrange(1, 9000), r.choice([0, -11])]])

def heavy(r):
    """More output than the terminal's buffer holds, nearly all of it text: the buffer is delivered between two cells."""
    h, w = r.choice([(14, 20), (10, 24)])
    ops = [scn(h, w, r.choice(['xterm', 'linux', 'vt100'])), dict(op='open', via='path'), dict(op='screen')]
    m = r.choice([12, 20])
    for _ in range(r.randrange(1, 4)):
        for l in range(h):
            if r.random() < 0.9: ops.append(dict(op='at', on='s', l=l, c=0, t=[x for _ in range(w) for x in [[r.choice(NARROW), 1]] + [[0x20d7, 0]] * m]))
        if r.random() < 0.9: ops.append(dict(op='wplan', p=PLANS(r)))
        if r.random() < 0.3: ops.append(dict(op='slockw'))
        ops.append(dict(op='sunlockw') if ops[-1]['op'] == 'slockw' else dict(op='refresh', on='s'))
        if r.random() < 0.5: ops += [dict(op='wplan', p=[]), dict(op='refresh', on='s')]
        if r.random() < 0.5: break
    ops += [dict(op='cursor', on='s'), dict(op='wplan', p=[]), dict(op='refresh', on='s')]
    return {'ops': ops}

def big(r):
    """More output than the terminal's buffer holds; some refreshes fail in the middle."""
    h, w = r.choice([(14, 40), (20, 50)])
    ops = [scn(h, w, r.choice(['xterm', 'xterm-256color', 'linux', 'vt100', 'xterm-color', 'rxvt-unicode'])), dict(op='open', via='path'), dict(op='screen')]
    for round in range(r.randrange(1, 4)):
        for k in range(r.randrange(2, 6)):
            for l in range(h):
                if r.random() < 0.6: continue
                ops.append(dict(op='styledat', on='s', l=l, c=r.randrange(w // 2), f=r.randrange(9), b=r.randrange(9), s=r.randrange(16), t=fit(text(r, r.randrange(3, w)), w)))
        # every cell gets its own attributes
        c0 = r.randrange(9)
        for l in range(h):
            if round == 0 or r.random() < 0.3:
                for c in range(0, w, r.choice([1, 1, 2, 3])):
                    ops.append(dict(op='styledat', on='s', l=l, c=c, f=(c + c0) % 9, b=(l + c) % 9, s=(c * 5 + l) % 16, t=[[r.choice(NARROW), 1]]))
        if r.random() < 0.8:
            ops.append(dict(op='wplan', p=PLANS(r)))
            ops.append(dict(op='refresh', on='s'))
        if r.random() < 0.5: ops.append(dict(op='str', on='s', t=text(r, 20)))
        if r.random() < 0.5: ops += [dict(op='wplan', p=[]), dict(op='refresh', on='s')]
    ops += [dict(op='cursor', on='s'), dict(op='wplan', p=[]), dict(op='refresh', on='s')]
    return {'ops': ops}
