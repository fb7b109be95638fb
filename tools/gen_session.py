"""Scenarios for preparing, restoring and dropping (C10, C11, C16)."""
import gen_input as gi, gen_screen as gs
TERMS = ['xterm', 'xterm', 'xterm-256color', 'screen', 'linux', 'rxvt', 'tmux-256color']
MORE = ['vt100', 'vt220', 'wsvt25', 'Eterm', 'rxvt-unicode', 'rxvt-basic', 'xterm-color', 'xterm-mono', 'xterm-r6', 'xterm-xfree86', 'xterm-vt220', 'tmux', 'screen.xterm-256color', 'screen-256color']
NOKP = ['linux', 'Eterm', 'vt220', 'wsvt25']
NOALT = ['linux', 'vt100', 'vt220', 'wsvt25']
SIGS = ['int', 'quit', 'tstp', 'cont', 'winch']
FLAGS = ['icanon', 'echo', 'isig', 'iexten', 'ixon', 'icrnl', 'inlcr', 'igncr', 'opost']
COOKED = dict(icanon=True, echo=True, isig=True, ixon=True, icrnl=True)

def tio(r):
    t = {f: r.random() < 0.5 for f in FLAGS if r.random() < 0.6}
    if r.random() < 0.3: t.update(vmin=r.choice([0, 1, 5]), vtime=r.choice([0, 2]))
    if r.random() < 0.2: t.update(vintr=r.choice([3, 7, 0]))
    return t

def scn(r, term=None, plain=False, h=4, w=6):
    term = term or r.choice(TERMS if r.random() < 0.7 else MORE)
    if r.random() < 0.15: h, w = r.choice([(0, 0), (0, 5), (3, 0), (1, 1), (300, 2)])
    o = dict(op='scn', term=term, h=h, w=w, obs=True, sysl=True, mouse=term == 'xterm' or term.startswith('xterm-'), haskp=term not in NOKP, hasalt=term not in NOALT)
    if not plain:
        o['disp'] = {s: r.choice(['dfl', 'dfl', 'ign', 'user']) for s in SIGS}
        if r.random() < 0.6: o['tio'] = tio(r)
    return o

def cfg(r):
    return dict(bs=r.random() < 0.5, cf=r.random() < 0.5, kp=r.random() < 0.5, ms=r.random() < 0.5, mo=r.random() < 0.5, rs=r.sample(SIGS, r.choice([0, 1, 2, 3, 5])))

BARE = [dict(bs=False, cf=False, kp=False, ms=False, mo=False, rs=[]), dict(bs=True, cf=True, kp=True, ms=True, mo=True, rs=['int', 'cont']),
        dict(bs=False, cf=True, kp=False, ms=True, mo=False, rs=['tstp', 'quit']), dict(bs=True, cf=False, kp=True, ms=False, mo=True, rs=['int', 'winch', 'tstp'])]

def faults(ks, op):
    """Plans for the calls that are to fail: the writes in a row, the attribute changes after them."""
    out = []
    nw = ks.count('w')
    if nw: out.append(dict(op='wplan', p=[-5] * nw))
    for j, k in enumerate(ks):
        if k == 'g': out.append(dict(op='fail', call='g', e=5))
        if k == 's': out.append(dict(op='fail', call='s', e=5, skip=1 if op == 'prep' and 'w' in ks[:j] else 0))
    return out
CLEAR = [dict(op='wplan', p=[]), dict(op='fail', call='none')]

def from_tlc(r, t):
    ops = [scn(r, 'xterm'), dict(op='open', via=r.choice(['path', 'path', 'std']))]
    if ops[1]['via'] == 'std': ops.insert(1, dict(op='stdfds', two=r.random() < 0.4))
    on = 't'
    if r.random() < 0.3: ops.append(dict(op='lockr')); on = 'r'
    ks = []
    for o in t:
        if o['op'] == 'plan': ks.append(o['k']); continue
        if o['op'] in ('prep', 'rest'):
            ops += faults(ks, o['op'])
            w = on == 'r' and r.random() < 0.3
            if w: ops.append(dict(op='lockw'))
            ops.append(dict(BARE[o['k'] - 1], op='prep', on=on) if o['op'] == 'prep' else dict(op='rest', on=on))
            if ks: ops += CLEAR
            if w: ops.append(dict(op='unlockw'))
            ks = []
        elif o['op'] == 'stop': ops += [dict(op='devreset'), dict(op='tioset', tio=COOKED)]
        elif o['op'] == 'ev': ops.append(gi.to(dict(op='ev', on=on), 0))
        else: ops.append(o)
    if on == 'r' and r.random() < 0.5: ops.append(dict(op='unlockr')); on = 't'
    for _ in range(4): ops.append(dict(op='rest', on=on))
    if on == 'r': ops.append(dict(op='unlockr'))
    ops.append(dict(op='dropt'))
    return {'ops': ops}

CALL = ['wplan', 'fail']
def fault(r, hard=True):
    """One or more calls that are going to fail."""
    out = []
    if r.random() < 0.6: out.append(dict(op='wplan', p=[r.choice([1, 3, 9, -4, -5, -11, 0, -5, 10000]) for _ in range(r.randrange(1, 5))]))
    if not out or r.random() < 0.4: out.append(dict(op='fail', call=r.choice(['s', 's', 'g', 'w']), e=r.choice([5, 25, 4]), skip=r.choice([0, 0, 1, 2])))
    return out

def history(r, n, faulty=0.0, stop=0.3, drop=True):
    """A terminal prepared and restored, read and written, stopped and continued."""
    ops = [scn(r)]
    via = 'path' if faulty else r.choice(['path', 'path', 'std', 'err'])
    if via != 'path': ops.append(dict(op='stdfds', err=via == 'err', two=r.random() < 0.4))
    ops.append(dict(op='open', via=via))
    depth, rg, wg = 0, False, False
    while len(ops) < n:
        k = r.random()
        rd = 'r' if rg else 't'
        wr = 'w' if wg else 't'
        if faulty and r.random() < faulty: ops += fault(r)
        if k < 0.06:
            ops.append(dict(op='unlockr' if rg else 'lockr')) if not wg else None
            if not wg: rg = not rg
        elif k < 0.12: ops.append(dict(op='unlockw' if wg else 'lockw')); wg = not wg
        elif k < 0.36 and (rg or not wg): # no prepare on the terminal while holding its write guard
            if depth < 5: ops.append(dict(cfg(r), op='prep', on=rd)); depth += 1
        elif k < 0.54 and (rg or not wg):
            if depth > 0: ops.append(dict(op='rest', on=rd)); depth -= 1
        elif k < 0.6: ops.append(dict(op='str', on=wr, t=[[97, 1], [98, 1]]))
        elif k < 0.64: ops.append(dict(op='curmode', on=wr, m=r.choice(['normal', 'invisible', 'invisible', 'overwrite'])))
        elif k < 0.68: ops.append(dict(op='sig', s=r.choice(SIGS)))
        elif k < 0.68 + stop * 0.2:
            x = r.random()
            if x < 0.4: ops += [dict(op='devreset'), dict(op='tioset', tio=COOKED)]
            elif x < 0.6: ops.append(dict(op='tioset', tio=tio(r)))
            elif x < 0.7: ops.append(dict(op='devreset'))
            elif x < 0.8: ops.append(dict(op='sigh', s=r.choice(SIGS), d=r.choice(['dfl', 'ign', 'user'])))
            if r.random() < 0.8 and not wg:
                x = r.random()
                if x < 0.6 or not depth: ops += [dict(op='sig', s='cont'), gi.to(dict(op='ev', on=rd), r.choice([0, 0, 10]))]
                else: # continued between two steps of a read
                    ops += [dict(op='splan', p=[dict(k='race', s='cont')]) if x < 0.8 else dict(op='aplan', p=[dict(skip=r.randrange(7), s='cont')]),
                            gi.to(dict(op='ev', on=rd) if r.random() < 0.7 else dict(op='raw', on=rd, cnt=8), r.choice([0, 5, 5, 10])), dict(op='aplan', p=[])]
        elif k < 0.8: ops.append(dict(op='in', bytes=[r.choice([97, 98, 27])]))
        elif k < 0.86 and depth > 0:
            ops.append(dict(op='splan', p=[r.choice([dict(k='sig', ms=1, s=r.choice(SIGS)), dict(k='in', ms=2, bytes=[99]), dict(k='race', s=r.choice(SIGS)), dict(k='sig', ms=0, s='cont')]) for _ in range(r.randrange(1, 3))]))
        elif not wg:
            ops.append(gi.to(dict(op='ev', on=rd) if r.random() < 0.7 else dict(op='raw', on=rd, cnt=r.choice([0, 1, 2, 8, 64])), r.choice([0, 0, 5])))
    if faulty and r.random() < 0.7: ops += CLEAR
    if wg: ops.append(dict(op='unlockw'))
    for _ in range(depth if r.random() < 0.8 else 0): ops.append(dict(op='rest', on='r' if rg else 't'))
    if rg: ops.append(dict(op='unlockr'))
    if drop: ops.append(dict(op='dropt'))
    return {'ops': ops}

def panic(r, kinds):
    g = r.choice(kinds)
    o = {'w': [dict(op='str', on='w', t=[[97, 1]]), dict(op='curmode', on='w', m='invisible'), dict(op='fg', on='w', c=2)],
         'g': [dict(op='str', on='g', t=[[97, 1]]), dict(op='curmode', on='g', m='invisible'), dict(op='refresh', on='g')],
         'r': [gi.to(dict(op='ev', on='r'), 0)], 'q': [gi.to(dict(op='ev', on='q'), 0)]}[g]
    return dict(op='panic', g=g, ops=r.sample(o, r.randrange(0, len(o) + 1)))

def relock(r, scr):
    """Guards of locks that may be poisoned still work."""
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        t, w = r.random() < 0.5, r.random() < 0.6
        l = ('s' if scr else '') + ('trylock' if t else 'lock') + ('w' if w else 'r')
        on = ('g' if scr else 'w') if w else ('q' if scr else 'r')
        body = [dict(op='str', on=on, t=[[98, 1]]), dict(op='curmode', on=on, m=r.choice(['invisible', 'normal'])), dict(op='refresh' if scr else 'flush', on=on)] if w else \
               [dict(op='in', bytes=[97]), gi.to(dict(op='ev', on=on), 0), gi.to(dict(op='wait', on=on), 0)][:r.choice([0, 2])]
        out += [dict(op=l)] + r.sample(body, r.randrange(len(body) + 1)) * (1 if w else 0) + ([] if w else body) + [dict(op=('sunlock' if scr else 'unlock') + l[-1])]
    return out

def poisoned(r):
    scr = r.random() < 0.6
    ops = [scn(r), dict(op='open', via='path')] + ([dict(cfg(r), op='screen', via='', on='')] if scr else [])
    for _ in range(r.choice([1, 2, 3])):
        ops += relock(r, scr) if r.random() < 0.3 else []
        ops += [panic(r, 'gq' if scr else 'wr')] + relock(r, scr)
    return {'ops': ops + [dict(op='drops' if scr else 'dropt')]}

def screen(r, fail_open=0.0, fail_drop=0.0):
    """A screen: opened (perhaps not), used, perhaps a panic, dropped."""
    via = r.choice(['path', 'path', '', ''] if fail_open or fail_drop else ['path', '', 'std', 'err', 'stdterm', 'errterm'])
    noset = False
    if (fail_open or fail_drop) and r.random() < 0.12: via = 'err'; noset = True
    ops = [dict(scn(r), **({'noset': True} if noset else {}))]
    if via in ('std', 'err', 'stdterm', 'errterm'): ops.append(dict(op='stdfds', err=via[:3] == 'err', two=r.random() < 0.4))
    if via in ('', 'stdterm', 'errterm'):
        ops.append(dict(op='open', via={'': 'path', 'stdterm': 'std', 'errterm': 'err'}[via])); via = ''
        if r.random() < 0.4: ops += [dict(op='str', on='t', t=[[97, 1]]), dict(op='fg', on='t', c=3)]
        if r.random() < 0.4: ops.append(dict(op='curmode', on='t', m='invisible'))
        if r.random() < 0.3:
            ops.append(dict(cfg(r), op='prep', on='t'))
            if r.random() < 0.7: ops.append(dict(op='rest', on='t'))
    if r.random() < fail_open: ops += fault(r)
    ops.append(dict(cfg(r), op='screen', via=via, on=''))
    if r.random() < 0.9: ops += CLEAR
    for _ in range(r.randrange(0, 6)):
        k = r.random()
        if k < 0.3: ops.append(dict(op='str', on='s', t=[[97, 1], [0x4e00, 2]]))
        elif k < 0.5: ops.append(dict(op='refresh', on='s'))
        elif k < 0.65: ops.append(dict(op='curmode', on='s', m=r.choice(['invisible', 'normal'])))
        elif k < 0.7: ops += [dict(op='slockw'), dict(op='str', on='g', t=[[98, 1]]), dict(op='sunlockw')]
        elif k < 0.8: ops += [dict(op='winsz', l=r.randrange(1, 7), c=r.randrange(1, 7), sig=True), gi.to(dict(op='ev', on='s'), 0)]
        elif k < 0.9: ops += [dict(op='devreset'), dict(op='tioset', tio=COOKED), dict(op='sig', s='cont'), gi.to(dict(op='ev', on='s'), 0)]
        else: ops += [dict(op='in', bytes=[97]), gi.to(dict(op='ev', on='s'), 0)]
    if r.random() < 0.4: ops.append(panic(r, 'gq'))
    if r.random() < 0.2: ops.append(panic(r, 'gq'))
    if r.random() < 0.2: ops += relock(r, True)
    if r.random() < fail_drop: ops += fault(r)
    ops.append(dict(op='drops'))
    return {'ops': ops}

def term_drop(r, faulty):
    """A terminal dropped after panics and errors."""
    via = 'path' if faulty else r.choice(['path', 'std', 'err'])
    ops = [scn(r)]
    if via != 'path': ops.append(dict(op='stdfds', err=via == 'err', two=r.random() < 0.4))
    ops.append(dict(op='open', via=via))
    depth = 0
    for _ in range(r.randrange(0, 3)): ops.append(dict(cfg(r), op='prep', on='t')); depth += 1
    if r.random() < 0.7: ops.append(dict(op='curmode', on='t', m='invisible'))
    if r.random() < 0.7:
        for _ in range(r.choice([1, 1, 2])): ops.append(panic(r, 'wr'))
        if depth:
            # the guards of poisoned locks still restore
            ops.append(dict(op='lockr'))
            if r.random() < 0.5 or any(o['op'] == 'panic' and o['g'] == 'w' for o in ops): ops.append(dict(op='lockw'))
            if faulty and r.random() < 0.5: ops += fault(r)
            for _ in range(depth): ops.append(dict(op='rest', on='r'))
            if r.random() < 0.5: ops += CLEAR
            if any(o['op'] == 'lockw' for o in ops): ops.append(dict(op='unlockw'))
            ops.append(dict(op='unlockr'))
    if faulty: ops += fault(r)
    ops.append(dict(op='dropt'))
    return {'ops': ops}

def bad_open(r):
    """Opening fails before anything is prepared."""
    ops = [dict(scn(r), term=r.choice(['no-such-terminal', 'no-such-terminal', 'xterm', 'dumb', 'ansi', 'cygwin']))]
    if ops[0]['term'] != 'xterm': ops[0].update(nodb=True, mouse=False, haskp=False, hasalt=False)
    via = r.choice(['path', 'std', 'err'])
    if via != 'path': ops.append(dict(op='stdfds', err=via == 'err', two=r.random() < 0.4))
    if r.random() < 0.5: ops += [dict(op='open', via=via), dict(op='dropt')]
    else: ops += [dict(cfg(r), op='screen', via=via, on=''), dict(op='drops')]
    return {'ops': ops}
