"""Scenarios for reading (C07, C08, C09, C12, C13)."""
import itertools, subprocess, sys, functools
TERMS = ['xterm', 'xterm', 'xterm-256color', 'linux', 'rxvt', 'screen']
MADEUP = ['vp-keys', 'vp-esc', 'xterm-vp']        # harness/terminfo.src
NOSCREEN = ['linux', 'vp-keys', 'vp-esc', 'ansi', 'pcansi', 'cons25', 'cygwin', 'mach', 'mach-gnu-color', 'sun', 'vt52', 'dumb']
MORE = ['vt100', 'vt220', 'wsvt25', 'Eterm', 'rxvt-unicode', 'rxvt-basic', 'xterm-color', 'xterm-mono', 'xterm-r6', 'xterm-r5', 'xterm-xfree86', 'xterm-vt220', 'tmux', 'screen.xterm-256color', 'ansi', 'pcansi', 'cons25', 'cygwin', 'mach', 'mach-gnu-color', 'hurd', 'sun', 'vt52', 'vt102', 'dumb']
CAPS = [('kcuu1', 'Up', 0), ('kcud1', 'Down', 0), ('kcub1', 'Left', 0), ('kcuf1', 'Right', 0), ('khome', 'Home', 0), ('kend', 'End', 0),
        ('knp', 'PageDown', 0), ('kpp', 'PageUp', 0), ('kdch1', 'Delete', 0), ('kich1', 'Insert', 0)] + [('kf%d' % n, 'F', n) for n in range(1, 13)]

@functools.lru_cache(None)
def keys(term):
    """Key sequences of the terminal description, read with curses."""
    src = "import curses,sys\ncurses.setupterm(sys.argv[1])\nfor c in sys.argv[2:]:\n s=curses.tigetstr(c)\n print(','.join(map(str,s)) if s else '')"
    out = subprocess.run([sys.executable, '-c', src, term] + [c[0] for c in CAPS], stdout=subprocess.PIPE, text=True, check=True).stdout.split('\n')
    return [[[int(x) for x in o.split(',')], n, k] for o, (_, n, k) in zip(out, CAPS) if o]

def scn(term='xterm', h=5, w=7, **kw):
    return dict(op='scn', term=term, h=h, w=w, sysl=True, keys=keys(term), mouse=term == 'xterm' or term.startswith('xterm-'), **kw)

def to(o, t):
    """Add a timeout in ms; None: none; 'max'; or (secs, nanos)."""
    o = dict(o)
    if t is None: o.update(to=-1, inf=1, tlo=0, thi=0)
    elif t == 'max': o.update(to='max', inf=2, tlo=2000000000, thi=2000000000)
    elif isinstance(t, tuple):
        cap = lambda x: min(x, 2000000000)
        o.update(to='%d.%d' % t, inf=2 if t[0] > 2000000 else 0, tlo=cap(t[0] * 1000 + t[1] // 1000000), thi=cap(t[0] * 1000 + (t[1] + 999999) // 1000000))
    else: o.update(to=t, inf=0, tlo=t, thi=t)
    return o

def utf(r):
    return list(chr(r.choice([0x41, 0x7a, 0x20, 0x7e, 0x7f, 0xa0, 0xe9, 0x7ff, 0x800, 0xfff, 0x1000, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x301])).encode())

def badbytes(r):
    return r.choice([[0x80], [0xbf], [0xc0, 0x80], [0xc1, 0xbf], [0xc3], [0xc3, 0x28], [0xe0, 0x80, 0x80], [0xe2, 0x82], [0xe2, 0x28, 0xa1],
                     [0xe2, 0x82, 0x28], [0xed, 0xa0, 0x80], [0xf0, 0x80, 0x80, 0x80], [0xf0, 0x9f, 0x98], [0xf0, 0x9f, 0x28, 0x80], [0xf0, 0x9f, 0x98, 0x28],
                     [0xf4, 0x90, 0x80, 0x80], [0xf5, 0x80, 0x80, 0x80], [0xff], [0xfe], [0xff, 0xff], [0xc3, 0xc3, 0xa9], [0xe2, 0xe2, 0x82, 0xac]])

def num(r):
    k = r.random()
    if k < 0.55: return str(r.choice([0, 1, 1, 2, 3, 5, 10, 80, 223, 255]))
    if k < 0.7: return str(r.randrange(0, 200))
    if k < 0.8: return r.choice(['1000000', '1000001', '999999', '2000000', '65536', '4294967295', '4294967294', '4294000000', '2147483648'])
    if k < 0.9: return r.choice(['4294967296', '4294967297', '5000000000', '42949672950', '99999999999999999999', '4295000000', '18446744073709551617'])
    if k < 0.95: return r.choice(['', '00', '01', '007', '0000000000000000000000012'])
    return r.choice(['-1', ' 1', '1x', '+2', '1:2', '\x1b'])

def mouse(r):
    k = r.random()
    b = str(r.choice([0, 1, 2, 3, 4, 8, 16, 28, 20, 32, 33, 34, 35, 36, 63, 64, 65, 66, 67, 68, 72, 80, 92, 93, 96, 97, 128, 129, 130, 160, 192, 255, 256, 320, 1000000, 1000064, 4294967295])) if r.random() < 0.85 else num(r)
    c, l = (num(r), num(r)) if k < 0.5 else (str(r.randrange(1, 300)), str(r.randrange(1, 300)))
    s1, s2 = (';', ';') if r.random() < 0.93 else (r.choice(':;,M m'), r.choice(':;,M m'))
    e = r.choice('MMMm') if r.random() < 0.93 else r.choice('xN;~ ')
    return list(('\x1b[<%s%s%s%s%s%s' % (b, s1, c, s2, l, e)).encode())

def piece(r, term):
    k = r.random()
    K = keys(term) or [[[27, 91, 65]]]
    if k < 0.3: return list(r.choice(K)[0])
    if k < 0.38:
        q = list(r.choice(K)[0]); return q[:r.randrange(1, len(q) + 1)]
    if k < 0.44: return [27]
    if k < 0.5: return [r.randrange(0, 32)]
    if k < 0.62: return [r.randrange(32, 128)]
    if k < 0.75: return utf(r)
    if k < 0.83: return badbytes(r)
    if k < 0.86: return utf(r)[:1]
    if k < 0.88: return [r.randrange(0, 256)]
    return mouse(r)

def split(r, b):
    out = []
    while b:
        n = r.choice([1, 1, 2, 3, 4, 8, len(b), len(b)])
        out.append(b[:n]); b = b[n:]
    return out

SIGS = ['int', 'quit', 'tstp', 'cont', 'winch']
def timeouts(r, extreme):
    k = r.random()
    if extreme and k < 0.2:
        return r.choice(['max', (0, 1), (0, 999999), (0, 999999999), (1, 500000), (9223372036854775, 808000000), (9223372036854775807, 999999999),
                         (18446744073709551615, 0), (9223372036854774, 999000000), (9223372036853, 0), (9223372036854, 775807999), (0, 1500000), (4294967, 296000000), (2147483648, 0), (2147483, 648000000)])
    if k < 0.3: return 0
    if k < 0.85: return r.choice([1, 5, 20, 50, 100, 1000])
    return None

def history(r, n, sigs=0.0, waits=0.3, raws=0.2, extreme=False, mouse_only=False, screen=None, errs=0.0, preps=0.05):
    term = r.choice(TERMS if r.random() < 0.5 else MORE if r.random() < 0.7 else MADEUP) if not mouse_only else r.choice(['xterm', 'xterm-256color', 'xterm', 'linux'])
    scr = (r.random() < 0.25) if screen is None else screen
    if scr and term in NOSCREEN: term = 'xterm'
    ops = [scn(term)]
    via = r.choice(['path', 'path', 'std'])
    if via == 'std': ops.append(dict(op='stdfds', two=r.random() < 0.4))
    ops.append(dict(op='open', via=via))
    pick = lambda: r.sample(SIGS, r.choice([0, 1, 2, 3, 5]))
    on = 's' if scr else 't'
    depth = 0
    def prep(): return dict(op='screen' if scr else 'prep', on=on, bs=r.random() < 0.5, cf=r.random() < 0.3, kp=r.random() < 0.4, ms=r.random() < 0.4, mo=r.random() < 0.3, rs=pick())
    if sigs or scr: ops.append(prep()); depth = 1
    guard = False
    pc = lambda: mouse(r) if mouse_only and r.random() < 0.8 else piece(r, term)
    def data(): return [x for _ in range(r.choice([1, 1, 2, 3])) for x in pc()]
    while len(ops) < n:
        k = r.random()
        if k < 0.04:
            g = 'slock' if scr else 'lock'
            ops.append(dict(op=('sunlockr' if scr else 'unlockr') if guard else ('slockr' if scr else 'lockr')))
            guard = not guard; on = {(0, 0): 't', (0, 1): 'r', (1, 0): 's', (1, 1): 'q'}[(int(scr), int(guard))]
        elif k < 0.25: ops.append(dict(op='in', bytes=data()))
        elif k < 0.25 + sigs * 0.35:
            ops.append(dict(op='sig', s=r.choice(SIGS)) if r.random() < 0.75 or scr and r.random() < 0.5 else dict(op='winsz', l=r.randrange(1, 9), c=r.randrange(1, 9), sig=True))
        elif k < 0.25 + sigs * 0.35 + max(sigs, 0.7) * preps and not scr:
            if depth > 0 and r.random() < 0.5: ops.append(dict(op='rest', on=on)); depth -= 1
            elif depth < 3: ops.append(dict(prep(), op='prep', on=on)); depth += 1
        elif k < 0.25 + sigs * 0.35 + max(sigs, 0.7) * preps + 0.12:
            ops.append(dict(op='rplan', p=[r.choice([1, 1, 2, 3, 5, 9, -4] + ([r.choice(SIGS)] if sigs and depth else []) + ([-5, 0, -11] if errs and r.random() < errs else [])) for _ in range(r.randrange(1, 6))]))
        else:
            p = []
            for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                q = r.random()
                ms = r.choice([0, 1, 3, 5, 20, 49, 50, 51, 99, 100, 101, 1000])
                if q < 0.6: p += [dict(k='in', ms=ms if j == 0 else r.choice([0, 1, 7]), bytes=b) for j, b in enumerate(split(r, data()))]
                elif q < 0.75: p += [dict(k='int', ms=ms) for _ in range(r.choice([1, 2, 5]))]
                elif sigs and depth and q < 0.93: p.append(dict(k='sig', ms=ms, s=r.choice(SIGS)))
                elif sigs and depth: p.append(dict(k='race', s=r.choice(SIGS)))
                elif errs and r.random() < errs: p.append(dict(k='err', e=5))
            ops.append(dict(op='splan', p=p))
            if sigs and depth and r.random() < 0.3: ops.append(dict(op='szplan', p=[dict(l=r.randrange(1, 9), c=r.randrange(1, 9)) for _ in range(r.choice([0, 1, 2, 3]))]))
            if sigs and depth and r.random() < 0.12: ops.append(dict(op='aplan', p=[dict(skip=r.choice([0, 0, 1, 1, 2, 3, 5, 9]), s=r.choice(SIGS)) for _ in range(r.choice([1, 1, 2, 3]))]))
            k = r.random()
            t = timeouts(r, extreme)
            if k < waits: ops.append(to(dict(op='wait', on=on), t))
            elif k < waits + raws: ops.append(to(dict(op='raw', on=on, cnt=r.choice([0, 1, 1, 2, 3, 4, 8, 64, 300])), t))
            else: ops.append(to(dict(op='ev', on=on), t))
            if scr and r.random() < 0.2: ops.append(dict(op='size', on='s'))
    # whatever is left is read to the end
    ops += [dict(op='rplan', p=[]), dict(op='splan', p=[])] + ([dict(op='aplan', p=[]), dict(op='szplan', p=[])] if sigs else [])
    ops += [to(dict(op='ev', on=on), 0) for _ in range(r.choice([3, 10, 20]))]
    return {'ops': ops}

def from_tlc(r, t, family):
    """A script from a behaviour of Input.tla."""
    ops = []
    raw = family != 'bytes'
    on = 't'
    pre = [dict(op='lockr')] if r.random() < 0.2 else []
    if pre: on = 'r'
    bare = dict(bs=False, cf=False, kp=False, ms=False, mo=False)
    for o in t:
        if o['op'] == 'splan':
            ops.append(dict(op='splan', p=[{('bytes' if k == 'b' else k): v for k, v in x.items()} for x in o['p']]))
        elif o['op'] in ('ev', 'wait', 'raw'):
            x = to(dict(o, on=on), None if o['to'] < 0 else o['to'])
            ops.append(x)
        elif o['op'] == 'prep': ops.append(dict(o, on=on, **bare))
        elif o['op'] == 'rest': ops.append(dict(o, on=on))
        else: ops.append(o)
    ops.append(dict(op='splan', p=[]))
    if any(o['op'] == 'aplan' for o in ops): ops.append(dict(op='aplan', p=[]))
    ops += [to(dict(op='ev', on=on), 0) for _ in range(4)]
    term = r.choice(['linux', 'linux', 'xterm', 'rxvt'])
    return {'ops': [scn(term), dict(op='open', via='path')] + pre + ops}

def reads(on, n): return [to(dict(op='ev', on=on), 0) for _ in range(n)]

def all_keys():
    """Every key of every terminal type: whole, followed by another, cut at every place."""
    out = []
    for term in sorted(set(TERMS + MORE + MADEUP + ['tmux-256color', 'screen-256color', 'rxvt-unicode-256color'])):
        for seq, _, _ in keys(term):
            ops = [scn(term), dict(op='open', via='path')]
            for b in [seq, seq + [97], seq + seq, [195, 169] + seq, seq[:-1], seq[:-1] + [0x7e], seq[:-1] + [195, 169]]:
                ops += [dict(op='in', bytes=b)] + reads('t', len(b) + 1)
            for k in range(1, len(seq)):   # split over two device reads, with and without a read in between
                ops += [dict(op='in', bytes=seq), dict(op='rplan', p=[k])] + reads('t', len(seq) + 1)
                ops += [dict(op='in', bytes=seq[:k]), dict(op='splan', p=[dict(k='in', ms=1, bytes=seq[k:])]), to(dict(op='wait', on='t'), 5)] + reads('t', len(seq) + 1)
            out.append({'ops': ops})
    return out

def all_utf8(r):
    """Characters at the limits of every class, malformed sequences of every kind, at every split."""
    out = []
    B = [list(chr(c).encode()) for c in [0, 1, 8, 9, 10, 13, 26, 27, 28, 31, 32, 0x40, 0x5f, 0x60, 0x7e, 0x7f, 0x80, 0x9b, 0xa0, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]]
    B += [[a, b] for a in [0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff] for b in [0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc3, 0xff]]
    B += [[a, b, c] for a in [0xe0, 0xed, 0xef, 0xf0, 0xf4] for b in [0x80, 0x90, 0x9f, 0xa0, 0xbf] for c in [0x41, 0x80, 0xbf, 0xc3]]
    B += [[a, b, 0x80, d] for a in [0xf0, 0xf1, 0xf4] for b in [0x80, 0x8f, 0x90, 0xbf] for d in [0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xff]]
    for k in range(0, len(B), 6):
        ops = [scn('linux'), dict(op='open', via='path')]
        for b in B[k:k + 6]:
            ops += [dict(op='in', bytes=b + [97])] + reads('t', len(b) + 2)
            for j in range(1, len(b) + 1):
                ops += [dict(op='in', bytes=b + [97]), dict(op='rplan', p=[j] + [1] * len(b))] + reads('t', len(b) + 2)
        out.append({'ops': ops})
    return out

def report(b, c, l, e='M', s1=';', s2=';'): return list(('\x1b[<%s%s%s%s%s%s' % (b, s1, c, s2, l, e)).encode())

def mouse_families(r, n, tails):
    P = [[27, 91, 60] + t for t in tails]
    for b in list(range(256)) + [256, 257, 511, 512, 1024, 65535, 65536, 0x80000000, 0xffffffff, 0x100000000, 0x100000001]:
        for e in 'Mm': P.append(report(b, r.choice([1, 2, 80, 300]), r.choice([1, 2, 24, 300]), e))
    N = ['0', '1', '2', '9', '10', '11', '99', '100', '222', '223', '224', '255', '256', '999', '1000', '65535', '65536', '999999', '1000000', '1000001', '2147483647', '2147483648', '4294967294', '4294967295',
         '4294967296', '4294967297', '5000000000', '9999999999', '42949672950', '42949672960', '18446744073709551615', '18446744073709551616', '18446744073709551617', '99999999999999999999999', '00', '01', '0000000000000001', '']
    for a in N:
        P += [report(a, 3, 4), report(0, a, 4), report(2, 3, a, 'm'), report(35, a, a)]
    for e in [chr(x) for x in range(32, 127)]: P.append(report(0, 5, 6, e))
    for s in ':,; M\x1b-+/0':
        P += [report(0, 5, 6, 'M', s, ';'), report(0, 5, 6, 'm', ';', s)]
    P += [report('-1', 2, 3), report(0, '-2', 3), report(0, 2, '+3'), report(' 1', 2, 3), report('1 ', 2, 3), list(b'\x1b[<'), list(b'\x1b[<M'), list(b'\x1b[<;;M'), list(b'\x1b[<1;2M'), list(b'\x1b[<1;2;3;4M'), list(b'\x1b[<1;2;\xc3\xa9M'), list(b'\x1b[<1;\xff;3M'),
          list(b'\x1b[M !!'), list(b'\x1b[1;2;3M'), list(b'\x1b<1;2;3M')]
    full = report(4, 12, 34)
    P += [full[:k] for k in range(1, len(full))] + [full + full, full + [97], [97] + full, full[:-1] + full, [195, 169] + full, full + [195]]
    r.shuffle(P)
    for _ in range(n): P.append(mouse(r))
    out = []
    for k in range(0, len(P), 5):
        term = r.choice(['xterm', 'xterm-256color', 'xterm', 'xterm', 'linux'])
        ops = [scn(term), dict(op='open', via='path')]
        for b in P[k:k + 5]:
            if r.random() < 0.15: ops.append(dict(op='rplan', p=[r.randrange(1, len(b) + 1)]))
            ops += [dict(op='in', bytes=b)] + reads('t', 2 if r.random() < 0.5 else len(b) + 1)
            if r.random() < 0.3: ops.append(to(dict(op='raw', on='t', cnt=300), 0))
        ops += reads('t', 40)
        out.append({'ops': ops})
    return out

def elsewhere():
    """Signals handled on another thread of the process than the one that waits. Those that have to end the wait
    do not (known finding); the others must not."""
    out = []
    for on, op, sig, t in itertools.product('trsq', ['ev', 'wait', 'raw'], SIGS, [None, 100]):
        for rep in (True, False):
            ops = [scn('xterm'), dict(op='open', via='path')]
            rs = [x for x in SIGS if (x == sig) == rep]
            ops.append(dict(op='prep' if on in 'tr' else 'screen', on='t', bs=False, cf=False, kp=False, ms=False, mo=False, rs=rs))
            if on in 'rq': ops.append(dict(op='lockr' if on == 'r' else 'slockr'))
            x = to(dict(op=op, on=on), t)
            if op == 'raw': x['cnt'] = 4
            s = {'ops': ops + [dict(op='splan', p=[dict(k='sigx', ms=10, s=sig)]), x]}
            if rep or sig == 'winch': s['kf'] = 'C12-signal-on-another-thread'
            else: s['ops'] += [dict(op='in', bytes=[97])] + reads(on, 3)
            out.append(s)
    return out

def atoms():
    """Signals that arrive between any two steps of the library on its memory of signals."""
    out = []
    for on, op, old, sig in itertools.product('ts', ['ev', 'wait', 'raw'], [None] + SIGS, SIGS):
        ops = [scn('xterm'), dict(op='open', via='path'),
               dict(op='prep' if on == 't' else 'screen', on='t', bs=False, cf=False, kp=False, ms=False, mo=False, rs=SIGS)]
        for skip in range(7):
            if old: ops.append(dict(op='sig', s=old))
            if skip % 2: ops.append(dict(op='in', bytes=[97]))
            x = to(dict(op=op, on=on), 5)
            if op == 'raw': x['cnt'] = 4
            ops += [dict(op='aplan', p=[dict(skip=skip, s=sig)]), x, dict(op='aplan', p=[])] + reads(on, 4)
        out.append({'ops': ops})
    return out

def wrap(ops, term='linux', rs=None, on='t'):
    pre = [dict(op='prep', on='t', bs=False, cf=False, kp=False, ms=False, mo=False, rs=rs)] if rs is not None else []
    return {'ops': [scn(term), dict(op='open', via='path')] + pre + ops}
