"""Programs of several threads that share a terminal or screen (C14, C15)."""
import gen_line as gl, gen_screen as gs, gen_mac as gm

KEEP = ('on',)
def sched(r, n, k=300):
    """A list of thread numbers; 0 lets the current thread go on."""
    p = r.choice([0.05, 0.15, 0.3, 0.6, 1.0])
    out = [r.randrange(1, n + 1) if r.random() < p else 0 for _ in range(k)]
    if r.random() < 0.3:   # two preemptions only
        out = [0] * k
        for _ in range(r.randrange(1, 4)): out[r.randrange(60)] = r.randrange(1, n + 1)
    return out

def out_op(r, kind, on, h, w, macs=True):
    if kind == 't':
        k = r.random()
        if macs and k < 0.15:
            m = gm.call(r, w)
            return dict(m, on=on)
        if k < 0.55: return dict(gl.put(r, w), on=on)
        if k < 0.8: return dict(gl.attr(r), on=on)
        o = gl.move(r, h, w)
        return dict(o, on=on)
    k = r.random()
    if macs and k < 0.12: return dict(gm.call(r, w, screen=True), on=on)
    if k < 0.3: return dict(op='refresh', on=on)
    if k < 0.35: return dict(op='curmode', on=on, m=r.choice(['normal', 'invisible']))
    if k < 0.4: return dict(op=r.choice(['size', 'cursor']), on=on)
    return gs.buf_op(r, h, w, on)

def read_op(r, on, wait=False):
    k = r.random()
    to = r.choice([0, 0, 5, 50]) if wait else 0
    if k < 0.5: return dict(op='ev', on=on, to=to)
    if k < 0.7: return dict(op='wait', on=on, to=to)
    return dict(op='raw', on=on, cnt=r.choice([1, 2, 3, 8]), to=to)

def cfg(r):
    return dict(bs=r.random() < 0.5, cf=r.random() < 0.5, kp=r.random() < 0.5, ms=r.random() < 0.5, mo=r.random() < 0.5, rs=[])

def program(r, kind, n, h, w, wait=False, prep=True, tries=True, rd=0.2, rwread=True):
    """Operations of one thread that keep the documented order of the locks."""
    S = '' if kind == 't' else 's'
    T, W, R = ('t', 'w', 'r') if kind == 't' else ('s', 'g', 'q')
    ops, hw, hr, np = [], False, False, 0
    while len(ops) < n:
        k = r.random()
        if k < 0.16 and not hw: ops.append(dict(op=S + (r.choice(['lockw', 'trylockw']) if tries else 'lockw'))); hw = True
        elif k < 0.16: ops.append(dict(op=S + 'unlockw')); hw = False
        elif k < 0.24 and not hr and not hw: ops.append(dict(op=S + (r.choice(['lockr', 'trylockr']) if tries else 'lockr'))); hr = True
        elif k < 0.24 and hr: ops.append(dict(op=S + 'unlockr')); hr = False
        elif k < 0.32 and tries: ops.append(dict(op=S + r.choice(['probew', 'prober'])))
        elif k < 0.32 + rd and (hr or not hw) and (rwread or not hw):
            # a failed try-lock makes the operations on its guard disappear
            ops.append(read_op(r, R if hr else T, wait))
        elif k < 0.37 + rd and prep and kind == 't' and (hr or not hw):
            on = 'r' if hr else 't'
            if np and r.random() < 0.5: ops.append(dict(op='rest', on=on)); np -= 1
            else: ops.append(dict(cfg(r), op='prep', on=on)); np += 1
        elif k < 0.42 + rd and kind == 't' and hw: ops.append(dict(op='flush', on='w'))
        else: ops.append(out_op(r, kind, W if hw else T, h, w))
    if hw: ops.append(dict(op=S + 'unlockw'))
    if hr: ops.append(dict(op=S + 'unlockr'))
    return ops

def end(kind):
    if kind == 't':
        return [dict(op='wplan', p=[]), dict(op='probew'), dict(op='prober'), dict(op='str', on='t', t=[[122, 1]]), dict(op='raw', on='t', cnt=64, to=0)]
    return [dict(op='wplan', p=[]), dict(op='sprobew'), dict(op='sprober'), dict(op='size', on='s'), dict(op='cursor', on='s'), dict(op='refresh', on='s'), dict(op='raw', on='s', cnt=64, to=0)]

def start(kind, h, w, term='xterm'):
    return [gl.scn(h, w, term, lkl=True), dict(op='open', via='path')] + ([dict(op='screen', bs=True)] if kind == 's' else [])

def scenario(r, kind=None, wait=False, nmax=7):
    kind = kind or r.choice(['t', 's'])
    h, w = r.choice([(2, 6), (1, 5), (3, 4)])
    n = r.choice([2, 2, 2, 3])
    th = [program(r, kind, r.randrange(1, nmax if n == 2 else 5), h, w, wait) for _ in range(n)]
    pre = []
    if r.random() < 0.6: pre.append(dict(op='in', bytes=[97 + k for k in range(r.randrange(1, 12))]))
    if r.random() < 0.5: pre.append(dict(op='wplan', p=[r.choice([1, 2, 3, 5, 9, -4]) for _ in range(r.randrange(5, 60))]))
    return {'ops': start(kind, h, w, r.choice(gl.TERMS)) + pre + [dict(op='conc', threads=th, sched=sched(r, n))] + end(kind)}

def parts(r):
    """Calls that do several things at once, among texts and attributes of another thread."""
    kind = r.choice(['t', 's', 's'])
    on = kind
    h, w = r.choice([(2, 6), (1, 5), (3, 4)])
    T = lambda: [[97 + r.randrange(6), 1] for _ in range(r.choice([1, 2]))]
    st = lambda: dict(f=r.choice([0, 2, 5]), b=r.choice([0, 3]), s=r.choice([0, 1, 4, 9]))
    def many():
        o = [dict(op='theme', on=on, **st()), dict(op='styled', on=on, t=T(), **st()), dict(op='clrattr', on=on)]
        if kind == 's': o += [dict(op='styledat', on=on, l=r.randrange(h), c=r.randrange(w), t=T(), **st()), dict(op='at', on=on, l=r.randrange(h), c=r.randrange(w), t=T()), dict(op='theme', on=on, **st())]
        else: o += [dict(op='theme', on=on, **st()), dict(op='fmt2', on=on, t=T())]
        return r.choice(o)
    def one():
        o = [dict(op='str', on=on, t=T()), dict(op='str', on=on, t=T()), dict(op='fg', on=on, c=r.choice([0, 1, 7])), dict(op='set', on=on, s=r.choice([0, 2, 8])), dict(op='bg', on=on, c=r.choice([0, 4]))]
        if kind == 's': o += [dict(op='setcur', on=on, l=r.randrange(h), c=r.randrange(w)), dict(op='clr', on=on), dict(op='nextline', on=on, c=0)]
        return r.choice(o)
    th = [[many() for _ in range(r.randrange(1, 4))], [one() for _ in range(r.randrange(1, 5))]]
    if r.random() < 0.3: th[1].insert(0, many())
    return {'ops': start(kind, h, w) + [dict(op='conc', threads=th, sched=[r.choice([1, 2]) for _ in range(60)] if r.random() < 0.6 else sched(r, 2))] + end(kind)}

# ---- C14: behaviours of the design (Excl.tla) ------------------------------------------------
def from_excl(t, kind):
    th = [t['p'][k] for k in sorted(t['p'])] if isinstance(t['p'], dict) else t['p']
    pre = [dict(op='in', bytes=[120, 121]), dict(op='wplan', p=[1, 99999] * 12)]
    return {'ops': start(kind, 1, 4) + pre + [dict(op='conc', threads=th, sched=t['s'])] + end(kind)}

# ---- C15: what every call does with the locks, in every situation -----------------------------
def survey(r, kind, reps=3):
    """Every call in every situation that the documented order allows."""
    S = '' if kind == 't' else 's'
    T, W, R = ('t', 'w', 'r') if kind == 't' else ('s', 'g', 'q')
    h, w = 2, 6
    out = []
    NEXT = {('none', 'lockw'): 'w', ('none', 'lockr'): 'r', ('r', 'lockw'): 'rw', ('r', 'unlockr'): 'none', ('w', 'unlockw'): 'none',
            ('rw', 'unlockw'): 'r', ('rw', 'unlockr'): 'w'}
    enter = {'none': [], 'r': ['lockr'], 'w': ['lockw'], 'rw': ['lockr', 'lockw']}
    for ctx in enter:
        on = W if 'w' in ctx else T
        calls = []
        if kind == 't':
            for o in ['cr', 'clr', 'el', 'ed', 'bold', 'italic', 'underline', 'reverse', 'clrattr', 'size']: calls.append(dict(op=o, on=on))
            for o in ['up', 'down', 'left', 'right']: calls += [dict(op=o, on=on, cnt=n) for n in (0, 2)]
            calls += [dict(op='curmode', on=on, m=m) for m in ('normal', 'invisible', 'overwrite')]
            calls += [dict(gl.attr(r), on=on) for _ in range(5 * reps)] + [dict(gl.put(r, w), on=on) for _ in range(3 * reps)]
            calls += [dict(op=o, on=on, c=c) for o in ('fg', 'bg') for c in (0, 3)]
            calls += [dict(op='styled', on=on, f=2, b=0, s=1, t=[[97, 1]]), dict(op='theme', on=on, f=1, b=2, s=4)]
            if on == 'w': calls.append(dict(op='flush', on='w'))
            if ctx in ('none', 'r', 'rw'):
                calls += [dict(cfg(r), op='prep', on='t' if ctx == 'none' else 'r') for _ in range(reps)]
                calls += [dict(op='rest', on='t' if ctx == 'none' else 'r')]
        else:
            for o in ['clr', 'bold', 'italic', 'underline', 'reverse', 'clrattr', 'size', 'cursor', 'refresh']: calls.append(dict(op=o, on=on))
            calls += [dict(op='curmode', on=on, m=m) for m in ('normal', 'invisible', 'overwrite')]
            calls += [gs.buf_op(r, h, w, on) for _ in range(10 * reps)] + [dict(op='refresh', on=on)]
        calls += [dict(gm.call(r, w, screen=kind == 's'), on=on) for _ in range(2 * reps)]
        if ctx in ('none', 'r', 'rw'):
            rd = T if ctx == 'none' else R
            calls += [dict(op=o, on=rd, to=to, cnt=4) for o in ('ev', 'wait', 'raw') for to in (0, 5)]
        calls += [dict(op=S + o) for o in (['lockw', 'trylockw'] if 'w' not in ctx else ['unlockw'])]
        calls += [dict(op=S + o) for o in (['lockr', 'trylockr'] if ctx == 'none' else ['unlockr'] if 'r' in ctx else [])]
        calls += [dict(op=S + 'probew'), dict(op=S + 'prober')]
        for call in calls:
            base = call['op'][len(S):] if call['op'].startswith(S) and call['op'][len(S):] in ('lockw', 'lockr', 'trylockw', 'trylockr', 'unlockw', 'unlockr') else call['op']
            nxt = NEXT.get((ctx, base.replace('try', '')), ctx)
            for pend in [[], [dict(op='sig', s='cont')], [dict(op='winsz', l=3, c=7, sig=True)], [dict(op='in', bytes=[97, 98])],
                         [dict(op='sig', s='cont'), dict(op='winsz', l=3, c=7, sig=True)], [dict(op='sig', s='int')]]:
                rs = ['int', 'cont'] if r.random() < 0.5 else ['int']
                setup = [dict(cfg(r), op='prep', on='t', rs=rs)] if kind == 't' else []
                if not pend and call['op'] != 'rest' and r.random() < 0.5: setup = []
                ops = [gl.scn(h, w, 'xterm', lkl=True, disp={'int': 'ign'}), dict(op='open', via='path')]
                if kind == 's': ops.append(dict(cfg(r), op='screen', rs=rs))
                ops += setup + [dict(op=S + o) for o in enter[ctx]] + pend + [dict(call, sv=True, ctx=ctx, next=nxt, setup=setup + pend)]
                fin = {'none': [], 'r': ['unlockr'], 'w': ['unlockw'], 'rw': ['unlockw', 'unlockr']}[nxt]
                ops += [dict(op=S + o) for o in fin] + [dict(op=S + 'probew', ctx='none'), dict(op=S + 'prober', ctx='none')]
                sc = {'ops': ops}
                reads = call['op'] in ('ev', 'raw') and ctx == 'rw'
                if reads and any(p.get('s') == 'cont' for p in pend): sc['kf'] = 'C15-cont-read-with-both-guards'
                elif reads and kind == 's' and any(p['op'] == 'winsz' for p in pend): sc['kf'] = 'C15-resize-read-with-both-guards'
                out.append(sc)
    return out

def calls_of(events):
    """The distinct ways in which calls use the locks: [id, ctx, next, seq], and an example of each."""
    seen, ex = {}, {}
    for e in events:
        if not e.get('sv') or e.get('r') != 'ok': continue
        if e['ret'].get('v') == 'busy': nxt = e['ctx']
        else: nxt = e['next']
        q = tuple((x['k'], x['lk']) for x in e['lk'] if x['k'] != 'want')
        key = (e['ctx'], nxt, q)
        if key not in seen:
            seen[key] = len(seen) + 1
            op = {k: v for k, v in e.items() if k not in ('n', 'r', 'e', 'ret', 'dev', 'pend', 'rd', 'clk', 'clkf', 'sys', 'lk', 'obs', 'sv', 'ctx', 'next', 'setup')}
            ex[seen[key]] = (op, e['setup'])
    return [dict(id=i, ctx=c, next=n, seq=[dict(k=a, lk=b) for a, b in q]) for (c, n, q), i in seen.items()], ex

def knot(r, kind, hist, ex, k):
    """Scenarios that try to bring about a deadlock found by the model."""
    n = max(t for t, _ in hist)
    th = [[ex[i][0] for t, i in hist if t == u and i] for u in range(1, n + 1)]
    pre = []
    for t, i in hist:
        if i:
            for o in ex[i][1]:
                if o not in pre and (o['op'] != 'prep' or not any(x['op'] == 'prep' for x in pre)): pre.append(o)
    S = '' if kind == 't' else 's'
    out = []
    for j in range(k):
        sc = [x for t, i in hist for x in ([t] if i else [t, t])] if j == 0 else sched(r, n, 60)
        out.append({'ops': start(kind, 2, 6) + pre + [dict(op='conc', threads=th, sched=sc)]})
    return out

def waiting(r):
    """Readers that wait for input while others go on; signals may be pending."""
    kind = r.choice(['t', 's'])
    h, w = r.choice([(2, 6), (1, 5)])
    n = r.choice([2, 2, 3])
    sig = r.random() < 0.5
    th = [program(r, kind, r.randrange(1, 7 if n == 2 else 5), h, w, True, rd=0.35, rwread=not sig) for _ in range(n)]
    pre = [dict(cfg(r), op='prep', on='t')] if kind == 't' and r.random() < 0.7 else []
    if r.random() < 0.4: pre.append(dict(op='in', bytes=[97 + k for k in range(r.randrange(1, 5))]))
    if r.random() < 0.4: pre.append(dict(op='splan', p=[dict(k='in', ms=r.choice([0, 3, 10]), bytes=[98]) for _ in range(r.randrange(1, 4))]))
    if sig:
        if r.random() < 0.7: pre.append(dict(op='sig', s='cont'))
        if r.random() < 0.7: pre.append(dict(op='winsz', l=r.choice([1, 3]), c=r.choice([4, 8]), sig=True))
    S = '' if kind == 't' else 's'
    return {'ops': start(kind, h, w) + pre + [dict(op='conc', threads=th, sched=sched(r, n)), dict(op=S + 'probew', ctx='none'), dict(op=S + 'prober', ctx='none')]}
