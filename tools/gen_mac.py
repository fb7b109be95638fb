#!/usr/bin/env python3
"""Output macros (C20). Run as a program: writes harness/src/macops.rs, the macro invocations that the
harness can execute (a fixed list of templates; values are given at run time)."""
import json, os, random
import gen_line as gl, gen_screen as gs
COL = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white']
STY = {'bold': 1, 'italic': 2, 'underline': 4, 'reverse': 8}
LIT = [('"ab"', 'ab'), ('"c"', 'c'), ('"\\n"', '\n'), ('"{}"', '{}'), ('"\\u{e9}\\u{4e16}"', '\u00e9\u4e16'), ('"x\\r\\ty"', 'x\r\ty'), ('""', ''), ('"{{"', '{{'), ('"%d\\\\"', '%d\\')]
# element kinds; '@' is replaced by the number of the element
SINGLE = [('[%s]' % c, ('fg', i + 1)) for i, c in enumerate(COL)] + [('[#%s]' % c, ('bg', i + 1)) for i, c in enumerate(COL)] \
    + [('[%s]' % s, ('add', n)) for s, n in STY.items()] + [('[!%s]' % s, ('rem', n)) for s, n in STY.items()] \
    + [('[reset]', ('clrattr',)), ('[!fg]', ('fg', 0)), ('[!bg]', ('bg', 0)), ('[!style]', ('set', 0)),
       ('[fg=mc(v,@)]', ('vfg',)), ('[fg=mcc(v,@)]', ('vfgc',)), ('[bg=mc(v,@)]', ('vbg',)), ('[bg=mcc(v,@)]', ('vbgc',)),
       ('[style=ms(v,@)]', ('vset',)), ('[style=mos(v,@)]', ('vset',)), ('[style+=ms(v,@)]', ('vadd',)), ('[style-=ms(v,@)]', ('vrem',)),
       ('[theme=mt(v,@)]', ('vtheme',)), ('(: mx(v,@))', ('vtext', '', '')), ('(? mx(v,@))', ('vtext', '?', '')), ('("{}", mx(v,@))', ('vtext', '', '')),
       ('("<{}|{:?}>", mx(v,@), 7)', ('vtext', '<', '|7>')), ('("{a:>3}{b}", b=mx(v,@), a=5)', ('vtext', '  5', '')), ('("no args")', ('text', 'no args')),
       ('("{{}}")', ('text', '{}'))] + [(a, ('text', b)) for a, b in LIT]

def templates():
    r = random.Random(20)
    T = [[], ] + [[k] for k in range(len(SINGLE))]
    put = [k for k, s in enumerate(SINGLE) if s[1][0] in ('text', 'vtext')]
    att = [k for k in range(len(SINGLE)) if k not in put]
    for n in [2] * 16 + [3] * 10 + [5] * 10 + [8] * 8 + [14] * 3:
        t = []
        for j in range(n): t.append(r.choice(put if j % 2 else att) if r.random() < 0.8 else r.randrange(len(SINGLE)))
        T.append(t)
    # a large text between others, for errors of the device
    x = next(k for k, s in enumerate(SINGLE) if s[0] == '(: mx(v,@))')
    f = next(k for k, s in enumerate(SINGLE) if s[0] == '[fg=mc(v,@)]')
    s = next(k for k, s in enumerate(SINGLE) if s[0] == '[style+=ms(v,@)]')
    for t in ([x, f, x, s, x], [f, x, f, x], [x, x, x], [s, x, ], [f, x, x, f, x, s, x]): T.append(t)
    return [(t, ln) for t in T for ln in (False, True)][1:]
TS = templates()
BIGS = [k for k in range(len(TS) - 10, len(TS))]

def source():
    out = ['// Generated by tools/gen_mac.py: invocations of the output macros.', '']
    def arms(wrap):
        a = []
        for i, (t, ln) in enumerate(TS):
            els = ' '.join(SINGLE[k][0].replace('@', str(j)) for j, k in enumerate(t))
            call = ('term_writeln!(x)' if not els else 'term_writeln!(x, %s)' % els) if ln else 'term_write!(x, %s)' % els
            a.append('        %d => %s(%s),' % (i, wrap, call))
        return a
    for name, ty, wrap in [('mac_t', '&Terminal', 'io'), ('mac_w', '&mut TerminalWriteGuard', 'io'), ('mac_s', '&Screen', 'no'), ('mac_g', '&mut ScreenWriteGuard', 'no')]:
        out += ['fn %s(x: %s, v: &Value) -> (bool, i32) {' % (name, ty),
                '    fn io(r: io::Result<()>) -> (bool, i32) { match r { Ok(()) => (true, 0), Err(e) => (false, e.raw_os_error().unwrap_or(-1)) } }' if wrap == 'io' else '    fn no(_: ()) -> (bool, i32) { (true, 0) }',
                '    match i(v, "id") {'] + arms(wrap) + ['        k => panic!("macro {}", k)', '    }', '}', '']
    return '\n'.join(out)

KIND = lambda c: 3 if c == 9 else 4 if c == 13 else 5 if c == 10 else 2 if c >= 0x1100 else 1
def txt(s): return [[ord(c), KIND(ord(c))] for c in s]

def call(r, w, i=None, big=False, screen=False):
    """An invocation with values, and the calls it stands for."""
    i = r.randrange(len(TS)) if i is None else i
    t, ln = TS[i]
    a, els, evs = [], [], []
    C = lambda: r.choice([0, 1, 2, 5, 8]); S = lambda: r.choice([0, 1, 2, 4, 8, 3, 9, 15])
    for j, k in enumerate(t):
        e = SINGLE[k][1]
        val = 0
        if e[0] == 'text': els.append(dict(op='str', t=txt(e[1])))
        elif e[0] in ('fg', 'bg'): els.append(dict(op=e[0], c=e[1]))
        elif e[0] in ('add', 'rem', 'set'): els.append(dict(op=e[0], s=e[1]))
        elif e[0] == 'clrattr': els.append(dict(op='clrattr'))
        else:
            evs.append(j)
            if e[0] in ('vfg', 'vbg'): val = C(); els.append(dict(op=e[0][1:3], c=val))
            elif e[0] in ('vfgc', 'vbgc'): val = r.choice([1, 3, 8]); els.append(dict(op=e[0][1:3], c=val))
            elif e[0] in ('vset', 'vadd', 'vrem'): val = S(); els.append(dict(op=e[0][1:], s=val))
            elif e[0] == 'vtheme': val = [C(), C(), S()]; els.append(dict(op='theme', f=val[0], b=val[1], s=val[2]))
            else:
                x = gl.texts(r, w, r.choice([0, 1, 2, 3])) if not big else [[120, 1]]
                val = [c[0] for c in x]
                els.append(dict(op='str', t=txt(e[1]) + x + txt(e[2])))
        a.append(val)
    if ln: els.append(dict(op='str', t=[[10, 5]]))
    return dict(op='mac', id=i, a=a, els=els, evs=evs, cut=-1)

def line_history(r, n): return gl.history(r, n, attrs=0.3, moves=0.2, macs=(0.6, lambda r: call(r, 3)))

def screen_history(r, n):
    h, w = r.choice([(2, 3), (1, 5), (3, 4), (4, 9), (3, 20)])
    ops, guard = [], False
    while len(ops) < n:
        on = 'g' if guard else 's'
        k = r.random()
        if k < 0.08: ops.append(dict(op='sunlockw') if guard else dict(op='slockw')); guard = not guard
        elif k < 0.6: ops.append(dict(call(r, w), on=on))
        elif k < 0.68: ops.append(dict(op='refresh', on=on))
        elif k < 0.76: ops.append(dict(op='cursor', on=on))
        else: ops.append(gs.buf_op(r, h, w, on))
    if guard: ops.append(dict(op='sunlockw'))
    return gs.wrap(ops + [dict(op='cursor', on='s'), dict(op='refresh', on='s')], h, w, r.choice(['xterm', 'linux', 'screen']))

def each(screen):
    """Every template, through the object and through its guard."""
    r = random.Random(3)
    out = []
    for i in range(len(TS)):
        for on in 'sg' if screen else 'tw':
            c = [dict(call(r, 9, i), on=on) for _ in range(3)]
            ops = [dict(op='str', on=on, t=[[113, 1]]), c[0], dict(op='set', s=5, on=on), c[1], dict(op='str', on=on, t=[[113, 1]]), c[2], dict(op='str', on=on, t=[[113, 1]])]
            if on in 'gw': ops = [dict(op='slockw' if screen else 'lockw')] + ops + [dict(op='sunlockw' if screen else 'unlockw')]
            if screen: out.append(gs.wrap(ops + [dict(op='cursor', on='s'), dict(op='refresh', on='s')], 4, 9))
            else: out.append({'ops': [gl.scn(4, 9), dict(op='open', via='path')] + ops + [dict(op='dropt')]})
    return out

def errors(r):
    """The device fails during one element of the macro: a text larger than any buffer."""
    i = r.choice(BIGS)
    c = call(r, 9, i, big=True)
    texts = [j for j in c['evs'] if isinstance(c['a'][j], list) and c['a'][j] and c['a'][j] == [120]]
    cut = r.choice(texts)
    on = r.choice('tww')
    c.update(on=on, cut=cut, big=70000)
    ops = [gl.scn(4, 9), dict(op='open', via='path')] + ([dict(op='lockw')] if on == 'w' else []) + [dict(op='str', on=on, t=[[113, 1]])] * r.randrange(2)
    return {'ops': ops + [dict(op='wplan', p=[-r.choice([5, 11, 28])] * 6), c]}

if __name__ == '__main__':
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '../harness/src/macops.rs')
    open(p, 'w').write(source())
