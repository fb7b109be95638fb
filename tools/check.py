#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree."""
import sys, os, json, itertools, glob, re, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vk
from vk import Check, THOROUGH
import gen_screen as gs
import gen_line as gl
import gen_out as go
import gen_input as gi, gen_pure as gp, gen_session as gse, gen_mac as gm, gen_conc as gc

CHECKS = {}
def prop(f): CHECKS[f.__name__] = f; return f

def from_tlc_screen(c, n, **consts):
    out = c.model('ScreenImpl', consts=consts, tag='ScreenImpl-%s' % '-'.join(str(v) for v in consts.values()))
    h, w = consts.get('H', 2), consts.get('W', 3)
    tests = c.sample(c.tests(out), n)
    fin = [dict(op='cursor', on='s'), dict(op='wplan', p=[]), dict(op='refresh', on='s')]
    return [gs.wrap(t + fin, h, w) for t in tests]

@prop
def C02(c):
    s = from_tlc_screen(c, 20000 if THOROUGH else 2500, H=2, W=3, Depth=6 if THOROUGH else 5)
    s += from_tlc_screen(c, 20000 if THOROUGH else 1000, H=1, W=4, Depth=6 if THOROUGH else 4)
    for _ in range(20000 if THOROUGH else 1200): s.append(gs.history(c.rnd, c.rnd.randrange(8, 60), faults=True, resizes=c.rnd.random() < 0.3))
    c.conform('ScreenTrace', s)
    c.conform('ScreenTrace', [gs.big(c.rnd) for _ in range(300 if THOROUGH else 24)] + [gs.heavy(c.rnd) for _ in range(300 if THOROUGH else 32)] + [gs.wide(c.rnd) for _ in range(300 if THOROUGH else 40)] +
              [gs.huge(c.rnd) for _ in range(60 if THOROUGH else 10)] + [gs.panics(c.rnd) for _ in range(4000 if THOROUGH else 400)] +
              [gs.stacked(c.rnd) for _ in range(4000 if THOROUGH else 400)], name='big')
    return c.finish(rule='TLC transition coverage of ScreenImpl plus seeded random histories; distinct scripts')

def from_tlc_text(c, n, H, W, Depth, Long):
    out = c.model('ScreenText', consts=dict(H=H, W=W, Depth=Depth, Long=Long), tag='ScreenText-%dx%d-%d' % (H, W, Depth))
    tests = c.sample(c.tests(out), n)
    fin = [dict(op='cursor', on='s'), dict(op='refresh', on='s')]
    r = []
    for t in tests:
        ops = [x for o in t for x in ([dict(o, on='s')] + ([dict(op='cursor', on='s')] if c.rnd.random() < 0.3 else []))]
        r.append(gs.wrap(ops + fin, H, W))
    return r

@prop
def C03(c):
    q = not THOROUGH
    s = []
    for H, W, D, L in ([(2, 3, 3, 'TRUE'), (1, 4, 3, 'TRUE'), (3, 2, 3, 'TRUE'), (2, 1, 4, 'TRUE')] if q else
                       [(2, 3, 4, 'TRUE'), (1, 4, 4, 'TRUE'), (3, 2, 4, 'TRUE'), (2, 1, 6, 'TRUE'), (3, 4, 3, 'TRUE'), (2, 9, 3, 'TRUE'), (1, 1, 6, 'TRUE')]):
        s += from_tlc_text(c, 700 if q else 12000, H, W, D, L)
    for _ in range(1500 if q else 20000):
        s.append(gs.history(c.rnd, c.rnd.randrange(6, 40), refreshes=c.rnd.random() < 0.3))
    s += [gs.stacked(c.rnd) for _ in range(200 if q else 4000)] + [gs.wide(c.rnd) for _ in range(16 if q else 200)]
    c.conform('ScreenTrace', s)
    return c.finish(rule='TLC coverage of all short operation histories of ScreenText plus seeded random histories; distinct scripts')

@prop
def C04(c):
    q = not THOROUGH
    s = []
    for H, W, H2, W2 in [(2, 3, 1, 2), (1, 4, 2, 3)] if q else [(2, 3, 1, 2), (1, 4, 2, 3), (2, 2, 3, 4), (2, 4, 2, 3)]:
        s += from_tlc_screen(c, 1000 if q else 15000, H=H, W=W, H2=H2, W2=W2, Depth=4 if q else 6)
    for _ in range(1500 if q else 20000):
        s.append(gs.history(c.rnd, c.rnd.randrange(8, 50), faults=c.rnd.random() < 0.2, resizes=True))
    s += [gs.changing(c.rnd) for _ in range(6000 if THOROUGH else 400)] + [gs.late(c.rnd) for _ in range(6000 if THOROUGH else 500)]
    c.conform('ScreenTrace', s)
    return c.finish(rule='TLC transition coverage of ScreenImpl with resizes plus seeded random histories; distinct scripts')

def from_tlc_line(c, n, terms=gl.TERMS, **consts):
    out = c.model('Line', consts=consts, tag='Line-%s' % '-'.join(str(v) for v in consts.values()))
    r = []
    for t in c.sample(c.tests(out), n):
        h, w = consts.get('H', 2), consts.get('W', 3)
        term = c.rnd.choice(terms)
        ops = [dict(op='str', t=[[100, 1]])] if c.rnd.random() < 0.3 else []
        for k, o in enumerate(t):
            ops.append(o)
            if k == len(t) - 1 or c.rnd.random() < 0.3: ops.append(dict(op='str', t=[[99, 1]]))
        r.append(gl.wrap(ops, h, w, term, guard=c.rnd.random() < 0.4))
    return r

@prop
def C05(c):
    q = not THOROUGH
    s = []
    s += from_tlc_line(c, 3000 if q else 40000, Attrs='TRUE', Moves='FALSE', Colors='{0, 2, 5}', Depth=3)
    s += from_tlc_line(c, 500 if q else 10000, Attrs='TRUE', Moves='FALSE', Colors='{0, 1}', Supported=61, Depth=3)
    s += from_tlc_line(c, 500 if q else 10000, ['ansi', 'xterm-color', 'vt100', 'xterm-mono', 'cygwin'], Attrs='TRUE', Moves='FALSE', Colors='{0, 5}', Supported=45, UlResets='TRUE', Depth=3)
    for _ in range(1200 if q else 20000): s.append(gl.history(c.rnd, c.rnd.randrange(8, 60), attrs=0.65, moves=0.05))
    c.conform('LineTrace', s)
    return c.finish(rule='TLC transition coverage of the attribute design Line.tla plus seeded random histories; distinct scripts')

@prop
def C06(c):
    q = not THOROUGH
    s = []
    for H, W in [(2, 3), (3, 2), (1, 1)] + ([] if q else [(3, 9), (1, 4)]):
        s += from_tlc_line(c, 1000 if q else 20000, H=H, W=W, Attrs='FALSE', Moves='TRUE', Depth=5 if q else 7)
    for _ in range(1500 if q else 20000): s.append(gl.history(c.rnd, c.rnd.randrange(8, 60), attrs=0.1, moves=0.6))
    c.conform('LineTrace', s)
    return c.finish(rule='TLC transition coverage of the cursor operations of Line.tla plus seeded random histories; distinct scripts')

@prop
def C01(c):
    q = not THOROUGH
    out = c.model('Output', consts=dict(Depth=4 if q else 5, PlanLen=2 if q else 3), tag='Output')
    s = [go.wrap(t) for t in c.sample(c.tests(out), 4000 if q else 40000)]
    for _ in range(1500 if q else 20000): s.append(go.history(c.rnd, c.rnd.randrange(4, 30)))
    c.conform('OutTrace', s)
    s = [gl.history(c.rnd, c.rnd.randrange(10, 50), attrs=0.4, moves=0.3, shorts=0.25, hard=0.1, panics=0.3) for _ in range(600 if q else 8000)]
    s += [gl.bulk(c.rnd, n) for n in ([1800, 2500, 5500, 9000] if q else [1800, 2500, 3500, 5500, 9000, 12000, 12000, 20000] * 4)]
    c.conform('LineTrace', s, name='escapes')
    return c.finish(rule='TLC transition coverage of Output.tla plus seeded random histories; distinct scripts')

def from_tlc_input(c, n, family, **consts):
    out = c.model('Input', consts=dict(Family='"%s"' % family, **consts), tag='Input-%s-%s' % (family, '-'.join(str(v) for v in consts.values())))
    return [gi.from_tlc(c.rnd, t, family) for t in c.sample(c.tests(out), n)]

def hist(c, n, lo=6, hi=40, **kw):
    return [gi.history(c.rnd, c.rnd.randrange(lo, hi), **{k: (v() if callable(v) else v) for k, v in kw.items()}) for _ in range(n)]

INPUT_RULE = 'TLC transition coverage of Input.tla plus seeded random histories; distinct scripts'

@prop
def C07(c):
    q = not THOROUGH
    s = from_tlc_input(c, 5000 if q else 60000, 'bytes', Depth=4 if q else 5)
    s += hist(c, 2000 if q else 30000, sigs=lambda: c.rnd.choice([0, 0, 0.2]), raws=0, waits=0.1, errs=lambda: c.rnd.choice([0, 0.2]))
    s += gi.all_keys() + gi.all_utf8(c.rnd)
    c.conform('InputTrace', s)
    return c.finish(rule=INPUT_RULE + '; every key of 6 terminal types at every split; characters at every boundary of the encoding')

@prop
def C08(c):
    q = not THOROUGH
    out = c.model('Mouse', consts=dict(MaxLen=7 if q else 8), tag='Mouse', workers=vk.CPUS)
    s = gi.mouse_families(c.rnd, 700 if q else 6000, c.sample(c.tests(out), 1500 if q else 20000))
    s += hist(c, 1500 if q else 30000, sigs=0, raws=0.05, waits=0.1, mouse_only=True)
    c.conform('InputTrace', s)
    return c.finish(rule='every button code 0..255 with press and release, numbers around every limit, all terminators and separators, plus seeded random histories; distinct scripts')

@prop
def C09(c):
    q = not THOROUGH
    s = from_tlc_input(c, 3000 if q else 40000, 'raw', Depth=4 if q else 6)
    s += from_tlc_input(c, 1000 if q else 10000, 'raw', Depth=4, Cap=2, PlanLen=1)
    s += hist(c, 2000 if q else 30000, sigs=lambda: c.rnd.choice([0, 0, 0.3]), raws=0.45, waits=0.15, errs=lambda: c.rnd.choice([0, 0.2]))
    c.conform('InputTrace', s)
    return c.finish(rule=INPUT_RULE)

def from_tlc_session(c, n, **consts):
    out = c.model('Session', consts=consts, tag='Session-%s' % '-'.join(str(v) for v in consts.values()))
    return [gse.from_tlc(c.rnd, t) for t in c.sample(c.tests(out), n)]

@prop
def C10(c):
    q = not THOROUGH
    s = from_tlc_session(c, 2500 if q else 30000, Interfere='FALSE', Faulty='TRUE', Depth=5 if q else 7)
    s += [gse.history(c.rnd, c.rnd.randrange(8, 40), faulty=c.rnd.choice([0, 0, 0.1]), stop=c.rnd.choice([0, 0.3])) for _ in range(2000 if q else 30000)]
    c.conform('SessionTrace', s)
    c.conform('InputTrace', hist(c, 1500 if q else 20000, sigs=1.0, waits=0.1, raws=0.1, screen=False, preps=0.25), name='signals')
    return c.finish(rule='TLC transition coverage of Session.tla (every failing step) plus seeded random histories; distinct scripts')

@prop
def C11(c):
    q = not THOROUGH
    s = from_tlc_session(c, 3000 if q else 30000, Interfere='TRUE', Faulty='FALSE', Depth=7 if q else 9)
    s += [gse.history(c.rnd, c.rnd.randrange(8, 40), stop=1.0, faulty=c.rnd.choice([0, 0, 0, 0.2])) for _ in range(2500 if q else 30000)]
    s += [gse.screen(c.rnd) for _ in range(500 if q else 5000)]
    c.conform('SessionTrace', s)
    return c.finish(rule='TLC transition coverage of Session.tla with stops and resets of the device plus seeded random histories; distinct scripts')

@prop
def C16(c):
    q = not THOROUGH
    s = from_tlc_session(c, 1000 if q else 20000, Interfere='FALSE', Faulty='TRUE', Depth=4 if q else 6)
    for _ in range(1200 if q else 15000):
        s += [gse.screen(c.rnd), gse.screen(c.rnd, fail_open=1.0, fail_drop=0.5), gse.screen(c.rnd, fail_drop=1.0), gse.term_drop(c.rnd, c.rnd.random() < 0.6)]
    s += [gse.bad_open(c.rnd) for _ in range(60)]
    c.conform('SessionTrace', s)
    return c.finish(rule='screens and terminals opened, used and dropped under seeded random failures of every device call, panics while guards are held, terminal types that cannot be used; TLC transition coverage of Session.tla; distinct scripts')

@prop
def C12(c):
    q = not THOROUGH
    s = from_tlc_input(c, 3000 if q else 40000, 'sig', Depth=5 if q else 7)
    s += from_tlc_input(c, 2000 if q else 20000, 'sig', Depth=3 if q else 4, PlanLen=2)
    s += hist(c, 2500 if q else 30000, sigs=lambda: c.rnd.choice([0.5, 1.0]), waits=0.25, raws=0.2)
    c.conform('InputTrace', s)
    c.conform('InputTrace', gi.elsewhere(), 'elsewhere')
    c.conform('InputTrace', gi.atoms(), 'atoms')
    out = c.model('Wakeup', consts=dict(MaxArr=2, MaxCalls=2 if q else 3), tag='Wakeup')
    c.conform('InputTrace', [gi.from_tlc(c.rnd, t, 'sig') for t in c.sample(c.tests(out), 4000 if q else 60000)], 'wakeup')
    c.model('Wakeup', cfg='WakeupLive.cfg', consts=dict(MaxArr=3 if q else 5), tag='WakeupLive')
    if THOROUGH: c.refuted('Wakeup', ['one', 'unmasked', 'clear', 'elsewhere']); c.refuted('Wakeup', ['clear'], cfg='WakeupLive.cfg')
    return c.finish(rule=INPUT_RULE)

@prop
def C13(c):
    q = not THOROUGH
    s = from_tlc_input(c, 3000 if q else 30000, 'time', Depth=5 if q else 6)
    s += from_tlc_input(c, 2500 if q else 30000, 'time', Depth=3, PlanLen=2)
    s += hist(c, 2000 if q else 30000, sigs=lambda: c.rnd.choice([0, 0.5]), waits=0.45, raws=0.15, extreme=True, errs=lambda: c.rnd.choice([0, 0.2]))
    c.conform('InputTrace', s)
    return c.finish(rule=INPUT_RULE)

@prop
def C17(c):
    q = not THOROUGH
    out = c.model('SeqMap', consts=dict(MaxSize=4 if q else 7), tag='SeqMap')
    s = [gp.seq_tlc(c.rnd, t) for t in c.sample(c.tests(out), 6000 if q else 40000)]
    s += [gp.seq_history(c.rnd, c.rnd.randrange(5, 60)) for _ in range(1500 if q else 20000)]
    c.conform('SeqTrace', s)
    return c.finish(rule='TLC transition coverage of SeqMap.tla plus seeded random histories; distinct scripts')

@prop
def C18(c):
    q = not THOROUGH
    out = c.model('SigSet')
    s = [gp.sig_all()] + [gp.sig_tlc(t) for t in c.sample(c.tests(out), 4000 if q else 40000)]
    s += [gp.sig_history(c.rnd, 60) for _ in range(400 if q else 4000)]
    c.conform('SigTrace', s)
    return c.finish(rule='all 64 sets, all pairs, all signals under every operation; TLC transition coverage of SigSet.tla; seeded random histories')

@prop
def C19(c):
    q = not THOROUGH
    c.model('Helpers', consts={} if q else dict(MaxH=30, MaxW=30))
    s = [gp.helpers(), gp.prefixes([])] + [gp.prefixes(list(x)) for n in (1, 2, 3) for x in itertools.product(gp.CHARS[:(16 if n < 3 else 12)], repeat=n)]
    s += [gp.prefixes([c.rnd.choice(gp.CHARS) for _ in range(c.rnd.randrange(4, 40))]) for _ in range(500 if q else 10000)]
    c.conform('HelperTrace', s)
    return c.finish(rule='every character for the key and control tests, every cell of every size up to 6x6, areas m*2^e on both sides of the overflow, all texts of up to 3 of 16 characters')

@prop
def C20(c):
    q = not THOROUGH
    s = gm.each(False) + [gm.line_history(c.rnd, c.rnd.randrange(6, 40)) for _ in range(1200 if q else 20000)]
    c.conform('LineTrace', s, name='terminals')
    c.conform('LineTrace', [gm.errors(c.rnd) for _ in range(400 if q else 4000)], name='errors')
    s = gm.each(True) + [gm.screen_history(c.rnd, c.rnd.randrange(6, 40)) for _ in range(1200 if q else 20000)]
    c.conform('ScreenTrace', s, name='screens')
    return c.finish(rule='every element alone and in %d sequences, with and without newline, on terminals, screens and their write guards; seeded random histories; distinct scripts' % len(gm.TS))

def main():
    pid = sys.argv[1]
    c = Check(pid)
    try:
        c.build()
        rc = CHECKS[pid](c)
    except vk.ToolError as e:
        print('TOOL ERROR:', e, flush=True)
        sys.exit(2)
    sys.exit(rc)

@prop
def C14(c):
    q = not THOROUGH
    s = []
    runs = [('t', 2, 1), ('s', 2, 1)] if q else [('t', 2, 1), ('s', 2, 1), ('t', 2, 2), ('s', 2, 2), ('t', 3, 1), ('s', 3, 1)]
    for kind, n, ln in runs:
        out = c.model('Excl', consts=dict(Kind='"%s"' % kind, N=n, MaxLen=ln, Gen='TRUE'), tag='Excl-%s-%d-%d' % (kind, n, ln))
        s += [gc.from_excl(t, kind) for t in c.sample(c.tests(out), 500 if q else 8000)]
    c.conform('ConcTrace', s, name='excl')
    if THOROUGH: c.refuted('Excl', ['early'], consts=dict(Kind='"t"')); c.refuted('Excl', ['tryleak', 'order'], consts=dict(Kind='"s"'))
    c.conform('ConcTrace', [gc.scenario(c.rnd, wait=c.rnd.random() < 0.3) for _ in range(1300 if q else 30000)], name='threads')
    c.conform('ConcTrace', [gc.parts(c.rnd) for _ in range(600 if q else 8000)], name='parts')
    c.conform('SessionTrace', [gse.poisoned(c.rnd) for _ in range(400 if q else 4000)], name='poisoned')
    return c.finish(rule='TLC transition coverage of Excl (all interleavings of all pairs of small programs) plus seeded random programs of 2 or 3 threads under seeded random schedules; guards after panics; distinct scripts')

@prop
def C15(c):
    q = not THOROUGH
    sizes = {}
    for kind in 'ts':
        c.conform('LockTrace', gc.survey(c.rnd, kind, 3 if q else 20), name='survey-' + kind)
        calls, ex = gc.calls_of(json.loads(l) for f in sorted(glob.glob(os.path.join(c.work, 'survey-%s-*.trace' % kind))) for l in open(f))
        sizes[kind] = len(calls)
        p = os.path.join(c.work, 'survey-%s.json' % kind)
        json.dump(calls, open(p, 'w'))
        for n in ([2, 3] if q else [2, 3, 4]):
            t = time.time()
            rc, out = c.tlc('Locks', consts=dict(N=n), env={'SURVEY': p}, tag='Locks', workers=vk.CPUS, mem='6g')
            txt = ''.join(l for l in open(out) if not l.startswith('"'))
            knots = [json.loads(x) for x in c.lines(out, 'KNOT')]
            m = re.findall(r'(\d+) states generated.*?(\d+) distinct states found', txt)
            if knots:
                before = len(c.rejects)
                c.conform('LockTrace', gc.knot(c.rnd, kind, knots[0], ex, 400), name='knot')
                if len(c.rejects) == before: c.notes.append({'knot not brought about': knots[0]})
                break
            if not m or rc != 0 and 'NothingKept' not in txt: vk.log(txt[-3000:]); raise vk.ToolError('TLC on Locks: exit %d' % rc)
            g, d = map(int, m[-1])
            c.states += d; c.transitions += g
            c.specs.append({'module': 'Locks', 'config': 'calls of kind %s, %d threads' % (kind, n), 'states': d, 'transitions': g, 's': round(time.time() - t, 1)})
            vk.log('TLC Locks-%s-%d: %d states, %d transitions, %.1f s' % (kind, n, d, g, time.time() - t))
    c.conform('LockTrace', [gc.waiting(c.rnd) for _ in range(1500 if q else 30000)], name='waiting')
    return c.finish(rule='every call in every situation of guards recorded on the code; TLC explores all interleavings of any number of those calls by 2 and 3 threads; seeded random programs and schedules on the code', extra={'lock_uses': sizes})

if __name__ == '__main__': main()
