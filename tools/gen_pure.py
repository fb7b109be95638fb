"""Scenarios without a device: SequenceMap, SignalSet, helpers (C17-C19)."""
ALPH = [[97, 98], [0x7f, 0xe9], [27, 91], [0x41, 0x1f600], [0x2f, 0x30], [0xffff, 0x10000], [0, 0x10ffff], [0xe9, 0x4e00], [0x7ff, 0x800]]
KEYOPS = ['ins', 'rem', 'get', 'getmut', 'find', 'ekey', 'ekind', 'eins', 'einsw', 'einsmut', 'emod', 'emod0', 'oins', 'ogetmut', 'ointo',
          'orem', 'oreme', 'vins', 'vkey', 'find', 'ins', 'ins']

def seq_tlc(r, t):
    a = r.choice(ALPH)
    k = lambda x: [a[y - 1] for y in x]
    ops = []
    for o in t:
        o = dict(o)
        if 'k' in o: o['k'] = k(o['k'])
        if 'p' in o: o['p'] = [[k(x[0]), x[1]] for x in o['p']]
        ops.append(o)
    # all short keys are looked up at the end
    ks = [[]] + [[x] for x in a] + [[x, y] for x in a for y in a]
    ops += [dict(op='find', k=x) for x in ks]
    return dict(ops=[dict(op='pure', what='seqmap', ops=ops)])

def key(r, a): return [r.choice(a) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
def seq_history(r, n):
    a = r.choice(ALPH) + ([r.choice([1, 50, 0x300, 0x20ac])] if r.random() < 0.5 else [])
    pool = [key(r, a) for _ in range(r.choice([3, 8, 30]))]
    kk = lambda: r.choice(pool) if r.random() < 0.85 else key(r, a)
    ops = []
    for _ in range(n):
        x = r.random()
        if x < 0.05: ops.append(dict(op=r.choice(['new', 'default', 'cap', 'clone', 'clone']), v=r.randrange(0, 40)))
        elif x < 0.13: ops.append(dict(op=r.choice(['vec', 'iter']), p=[[kk(), r.randrange(1000)] for _ in range(r.choice([0, 1, 2, 5, 12, 30, 60, 90]))]))
        elif x < 0.16: ops.append(dict(op='seqsmut', v=r.randrange(5)))
        else: ops.append(dict(op=r.choice(KEYOPS), k=kk(), v=r.randrange(100)))
    return dict(ops=[dict(op='pure', what='seqmap', ops=ops)])

def sig_tlc(t): return dict(ops=[dict(op='pure', what='sighist', ops=t)])
SOPS = ['ins', 'rem', 'or', 'and', 'sub', 'xor', 'not', 'inv', 'union', 'inter', 'diff', 'symdiff', 'all', 'new', 'orn', 'xorn', 'subn']
def sig_history(r, n): return sig_tlc([dict(op=r.choice(SOPS), m=r.randrange(64), k=r.randrange(6)) for _ in range(n)])
def sig_all(): return dict(ops=[dict(op='pure', what='sigset')])

def helpers(): return dict(ops=[dict(op='pure', what='helpers')])
def prefixes(t): return dict(ops=[dict(op='pure', what='prefixes', t=t)])
CHARS = [0, 10, 0x41, 0x7f, 0x80, 0xe9, 0x301, 0x7ff, 0x800, 0x4e00, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff]
