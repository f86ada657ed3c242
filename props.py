"""The registered properties: which harness runs decide each of them."""
import os
class J:
    def __init__(self, harness, label=None, cfg='nbc', quick=True, deadline=120, cpus=2, rlimit=None, logic=None, fresh=False, steps=None, drop=(), nval=2, nrand=1, **params):
        self.harness = harness; self.cfg = cfg; self.quick = quick; self.deadline = deadline; self.cpus = cpus
        self.rlimit = rlimit; self.logic = logic; self.fresh = fresh; self.steps = steps; self.drop = tuple(drop)
        self.nval = nval; self.nrand = nrand; self.params = params
        self.label = label or '%s[%s%s]' % (harness, '' if cfg == 'nbc' else cfg + ' ', ' '.join('%s=%s' % kv for kv in params.items()))
    def key(self): return (self.harness, self.cfg, self.drop)
    def bounds(self): return dict(self.params, cfg=self.cfg)
T = dict(quick=False, deadline=1500, cpus=8)

COMMON_ASSUMPTIONS = [
    'LLVM 18 bitcode of the current sources at -O0 + mem2reg/early-cse/simplifycfg, x86-64 little endian',
    'memory allocation never fails',
    'MPI is the model in engine/mpi_model.inc: reliable, non-overtaking per (source,tag,communicator), sends rendezvous, collectives match in order',
    'double/float data are exact reals unless the job says otherwise (rounding is outside the claim)',
]
PROPS = {}
def P(id, jobs, **kw): PROPS[id] = dict(jobs=jobs, **kw)

# ---------------------------------------------------------------- sorting
jobs = []
for t in range(4):
    for op in range(4):
        for n in ([0, 1, 2, 3, 4, 5] if op < 3 else [1, 2, 3, 4]):
            if t in (1, 3) and n == 5: continue
            q = not (t in (1, 3) and op == 3 and n == 4) and not (t == 0 and op == 1 and n == 5)
            jobs.append(J('sort', type=t, op=op, n=n, pad=(0 if op == 1 else n % 2), cpus=1 if n < 4 else 4, quick=q, nval=1 if n > 2 else 0, nrand=1 if n == 3 else 0))
        jobs.append(J('sort', type=t, op=op, n=11 if t < 2 else 9, k=2, buf=16))
        jobs.append(J('sort', type=t, op=op, n=6, cpus=4, quick=False))
        jobs.append(J('sort', type=t, op=op, n=7, cpus=8, quick=False, deadline=900))
        for n in (8, 13, 16, 17, 23, 31, 33): jobs.append(J('sort', type=t, op=op, n=n, k=2, **T))
    if t < 2:
        for op in range(4):
            for mask in ([0, 1, 6, 11, 15] if t == 0 else [1, 0x21, 0x83]):
                jobs.append(J('sort', type=t, op=op, n=257, k=1, rad=1, mask=mask, bits=9, cpus=1, nval=1, nrand=0))
                jobs.append(J('sort', type=t, op=op, n=256, k=2, rad=1, mask=mask, bits=8, cpus=2, nval=1, nrand=0, quick=op == mask % 4))
                jobs.append(J('sort', type=t, op=op, n=261, k=2, rad=1, mask=mask, bits=0x29, **T))
                jobs.append(J('sort', type=t, op=op, n=300, k=3, rad=1, mask=mask, bits=0x80, **T))
            if t == 1: jobs.append(J('sort', type=t, op=op, n=257, k=1, rad=1, mask=0xff, bits=16, cpus=2, nval=1, nrand=0))
P('S01', jobs)

jobs = []
for k in range(1, 5):
    for rot in range(4):
        jobs.append(J('sarray', op=0, keys=k, rot=rot, n=3, small=0 if k < 3 else 1, cpus=2, nval=1))
        jobs.append(J('sarray', op=0, keys=k, rot=rot, n=4, small=0 if k < 2 else 1, **T))
for op in (1, 2, 3):
    for n in (0, 1, 2, 5): jobs.append(J('sarray', op=op, n=n, cpus=1))
    jobs.append(J('sarray', op=op, n=6, **T))
P('S02', jobs)

jobs = [J('memh', k=3, m=4, init=i, cpus=2) for i in (0, 1, 3)] + [J('memh', k=0, align=1, cpus=1)]
jobs += [J('memh', k=4, m=5, init=i, **T) for i in (0, 1, 2, 4)]
P('M01', jobs)

# ---------------------------------------------------------------- crystal router, transfers
def xfer(**kw):
    L = []
    for np in range(1, 9): L.append(J('xfer', np=np, pat=2, n=1 if np > 3 else 2, **dict(kw, cpus=1)))
    for np in range(2, 9): L.append(J('xfer', np=np, pat=3, n=2, **dict(kw, cpus=1, nval=1, nrand=0)))
    L += [J('xfer', np=1, pat=0, n=3, **kw), J('xfer', np=2, pat=0, n=2, **kw), J('xfer', np=3, pat=0, n=1, **kw), J('xfer', np=4, pat=0, n=1, **dict(kw, cpus=4))]
    for np in (3, 5, 6, 7): L.append(J('xfer', np=np, pat=1, n=2, **dict(kw, cpus=4, nval=1)))
    t = dict(kw, **T)
    L += [J('xfer', np=2, pat=0, n=3, **t), J('xfer', np=3, pat=0, n=2, **t), J('xfer', np=5, pat=0, n=1, **t), J('xfer', np=8, pat=1, n=2, **t), J('xfer', np=9, pat=1, n=2, **t), J('xfer', np=10, pat=1, n=1, **t), J('xfer', np=5, pat=1, n=3, **t)]
    return L
P('C01', xfer(op=0) + [J('xfer', op=0, np=2, pat=0, n=2, lens=5, cpus=4), J('xfer', op=0, np=3, pat=1, n=2, lens=5, cpus=4),
                       J('xfer', op=0, np=4, pat=1, n=2, lens=5, **T), J('xfer', op=0, np=2, pat=0, n=3, lens=3, **T)]
  + [J('xfer', op=0, np=np, pat=0, n=n, big=b, cpus=1, nval=1, nrand=0) for np, n, b in ((1, 2, 300), (2, 2, 130), (3, 1, 130), (3, 1, 300), (4, 1, 300))] + [J('xfer', op=0, np=np, pat=pat, n=2, big=b, cpus=1, nval=1, nrand=0) for np in (3, 5, 6, 7, 8) for pat in (1, 2, 3) for b in (150, 350)])
jobs = xfer(op=1, src=1, lay=0)
for lay in (1, 2, 3): jobs += [J('xfer', op=1, src=1, lay=lay, np=np, pat=0, n=n) for np, n in ((2, 2), (3, 1))] + [J('xfer', op=1, src=1, lay=lay, np=np, pat=2, n=1, cpus=1) for np in (4, 5, 7)]
for lay in (0, 1, 2, 3):
    jobs += [J('xfer', op=1, src=0, lay=lay, np=np, pat=0, n=n) for np, n in ((2, 2), (3, 1))] + [J('xfer', op=1, src=0, ext=1, lay=lay, np=np, pat=0, n=n) for np, n in ((2, 2), (3, 1))]
jobs += [J('xfer', op=3, np=np, pat=0, n=2 if np < 3 else 1) for np in (1, 2, 3)]
jobs += [J('xfer', op=1, src=src, ext=ext, lay=lay, np=np, pat=pat, n=n, rep=r, cpus=1, nval=1, nrand=0) for src, ext, lay in ((1, 0, 0), (0, 1, 1), (0, 0, 2)) for np, pat, n, r in ((2, 0, 2, 140), (3, 0, 1, 260), (4, 2, 1, 70), (1, 0, 1, 300))]
P('T01', jobs)
jobs = []
for lay in (0, 1):
    for ext, src in ((0, 0), (0, 1), (1, 0)):
        jobs += [J('xfer', op=2, ext=ext, src=src, lay=lay, np=np, pat=0, n=n) for np, n in ((1, 2), (2, 2), (3, 1))] + [J('xfer', op=2, ext=ext, src=src, lay=lay, np=np, pat=2, n=1, cpus=1) for np in (4, 5, 8)]
        jobs += [J('xfer', op=2, ext=ext, src=src, lay=lay, np=np, pat=2, n=1, cap=c, cpus=1, nval=1, nrand=0) for np in (2, 3, 5) for c in range(1, 7)] + [J('xfer', op=2, ext=ext, src=src, lay=lay, np=2, pat=0, n=2, cap=c) for c in (1, 2, 4)]
        jobs += [J('xfer', op=2, ext=ext, src=src, lay=lay, np=np, pat=0, n=n, **T) for np, n in ((2, 3), (3, 2), (4, 1))]
    jobs += [J('xfer', op=2, ext=ext, src=src, lay=lay, np=2, pat=0, n=2, rep=140, cpus=1, nval=1, nrand=0) for ext, src in ((0, 1), (1, 0))]
P('T02', jobs)
jobs = xfer(op=1, src=1, lay=1)
for lay in (0, 2, 3): jobs += [J('xfer', op=1, src=1, lay=lay, np=np, pat=0, n=n) for np, n in ((1, 2), (2, 2), (3, 1))] + [J('xfer', op=1, src=1, lay=lay, np=np, pat=2, n=1, cpus=1) for np in (4, 6, 8)]
jobs += [J('xfer', op=1, src=1, lay=lay, np=np, pat=pat, n=n, rep=r, cpus=1, nval=1, nrand=0) for lay in (0, 2) for np, pat, n, r in ((2, 0, 2, 140), (3, 0, 1, 260), (1, 0, 1, 300))]
P('T05', jobs)
jobs = []
for op in (0, 1):
    for kp in (1, 2, 4):
        jobs += [J('fcr', op=op, np=2, n=2, kp=kp, lim=1, ml=1, md=1, cpus=2, nval=1), J('fcr', op=op, np=2, n=3, kp=kp, lim=1, ml=1, md=1, **T), J('fcr', op=op, np=3, n=2, kp=kp, lim=0, ml=1, md=1, **T)]
    jobs += [J('fcr', op=op, np=1, n=3, kp=1, lim=1), J('fcr', op=op, np=3, n=1, kp=1, lim=1, cpus=4), J('fcr', op=op, np=2, n=1, kp=3, lim=2, ml=2, md=0, handles=1), J('fcr', op=op, np=2, n=1, kp=3, lim=1, ml=0, md=2)]
P('T03', jobs)
jobs = []
for op in (2, 3):
    for nk in (0, 1, 2, 3): jobs += [J('fcr', op=op, n=3 if nk < 3 else 2, kp=nk, ml=1, md=1, cpus=4), J('fcr', op=op, n=3 if nk > 1 else 4, kp=nk, ml=2, md=1, **T)]
    jobs += [J('fcr', op=op, n=2, kp=2, ml=0, md=0), J('fcr', op=op, n=2, kp=2, ml=2, md=2)]
P('T04', jobs)

# ---------------------------------------------------------------- collectives
jobs = []
for np in range(1, 10):
    jobs += [J('commh', what=1, dom=d, op=0, np=np, vn=2, cpus=1, nval=1, nrand=1) for d in ((0, 4) if np > 4 else range(5))]
    if np < 5: jobs += [J('commh', what=1, dom=2, op=o, np=np, vn=1, cpus=1, nval=1, nrand=0) for o in (2, 3)]
    else: jobs += [J('commh', what=1, dom=d, op=1, np=np, vn=1, cpus=1, nval=1, nrand=0, range=9) for d in (0,)]
for np in (1, 2, 3): jobs += [J('commh', what=1, dom=d, op=o, np=np, vn=1, cpus=1, range=9) for d in range(5) for o in (1, 2, 3)]
for np in (2, 3, 5): jobs += [J('commh', what=1, dom=d, op=4, np=np, vn=1, range=5 if np < 4 else 2, cpus=2) for d in (0, 2, 4)]
P('K01', jobs + [J('commh', what=1, dom=d, op=o, np=np, vn=3, **T) for d in (2, 4) for o in (0, 1) for np in (5, 6, 7, 8, 9, 10)] + [J('commh', what=1, dom=d, op=o, np=np, vn=1, range=9, **T) for d in (0, 2) for o in (2, 3) for np in (5, 6)])
jobs = []
for np in (1, 2, 3, 5):
    for d in range(5):
        for o in range(4):
            if np in (3, 5) and o == 1 and d > 1: continue
            jobs += [J('commh', what=0, dom=d, op=o, np=np, vn=2, cpus=1, range=9, nval=1, nrand=0)]
            if np < 5: jobs += [J('commh', what=2, dom=d, op=o, np=np, vn=2 if np < 3 else 1, cpus=1, range=9, nval=1, nrand=0)]
for np in range(1, 8): jobs += [J('commh', what=0, dom=d, op=4, np=np, vn=1, range=[0, 40, 12, 6, 3, 2, 1, 1][np], cpus=1) for d in (0, 2, 4)]
for np in (1, 2, 3): jobs += [J('commh', what=2, dom=2, op=4, np=np, vn=2, range=3 if np < 3 else 1, cpus=1)]
jobs += [J('commh', what=3, dom=0, op=0, np=np, vn=2, range=8, cpus=1) for np in (1, 2, 3, 4)]
jobs += [J('commh', what=4, np=np, vn=1, keys=k, cpus=2, dom=2) for np, k in ((1, 1), (2, 2), (3, 3), (4, 2))]
jobs += [J('commh', what=6, dom=d, np=np, vn=vn, msgs=m, cpus=1, nval=1, nrand=0) for np in (1, 2, 3, 5) for d, vn, m in ((0, 3, 1), (2, 1, 9), (4, 2, 5), (1, 4, 4))]
jobs += [J('commh', what=0, dom=2, op=0, np=2, vn=0, cpus=1), J('commh', what=1, dom=2, op=0, np=3, vn=0, cpus=1)]
P('K02', jobs)

# ---------------------------------------------------------------- gather-scatter
G = lambda **kw: J('gsh', **dict(dict(cpus=1, nval=1, nrand=0), **kw))
METH = (1, 2, 3)
GB = lambda **kw: J('gsbig', **dict(dict(cpus=1, nval=1, nrand=0), **kw))
jobs = []
for m in METH:
    jobs += [G(method=m, np=1, n=3, K=2), G(method=m, np=2, n=2, K=2, dom=0, op=0, nval=2, nrand=1), G(method=m, np=2, n=3, K=2, nvar=1, dom=0, op=0, lab=1, cpus=2), G(method=m, np=3, n=2, K=1, dom=2, op=0),
             G(method=m, np=3, n=1, K=3, dom=0, op=0), G(method=m, np=4, n=1, K=2, dom=3, op=0), G(method=m, np=5, n=1, K=2, zero=0, dom=0, op=0), G(method=m, np=6, n=1, K=2, zero=0, dom=0, op=0), G(method=m, np=7, n=1, K=1, dom=0, op=0), G(method=m, np=8, n=1, K=1, dom=0, op=0),
             G(method=m, np=3, n=2, share=2, K=3, dom=4, op=0), G(method=m, np=8, n=3, share=2, K=4, dom=2, op=0)]
    for d in range(5):
        for o in range(4):
            if o == 1 and d > 1: jobs.append(G(method=m, np=2, n=1, K=1, dom=d, op=o)); continue
            jobs.append(G(method=m, np=2, n=2, K=1, dom=d, op=o))
            jobs.append(G(method=m, np=3, n=1, K=1, dom=d, op=o, quick=(d in (0, 2))))
    jobs += [G(method=m, np=2, n=1, K=1, dom=d, op=4, data=3) for d in (0, 2, 4)] + [G(method=m, np=3, n=1, K=1, dom=2, op=4, data=2)]
    jobs += [G(method=m, np=2, n=2, K=2, rpt=1, dom=2), G(method=m, np=3, n=3, K=2, **T), G(method=m, np=4, n=2, K=2, **T), G(method=m, np=5, n=1, K=4, **T), G(method=m, np=9, n=1, K=2, zero=0, **T), G(method=m, np=2, n=4, K=2, nvar=1, **T)]
jobs += [GB(method=m, np=np, n=300, pat=q) for m in METH for np in (2, 3, 4, 5, 8) for q in (0, 1, 2)] + [GB(method=m, np=3, n=1000, few=1, pat=4) for m in METH] + [GB(method=m, np=6, n=2800, pat=2, quick=False) for m in METH]
P('G01', [j for j in jobs])
jobs = []
for m in METH:
    for md in (1, 2):
        jobs += [G(method=m, mode=md, vn=2, np=2, n=2, K=1, dom=d, op=o) for d, o in ((0, 0), (1, 3), (3, 0), (0, 1))]
        jobs += [G(method=m, mode=md, vn=2, np=2, n=1, K=1, dom=d, op=o) for d, o in ((2, 2), (4, 3))]
        jobs += [G(method=m, mode=md, vn=3, np=2, n=2, K=2, dom=2), G(method=m, mode=md, vn=2, np=3, n=2, K=1, dom=0), G(method=m, mode=md, vn=1, np=2, n=2, K=2, dom=0), G(method=m, mode=md, vn=2, np=4, n=1, K=2, dom=2), G(method=m, mode=md, vn=2, np=3, n=2, K=3, share=2, dom=2, op=0)]
        jobs += [G(method=m, mode=md, vn=2, np=2, n=2, K=1, neg=1, tr=t, dom=2, share=1) for t in (0, 1)]
        jobs += [G(method=m, mode=md, vn=3, np=3, n=2, K=2, dom=d, **T) for d in (0, 2)] + [G(method=m, mode=md, vn=2, np=5, n=1, K=3, dom=2, **T), G(method=m, mode=md, vn=2, np=2, n=3, K=2, nvar=1, **T), G(method=m, mode=md, vn=2, np=2, n=2, K=1, dom=2, op=2, **T)]
jobs += [GB(method=m, np=np, n=200, pat=q, mode=md, vn=vn) for m in METH for md in (1, 2) for np, q, vn in ((2, 0, 3), (3, 1, 2), (5, 2, 1), (4, 3, 2))]
P('G02', jobs)
jobs = []
for m in METH:
    for t in (0, 1):
        jobs += [G(method=m, tr=t, neg=1, np=1, n=3, K=2), G(method=m, tr=t, neg=1, np=2, n=2, K=2, cpus=2), G(method=m, tr=t, neg=1, np=3, n=1, K=2), G(method=m, tr=t, neg=1, np=4, n=1, K=1), G(method=m, tr=t, neg=1, np=2, n=2, K=1, dom=2, op=3), G(method=m, tr=t, neg=1, np=2, n=2, K=1, dom=0, op=1), G(method=m, tr=t, neg=1, np=2, n=2, K=1, dom=4, op=2), G(method=m, tr=t, neg=1, np=2, n=2, K=2, lab=1, nvar=1, dom=2, cpus=2),
                 G(method=m, tr=t, neg=1, np=2, n=3, K=1, cpus=2), G(method=m, tr=t, neg=1, np=3, n=2, K=1, cpus=4), G(method=m, tr=t, neg=1, np=5, n=1, K=1, zero=0), G(method=m, tr=t, neg=1, np=3, n=2, K=2, **T), G(method=m, tr=t, neg=1, np=2, n=3, K=2, **T), G(method=m, tr=t, neg=1, np=5, n=1, K=2, **T), G(method=m, tr=t, neg=1, np=7, n=1, K=1, zero=0, **T)]
for m in METH:
    for t in (0, 1):
        jobs += [GB(method=m, np=np, n=300, pat=3, tr=t, mode=md) for np, md in ((1, 0), (2, 0), (3, 1), (4, 2), (5, 0), (7, 2))]
        for md in (1, 2): jobs += [G(method=m, mode=md, vn=2, tr=t, neg=1, np=1, n=2, K=1, dom=2), G(method=m, mode=md, vn=2, tr=t, neg=1, np=2, n=1, K=2, dom=0), G(method=m, mode=md, vn=2, tr=t, neg=1, np=2, n=2, K=1, dom=2, share=1), G(method=m, mode=md, vn=3, tr=t, neg=1, np=3, n=1, K=1, dom=1), G(method=m, mode=md, vn=2, tr=t, neg=1, np=2, n=1, K=1, dom=3, op=3)]
P('G03', jobs)
U = lambda **kw: J('gsu', **dict(dict(cpus=1, nval=1, nrand=0), **kw))
jobs = [U(mode=0, np=np, n=n, K=K, neg=g, cpus=c) for np, n, K, g, c in ((1, 3, 2, 1, 1), (2, 2, 2, 1, 1), (2, 3, 3, 0, 1), (3, 2, 2, 0, 1), (3, 2, 3, 0, 1), (3, 1, 3, 1, 1), (4, 1, 3, 1, 1), (4, 2, 2, 0, 1), (5, 1, 3, 0, 1), (6, 1, 3, 0, 1), (8, 1, 2, 0, 1))]
jobs += [U(mode=2, np=np, n=n, K=K, neg=g, tr=t, method=m) for m in METH for t in (0, 1) for np, n, K, g in ((2, 2, 2, 1), (3, 2, 2, 0), (4, 1, 3, 0), (3, 1, 2, 1))]
jobs += [G(method=m, uniq=1, tr=t, np=np, n=n, K=K, dom=d) for m in METH for t in (0, 1) for np, n, K, d in ((2, 2, 2, 0), (3, 2, 1, 2), (4, 1, 3, 2))]
jobs += [U(mode=0, np=2, n=1, neg=1, cpus=2), U(mode=0, np=2, n=2, bits=6, cpus=4), U(mode=0, np=3, n=1, bits=4, cpus=4)]
jobs += [U(mode=0, np=3, n=2, K=2, neg=1, **T), U(mode=0, np=2, n=2, **T), U(mode=0, np=3, n=1, bits=12, **T), U(mode=0, np=4, n=1, bits=5, **T), U(mode=2, np=3, n=2, K=2, neg=1, **T), U(mode=2, np=6, n=1, K=4, **T)]
P('G04', jobs)
jobs = []
for m in METH:
    for md in (0, 1, 2):
        jobs += [G(method=m, nb=1, mode=md, vn=2, np=2, n=2, K=2, dom=2, nullbuf=nb) for nb in (0, 1)] + [G(method=m, nb=1, mode=md, vn=2, np=2, n=2, K=1, neg=1, tr=t, share=1) for t in (0, 1)]
        jobs += [G(method=m, nb=1, mode=md, vn=2, np=3, n=1, K=2, dom=2, rpt=1), G(method=m, nb=1, mode=md, vn=2, np=1, n=2, K=2, dom=2), G(method=m, nb=1, mode=md, vn=2, np=2, n=1, K=1, dom=2, nops=2, handles=2), G(method=m, nb=1, mode=md, vn=2, np=2, n=1, K=2, dom=2, nops=2, handles=2, nullbuf=1), G(method=m, nb=1, mode=md, vn=2, np=3, n=1, K=1, dom=0, nops=2, handles=2, nullbuf=1)]
    jobs += [G(method=m, nb=1, np=2, n=1, K=1, dom=2, op=4, data=2), G(method=m, nb=1, np=2, n=2, K=1, dom=0, op=2), G(method=m, nb=1, np=3, n=1, K=1, dom=0, op=1), G(method=m, nb=1, np=4, n=1, K=2, dom=0), G(method=m, nb=1, np=6, n=1, K=1, dom=0, op=3)]
    jobs += [G(method=m, nb=1, np=2, n=1, K=1, dom=2, nops=2, handles=1)]
    if m != 3: jobs += [G(method=m, cfg='def', nb=1, mode=md, vn=2, np=2, n=2, K=1, dom=2) for md in (0, 1, 2)]
    jobs += [G(method=m, nb=1, mode=md, vn=2, np=3, n=2, K=2, dom=2, **T) for md in (0, 1, 2)] + [G(method=m, nb=1, mode=md, vn=2, np=2, n=2, K=2, dom=2, nops=2, handles=2, nullbuf=1, **T) for md in (0, 1, 2)]
Q = lambda **kw: J('gsq', **dict(dict(cpus=1, nval=1, nrand=0), **kw))
for m in METH:
    jobs += [Q(method=m, np=1, ops=4), Q(method=m, np=2, ops=4, mode=m), Q(method=m, np=2, ops=3, handles=3, n=3, nullbuf=1, tr=2), Q(method=m, np=2, ops=3, perm=1, nullbuf=m % 2, tr=5), Q(method=m, np=2, ops=3, blk=1, handles=2, tr=5, mode=1), Q(method=m, np=2, ops=2, perm=1, blk=1, life=1, handles=2, nullbuf=1), Q(method=m, np=3, ops=3, life=1, handles=2, tr=7), Q(method=m, np=3, ops=2, perm=1, handles=2, mode=2)]
    jobs += [Q(method=m, np=2, ops=5, handles=3, **T), Q(method=m, np=2, ops=3, perm=1, blk=1, life=1, handles=2, tr=5, **T), Q(method=m, np=3, ops=3, perm=1, handles=3, nullbuf=1, **T), Q(method=m, np=4, ops=4, handles=2, **T)]
jobs += [GB(method=m, np=np, n=200, pat=q, mode=3, vn=vn, tr=np % 2, ownbuf=q % 2) for m in METH for np, q, vn in ((2, 0, 2), (3, 1, 3), (4, 3, 2), (3, 2, 1))]
P('G05', jobs)
jobs = [U(mode=1, np=1, n=2, neg=1), U(mode=1, np=1, n=3), U(mode=1, np=2, n=1, neg=1, method=1, cpus=2), U(mode=1, np=2, n=1, neg=1, method=2, tr=1, cpus=2), U(mode=1, np=2, n=1, neg=1, method=3, cpus=2)]
jobs += [U(mode=1, np=2, n=2, bits=6, method=m, cpus=4) for m in METH] + [U(mode=1, np=3, n=1, bits=4, method=m, cpus=4) for m in METH]
jobs += [U(mode=1, np=2, n=2, bits=2, sh=sh, low=low, method=m, cpus=2) for m in METH for sh, low in ((32, 8), (61, 3), (31, 0), (16, 1))] + [U(mode=1, np=3, n=1, bits=3, sh=sh, low=low, method=m, cpus=2) for m in METH for sh, low in ((32, 7), (60, 1))]
jobs += [U(mode=1, np=2, n=2, method=m, **T) for m in METH] + [U(mode=1, np=4, n=1, method=m, bits=4, **T) for m in METH] + [U(mode=1, np=3, n=1, method=m, bits=10, **T) for m in METH]
P('G06', jobs)
G0 = lambda **kw: J('gsh', **dict(dict(cpus=1, nval=1, nrand=0, method=0, wtime=1), **kw))
jobs = [G0(np=2, n=2, K=1), G0(np=2, n=1, K=2, neg=1, tr=0), G0(np=2, n=1, K=2, neg=1, tr=1), G0(np=3, n=1, K=1, dom=2), G0(np=1, n=2, K=2), G0(np=2, n=2, K=1, mode=1, vn=2, dom=2), G0(np=2, n=2, K=1, mode=2, vn=2, dom=2), G0(np=2, n=1, K=1, nb=1, dom=2), G0(np=2, n=2, K=1, uniq=1, dom=2), G0(np=4, n=1, K=1, dom=2), J('gsh', cfg='ser', method=0, np=1, n=3, K=2), J('gsh', cfg='ser', method=2, np=1, n=2, K=2, neg=1, tr=1), J('gsh', cfg='ser', method=3, np=1, n=2, K=2, mode=1, vn=2)]
jobs += [G0(np=2, n=2, K=2, dom=2, **T), G0(np=3, n=2, K=1, dom=2, **T), G0(np=5, n=1, K=1, dom=2, **T)]
jobs += [GB(method=0, wtime=1, np=np, n=n, few=f, who=w, pat=q) for np, n, f, w, q in ((3, 300, 1, 2, 4), (3, 1000, 2, 0, 4), (4, 300, 5, 1, 4), (2, 300, 300, 0, 0), (5, 200, 200, 0, 1), (4, 300, 10, 2, 2), (3, 300, 300, 0, 3))]
P('G07', jobs)
FG = lambda **kw: J('fgs', **dict(dict(cpus=1, nval=1, nrand=0), **kw))
jobs = []
for call in range(7):
    jobs += [FG(call=call, dom=d, op=1, np=2, n=2, K=1) for d in (1, 2, 3)] + [FG(call=call, dom=d, op=o, np=2, n=1, K=1) for d, o in ((1, 2), (2, 3), (3, 4), (1, 4), (2, 4), (3, 3))]
    jobs += [FG(call=call, dom=2, op=1, np=2, n=2, K=1, neg=1, tr=t) for t in (0, 1)] + [FG(call=call, dom=2, np=3, n=1, K=2, method=m) for m in METH] + [FG(call=call, dom=3, np=2, n=1, K=2, two=1)]
    jobs += [FG(call=call, dom=d, op=1, np=2, n=3, K=2, **T) for d in (1, 2, 3)] + [FG(call=call, dom=2, op=1, np=3, n=2, K=1, neg=1, tr=t, **T) for t in (0, 1)]
jobs += [FG(call=3, dom=d, np=2, n=2, K=1, stride=3, vn=2) for d in (1, 2, 3)] + [FG(call=2, dom=2, np=2, n=1, K=1, vn=6), FG(call=3, dom=1, np=2, n=1, K=1, vn=6, stride=1)] + [FG(call=c, dom=d, np=2, n=1, K=1, vn=v) for c in (2, 6) for d, v in ((1, 5), (2, 6), (3, 4), (1, 1), (1, 3))] + [FG(call=c, dom=1, np=2, n=1, K=1, vn=5) for c in (1, 3, 5)] + [ FG(call=0, np=2, n=1, K=1, method=-1)]
jobs += [FG(call=7, np=2, n=2, K=2, neg=1), FG(call=7, np=3, n=1, K=3)]
P('G08', jobs)

# ---------------------------------------------------------------- tensor kernels
TN = lambda **kw: J('tensorh', **dict(dict(cpus=1, nval=1, nrand=1), **kw))
jobs = [TN(op=0, nr=n) for n in (0, 1, 2, 3, 8)] + [TN(op=o, nr=a, ns=b) for o in (1, 2) for a, b in ((1, 1), (2, 3), (3, 2), (4, 1), (1, 5), (5, 4))]
jobs += [TN(op=o, nr=a, ns=b, nt=c) for o in (3, 4) for a, b, c in ((1, 1, 1), (2, 3, 4), (4, 2, 3), (3, 4, 2), (1, 5, 2))]
jobs += [TN(op=o, d=d, nr=a, ns=b, nt=c) for o in (5, 6) for d in (1, 2, 3) for a, b, c in ((1, 1, 1), (2, 3, 4), (4, 2, 3), (3, 4, 2))]
jobs += [TN(op=7, nr=a, mr=b, ns=c, ms=d) for a, b, c, d in ((2, 3, 4, 1), (3, 2, 1, 4), (2, 2, 3, 3))] + [TN(op=8, nr=a, mr=b, ns=c, ms=d, nt=e, mt=f) for a, b, c, d, e, f in ((2, 3, 1, 2, 3, 1), (3, 2, 2, 1, 1, 2), (1, 2, 3, 2, 2, 3), (2, 2, 2, 2, 2, 2))]
jobs += [TN(op=o, nr=a, ns=b) for o in (1, 2) for a, b in ((9, 3), (3, 9), (17, 2), (2, 17))] + [TN(op=o, nr=a, ns=b, nt=c) for o in (3, 4) for a, b, c in ((9, 2, 2), (2, 9, 2), (2, 2, 9))] + [TN(op=0, nr=n) for n in (9, 16, 17, 33)] + [TN(op=7, nr=a, mr=b, ns=c, ms=d) for a, b, c, d in ((9, 2, 2, 2), (2, 9, 2, 2), (2, 2, 9, 2), (2, 2, 2, 9), (5, 6, 5, 6))]
P('X01', jobs)
PL = lambda **kw: J('polyh', **dict(dict(cpus=1, nval=1, nrand=1), **kw))
jobs = [PL(op=0, n=n) for n in (1, 2)] + [PL(op=1, n=n) for n in (1, 2, 3, 4, 5, 6, 8)] + [PL(op=2, n=n) for n in range(2, 27)] + [PL(op=o, n=n) for o in (3, 4) for n in range(2, 34)] + [PL(op=3, n=1)]
jobs += [PL(op=o, n=n, eval=d) for o, n in ((1, 1), (1, 4), (2, 2), (2, 3), (2, 7), (2, 24), (2, 25)) for d in (0, 1)] + [PL(op=2, n=n, **T) for n in range(27, 31)] + [PL(op=1, n=n, **T) for n in (10, 12)]
P('P01', jobs)
LB = lambda **kw: J('lobh', **dict(dict(cpus=1, nval=1, nrand=1), **kw))
jobs = [LB(mode=0, nr=n, mr=m) for n in (2, 3, 4, 5, 6, 7, 8) for m in (2*n, 4*n)] + [LB(mode=0, un=2, nr=3, mr=6), LB(mode=0, nr=4, mr=11), LB(mode=0, nr=5, mr=13)]
jobs += [LB(mode=0, dim=2, nr=a, ns=b, dir=d) for a, b, d in ((2, 3, 0), (3, 2, 1), (2, 3, 1), (3, 2, 0), (4, 3, 0), (3, 4, 1))] + [LB(mode=0, dim=2, nr=2, ns=2, mr=5, ms=7, dir=d) for d in (0, 1)]
jobs += [LB(mode=0, dim=3, nr=a, ns=b, nt=c, dir=d) for a, b, c, d in ((2, 2, 2, 0), (2, 3, 2, 1), (2, 2, 3, 2))]
jobs += [LB(mode=1, nr=2, un=2), LB(mode=1, nr=3), LB(mode=1, nr=4, lin=1), LB(mode=1, dim=2, nr=2, ns=2, mr=3, ms=4, lin=1, deadline=150, cpus=2)]
jobs += [LB(mode=2, dim=1, nr=6, pats=1), LB(mode=2, dim=1, nr=5, pats=1, two=1, lin=1), LB(mode=2, dim=2, nr=2, ns=3, pats=1), LB(mode=2, dim=2, nr=3, ns=2, pats=1, lin=1), LB(mode=2, dim=2, nr=2, ns=2, un=2, pats=1, lin=1), LB(mode=2, dim=3, nr=2, ns=2, nt=2, pats=1, lin=1)]
jobs += [LB(mode=0, nr=n, mr=2*n, **T) for n in (9, 10, 12)] + [LB(mode=0, dim=2, nr=5, ns=5, dir=d, **T) for d in (0, 1)] + [LB(mode=1, nr=4, **T), LB(mode=1, nr=5, lin=1, fresh=True, logic="QF_LRA", **T), LB(mode=1, dim=2, nr=2, ns=2, **T), LB(mode=2, dim=3, nr=2, ns=3, nt=2, pats=1, lin=1, **T)]
jobs += [LB(mode=2, dim=2, nr=3, ns=3, pats=1, lin=1, s0=s) for s in (0, 1, 3, 4, 5)] + [LB(mode=2, dim=2, nr=a, ns=b, pats=1, lin=1, s0=s) for a, b, s in ((3, 4, 0), (3, 4, 1), (4, 3, 2), (4, 3, 5))] + [LB(mode=2, dim=3, nr=3, ns=2, nt=3, mr=4, ms=3, mt=4, pats=1, lin=1), LB(mode=2, dim=3, nr=2, ns=3, nt=3, mr=3, ms=4, mt=4, pats=1, lin=1)]
jobs += [LB(mode=2, dim=2, nr=4, ns=4, pats=1, lin=1, s0=s, **T) for s in range(6)] + [LB(mode=2, dim=3, nr=3, ns=3, nt=2, mr=4, ms=4, mt=3, pats=1, lin=1, s0=s, **T) for s in (0, 3)]
P('B01', jobs)
EL = lambda **kw: J('elh', **dict(dict(cpus=1, nval=1, nrand=1), **kw))
jobs = [EL(dim=2, geo=0, **d) for d in (dict(), dict(nr=3, ns=3), dict(nr=3, npt=3, which=2), dict(ns=3, npt=2, which=1, reps=2), dict(len4=16))]
jobs += [EL(dim=2, geo=1, **d) for d in (dict(), dict(nr=3), dict(ns=3, npt=2))]
jobs += [EL(dim=3, geo=0, **d) for d in (dict(), dict(npt=3, which=2), dict(nr=3), dict(ns=3), dict(nt=3, npt=3, npm=4, which=1, reps=2))]
jobs += [EL(dim=3, geo=1, line=l, cpus=2) for l in (1, 3, 5, 6)]
jobs += [EL(dim=2, geo=4, nr=3, len4=1, line=l) for l in (0, 2, 4, 5, 8)] + [EL(dim=2, geo=3, ns=3, len4=1, line=l) for l in (0, 4)]
# sheared elements: which mat nr ns nt base direction, half length of the segment 1/last
for d, f, k in ((3, 'elh_sheared.txt', 'which mat nr ns nt b0 b1 b2 d0 d1 d2 lden'), (2, 'elh_sheared2.txt', 'which mat nr ns b0 b1 d0 d1 lden')):
    for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness', f)):
        jobs.append(EL(dim=d, geo=6, npt=3, len4=1, **dict(zip(k.split(), map(int, l.split())))))
# elements whose one coordinate is a general quadratic of the other two
for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness', 'elh_curved.txt')):
    jobs.append(EL(**{k: int(v) for k, v in (x.split('=') for x in l.split())}))
P('E01', jobs)
FP = lambda **kw: J('fph', **dict(dict(cpus=1, nval=1, nrand=1), **kw))
jobs = [FP(dim=2, np=1, pat=0), FP(dim=2, np=1, pat=2, npt=3, npm=2), FP(dim=2, np=2, pat=1, npt=3, which=1, npm=2), FP(dim=2, np=2, pat=2, who=1), FP(dim=2, np=2, pat=3, npt=2, which=1), FP(dim=2, np=3, pat=1, npt=3, which=2, npm=2, who=1), FP(dim=2, np=3, pat=4), FP(dim=2, np=3, pat=4, who=2, tol8=1), FP(dim=2, np=3, pat=5, tol8=8), FP(dim=2, np=2, pat=5, who=1), FP(dim=2, np=3, pat=6), FP(dim=2, np=4, pat=1, who=2), FP(dim=2, np=5, pat=4, who=4, line=3), FP(dim=2, np=5, pat=3, who=3, npt=2, line=7), FP(dim=2, np=2, pat=3, reps=2), FP(dim=2, np=2, pat=1, tol8=0), FP(dim=2, np=2, pat=2, nr=3, ghash=20, lhash=30)]
jobs += [FP(dim=2, np=2, pat=p, len4=400000, line=0) for p in (0, 5)] + [FP(dim=2, np=3, pat=2, who=1, line=l, ghash=g, lhash=h) for l, g, h in ((0, 1, 0), (3, 40, 7), (5, 9, 60))]
jobs += [FP(dim=3, np=2, pat=0), FP(dim=3, np=2, pat=4), FP(dim=3, np=2, pat=3, tol8=1, npt=3, which=2, npm=2), FP(dim=3, np=2, pat=3, nr=3, npt=2, ghash=20, lhash=20), FP(dim=3, np=3, pat=6, who=2), FP(dim=3, np=3, pat=5), FP(dim=3, np=2, pat=1, nt=3, who=1)]
jobs += [FP(dim=2, np=3, pat=4, sep=1, npt=3, which=2), FP(dim=3, np=2, pat=3, npt=2, which=1, sep=1)]
jobs += [FP(dim=2, np=p, pat=q, who=w, npt=3, which=1, npm=2, ghash=6, **T) for p in (4, 6, 7, 8) for q in (1, 3, 4) for w in (0, p-1)] + [FP(dim=3, np=p, pat=q, who=p-1, npt=3, which=1, npm=2, **T) for p in (3, 4) for q in (1, 3, 4)]
P('H01', jobs)
jobs = [FP(dim=d, np=1, pat=p, api=2, npt=t, npm=m, which=w) for d, p, t, m, w in ((2, 3, 3, 4, 0), (2, 1, 2, 1, 1), (2, 4, 1, 4, 0), (2, 2, 3, 2, 2), (2, 5, 1, 2, 0), (3, 3, 3, 2, 1), (3, 4, 1, 1, 0), (3, 2, 2, 4, 0))]
jobs += [FP(dim=d, np=1, pat=3, api=2, npt=3, which=2, sep=1) for d in (2, 3)]
jobs += [FP(dim=2, np=1, pat=3, api=2, nr=3, lhash=l, line=3) for l in (0, 5, 40)] + [FP(dim=3, np=1, pat=3, api=2, ns=3, lhash=l, line=3) for l in (0, 60)] + [FP(dim=d, np=1, pat=p, api=2, reps=2, npt=3, which=2, npm=1, **T) for d in (2, 3) for p in range(6)]
P('H02', jobs)
FE = lambda **kw: J('feh', **dict(dict(cpus=1, nval=1, nrand=1), **kw))
jobs = [FE(dim=d, hist=h, np=p, npt=t, npm=m) for d in (2, 3) for h, p, t, m in ((0, 1, 5, 2), (0, 2, 2, 2), (1, 2, 3, 1), (2, 2, 2, 2), (2, 3, 4, 2), (3, 3, 2, 3), (4, 2, 3, 2), (5, 3, 2, 1))]
jobs += [FE(dim=2, hist=h, np=3, npt=2, empty=e, nelm=3) for h, e in ((0, 0), (1, 2), (3, 1))] + [FE(dim=2, nr=a, ns=b, rsym=2, np=2) for a, b in ((2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (3, 5))] + [FE(dim=3, nr=a, ns=b, nt=c, rsym=3, np=2) for a, b, c in ((2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3), (3, 3, 3))]
jobs += [FE(dim=2, np=4, npt=5, npm=2, hist=3), FE(dim=2, np=5, npt=3, hist=2, who=2), FE(dim=2, np=1, npt=5, npm=2, nelm=3, hist=1)]
jobs += [FE(dim=d, np=p, npt=5, npm=3, hist=h, who=p//2, nelm=3, **T) for d in (2, 3) for p in (3, 4, 6) for h in range(1, 6)]
P('H03', jobs)
MS = lambda **kw: FP(**dict(dict(api=3, np=3, pat=4), **kw))
jobs = [MS(dim=2, np=4, pat=7, smap=s, match=m, pofs=o, npt=2, who=w, which=o % 2, npm=1+o) for s, m, o, w in ((1, 0, 0, 0), (1, 0, 2, 2), (1, 1, 0, 3), (1, 1, 2, 1), (3, 0, 0, 0), (3, 1, 0, 2))]
jobs += [MS(dim=2, np=5, pat=7, smap=2, match=m, pofs=o, npt=2, who=o, npm=1+o) for m, o in ((0, 0), (0, 2), (1, 0), (1, 2))] + [MS(dim=2, smap=2, match=m, pofs=o, npt=2, who=o, which=o % 2, npm=1+o) for m in (0, 1) for o in (0, 1, 2)]
jobs += [MS(dim=3, smap=2, match=m, pofs=o, npt=2, who=o, which=1) for m, o in ((0, 0), (0, 1), (1, 1), (1, 2))] + [MS(dim=2, np=2, pat=1, smap=3, npt=3, match=m) for m in (0, 1)] + [MS(dim=2, np=2, pat=7, smap=1, pofs=2), MS(dim=2, np=3, pat=6, smap=2, pofs=1)]
jobs += [MS(dim=2, np=4, pat=7, smap=1, match=1, npt=2, which=1, line=3, sep=1)]
jobs += [MS(dim=2, np=p, pat=7, smap=s, match=m, pofs=o, npt=3, who=w, which=1, npm=2, **T) for p, s, w in ((6, 2, 3), (5, 1, 4), (8, 2, 5), (6, 3, 0)) for m in (0, 1) for o in (0, 1, 2)]
P('H04', jobs)
jobs = [FP(dim=2, np=2, pat=1, api=1), FP(dim=3, np=2, pat=1, api=1, line=4), FP(dim=3, np=2, pat=3, api=1, npt=2, which=1, npm=1, reps=2, line=3), FP(dim=2, np=3, pat=6, api=1, line=3), FP(dim=2, np=3, pat=4, api=1, who=1, nr=3), FP(dim=2, np=1, pat=0, api=1, nr=2, ns=3)]
jobs += [MS(dim=3, smap=2, pofs=1, ft=1, line=3), MS(dim=2, smap=2, pofs=1, ft=1), MS(dim=2, np=4, pat=7, smap=1, match=1, ft=1, npt=2, line=3), MS(dim=3, np=2, pat=7, smap=1, match=0, pofs=2, ft=1, nt=3, line=0)]
jobs += [FP(dim=2, np=2, pat=1, api=1, sep=1, npt=2, which=1), FP(dim=3, np=2, pat=1, api=1, line=4, sep=1, npt=3, which=2), MS(dim=2, np=4, pat=7, smap=1, match=1, ft=1, npt=2, line=3, sep=1, which=1), MS(dim=3, smap=2, pofs=1, ft=1, line=3, sep=1, npt=2, which=1)]
jobs += [FP(dim=d, np=p, pat=q, api=1, npt=3, which=2, npm=2, **T) for d in (2, 3) for p in (2, 4) for q in (2, 3, 4)]
P('F01', jobs)
OB = lambda **kw: J('obh', **dict(dict(cpus=1, nval=1, nrand=1), **kw))
jobs = [OB(dim=2, geo=0), OB(dim=2, geo=1), OB(dim=2, geo=2), OB(dim=2, geo=3, nr=4, ns=4), OB(dim=2, geo=3, nr=5, ns=4), OB(dim=2, geo=4, nr=4, ns=2), OB(dim=2, geo=1, nr=2, ns=2, nel=3, tol8=1), OB(dim=2, geo=2, nr=3, ns=5, nel=3, tol8=8)]
jobs += [OB(dim=3, geo=0, nr=2, ns=3, nt=4), OB(dim=3, geo=1), OB(dim=3, geo=2, nr=3, ns=2, nt=4), OB(dim=3, geo=3, nr=4, ns=4, nt=3), OB(dim=3, geo=4, nr=5, ns=3, nt=2, mf=4), OB(dim=3, geo=4, nr=5, ns=3, nt=2, mf=2, me=3), OB(dim=3, geo=2, nr=3, ns=5, nt=3, tol8=1, nel=3)]
jobs += [OB(dim=2, geo=g, nr=a, ns=b, nel=n, **T) for g in range(5) for a, b, n in ((2, 6, 2), (6, 3, 2), (7, 7, 1))] + [OB(dim=3, geo=g, nr=a, ns=b, nt=c, **T) for g in range(5) for a, b, c in ((2, 2, 5), (5, 2, 3), (4, 5, 6))]
P('B02', jobs)

# ---------------------------------------------------------------- build variants
def S(h, cfg='ser', **kw): return J(h, cfg=cfg, **dict(dict(cpus=1, nval=1, nrand=0), **kw))
jobs = []
for w in (0, 1): jobs += [S('commh', what=w, dom=d, op=o, np=1, vn=2, range=9) for d in range(5) for o in (0, 3)]
jobs += [S('commh', what=2, dom=2, op=0, np=1, vn=2, range=9), S('commh', what=3, dom=0, op=0, np=1, vn=2, range=8), S('commh', what=4, np=1, vn=1, keys=2, dom=2)]
jobs += [S('xfer', op=op, np=1, pat=0, n=3, lay=lay, src=1, ext=e) for op, lay, e in ((0, 0, 0), (1, 0, 0), (1, 2, 1), (2, 0, 0), (2, 1, 1), (3, 0, 0))] + [S('xfer', op=0, np=1, pat=0, n=2, big=300), S('fcr', op=0, np=1, n=3, kp=1, lim=1), S('fcr', op=1, np=1, n=2, kp=1, lim=1), S('fcr', op=2, n=2, kp=2, ml=1, md=1), S('fcr', op=3, n=2, kp=2, ml=1, md=1)]
jobs += [S('gsh', method=m, mode=md, nb=nb, np=1, n=3, K=2, neg=1, tr=t, vn=2, dom=2) for m in (0, 1, 2, 3) for md in (0, 1, 2) for nb, t in ((0, 0), (0, 1), (1, 0))] + [S('gsh', method=m, np=1, n=2, K=1, dom=d, op=o) for m in (0, 2) for d in (0, 1, 3, 4) for o in (0, 2)] + [S('gsh', method=m, np=1, n=3, K=2, uniq=1, dom=2, tr=t) for m in (1, 3) for t in (0, 1)]
jobs += [S('gsu', mode=0, np=1, n=3, K=2, neg=1), S('gsu', mode=1, np=1, n=2, neg=1), S('gsu', mode=2, np=1, n=3, K=2, neg=1), S('gsq', np=1, ops=4), S('gsq', np=1, ops=3, handles=2, mode=2, nullbuf=1)] + [S('fgs', call=c, np=1, n=3, K=2, dom=2, neg=1) for c in range(8)]
jobs += [S('fph', dim=2, np=1, pat=3, npt=2, api=a) for a in (0, 1, 2)] + [S('fph', dim=3, np=1, pat=4, api=0, line=3), S('fph', dim=3, np=1, pat=2, api=1, line=4), S('fph', dim=2, np=1, pat=3, api=3, smap=3, npt=2, line=3), S('fph', dim=2, np=1, pat=3, api=3, smap=3, npt=2, line=3, ft=1), S('feh', dim=2, hist=2, np=1, npt=4, npm=2), S('feh', dim=3, hist=0, np=1, npt=3, npm=2)]
for m in (1, 2, 3):
    jobs += [S('gsh', 'def', method=m, mode=md, np=2, n=2, K=2, neg=1, tr=t, vn=2, dom=2, share=1) for md in (0, 1, 2) for t in (0, 1)]
    if m != 3: jobs += [S('gsh', 'def', method=m, nb=1, mode=md, np=2, n=2, K=1, vn=2, dom=0) for md in (0, 1, 2)]
jobs += [S('commh', 'def', what=w, dom=2, op=0, np=3, vn=2, range=9) for w in (0, 1, 2)] + [S('fph', 'def', dim=2, np=2, pat=1, npt=3, which=1, npm=2, line=3)]
for c in ('g32', 'gl', 'l64'):
    jobs += [S('sort', c, type=t, op=op, n=n) for t in (0, 1) for op in range(4) for n in (2, 3)] + [S('sort', c, type=t, op=op, n=257, k=1, rad=1, mask=1, bits=9) for t in (0, 1) for op in range(4)] + [S('sarray', c, op=0, keys=2, rot=r, n=3) for r in (0, 2)] + [S('sarray', c, op=1, n=4)]
    jobs += [S('commh', c, what=w, dom=d, op=o, np=3, vn=1, range=9) for w in (0, 1) for d, o in ((3, 0), (4 if c == 'l64' else 1, 0), (2, 3))] + [S('commh', c, what=4, np=2, vn=1, keys=2, dom=2)]
    jobs += [S('xfer', c, op=op, np=3, pat=2, n=2, src=1) for op in range(4)] + [S('xfer', c, op=op, np=2, pat=0, n=2, src=1, lay=2) for op in (0, 1, 2)] + [S('fcr', c, op=op, np=2, n=2, kp=2, lim=1, ml=1, md=1) for op in (0, 1)] + [S('fcr', c, op=op, n=3, kp=2, ml=1, md=1) for op in (2, 3)]
    for m in METH: jobs += [S('gsh', c, method=m, np=2, n=2, K=2, neg=1, tr=m % 2, dom=d) for d in (0, 2)] + [S('gsh', c, method=m, nb=1, mode=2, vn=2, np=2, n=2, K=1, dom=3), S('gsh', c, method=m, np=3, n=2, share=2, K=3, dom=4 if c == 'l64' else 1)] + ([S('gsh', c, method=m, np=2, n=2, K=2, lab=1, dom=2)] if c != 'g32' else []) + [S('gsu', c, mode=1, np=2, n=1, neg=1, method=m, cpus=2), S('gsu', c, mode=2, np=2, n=2, K=2, method=m)]
    jobs += [S('gsu', c, mode=0, np=2, n=2, K=2, neg=1), S('fgs', c, call=2, np=2, n=2, K=1, dom=3), S('fgs', c, call=6, np=2, n=2, K=1, dom=2), S('fgs', c, call=7, np=2, n=2, K=2, neg=1)]
    jobs += [S('fph', c, dim=2, np=2, pat=3, npt=2, which=1, line=3), S('fph', c, dim=3, np=2, pat=3, line=3), S('fph', c, dim=2, np=1, pat=3, api=2, npt=3, npm=2, line=3), S('fph', c, dim=2, np=3, pat=4, api=3, smap=2, npt=2, line=3, match=1), S('fph', c, dim=3, np=2, pat=1, api=1, line=4), S('fph', c, dim=2, np=4, pat=7, api=3, smap=1, match=0, ft=1, npt=2, line=3), S('feh', c, dim=2, hist=3, np=2, npt=3, npm=2), S('feh', c, dim=3, hist=4, np=2, npt=2, npm=2)]
for c in ('cbl', 'fmx'):
    jobs += [S('tensorh', c, op=0, nr=n) for n in (1, 3)] + [S('tensorh', c, op=o, nr=a, ns=b) for o in (1, 2) for a, b in ((1, 1), (2, 3), (3, 2), (4, 1))] + [S('tensorh', c, op=o, nr=a, ns=b, nt=d) for o in (3, 4) for a, b, d in ((1, 1, 1), (2, 3, 4), (4, 2, 3))] + [S('tensorh', c, op=o, d=d, nr=2, ns=3, nt=4) for o in (5, 6) for d in (1, 2, 3)] + [S('tensorh', c, op=7, nr=2, mr=3, ns=4, ms=1), S('tensorh', c, op=8, nr=2, mr=3, ns=1, ms=2, nt=3, mt=2)]
    jobs += [S('elh', c, dim=2, geo=0, nr=3), S('elh', c, dim=3, geo=0, nt=3), S('fph', c, dim=2, np=2, pat=3, npt=2, line=3), S('fph', c, dim=3, np=2, pat=3, line=3), S('feh', c, dim=2, hist=0, np=2, npt=2), S('feh', c, dim=3, hist=0, np=2, npt=2), S('commh', c, what=3, dom=0, op=0, np=2, vn=2, range=8), S('obh', c, dim=2, geo=2), S('obh', c, dim=3, geo=1), S('lobh', c, mode=0, dim=2, nr=3, ns=2, dir=0)]
P('V01', jobs)
PROPS['K02']['jobs'] += [J('commh', what=5, dom=d, op=o, np=np, vn=2 if o < 4 else 1, range=9 if o < 4 else 3, cpus=1, nval=1, nrand=0) for np in (1, 2, 3, 5) for d in (0, 2, 3) for o in (0, 2, 4) if not (o == 4 and np > 3) and not (o == 2 and np > 3)]
for m in METH:
    PROPS['G02']['jobs'] += [G(method=m, mode=md, vn=0, np=2, n=2, K=1, dom=2) for md in (1, 2)] + [G(method=m, mode=md, vn=2, np=3, n=0, K=1, dom=2) for md in (0, 1, 2)]
    PROPS['G05']['jobs'] += [G(method=m, nb=1, mode=md, vn=0, np=2, n=2, K=1, dom=2) for md in (1, 2)] + [G(method=m, nb=1, mode=2, vn=2, np=3, n=0, K=1, dom=2)]
PROPS['G08']['jobs'] += [FG(call=c, dom=2, np=2, n=2, K=1, vn=0) for c in (1, 2, 3, 5, 6)]

# ---------------------------------------------------------------- Fortran handles
HN = lambda **kw: J('hndh', **dict(dict(cpus=1, nval=1, nrand=0), **kw))
jobs = [HN(kinds=k, ops=s, np=p) for k, s, p in ((1, 5, 1), (1, 4, 2), (2, 5, 1), (2, 4, 2), (2, 3, 3), (4, 4, 1), (4, 3, 2), (7, 3, 1), (7, 2, 2), (1, 3, 3))]
jobs += [HN(kinds=k, pre=r, ops=s, np=p) for k, r, s, p in ((1, 5, 3, 1), (2, 5, 3, 1), (4, 4, 1, 1), (4, 3, 1, 2), (7, 4, 1, 2), (1, 6, 2, 2), (2, 6, 2, 2))]
jobs += [HN(kinds=k, pre=r, ops=s, np=p, misuse=1) for k, r, s, p in ((1, 0, 3, 1), (1, 2, 2, 2), (2, 0, 3, 1), (2, 2, 2, 2), (4, 0, 3, 1), (4, 3, 1, 1), (4, 1, 2, 1), (7, 8, 1, 1), (7, 3, 1, 2))]
jobs += [HN(cfg='usr', kinds=7, pre=3, ops=1, misuse=1), HN(cfg='ser', kinds=7, pre=2, ops=1, misuse=1), HN(cfg='ser', kinds=1, pre=1, ops=3), HN(cfg='g32', kinds=3, ops=3, misuse=1), HN(cfg='l64', kinds=7, pre=1, ops=2, misuse=1)]
jobs += [HN(kinds=k, ops=s, np=p, **T) for k, s, p in ((1, 6, 1), (1, 5, 2), (2, 6, 1), (2, 5, 3), (4, 5, 1), (4, 4, 2), (7, 4, 2))] + [HN(kinds=7, pre=4, ops=3, np=2, misuse=1, **T), HN(kinds=4, ops=4, np=3, misuse=1, **T)]
P('L01', jobs)
