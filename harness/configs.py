# Which harness runs decide which property, and within which bounds.
ASSUME = [
 'memory accesses are sequentially consistent (weaker orderings of std::atomic are not explored)',
 'pthread mutexes, condition variables, std::condition_variable, operator new/delete and sleep are modelled (rt/models.cpp, rt/pthread_model.inc); requests over 2^33 bytes fail, smaller ones succeed',
 'sleep_for completes only when no other thread can run',
 'the source is compiled by clang at -O1 without optimisation passes; compiler bugs are out of scope',
 'threads switch only at synchronisation operations and at accesses found to race (justified by the race check of the same run)',
]
ASSUME_P = {}
CHECKS = {}
def add(prop, name, h, bounds, **kw):
    d = dict(name=name, h=h, bounds=bounds); d.update(kw); CHECKS.setdefault(prop, []).append(d)
SEMB = 'all schedules, wakeup choices and %s of: %s'
FULLR = 'all 64-bit initial counts and maxima'
SMALL = 'initial counts and maxima 0..3'
def sem(prop, name, what, full=1, **D):
    tier = D.pop('tier', 'quick'); kw = D.pop('kw', {}); D['FULL'] = full
    add(prop, name, 'sem_conc.cpp', SEMB % (FULLR if full else SMALL, what), D=D, tier=tier, **kw)
for p in ('C01', 'C02', 'C04'):
    F1 = dict(FUN=1) if p != 'C04' else dict(FUN=2)
    sem(p, 't2g1x2', '2 takers and 1 giver x 2 operations', NTAKE=2, NGIVE=1, NOPS=2, **F1)
    sem(p, 't1g2x2', '1 taker and 2 givers x 2 operations', NTAKE=1, NGIVE=2, NOPS=2, **F1)
    sem(p, 't2g1x2fn', '2 takers and 1 giver x 2 operations, functors that may throw', full=0, NTAKE=2, NGIVE=1, NOPS=2, FUN=6, kw=dict(cost=9))
    sem(p, 't1g2x2fn', '1 taker and 2 givers x 2 operations, functors that may throw', full=0, NTAKE=1, NGIVE=2, NOPS=2, FUN=6, kw=dict(cost=9))
    sem(p, 't2g2x2', '2 takers and 2 givers x 2 operations', full=0 if p == 'C04' else 1, NTAKE=2, NGIVE=2, NOPS=2, NOBLOCK=1, kw=dict(cost=10), **F1)
    sem(p, 'mixed3', '3 threads: take-give, give-take, take-take', NMIX=3, NTAKE=0, NGIVE=0, PAT=0b110110, NOPS=2, **F1)
    sem(p, 'spur', '2 takers and 1 giver x 2 operations with functors and up to 2 spurious wakeups', NTAKE=2, NGIVE=1, NOPS=2, FUN=2, SPUR=2, kw=dict(cost=5))
    if p != 'C01': sem(p, 't2g1any', '2 takers and 1 giver x 1 operation; no functor, one that returns, one that throws, or an empty one', full=0, NTAKE=2, NGIVE=1, NOPS=1, FUN=15 if p != 'C04' else 14)
    if p == 'C04': sem(p, 't1g1x2any', '1 taker and 1 giver x 2 operations; no functor, one that returns, one that throws, or an empty one', full=0, NTAKE=1, NGIVE=1, NOPS=2, FUN=15, tier='thorough')
    if p != 'C01': sem(p, 't1g2any', '1 taker and 2 givers x 1 operation; no functor, one that returns, one that throws, or an empty one', full=0, NTAKE=1, NGIVE=2, NOPS=1, FUN=15 if p != 'C04' else 14)
    sem(p, 't3g3x1', '3 takers and 3 givers x 1 operation', NTAKE=3, NGIVE=3, NOPS=1, FUN=1, tier='thorough')
    sem(p, 't2g2x2fn', '2 takers and 2 givers x 2 operations, functors that may throw', full=0, NTAKE=2, NGIVE=2, NOPS=2, FUN=6, tier='thorough', kw=dict(cost=99))
    sem(p, 't2g2x3', '2 takers and 2 givers x 3 operations', full=0, NTAKE=2, NGIVE=2, NOPS=3, FUN=1, tier='thorough', kw=dict(cost=99,optional=True))
def simple(name, typ, size, n, tier='quick', **kw):
    add('C06', name, 'ring_simple.cpp', 'every sequence of %d puts and gets with all values; requested size %s; element type %s' % (n, size or '0..4', typ), D=dict(TYPE="'%s'" % typ if 0 else typ, SIZE=size, NOPS=n), tier=tier, **kw)
simple('u32', 'uint32_t', 0, 10); simple('u8', 'uint8_t', 2, 9); simple('ptr', 'Obj*', 3, 10); simple('cptr', 'const Obj*', 2, 9); simple('bool', 'bool', 2, 8); simple('dbl', 'double', 2, 8); simple('voidp', 'void*', 4, 10); simple('cvoid', 'const void*', 2, 6); simple('i16', 'int16_t', 1, 8)
simple('u64n14', 'uint64_t', 4, 14, 'thorough'); simple('u32n12', 'uint32_t', 0, 14, 'thorough')
def rsize(name, what, tier='quick', kw={}, **D):
    add('C07', name, 'ring_size.cpp', what, D=D, tier=tier, **kw)
rsize('all', 'every 64-bit requested size', TYPE='int'); rsize('allguard', 'every requested size 1..2^20 of a RingBufferGuarded', GUARDED=1, TYPE='uint64_t'); rsize('allptr', 'every 64-bit requested size, pointers', TYPE='void*'); rsize('all8', 'every 64-bit requested size, bytes', TYPE='uint8_t')
rsize('fill40', 'requested sizes 0..40, filled completely', FILL=40, TYPE='int'); rsize('fill40p', 'requested sizes 0..40, filled completely', FILL=40, TYPE='uint64_t'); rsize('fill40b', 'requested sizes 0..40, filled completely', FILL=40, TYPE='uint8_t')
rsize('fill4096', 'requested sizes 4095..4096, filled completely', LO=4095, FILL=4096, TYPE='uint64_t')
rsize('fill65536', 'requested sizes 65535..65536, filled completely', LO=65535, FILL=65536, TYPE='int')
rsize('fill1M', 'requested sizes 2^20-1..2^20+64, filled completely', LO=1048575, FILL=1048640, TYPE='int', tier='thorough'); rsize('fill65537', 'requested size 65537, filled completely', LO=65537, FILL=65537, TYPE='uint8_t', tier='thorough')
def guard(props, name, tier='quick', cost=3, kw={}, **D):
    d = dict(NP=2, NC=1, KP=1, KC=2, MINN=1, MAXN=2); d.update(D); n = ('%d' % d['MINN']) if d['MINN'] == d['MAXN'] else '%d..%d' % (d['MINN'], d['MAXN'])
    w = 'all schedules, wakeup choices and element values of: %d producers x %d puts, %d consumers x %d gets%s; requested sizes %s%s' % (d['NP'], d['KP'], d['NC'], d['KC'], ', %d aborting threads' % d['NA'] if d.get('NA') else '', n, ', up to %d spurious wakeups' % d['SPUR'] if d.get('SPUR') else '')
    for p in props.split(): add(p, name, 'ring_guard.cpp', w, D=d, tier=tier, cost=cost, **kw)
guard('C08 C09', 'p3x1c1x3', NP=3, KP=1, NC=1, KC=3, MINN=1, MAXN=1, cost=4)
guard('C08 C09', 'p2x2c1x3n1', NP=2, KP=2, NC=1, KC=3, MINN=1, MAXN=1, cost=6)
guard('C08 C09', 'p2x2c1x3n2', NP=2, KP=2, NC=1, KC=3, MINN=2, MAXN=2, cost=9)
guard('C08 C09', 'p2x2c2x1n2', NP=2, KP=2, NC=2, KC=1, MINN=2, MAXN=2, cost=20)
guard('C08 C09', 'p1x4c1x4', NP=1, KP=4, NC=1, KC=4, MINN=1, MAXN=3)
guard('C08 C09', 'p1x2c2x2spur', NP=1, KP=2, NC=2, KC=2, MINN=1, MAXN=1, PRE=1, SPUR=1, cost=5)
guard('C08 C09', 'p2x1c2x1ptr', NP=2, KP=1, NC=2, KC=1, MINN=1, MAXN=1, TYPE='Obj*', cost=5)
guard('C08 C09', 'p2x1c1x3cptr', NP=2, KP=1, NC=1, KC=3, MINN=1, MAXN=2, PRE=1, TYPE='const Obj*', cost=5)
guard('C08 C09', 'p1x3c1x4primed', NP=1, KP=3, NC=1, KC=4, MINN=2, MAXN=2, PRE=2, PRIMED=1, TYPE='uint32_t', cost=5)
guard('C08 C09', 'p1x5c1x1', NP=1, KP=5, NC=1, KC=1, MINN=1, MAXN=3, cost=6)
guard('C08 C09', 'p3x2c1x1n3', NP=3, KP=2, NC=1, KC=1, MINN=3, MAXN=3, tier='thorough', cost=90)
guard('C08 C09', 'p2x2c1x1n1', NP=2, KP=2, NC=1, KC=1, MINN=1, MAXN=1, cost=6)
guard('C08 C09', 'anysize', NP=1, KP=2, NC=1, KC=2, MINN=1, MAXN=1048576, cost=20)
guard('C08 C09', 'p2x2c1x3any', NP=2, KP=2, NC=1, KC=3, MINN=1, MAXN=1048576, tier='thorough', cost=50)
guard('C08 C09', 'p2x2c2x2n1', NP=2, KP=2, NC=2, KC=2, MINN=1, MAXN=1, tier='thorough', cost=60)
guard('C11', 'p2x1c1x2a1', NP=2, KP=1, NC=1, KC=2, NA=1, MINN=1, MAXN=2, cost=4)
guard('C11', 'p2x1c2x1a1', NP=2, KP=1, NC=2, KC=1, NA=1, MINN=1, MAXN=1, tier='thorough', cost=40)
guard('C11', 'p1x1c2x1a1', NP=1, KP=1, NC=2, KC=1, NA=1, MINN=1, MAXN=2, cost=4)
guard('C11', 'p1x2c2x1a1', NP=1, KP=2, NC=2, KC=1, NA=1, MINN=1, MAXN=1, PRE=1, cost=4)
guard('C11', 'p0c3x1a1', NP=0, KP=1, NC=3, KC=1, NA=1, MINN=2, MAXN=2, PRE=1, cost=4)
guard('C11', 'p3x1c0a1', NP=3, KP=1, NC=0, KC=1, NA=1, MINN=1, MAXN=1, PRE=1, cost=4)
guard('C11', 'p1x2c1x2a2', NP=1, KP=2, NC=1, KC=2, NA=2, MINN=1, MAXN=2, cost=4)
guard('C11', 'p1x2c1x2a1ptr', NP=1, KP=2, NC=1, KC=2, NA=1, MINN=1, MAXN=2, TYPE='Obj*', PRE=1, SPUR=1, cost=4)
guard('C11', 'p2x2c1x2a1', NP=2, KP=2, NC=1, KC=2, NA=1, MINN=1, MAXN=2, tier='thorough', cost=40)
NOTES = {}
NA = {}
def sabort(name, tier='quick', cost=2, **D):
    d = dict(NTAKE=1, NGIVE=1, NA=1, KA=1, NOPS=2, FUN=3, FULL=0); d.update(D)
    add('C03', name, 'sem_abort.cpp', 'all schedules and wakeup choices of %d takers and %d givers x %d operations with %s%s; %s' % (d['NTAKE'], d['NGIVE'], d['NOPS'], '%d threads aborting %d times' % (d['NA'], d['KA']) if d['NA'] else 'destruction while threads wait', ', up to %d spurious wakeups' % d['SPUR'] if d.get('SPUR') else '', FULLR if d['FULL'] else 'initial counts 0..2, maxima 0..3'), D=d, tier=tier, cost=cost)
sabort('t1g1x2', FULL=1, FUN=1); sabort('t2g1', NTAKE=2, NOPS=1); sabort('t1g2', NGIVE=2, NOPS=1); sabort('t2g2', NTAKE=2, NGIVE=2, NOPS=1, FUN=1)
sabort('t3', NTAKE=3, NGIVE=0, NOPS=1); sabort('g3', NTAKE=0, NGIVE=3, NOPS=1); sabort('t1g1a2', NA=2, KA=2, NOPS=1); sabort('t1g1fn', FUN=7, NOPS=1); sabort('t2g1spur', NTAKE=2, NOPS=1, FUN=2, SPUR=2)
sabort('destroy', NTAKE=2, NGIVE=1, NA=0, NOPS=1, FUN=1); sabort('destroy2', NTAKE=3, NGIVE=0, NA=0, NOPS=1, FUN=2)
sabort('t2g1x2', NTAKE=2, NOPS=2, FUN=7, tier='thorough', cost=30); sabort('t2g2x2', NTAKE=2, NGIVE=2, NOPS=2, FUN=1, tier='thorough', cost=30)
C5 = 'all pairs of 64-bit initial counts and maxima'
add('C05', 'clamp', 'sem_ctor.cpp', C5 + '; the maximum observed by giving', D=dict(MODE=0)); add('C05', 'clampfn', 'sem_ctor.cpp', C5 + '; the maximum observed by giving with a functor', D=dict(MODE=0, FUNCTOR=1))
add('C05', 'overflow', 'sem_ctor.cpp', 'counts 2^32-3 .. 2^32-1 and above, 3 racing gives, all schedules', D=dict(MODE=1)); add('C05', 'overflowfn', 'sem_ctor.cpp', 'counts 2^32-3 .. 2^32-1 and above, 3 racing gives with functors, all schedules', D=dict(MODE=1, FUNCTOR=1)); add('C05', 'default', 'sem_ctor.cpp', 'all 64-bit initial counts, default maximum', D=dict(MODE=2))
def life(name, tier='quick', cost=2, **D):
    d = dict(MODE=0, NOPS=5, MINN=1, MAXN=3); d.update(D)
    w = ('every sequence of %d operations out of get, put, prime, flush, abort' % d['NOPS'], 'all schedules of prime racing abort', 'all schedules of prime racing %d threads that get and put' % d.get('NG', 1))[d['MODE']]
    add('C10', name, 'ring_life.cpp', '%s; requested sizes %d..%d%s' % (w, d['MINN'], d['MAXN'], ', all element values' if d.get('FULLV') else ''), D=d, tier=tier, cost=cost)
life('ops4', NOPS=4, FULLV=1); life('ops6', NOPS=6); life('ops7u8', NOPS=7, MAXN=2, TYPE='uint8_t'); life('ops5ptr', TYPE='Obj*', NOPS=5, MAXN=3); life('race', FULLV=1, MODE=1, MINN=2, MAXN=4); life('race1', MODE=1, MINN=1, MAXN=1, TYPE='void*'); life('use', FULLV=1, MODE=2, MAXN=2); life('use2', MODE=2, NG=2, MINN=2, MAXN=2)
life('ops8', NOPS=8, tier='thorough', cost=20)

def layout(name, tier='quick', cost=2, **D):
    d = dict(KIND=0, MINN=2, MAXN=2, NOPS=2); d.update(D)
    what = ('ObjectPool', 'BlockPool<uint8_t>', 'BlockPool<uint32_t>', 'BlockPool of a 12-byte class', 'BlockPool<double>')[d['KIND']]
    size = '%d..%d' % (d.get('MINS', 0), d.get('MAXS', 1 << 20)); el = 'element sizes ' if d['KIND'] == 0 else 'elements per block '
    w = '%s, pool sizes %d..%d, %s%s: ' % (what, d['MINN'], d['MAXN'], el, size) + ('all blocks taken and written completely' if d.get('SWEEP') else 'every sequence of %d allocations%s, arbitrary bytes of the blocks held' % (d['NOPS'], ' and releases' if d.get('FREE') else ''))
    add('C12', name, 'pool_layout.cpp', w, D=d, tier=tier, cost=cost)
layout('obj2', cost=4); layout('obj0_2', MINN=0, cost=4); layout('obj4', MINN=4, MAXN=4, NOPS=4, cost=30); layout('objfree', NOPS=4, FREE=1, cost=30)
layout('u8', KIND=1, MINN=4, MAXN=4, NOPS=4, cost=16); layout('u32', KIND=2, MINN=4, MAXN=4, NOPS=4, cost=17); layout('odd', KIND=3, MINN=3, MAXN=3, NOPS=3, MAXS=6); layout('dbl', KIND=4, MINN=4, MAXN=4, NOPS=4, cost=5)
layout('oddfree', KIND=3, NOPS=4, FREE=1, MAXS=6, cost=5)
for k, (n, s) in enumerate([(256, 21), (33, 8), (16, 13), (64, 40)]): layout('sweep%d' % k, SWEEP=1, MINN=n, MAXN=n, MINS=s, MAXS=s)
layout('sweepu8', SWEEP=1, KIND=1, MINN=8, MAXN=8, MINS=13, MAXS=13)
layout('obj8', MINN=8, MAXN=8, NOPS=8, cost=500, tier='thorough'); layout('u8free', KIND=1, MINN=4, MAXN=4, NOPS=6, FREE=1, MAXS=40, cost=70, tier='thorough'); layout('sweepn', SWEEP=1, MINN=100, MAXN=256, MINS=13, MAXS=13, cost=340, tier='thorough')
def pconc(name, pats=(), props='C13 C14', tier='quick', cost=2, race=True, **D):
    d = dict(NT=len(pats) or 2, N=2); d.update(D)
    for i, p in enumerate(pats): d['P%d' % i] = p
    w = 'every sequence of %d allocations and releases by one thread' % d['SEQ'] if d.get('SEQ') else 'all schedules of %d threads performing %s (A allocate, R release oldest, X release newest, C either, S statistics)%s' % (d['NT'], ', '.join(pats), ', each holding %d blocks at the start' % d['HELD'] if d.get('HELD') else '')
    for p in props.split(): add(p, name, 'pool_conc.cpp', '%s; requested pool size %d, %s' % (w, d['N'], 'BlockPool' if d.get('BLOCK') else 'ObjectPool'), D=d, tier=tier, cost=cost, race=race)
pconc('seq6', SEQ=6, MAXB=6); pconc('seq8n4', SEQ=8, N=4, MAXB=7, cost=4); pconc('seq6b', SEQ=6, MAXB=6, BLOCK=1, N=1)
pconc('ar2', ('ARAR', 'ARAR'), cost=6); pconc('ar2s', race=False, pats=('ARAR', 'ARA', 'SSS'), cost=20, props='C14'); pconc('a3', ('A', 'A', 'A')); pconc('ar3', race=False, pats=('AR', 'AR', 'A'), cost=10); pconc('any2', race=False, pats=('CCC', 'CCC'), HELD=1, cost=12)
pconc('rra', ('R', 'R', 'A'), HELD=1, N=4); pconc('ra', ('RA', 'AR', 'S'), HELD=1, N=4, cost=3); pconc('xa', ('AAX', 'AXR'), cost=4); pconc('ar2b', ('ARA', 'AR'), BLOCK=1, cost=3)
pconc('full', ('R', 'A', 'S'), HELD=2, HT=1); pconc('full2', ('RA', 'AR', 'S'), HELD=2, HT=1, cost=3); pconc('fullb', ('RR', 'A', 'S'), HELD=2, HT=1, BLOCK=1)
pconc('ar3x', race=False, pats=('AR', 'AR', 'AR'), cost=25); pconc('any3', race=False, pats=('CC', 'CC', 'CC'), HELD=1, N=4, cost=100, tier='thorough'); pconc('ar4', race=False, pats=('AR', 'AR', 'A', 'A'), cost=200, tier='thorough'); pconc('ar2x3', race=False, pats=('ARARAR', 'ARARAR'), cost=100, tier='thorough')
def pobj(name, tier='quick', cost=2, **D):
    d = dict(MODE=0, NOPS=3, NSLOT=2, KIND0=0); d.update(D)
    w = ('every sequence of %d creations, failing creations, resets and move assignments of %d owners; bases at the start, further in, and virtual' % (d['NOPS'], d['NSLOT']), 'all minimum element sizes 0..48 against types of 13, 17, 24 and 40 bytes', 'all schedules of %d threads creating and releasing and %d releasing' % (d.get('NT', 2), d.get('HELD', 0)), 'all arguments of a non-polymorphic type')[d['MODE']]
    add('C15', name, 'pool_obj.cpp', w, D=d, tier=tier, cost=cost)
pobj('ops3a'); pobj('ops3b', KIND0=1, cost=4); pobj('ops3c', KIND0=2, cost=4); pobj('ops2', KIND0=-1, NOPS=2); pobj('one4', NSLOT=1, NOPS=4, KIND0=1, cost=4); pobj('size', MODE=1); pobj('size4', MODE=1, N=4); pobj('thr2', MODE=2, cost=12); pobj('thr2h', MODE=2, HELD=1, cost=5); pobj('thr1h2', MODE=2, HELD=2, NT=1); pobj('plain', MODE=3)
pobj('ops4a', NOPS=4, cost=130, tier='thorough'); pobj('ops4b', NOPS=4, KIND0=1, cost=130, tier='thorough'); pobj('ops3any', NOPS=3, KIND0=-1, cost=90, tier='thorough')
def pblk(name, what, tier='quick', cost=2, **D):
    add('C16', name, 'pool_block.cpp', what, D=D, tier=tier, cost=cost)
CL = 'every sequence of %d takes, releases and move assignments of blocks of %s elements%s'
pblk('thr3', CL % (4, '3', ', the constructor failing at any element'), KIND=0, MINE=3, MAXE=3, cost=19); pblk('thr2', CL % (3, '2', ', the constructor failing at any element'), KIND=0, MINE=2, MAXE=2, NOPS=3); pblk('thr1_3', CL % (3, '1..3', ', the constructor failing at any element; 12-byte elements'), KIND=0, MINE=1, MAXE=3, NOPS=3, ESZ=5, cost=5); pblk('nothr', CL % (4, '1..4', ''), KIND=1, cost=22); pblk('nothr5', CL % (3, '5', ', 12-byte elements'), KIND=1, MINE=5, MAXE=5, NOPS=3, ESZ=5)
for t, e in (('uint32_t', 4), ('double', 5), ('uint8_t', 20), ('uint16_t', 9), ('uint64_t', 3), ('void*', 3), ('bool', 5)): pblk('s' + t.replace('*', 'p'), 'scalar type %s, 1..%d elements, 4 rounds of filling and taking again' % (t, e), KIND=2, TYPE=t, MAXE=e)
pblk('pod', 'a class without a constructor, 1..4 elements', KIND=3); pblk('conc', 'all schedules of 2 threads taking and releasing blocks of 2 elements, the constructors failing at any', KIND=4, MAXE=2); pblk('conc3', 'all schedules of 2 threads taking and releasing blocks of 3 elements, the constructors failing at any', KIND=4, MAXE=3, cost=4)
pblk('thr1_4', CL % (4, '1..4', ', the constructor failing at any element'), KIND=0, cost=170, tier='thorough')
def mq(props, name, tier='quick', cost=2, race=True, **D):
    d = dict(NP=2, NC=1, KP=1, KC=2, N=1); d.update(D); f = d.get('FAIL', 0)
    w = 'all schedules and wakeup choices of: %d producers x %d messages, %d consumers x %d calls%s%s; requested size %d%s%s%s%s%s' % (d['NP'], d['KP'], d['NC'], d['KC'], ', %d aborting threads' % d['NA'] if d.get('NA') else '', ', %d threads reading the statistics' % d['NS'] if d.get('NS') else '', d['N'], ', %d messages queued beforehand' % d['PRE'] if d.get('PRE') else '',
        ', any of these may throw: ' + ' '.join(x for i, x in enumerate(('constructors', 'dispatches', 'wakeup functors', 'empty functors')) if f >> i & 1) if f else '', ', up to %d spurious wakeups' % d['SPUR'] if d.get('SPUR') else '', ', MessageBase not at the start of the message' if d.get('OFFSET') else '', ', then filled until it blocks' if d.get('PROBE') else '')
    for p in props.split(): add(p, name, 'mq_conc.cpp', w, D=d, tier=tier, cost=cost, race=race)
mq('C17 C18', 'p2c1'); mq('C17', 'p1x3c1n2', NP=1, KP=3, KC=3, N=2); mq('C17 C18', 'p2c2off', NC=2, KC=1, OFFSET=1); mq('C17', 'p1x2c2pre', NP=1, KP=2, NC=2, KC=1, N=2, PRE=1); mq('C17', 'p2x2c1', KP=2, KC=4, cost=4); mq('C17', 'p3c1', NP=3, KC=3, cost=6)
mq('C17', 'p1x2c2n2', NP=1, KP=2, NC=2, KC=2, N=2); mq('C17', 'c2x2n3', NP=0, NC=2, KC=2, N=3, PRE=3); mq('C17', 'fail', NP=1, KP=2, KC=2, N=2, FAIL=7, cost=3); mq('C17', 'p2c1n2', N=2, race=False, cost=30); mq('C17', 'p2c2spur', NC=2, KC=1, SPUR=2, WAKE=1, cost=3)
mq('C17', 'p2x2c2x2', KP=2, NC=2, race=False, tier='thorough', cost=100); mq('C17', 'p2c2n2', NC=2, KC=1, N=2, race=False, tier='thorough', cost=100, optional=True) if 0 else None
mq('C18', 'ctor', FAIL=3, PROBE=1); mq('C18', 'ctorn2', NP=1, KP=2, KC=2, N=2, FAIL=3, PROBE=1); mq('C18', 'wakeup', NP=1, KP=2, KC=2, N=2, FAIL=12, PROBE=1); mq('C18', 'p2x2c1x3', KP=2, KC=3, cost=3); mq('C18', 'failall', NC=2, KC=1, FAIL=15, cost=20); mq('C18', 'spur', NP=1, KP=3, NC=2, KC=1, PRE=1, SPUR=1); mq('C18', 'p1x4n3', NP=1, KP=4, KC=2, N=3, PROBE=1); mq('C18', 'p2n2', NC=0, N=2, KP=2, race=False, cost=20, tier='thorough'); mq('C18', 'full5', NP=1, KP=6, KC=1, N=5, PROBE=1)
mq('C19', 'p1c1', NA=1, NP=1, KC=1, PRE=1); mq('C19', 'p1c2', NA=1, NP=1, NC=2, KC=1, race=False, cost=5); mq('C19', 'p1x2c1x2', NA=1, NP=1, KP=2, N=2, race=False, cost=5); mq('C19', 'fail', NA=1, NP=1, KP=1, FAIL=7, cost=4); mq('C19', 'a2', NA=2, NP=1, KC=1, PRE=1, N=2, race=False, cost=25); mq('C19', 'p2c1', NA=1, NP=2, KC=1, race=False, cost=60); mq('C19', 'destroy', NC=2, KC=1, NP=1, KP=3, PRE=1); mq('C19', 'destroyp', NC=0, NP=2, KP=2); mq('C19', 'off', NA=1, NP=1, KC=1, PRE=1, OFFSET=1); mq('C19', 'p2c0', NA=1, NP=2, NC=0, PRE=1, race=False, cost=4)
mq('C19', 'p2c2', NA=1, NP=2, NC=2, KC=1, race=False, tier='thorough', cost=200)
mq('C21', 'p2c1', NS=1); mq('C21', 'p1x2c1n2', NS=1, NP=1, KP=2, N=2); mq('C21', 'p1x2c2n2', NS=1, NP=1, KP=2, NC=2, KC=1, N=2, PRE=1, race=False, cost=7); mq('C21', 'p2n2', NS=1, NC=0, N=2, race=False, cost=15); mq('C21', 'probe', PROBE=1, FAIL=3); mq('C21', 'fail', NS=1, NP=1, KP=2, KC=2, FAIL=7); mq('C21', 'c2', NS=1, NP=0, NC=2, KC=1, N=3, PRE=2); mq('C21', 'abort', NS=1, NA=1, NP=1, KC=1, PRE=1, cost=3)
mq('C21', 'p2x2c1', NS=1, KP=2, KC=3, race=False, tier='thorough', cost=50)

def seq(props, name, h, bounds, tier='quick', cost=2, race=True, **D):
    for p in props.split(): add(p, name, h, bounds, D=D, tier=tier, cost=cost, race=race)
# C01: observers
add('C01', 'obs', 'sem_conc.cpp', SEMB % (SMALL, '1 taker and 1 giver x 2 operations and 1 thread reading the count twice'), D=dict(NTAKE=1, NGIVE=1, NOPS=2, FUN=3, FULL=0, NOBS=1, NOBLOCK=1))
# C20
LK = 'every sequence of %d operations (create, destroy, unlock, lock, move, move assign) on %d lock objects of %d queues'
seq('C20', 'ops5', 'mq_lock.cpp', LK % (5, 2, 1), MODE=0, NOPS=5); seq('C20', 'ops6', 'mq_lock.cpp', LK % (6, 2, 1), cost=20, MODE=0, NOPS=6); seq('C20', 'ops4q2', 'mq_lock.cpp', LK % (4, 2, 2), MODE=0, NOPS=4, NQ=2); seq('C20', 'ops4o3', 'mq_lock.cpp', LK % (4, 3, 1), MODE=0, NOPS=4, NSLOT=3)
LT = 'all schedules of %d dispatching threads x %d messages and %d threads holding the lock in 4 ways%s'
seq('C20', 'd1l1', 'mq_lock.cpp', LT % (1, 1, 1, ''), MODE=1); seq('C20', 'd2l1fail', 'mq_lock.cpp', LT % (2, 1, 1, '; dispatches may throw'), MODE=1, ND=2, FAILS=1, cost=3); seq('C20', 'd1x2l2', 'mq_lock.cpp', LT % (1, 2, 2, ''), MODE=1, ND=1, KD=2, NL=2); seq('C20', 'd2l2', 'mq_lock.cpp', LT % (2, 1, 2, ''), MODE=1, ND=2, NL=2, cost=20); seq('C20', 'd2l1wake', 'mq_lock.cpp', LT % (2, 1, 1, '; wakeup functors'), MODE=1, ND=2, WAKE=1)
seq('C20', 'disabled', 'mq_lock.cpp', 'locking disabled, a message queued or not', MODE=2); seq('C20', 'ops7', 'mq_lock.cpp', LK % (7, 2, 1), tier='thorough', cost=200, MODE=0, NOPS=7)
mq('C20', 'p1x2c2', NP=1, KP=2, NC=2, KC=1, N=2, LOCKING=1, cost=3)
# C22
PU = 'every sequence of %d puts, dispatches and purges, then a purge; %d slots%s'
seq('C22', 'n2', 'mq_seq.cpp', PU % (4, 2, ''), MODE=0, N=2, NOPS=4); seq('C22', 'n1', 'mq_seq.cpp', PU % (5, 1, ''), MODE=0, N=1, NOPS=5); seq('C22', 'n2fail', 'mq_seq.cpp', PU % (4, 2, '; constructors and dispatches may throw'), cost=11, MODE=0, N=2, NOPS=4, FAILS=1, LOCKING=1); seq('C22', 'n3', 'mq_seq.cpp', PU % (6, 3, ''), cost=30, MODE=0, N=3, NOPS=6); seq('C22', 'n4', 'mq_seq.cpp', PU % (7, 4, ''), tier='thorough', cost=300, MODE=0, N=4, NOPS=7)
# C23
SZ = 'message types of 16..40 bytes (also MessageBase not at their start, or virtual) against all maximum sizes %d..%d, queue of %d full or not'
seq('C23', 'size1', 'mq_seq.cpp', SZ % (0, 48, 1), MODE=1, N=1); seq('C23', 'size1big', 'mq_seq.cpp', SZ % (0, 1 << 20, 1), MODE=1, N=1, MAXS=1 << 20); seq('C23', 'size2', 'mq_seq.cpp', SZ % (17, 1000, 2), cost=12, MODE=1, N=2, MINS=17, MAXS=1000); seq('C23', 'size3', 'mq_seq.cpp', SZ % (0, 48, 3), cost=22, MODE=1, N=3, LOCKING=1)
ST = 'every sequence of %d puts and dispatches of %d message types; %s slots, all maximum sizes %d..%d'
seq('C23', 'store3', 'mq_seq.cpp', ST % (4, 2, '1..3', 0, 48), cost=14, MODE=2, N=3, MINN=1, NOPS=4, KINDS=2); seq('C23', 'store4', 'mq_seq.cpp', ST % (4, 2, '4', 0, 1 << 20), cost=77, MODE=2, N=4, MINN=4, NOPS=4, KINDS=2, MINS=0, MAXS=1 << 20); seq('C23', 'store2', 'mq_seq.cpp', ST % (5, 2, '2', 40, 1 << 20), cost=5, MODE=2, N=2, MINN=2, NOPS=5, KINDS=2, MINS=40, MAXS=1 << 20)
seq('C23', 'store3b', 'mq_seq.cpp', ST % (5, 2, '3', 40, 1000), cost=9, MODE=2, N=3, MINN=3, NOPS=5, KINDS=2, MINS=40, MAXS=1000); seq('C23', 'store2k3', 'mq_seq.cpp', ST % (4, 3, '2', 30, 100), cost=20, MODE=2, N=2, MINN=2, NOPS=4, KINDS=3, MINS=30, MAXS=100); seq('C23', 'store2k6', 'mq_seq.cpp', ST % (3, 6, '2', 0, 48), tier='thorough', cost=60, MODE=2, N=2, MINN=2, NOPS=3, KINDS=6)
mq('C23', 'conc', DY=1); mq('C23 C17', 'slow', DY=1, NC=2, KC=1); mq('C23', 'concn2', DY=1, NP=1, KP=3, NC=1, KC=3, N=2); mq('C23', 'concfail', DY=1, FAIL=6, NP=1, KP=2); mq('C23', 'conc2', DY=1, NP=1, KP=2, NC=2, KC=1, OFFSET=1)
# C24
seq('C24', 'codes', 'mutex.cpp', 'every error code of lock, try_lock and unlock, the mutex free or held', MODE=0); seq('C24', 'ops6', 'mutex.cpp', 'every sequence of 6 operations on 2 mutexes', MODE=1, NOPS=6); seq('C24', 't2x2', 'mutex.cpp', 'all schedules of 2 threads x 2 locks or try_locks', MODE=2); seq('C24', 't3', 'mutex.cpp', 'all schedules of 3 threads x 1 lock or try_lock', MODE=2, NT=3, KT=1); seq('C24', 't2x3', 'mutex.cpp', 'all schedules of 2 threads x 3 locks or try_locks', MODE=2, NT=2, KT=3); seq('C24', 'keep', 'mutex.cpp', 'all schedules of 2 threads trying while the mutex is held', MODE=2, KEEP=1); seq('C24', 't3x3', 'mutex.cpp', 'all schedules of 3 threads x 3 locks or try_locks', tier='thorough', MODE=2, NT=3, KT=3)
# C25
HE = 'every sequence of %d steady-state operations on a %s of size %d, then destruction'
for k, (nm, what) in enumerate((('ring', 'RingBufferSimple'), ('guard', 'RingBufferGuarded'), ('pool', 'ObjectPool'), ('block', 'BlockPool'), ('queue', 'MessageQueue'))): seq('C25', nm, 'heap.cpp', HE % (5, what, 2), cost=6, KIND=k)
seq('C25', 'primed', 'heap.cpp', HE % (5, 'primed RingBufferGuarded', 2), KIND=1, PRIMED=1); seq('C25', 'ringp', 'heap.cpp', HE % (6, 'RingBufferSimple of pointers', 3), KIND=0, N=3, NOPS=6, TYPE='void*'); seq('C25', 'blockc', 'heap.cpp', HE % (5, 'BlockPool of a class', 2), cost=6, KIND=3, TYPE='Elem'); seq('C25', 'queuef', 'heap.cpp', HE % (5, 'MessageQueue with wakeup functors', 2), KIND=4, FUNC=1); seq('C25', 'queuel', 'heap.cpp', HE % (6, 'MessageQueue with dispatch locking', 3), KIND=4, LOCKING=1, N=3, NOPS=6)
HT = 'all schedules of 2 threads using one %s, then destruction'
seq('C25', 'guardt', 'heap.cpp', HT % 'RingBufferGuarded', KIND=1, THREADS=1); seq('C25', 'poolt', 'heap.cpp', HT % 'ObjectPool', KIND=2, THREADS=1, race=False, cost=20); seq('C25', 'blockt', 'heap.cpp', HT % 'BlockPool', KIND=3, THREADS=1, race=False, cost=35); seq('C25', 'queuet', 'heap.cpp', HT % 'MessageQueue', KIND=4, THREADS=1)
for k, nm in ((0, 'ring7'), (2, 'pool7'), (3, 'block7'), (4, 'queue7')): seq('C25', nm, 'heap.cpp', HE % (7, ('RingBufferSimple', '', 'ObjectPool', 'BlockPool', 'MessageQueue')[k], 2), tier='thorough', cost=60, KIND=k, NOPS=7)
# C26
RA = 'races in all schedules of '
add('C26', 'sem', 'sem_conc.cpp', RA + '1 taker, 1 giver x 2, 1 thread reading the count and 1 aborting', D=dict(NTAKE=1, NGIVE=1, NOPS=2, FUN=3, FULL=0, NOBS=1, NA=1, NOBLOCK=1), cost=9); add('C26', 'sem2', 'sem_conc.cpp', RA + '2 takers, 1 giver and 1 thread reading the count', D=dict(NTAKE=2, NGIVE=1, NOPS=1, FUN=7, FULL=0, NOBS=1, NOBLOCK=1), cost=9)
add('C26', 'sem3', 'sem_conc.cpp', RA + '1 taker, 2 givers and 1 thread reading the count', D=dict(NTAKE=1, NGIVE=2, NOPS=1, FUN=3, FULL=0, NOBS=1, NOBLOCK=1), cost=9)
guard('C26', 'ring', NP=1, KP=2, NC=1, KC=2, NOBS=1, MINN=1, MAXN=2, cost=4); guard('C26', 'ring2', NP=2, KP=1, NC=1, KC=2, MINN=1, MAXN=2, cost=5); guard('C26', 'ring3', NP=1, KP=2, NC=2, KC=1, MINN=2, MAXN=2, cost=6); guard('C26', 'ringabort', NP=1, KP=2, NC=1, KC=2, NA=1, MINN=1, MAXN=2, cost=5)
def r26(name, h, bounds, cost=4, **D): add('C26', name, h, RA + bounds, D=D, cost=cost)
r26('prime', 'ring_life.cpp', 'prime racing gets and puts', MODE=2, MINN=1, MAXN=2); r26('primeabort', 'ring_life.cpp', 'prime racing abort', MODE=1, MINN=2, MAXN=4)
for i, (nm, pats, kw) in enumerate((('pool1', ('ARA', 'AR', 'S'), {}), ('pool2', ('RA', 'AR', 'S'), dict(HELD=1, N=4)), ('pool3', ('A', 'A', 'S'), {}), ('pool4', ('R', 'R', 'A'), dict(HELD=1, N=4)), ('poolb', ('ARA', 'AR'), dict(BLOCK=1)))): pconc(nm, pats, props='C26', cost=5, **kw)
r26('pobj', 'pool_obj.cpp', '2 threads creating and releasing objects', cost=12, MODE=2, NOPS=3, NSLOT=2, KIND0=0); r26('pobjh', 'pool_obj.cpp', '2 threads creating, releasing and handing over objects', cost=5, MODE=2, HELD=1, NOPS=3, NSLOT=2, KIND0=0); r26('pblk', 'pool_block.cpp', '2 threads taking and releasing blocks', KIND=4, MAXE=2)
mq('C26', 'mq1', NS=1, NP=1, KP=2, N=2, NC=1, KC=2, cost=5); mq('C26', 'mq2', NS=1); mq('C26', 'mq3', NC=2, KC=1, NP=1, KP=2, N=2, FAIL=7, cost=4); mq('C26', 'mqabort', NA=1, NP=1, KC=1, PRE=1, NS=1, cost=4); mq('C26', 'mqlock', NP=1, KP=2, NC=2, KC=1, N=2, LOCKING=1, cost=4)
r26('lock', 'mq_lock.cpp', 'dispatching threads and one that holds the lock in 4 ways', MODE=1, ND=2)

for t, n in (('uint32_t', 4), ('uint64_t', 2), ('uint8_t', 8)): add('C06', 'laps%d' % n, 'ring_lap.cpp', 'a ring of %d in use for any number of laps up to once around a 32-bit count (by affine extrapolation, counterexamples run in full), then every sequence of %d puts and gets' % (n, n + 2), D=dict(TYPE=t, SIZE=n, NOPS=n + 2), laps=True, optional=True, native_s=300)
