import os, re
from run import HERE, Job, REPO
SPECS = {}
FMI3 = ['BouncingBall', 'Clocks', 'Dahlquist', 'Feedthrough', 'Resource', 'Roberts', 'Stair', 'StateSpace', 'VanDerPol']
FMI2 = ['BouncingBall', 'Dahlquist', 'Feedthrough', 'Resource', 'Stair', 'VanDerPol']
EV = ['BouncingBall', 'Clocks', 'Feedthrough', 'Stair', 'StateSpace']


def p01():
    INST, CONF, INIT, EVENT, CT, STEPM, CLKA, RECONF, TERM = [1 << i for i in range(9)]
    for m in FMI3:
        if m == 'Clocks':
            kinds = [('se', 2, 0)]
        else:
            kinds = [('me', 0, 0), ('cs', 1, 0)] + ([('cs-event', 1, 1)] if m in EV else [])
        for nm, k, e in kinds:
            d = [f'KIND={k}', f'EVENTMODE={e}']
            deep = m in ('Clocks', 'Dahlquist') or k == 0 or (m == 'Stair' and e)
            if k == 1:
                for x in (INST, CONF, INIT, EVENT, STEPM, RECONF, TERM):
                    yield Job(f'{m}-{nm}-mode{x}', 'p01_lifecycle3.c', m, 3, d + [f'MODE={x}', f'K={2 if deep else 1}'], unwind=6, checks='none')
            else:
                yield Job(f'{m}-{nm}', 'p01_lifecycle3.c', m, 3, d + [f'K={2 if deep else 1}'], unwind=6, checks='none')
        yield Job(f'{m}-null', 'p01_lifecycle3.c', m, 3, [f'KIND={kinds[0][1]}', 'NULLCALLS'], unwind=6, checks='none')


SPECS['P01'] = dict(jobs=p01, bounds='every mode reachable by a legal call prefix, then 2 symbolically chosen calls out of 55 (1 for some model and interface combinations in the quick tier); empty value lists; one step size')


def p02():
    INST, INIT, EVENT, CT, STEPC, TERM = [1 << i for i in range(6)]
    for m in FMI2:
        yield Job(f'{m}-me', 'p02_lifecycle2.c', m, 2, ['KIND=0', 'K=2'], unwind=6, checks='none')
        for x in (INST, INIT, STEPC, TERM):
            if m == 'BouncingBall' and x == INIT:
                # a fixed first call keeps the step loop of the second call concrete
                for f in [*range(17), *range(27, 36)]:
                    yield Job(f'{m}-cs-state{x}-call{f}', 'p02_lifecycle2.c', m, 2, ['KIND=1', f'MODE={x}', 'K=2', f'FIRST={f}'], unwind=6, checks='none')
                continue
            yield Job(f'{m}-cs-state{x}', 'p02_lifecycle2.c', m, 2, ['KIND=1', f'MODE={x}', 'K=2'], unwind=6, checks='none')
        for k in (0, 1):
            yield Job(f'{m}-null{k}', 'p02_lifecycle2.c', m, 2, [f'KIND={k}', 'NULLCALLS'], unwind=6, checks='none')


SPECS['P02'] = dict(jobs=p02, bounds='every state reachable by a legal call prefix, then 2 symbolically chosen calls out of 36; empty value lists; one step size')

M_INST, M_CONF, M_INIT, M_EVENT, M_CT, M_STEP, M_CLK, M_RECONF, M_TERM = [1 << i for i in range(9)]
ME, CS, CSE, SE = range(4)
KN = ['me', 'cs', 'cse', 'se']


def combos(models3=FMI3, models2=FMI2, kinds=(ME, CS, CSE, SE), modes=None):
    """(model, fmi version, interface kind, mode) that exist"""
    for fmi, models in ((3, models3), (2, models2)):
        for m in models:
            for k in kinds:
                if (k == SE) != (m == 'Clocks') or (k == CSE and (fmi == 2 or m not in EV)):
                    continue
                ms = {ME: [M_INST, M_CONF, M_INIT, M_EVENT, M_CT, M_RECONF, M_TERM], CS: [M_INST, M_CONF, M_INIT, M_STEP, M_RECONF, M_TERM],
                      CSE: [M_INST, M_CONF, M_INIT, M_EVENT, M_STEP, M_RECONF, M_TERM], SE: [M_INST, M_CONF, M_INIT, M_CLK, M_RECONF, M_TERM]}[k]
                for x in ms:
                    if fmi == 2 and x in (M_CONF, M_RECONF):
                        continue
                    if modes is None or x in modes:
                        yield m, fmi, k, x


def access(name, d):
    for m, fmi, k, x in combos():
        tiers = ('quick', 'thorough')
        if k == CSE and x != M_EVENT:
            continue
        if name == 'set':
            if m == 'Resource' or (m == 'Stair' and not x & (M_INST | M_INIT)) or (fmi == 2 and x == M_TERM) \
                    or (m == 'BouncingBall' and k == ME and x & (M_CONF | M_RECONF | M_TERM)):
                continue  # nothing can be set
            if x & (M_TERM | M_CONF | M_RECONF) or (m in ('StateSpace', 'Feedthrough') and (k, x) not in ((ME, M_INST), (ME, M_CT), (CS, M_STEP))):
                tiers = ('thorough',)
        elif m == 'Feedthrough' and (k, x) not in ((ME, M_EVENT), (ME, M_CT), (CS, M_STEP)):
            tiers = ('thorough',)
        elif fmi == 3 and k != SE and x & (M_CONF | M_TERM) and m != 'StateSpace':
            tiers = ('thorough',)
        for dae in ((0, 1) if m == 'Roberts' else (0,)):
            split = [('', [])]
            if m == 'Feedthrough' and fmi == 3:
                split = [('', ['TYPES=0xfff'])] + ([('-bin', ['TYPE=12', 'VR=31'])] if x != M_CT else [])
                if name != 'set':
                    split = [('', ['TYPES=0xfff']), ('-bin', ['TYPE=12', 'VR=(in_bool() ? 32 : 33)'])]
            if m == 'StateSpace' and name != 'set' and x & (M_CONF | M_RECONF):
                split = [('', ['TYPES=0xfdff']), ('-dim', ['TYPE=9', 'VR=(1 + in_range(0, 2))', 'NOMATRIX']), ('-u64', ['TYPE=9', 'VR=(in_bool() ? 0 : 4 + in_range(0, 0xfffff))', 'NOMATRIX'])]
            for sn, sd in split:
                yield Job(f'{m}{fmi}-{KN[k]}-mode{x}-{name}' + ('-dae' if dae else '') + sn, 'p04_access.c', m, fmi,
                          [f'KIND={k}', f'MODE={x}'] + (['SYMVALS'] if m != 'StateSpace' else []) + (['DAE'] if dae else []) + d + sd,
                          unwind=10, checks='none', tiers=tiers, slice=True,
                          witness=name == 'set' or bool(x & (M_EVENT | M_STEP | M_CLK)))


def p04():
    return access('set', ['NODERIVED'])


def p05():
    return access('refused', ['REFUSED', 'NODERIVED'])


SPECS['P04'] = dict(jobs=p04, bounds='one set of any variable to any value (strings up to 3 bytes, binaries of 3) after setting all variables to symbolic values (StateSpace: start values, dimension 3), in every mode')
SPECS['P05'] = dict(jobs=p05, bounds='any 24 bit value reference, any of the 13 types, any value (strings up to 3 bytes, binaries of 3), in every mode; StateSpace at dimension 3 (after a refused dimension compared without its matrices)')


def p06():
    for fmi, models in ((3, FMI3), (2, FMI2)):
        for m in models:
            types = {'Feedthrough': ['F64', 'F32', 'I8', 'U8', 'I16', 'U16', 'I32', 'U32', 'I64', 'U64', 'B', 'S', 'BIN'],
                     'StateSpace': ['F64', 'U64'], 'Roberts': ['F64', 'B'], 'Stair': ['F64', 'I32'], 'Resource': ['F64', 'I32'], 'Clocks': ['F64', 'I32']}.get(m, ['F64'])
            for t in types:
                if fmi == 2 and t not in ('F64', 'I32', 'B', 'S'):
                    continue
                for op in ('get', 'set'):
                    for n, null in ((1, 0), (2, 0), (1, 1)):
                        yield Job(f'{m}{fmi}-{op}-{t}-{n}' + ('-null' if null else ''), 'p06_arrays.c', m, fmi,
                                  [f'KIND={SE if m == "Clocks" else ME}', f'T={t}', f'NVR={n}', f'NULL={null}', f'IS_BIN={int(t == "BIN")}'] + (['SET'] if op == 'set' else []),
                                  unwind=10, checks='func', witness=n == 1 and not null)


SPECS['P06'] = dict(jobs=p06, bounds='1 or 2 value references of any 24 bit value, 0 to 4 values (StateSpace dimension 3), every type the model has, initialization mode')


def token(m, fmi):
    """instantiation token documented in the model description"""
    s = open(os.path.join(REPO, m, f'FMI{fmi}.xml')).read()
    return re.search(r'(?:instantiationToken|guid)\s*=\s*"([^"]*)"', s).group(1)


def p03():
    for fmi, models in ((3, FMI3), (2, FMI2)):
        for m in models:
            for k in ((ME, CS, SE) if fmi == 3 else (ME, CS)):
                yield Job(f'{m}{fmi}-{KN[k]}-args', 'p03_instantiate.c', m, fmi, [f'KIND={k}', f'TOKEN="{token(m, fmi)}"'], unwind=10, checks='func')
                if (k == SE) == (m == 'Clocks'):
                    yield Job(f'{m}{fmi}-{KN[k]}-start', 'p03_instantiate.c', m, fmi, [f'KIND={k}', f'TOKEN="{token(m, fmi)}"', 'STARTVALUES'], unwind=10, checks='none')


SPECS['P03'] = dict(jobs=p03, bounds='names up to 2 bytes, tokens of every content up to one byte longer than the right one, every combination of flags, callbacks and absent pointers')


def state(extra, dists=(0, 1, 3), modes=None, sym=True):
    Q, T = ('quick', 'thorough'), ('thorough',)
    for m, fmi, k, x in combos(modes=modes):
        if k == CSE and x not in (M_EVENT, M_STEP):
            continue
        big = m in ('Feedthrough', 'StateSpace')
        run = (k, x) in ((CS, M_STEP), (ME, M_CT), (SE, M_CLK))
        base = [f'KIND={k}', f'MODE={x}', 'NODERIVED', 'COUNTER=8'] + extra
        for dist in dists:
            quick = (dist == 1 if big else True) if run else dist == 1 and (k, x) in ((ME, M_EVENT), (CSE, M_EVENT), (CS, M_INST)) and not (big and fmi == 2)
            yield Job(f'{m}{fmi}-{KN[k]}-mode{x}-dist{dist}', 'p07_state.c', m, fmi, base + [f'DIST={dist}'], unwind=13, checks='none', tiers=Q if quick else T, witness=run and dist == 1 and (k == ME or m != 'Roberts') and not big)
        if sym:
            yield Job(f'{m}{fmi}-{KN[k]}-mode{x}-sym', 'p07_state.c', m, fmi, base + ['SYMVALS', 'NOSTR', f'DIST={4 if m == "Feedthrough" else 0}'], unwind=13, checks='none', tiers=Q if run else T, witness=run and not big, slice=True)
            quick = m in ('Dahlquist', 'Stair', 'Clocks') or (m == 'StateSpace' and k == CS)
            yield Job(f'{m}{fmi}-{KN[k]}-mode{x}-probe', 'p07_state.c', m, fmi, base + ['PROBE', 'DIST=3'], unwind=13, checks='none', tiers=Q if quick else T, witness=run and not big)


def sizes(d):
    for fmi, models in ((3, FMI3), (2, FMI2)):
        for m in models:
            yield Job(f'{m}{fmi}-{"size" if not d else "nostate"}', 'p08_size.c', m, fmi, [f'KIND={SE if m == "Clocks" else ME}'] + d, unwind=10, checks='func')


def p07():
    yield from state([])
    yield from sizes(['NOSTATE'])


def p08():
    yield from state(['SERIAL'], dists=(1,))
    for m, fmi, k, x in combos():
        if m in ('BouncingBall', 'Stair', 'Dahlquist', 'Clocks') and (k, x) in ((CS, M_STEP), (ME, M_CT), (SE, M_CLK)):
            yield Job(f'{m}{fmi}-{KN[k]}-existing', 'p07_state.c', m, fmi, [f'KIND={k}', f'MODE={x}', 'NODERIVED', 'COUNTER=8', 'SERIAL', 'EXISTING', 'DIST=1'], unwind=13, checks='none', witness=False)
    yield from sizes([])


SPECS['P07'] = dict(jobs=p07, bounds='one save, any values set or one of three kinds of continuation in between, two restores, then up to 2 internal steps, event update and all reads')
SPECS['P08'] = dict(jobs=p08, bounds='as P07, the state being passed through its serialized bytes, into a new or (BouncingBall, Stair, Dahlquist, Clocks) an existing state; any 64 bit size')


def p09():
    for m, fmi, k, x in combos():
        run = (k, x) in ((CS, M_STEP), (ME, M_CT), (ME, M_EVENT), (CSE, M_EVENT), (SE, M_CLK))
        big = m in ('Feedthrough', 'StateSpace')
        base = [f'KIND={k}', f'MODE={x}', 'NODERIVED', 'RESET', f'COUNTER={9 if x == M_STEP else 8}']
        for dist in (1, 2):
            quick = run and (dist == 1 or not big)
            yield Job(f'{m}{fmi}-{KN[k]}-mode{x}-dist{dist}', 'p07_state.c', m, fmi, base + [f'DIST={dist}', 'T0=2' if m != 'Stair' else 'T0=0'], unwind=13, checks='none', tiers=('quick', 'thorough') if quick else ('thorough',), witness=run and dist == 1 and (k == ME or m != 'Roberts') and not big)
        if x != M_STEP and k != CS:
            yield Job(f'{m}{fmi}-{KN[k]}-mode{x}-earlier', 'p07_state.c', m, fmi, base + ['EARLIER'], unwind=13, checks='none', tiers=('quick', 'thorough') if run and not big else ('thorough',), witness=run and not big)
        quick = m in ('Dahlquist', 'Stair', 'Clocks') or (m == 'StateSpace' and k == CS)
        yield Job(f'{m}{fmi}-{KN[k]}-mode{x}-probe', 'p07_state.c', m, fmi, base + ['PROBE', 'DIST=1'], unwind=13, checks='none', tiers=('quick', 'thorough') if quick else ('thorough',), witness=run)


SPECS['P09'] = dict(jobs=p09, bounds='a history into every mode with any values set, one of two kinds of continuation, reset, then initialization, up to 2 internal steps, event update and all reads')


def p10():
    for m, fmi, k, x in combos():
        run = (k, x) in ((CS, M_STEP), (ME, M_CT), (ME, M_EVENT), (CSE, M_EVENT), (SE, M_CLK))
        big = m in ('Feedthrough', 'StateSpace')
        for dist in (0, 1, 2, 3):
            quick = run and (dist == 1 if big else dist != 3)
            yield Job(f'{m}{fmi}-{KN[k]}-mode{x}-dist{dist}', 'p07_state.c', m, fmi, [f'KIND={k}', f'MODE={x}', 'NODERIVED', 'COUNTER=8', 'ISO', f'DIST={dist}'], unwind=13, checks='none',
                      tiers=('quick', 'thorough') if quick else ('thorough',), witness=run and dist == 1 and (k == ME or m != 'Roberts') and not big)


SPECS['P10'] = dict(jobs=p10, bounds='two instances, calls of one interleaved with sets of any values, steps, errors and freeing of the other; up to 2 internal steps')

CSMODELS = [(m, fmi) for fmi, models in ((3, FMI3), (2, FMI2)) for m in models if m != 'Clocks']


def dostep(fmi, n):
    """bound of the step loop, whatever its number"""
    return {f'fmi{fmi}DoStep.{i}': n for i in range(16)}


def p11():
    for m, fmi in CSMODELS:
        for w in (0, 1, 2):
            for t0 in (0, 50):
                yield Job(f'{m}{fmi}-{("point", "size", "stop")[w]}-from{t0}', 'p11_validate.c', m, fmi, [f'WRONG={w}', f'T0={t0}', 'NODERIVED'], unwind=10, checks='none', max_unwind=20,
                          unwindset=dostep(fmi, 2), tiers=('quick', 'thorough') if t0 == 0 or m == 'Dahlquist' else ('thorough',), witness=m != 'StateSpace')


SPECS['P11'] = dict(jobs=p11, bounds='every pair of doubles as communication point and step size, every finite stop time, start time 0 (50 for Dahlquist), first step; deviations below 4e-5 relative are left to the documented tolerance')


def p12():
    for m, fmi in CSMODELS:
        n = 2 if m == 'Stair' else 3
        us = dostep(fmi, 24) if m == 'Roberts' else {}
        big = m in ('Roberts', 'StateSpace')
        for stop in (0, 1):
            yield Job(f'{m}{fmi}-one' + ('-stop' if stop else ''), 'p12_advance.c', m, fmi, [f'N={n}', 'T0=0', f'STOP={stop}'], unwind=10, unwindset=us, checks='none', replay_timeout=10)
        yield Job(f'{m}{fmi}-two', 'p12_advance.c', m, fmi, [f'N={n}', 'T0=0', 'STOP=0', 'TWICE=1.5*STEP'], unwind=10, checks='none', tiers=('thorough',) if big else ('quick', 'thorough'), witness=not big)
        if fmi == 3 and m in ('BouncingBall', 'Stair', 'Feedthrough'):
            yield Job(f'{m}{fmi}-two-event', 'p12_advance.c', m, fmi, [f'N={n}', 'T0=0', 'STOP=0', 'TWICE=1.5*STEP', 'EVENTMODE'], unwind=10, checks='none', tiers=('thorough',) if m == 'Feedthrough' else ('quick', 'thorough'))
        if m != 'Roberts':
            yield Job(f'{m}{fmi}-t0', 'p12_advance.c', m, fmi, [f'N={n}', 'T0SYM', 'STOP=0', 'GRID=2'], unwind=10, checks='none', witness=not big, tiers=('quick', 'thorough') if m in ('Dahlquist', 'Resource') else ('thorough',))


SPECS['P12'] = dict(jobs=p12, bounds='every step size up to 3 internal steps (2 for Stair) from time 0, followed by a second step, without and (BouncingBall and Stair, in the thorough tier Feedthrough) with event mode; 2 internal steps from any start time that is a multiple of 1/4 below 1024 (Dahlquist and Resource, the others in the thorough tier)')


def p13():
    for m, fmi in CSMODELS:
        for total, parts in ((2, (1, 1)), (3, (1, 2)), (3, (2, 1)), (3, (1, 1, 1))):
            big = m in ('Feedthrough', 'Roberts', 'StateSpace')
            yield Job(f'{m}{fmi}-' + '+'.join(map(str, parts)), 'p13_split.c', m, fmi, ['PARTS=' + ','.join(map(str, parts)), f'TOTAL={total}', 'NOSTR'], unwind=10, checks='none', backends=('cvc5',), wbackends=('sat',), witness=not big,
                      tiers=('thorough',) if big and len(parts) == 3 else ('quick', 'thorough'))


SPECS['P13'] = dict(jobs=p13, bounds='any values of all variables, all divisions of 2 and 3 internal steps')


MIXED = 'bounded symbolic execution of the real C code (CBMC); full double range decided by cvc5 (floating-point theory), exact small range by SAT; counterexample replayed'
CONT = [(m, fmi) for m in ('BouncingBall', 'Dahlquist', 'VanDerPol', 'Roberts') for fmi in (3, 2) if (m, fmi) != ('Roberts', 2)]


def p14():
    for m, fmi in CONT:
        for n in (1, 2):
            small = Job(f'{m}{fmi}-{n}-small', 'p14_euler.c', m, fmi, ['STEPS=1', 'DYADIC=1'], unwind=26, checks='none', witness=False)
            yield Job(f'{m}{fmi}-{n}', 'p14_euler.c', m, fmi, [f'STEPS={n}'], unwind=26, checks='none', backends=('cvc5',), wbackends=('sat',), witness=n == 1 and fmi == 3 and m != 'Roberts', timeout=100, alt=small)


SPECS['P14'] = dict(jobs=p14, technique=MIXED, bounds='every double value of states, parameters and inputs over 1 and 2 internal steps (cvc5; if that gives no verdict on changed code, values -1/2, 0, 1/2 by SAT, reported in the evidence); BouncingBall in flight; StateSpace is the subject of P23')


def p15():
    for m, fmi in CSMODELS:
        if m == 'Stair':
            for k in (1, 8, 9):
                for n in (4, 5, 6):
                    yield Job(f'{m}{fmi}-{k}-{n}', 'p15_cs_me.c', m, fmi, [f'COUNTER={k}', f'STEPS={n}'], unwind=26, checks='none')
        elif m == 'BouncingBall':
            for v, e in ((-1, 0.7), (-0.125, 0.5), (1, 0.7)):
                for n in (1, 2):
                    yield Job(f'{m}{fmi}-v{v}-{n}', 'p15_cs_me.c', m, fmi, [f'STEPS={n}', f'V0={v}', f'E={e}'], unwind=26, checks='none', tiers=('quick', 'thorough') if n == 1 else ('thorough',))
        else:
            big = m in ('Feedthrough', 'Roberts', 'StateSpace')
            yield Job(f'{m}{fmi}', 'p15_cs_me.c', m, fmi, ['STEPS=2', 'NOSTR'] + (['NODERIVED', 'CONC'] if m == 'Roberts' else []), unwind=26, checks='none', backends=('cvc5',), wbackends=('sat',), witness=not big)


SPECS['P15'] = dict(jobs=p15, technique=MIXED, bounds='any values of all variables over 2 internal steps; BouncingBall any height with three velocities over 1 internal step; Roberts one start point; Stair with concrete counters around the limit over 4 to 6 internal steps')


def p16():
    o = dict(unwind=12, checks='none', backends=('cvc5',), wbackends=('sat',), timeout=60)
    for m, fmi in CONT:
        ni = {'BouncingBall': 4, 'Dahlquist': 2, 'VanDerPol': 3, 'Roberts': 2}[m]
        for dae in ((0, 1) if m == 'Roberts' else (0,)):
            reads = [0, 1, 2] + ([3] if m in ('BouncingBall', 'Roberts') else []) + ([4] if m == 'Roberts' else [])
            ops = [(ME, 1, i) for i in range(ni + dae)] + [(ME, 2, 0), (ME, 3, 0), (ME, 4, 0), (CS, 1, 0), (CS, 0, 0)] + [(CS, 5, i) for i in range(ni + dae)]
            for k, op, i in ops:
                for r in reads:
                    if r in (1, 2, 3) and (k == CS or fmi == 2 and op == 1):
                        continue
                    for w in ((0, 1) if op in (1, 2) else (1,)):
                        n = f'{m}{fmi}{"-dae" if dae else ""}-{KN[k]}-op{op}.{i}-read{r}-{w}'
                        d = [f'KIND={k}', f'OP={op}', f'I={i}', f'READ={r}', f'WARM={w}'] + (['DAE'] if dae else [])
                        small = Job(n + '-small', 'p16_fresh.c', m, fmi, d + ['DYADIC=1'], unwind=12, checks='none', witness=False)
                        yield Job(n, 'p16_fresh.c', m, fmi, d, witness=w == 1 and r == 0 and m == 'Dahlquist', alt=small, **o)


SPECS['P16'] = dict(jobs=p16, technique=MIXED, bounds='every double value of states and parameters (cvc5; if that gives no verdict on changed code, values -1/2, 0, 1/2 by SAT, reported in the evidence); after initialization, setting any variable during initialization or between two steps, setting the states, restoring a saved state or an event, with or without everything having been read before; read as variables, derivatives, states and event indicators; BouncingBall, Dahlquist, VanDerPol and Roberts (Feedthrough is the subject of P20, StateSpace of P23, Stair of P18)')


def p17():
    for fmi in (3, 2):
        m = 'BouncingBall'
        for w, nm in ((0, 'me'), (1, 'indicator'), (2, 'cs'), (3, 'cse')):
            if w == 3 and fmi == 2:
                continue
            if w < 2:
                yield Job(f'{nm}{fmi}', 'p17_bounce.c', m, fmi, [f'WHAT={w}'], checks='none', backends=('cvc5',) if w == 0 else ('sat',), wbackends=('sat',))
            else:
                for i, (v, g, e) in enumerate(((-1, -9.81, 0.7), (-0.125, -9.81, 0.7), (1, -9.81, 0.7), (-0.005, 9.81, 0.5), (-0.1, 0, 1))):
                    yield Job(f'{nm}{fmi}-{i}', 'p17_bounce.c', m, fmi, [f'WHAT={w}', f'V0={v}', f'G={g}', f'E={e}'] + (['INITSET'] if i == 4 else []), checks='none')


SPECS['P17'] = dict(jobs=p17, technique=MIXED, bounds='Model Exchange: every finite height, velocity, gravity and restitution; Co-Simulation with and without event mode: every finite height with 5 combinations of the others, one internal step')


def p18():
    m = 'Stair'
    for fmi in (3, 2):
        yield Job(f'any-time{fmi}', 'p18_stair.c', m, fmi, ['WHAT=0'], checks='none')
        for n in range(-1, 10):
            yield Job(f'events{fmi}-from{n}', 'p18_stair.c', m, fmi, ['WHAT=1', 'EVENTS=11', f'COUNTER={n}'], unwind=14, checks='none', tiers=('quick', 'thorough') if n in (-1, 1, 8, 9) else ('thorough',))
        for k in ((0, 1, 2) if fmi == 3 else (0, 1)):
            for i in (0, 1):
                yield Job(f'start{fmi}-{KN[k]}-{i}', 'p18_stair.c', m, fmi, ['WHAT=4', f'KIND={k}', f'INITMODE={i}'], checks='none')
        for n, calls in ((1, 6), (2, 3), (3, 2), (4, 1), (5, 1), (6, 1), (11, 1), (5, 3)):
            yield Job(f'cs{fmi}-{calls}x{n}', 'p18_stair.c', m, fmi, ['WHAT=2', f'STEPS={n}', f'CALLS={calls}'], unwind=16, checks='none')
    for n, calls in ((1, 6), (5, 2)):
        yield Job(f'cse-{calls}x{n}', 'p18_stair.c', m, 3, ['WHAT=3', f'STEPS={n}', f'CALLS={calls}'], unwind=16, checks='none')


SPECS['P18'] = dict(jobs=p18, bounds='every counter below the limit; one Model Exchange event at any time clearly at or off the schedule, up to 11 events in a row; Co-Simulation over up to 15 internal steps in several divisions; every 32-bit start value; start time 0')


def p19():
    mode = {'init': 0, 'event': 1, 'cont': 2, 'step': 3, 'term': 4}
    for m, fmi, ext in (('VanDerPol', 3, []), ('VanDerPol', 3, ['ADJ']), ('VanDerPol', 2, []), ('Roberts', 3, []), ('Roberts', 3, ['ADJ']), ('Roberts', 3, ['DAE']), ('Roberts', 3, ['DAE', 'ADJ'])):
        for w, k in mode.items():
            for lo, hi in ((0, 2), (2, 8)):
                name = '-'.join([f'{m}{fmi}'] + [e.lower() for e in ext] + [w, f'{lo}'])
                defs = ext + [f'MODE={k}', f'LO={lo}', f'HI={hi}']
                small = Job(name + '-small', 'p19_jacobian.c', m, fmi, defs + ['DYADIC=1'], unwind=12, checks='none', witness=False)
                yield Job(name, 'p19_jacobian.c', m, fmi, defs, unwind=12, checks='none', backends=('cvc5',), wbackends=('sat',), witness=lo == 0 and w == 'cont', timeout=60, alt=small)


SPECS['P19'] = dict(jobs=p19, technique=MIXED, bounds='every double value of states, parameters and seeds (cvc5; if that gives no verdict on changed code, values -1/2, 0, 1/2 by SAT, reported in the evidence); eight selections of knowns and unknowns (all, reversed, single, repeated, empty) in every mode that allows the call; FMI 2 and 3; Roberts as ODE and as DAE')


def p20():
    m = 'Feedthrough'
    for fmi in (3, 2):
        for k, modes in ((ME, (M_INIT, M_EVENT, M_CT)), (CS, (M_INIT, M_STEP))):
            for x in modes:
                for b in ((0, 1, 2) if x in (M_EVENT, M_STEP) else (0, 1)):
                    yield Job(f'fmi{fmi}-{KN[k]}-mode{x}-{b}', 'p20_feed.c', m, fmi, [f'KIND={k}', f'MODE={x}', f'BETWEEN={b}', 'TYPES=0xf7ff & ~0x1000'], checks='none', witness=b == 0)
                yield Job(f'fmi{fmi}-{KN[k]}-mode{x}-str', 'p20_feed.c', m, fmi, [f'KIND={k}', f'MODE={x}', 'BETWEEN=1', 'TYPES=0x1800'], checks='none', witness=False) if x != M_CT else None


def only(f):
    return lambda: (j for j in f() if j)


SPECS['P20'] = dict(jobs=only(p20), bounds='every value of every type (strings and binaries of 3 bytes), all inputs set at once, read directly, after earlier reads, and after a step or event update; initialization, event, continuous-time and step mode')


CLK = dict(unwind=12, checks='func', partial=('Clocks/model.c', 40), replay_timeout=60)


def p24():
    for nolock in (0, 1):
        yield Job(f'history-{nolock}', 'p24_clocks.c', 'Clocks', 3, ['K=6', 'LATE=0', f'NOLOCK={nolock}'], **CLK)
    yield Job('unknown', 'p24_clocks.c', 'Clocks', 3, ['UNKNOWN', 'NOLOCK=0'], **CLK)


SPECS['P24'] = dict(jobs=p24, bounds='histories of 6 activations, each of a symbolically chosen partition at times 0 to 9 with optional input, clock and interval accesses in between; any unknown clock reference; the busy loop of the third partition is left after 40 of its iterations, it has no effect on the instance; a clock update callback is given')


def p25():
    for p in (1001, 1002, 1003):
        for pre in (3, 4, 5):
            yield Job(f'p{p}-{pre}', 'p24_clocks.c', 'Clocks', 3, ['LOCKS', f'P={p}', f'PRE={pre}'], **CLK)


SPECS['P25'] = dict(jobs=p25, bounds='one activation of each partition from any position of the tick counters around the output clock, with preemption by a partition of higher priority, chosen symbolically, at every point where preemption is locked or released; the busy loop of the third partition is left after 40 of its iterations')


def p26():
    for kind in (ME, CS):
        for mode in (0, 1):
            d = [f'KIND={kind}', f'MODE={mode}']
            for pat in ('', 'ccc', 'cHc'):
                yield Job(f'{pat or "empty"}3-{kind}{mode}', 'p26_resource.c', 'Resource', 3, d + [f'PAT="{pat}"', 'AGAIN'], unwind=20)
            for fmi in (3, 2):
                yield Job(f'null{fmi}-{kind}{mode}', 'p26_resource.c', 'Resource', fmi, d + ['PAT=""', 'BAD=2'], unwind=10)
    for pat in ('c', 'H', 'cH', 'Hc'):
        for s in (1, 2):
            n = len(pat.replace('H', 'xxx'))
            yield Job(f'{pat}2-{s}', 'p26_resource.c', 'Resource', 2, ['KIND=1', 'MODE=0', f'PAT="{pat}"', f'SCHEME={s}'], unwind=9 + n, unwindset={f'main.{i}': 24 for i in range(8)}, witness=pat == 'c')
    for kind, mode in ((ME, 0), (ME, 1), (CS, 1)):
        yield Job(f'again2-{kind}{mode}', 'p26_resource.c', 'Resource', 2, [f'KIND={kind}', f'MODE={mode}', 'PAT="a"', 'SCHEME=1', 'AGAIN'], unwind=20)
    for n in (0, 1, 3, 5):
        yield Job(f'bad-{n}', 'p26_resource.c', 'Resource', 2, ['KIND=1', 'MODE=0', f'PAT="{"c" * n}"', 'BAD=1'], unwind=9, unwindset={f'main.{i}': 24 for i in range(8)})


SPECS['P26'] = dict(jobs=p26, bounds='any characters in locations of up to 3 (FMI 3) or 2, possibly percent-encoded, characters behind either scheme (FMI 2), any location of up to 5 characters without scheme, an absent location; locations near the limit of 4096 characters are outside (encoding too large); any first character; the file opens or does not; the file itself is a stand-in that records')


def p27():
    for fmi in (3, 2):
        o = dict(unwind=44, cuts=('fmt.h',), lib_unwind=60)
        for e in (0, 1):
            for n in (0, 1, 2, 4, 8):
                yield Job(f'text{fmi}-{e}-{n}', 'p27_log.c', 'Dahlquist', fmi, [f'ERR={e}', f'TEXT={n}'], **o)
        if fmi == 3:
            yield Job('nologger', 'p27_log.c', 'Dahlquist', 3, ['NOLOGGER'], **dict(o, unwind=100))
        for n, w in ((0, 0), (1, 0), (1, 1), (1, 2), (1, 3), (2, 0b0100), (2, 0b0001), (2, 0b0101), (2, 0b1000), (2, 0b1001)):
            for sw in (1, 2, 3):
                yield Job(f'switch{fmi}-{n}-{w}-{sw}', 'p27_log.c', 'Dahlquist', fmi, ['CALLS=2', f'NCAT={n}', f'WHICH={w}', f'SW={sw}'], **dict(o, unwind=110, witness=sw == 1))


SPECS['P27'] = dict(jobs=p27, bounds='texts of 0 to 8 arbitrary characters in errors and events; 2 calls that switch 0, 1 or 2 categories, known, unknown (any 3 characters) or missing, on or off; with and without a logger; one model (the code is shared by all)')


def p28():
    for ev in (0, 1):
        for early in (0, 1):
            for at in range(4):
                yield Job(f'BouncingBall-event{ev}-early{early}-at{at}', 'p28_event.c', 'BouncingBall', 3, ['N=3', f'EV={ev}', f'EARLY={early}', f'AT={at}'], checks='none')
            for n in (4, 5, 7):
                yield Job(f'Stair-event{ev}-early{early}-{n}', 'p28_event.c', 'Stair', 3, [f'N={n}', f'EV={ev}', f'EARLY={early}'], unwind=14, checks='none')
            for m in ('Feedthrough', 'StateSpace'):
                yield Job(f'{m}-event{ev}-early{early}', 'p28_event.c', m, 3, ['N=2', f'EV={ev}', f'EARLY={early}'], checks='none', witness=False)


SPECS['P28'] = dict(jobs=p28, bounds='BouncingBall falling from any height below 4 internal steps, event at each of 3 internal steps or none; Stair with its time event inside, at the end or after the step; Feedthrough and StateSpace without events')


def p29():
    for fmi, ms in ((3, FMI3), (2, FMI2)):
        for m in ms:
            if m == 'Clocks':
                continue
            big = m in ('StateSpace',)
            yield Job(f'{m}{fmi}-roundtrip', 'p29_vectors.c', m, fmi, ['WHAT=0'], witness=not big, backends=('cvc5',) if m in ('Roberts', 'StateSpace', 'Dahlquist', 'VanDerPol') else ('sat',), wbackends=('sat',), checks='none')
            yield Job(f'{m}{fmi}-size', 'p29_vectors.c', m, fmi, ['WHAT=1'], witness=not big)


SPECS['P29'] = dict(jobs=p29, bounds='every double value; every vector length up to 6 with exactly sized arrays')


def p35():
    for m, fmi in CSMODELS:
        if fmi != 3:
            continue
        n = 3
        big = m in ('Feedthrough', 'StateSpace', 'Roberts')
        if m != 'Roberts':
            yield Job(f'{m}-any', 'p35_update.c', m, 3, [f'N={n}', 'CALLBACK=1'], unwind=12, checks='none', witness=not big, tiers=('thorough',) if big else ('quick', 'thorough'))
            yield Job(f'{m}-3', 'p35_update.c', m, 3, ['N=4', 'FIXED=3', 'CALLBACK=1'], unwind=12, checks='none', witness=not big)
        else:
            yield Job(f'{m}-1', 'p35_update.c', m, 3, ['N=20', 'FIXED=1', 'CALLBACK=1'], unwind=24, checks='none', witness=False)
        for e in (0, 1):
            if m == 'Stair':
                yield Job(f'{m}-event{e}', 'p35_update.c', m, 3, ['N=7', 'FIXED=6', 'CALLBACK=1', 'EVENT', f'EVENTMODE={e}'], unwind=12, checks='none')
            if m == 'BouncingBall':
                yield Job(f'{m}-event{e}', 'p35_update.c', m, 3, ['N=4', 'FIXED=3', 'CALLBACK=1', 'EVENT', 'FALL=3', f'EVENTMODE={e}'], unwind=12, checks='none')
        yield Job(f'{m}-none', 'p35_update.c', m, 3, ['N=2', 'FIXED=2', 'CALLBACK=0'], unwind=24, checks='none', witness=not big)


SPECS['P35'] = dict(jobs=p35, bounds='every step size up to 3 internal steps from the start values, with and without event mode 6 internal steps of Stair across its event and 3 of BouncingBall falling from any height below 3 steps; variables seen in the callback compared over 3 internal steps')


def alloc_jobs(fail):
    def f():
        for fmi, ms in ((3, FMI3), (2, FMI2)):
            for m in ms:
                if fail and m in ('Resource', 'Feedthrough', 'StateSpace', 'Roberts', 'VanDerPol'):
                    continue
                for k in ((SE,) if m == 'Clocks' else (ME, CS)):
                    for run in ((1,) if m not in ('Dahlquist', 'Clocks') else (0, 1)):
                        for w in (0, 1):
                            if not w or (run and k != CS):
                                yield Job(f'{m}{fmi}-{KN[k]}-{run}{w}', 'p38_free.c', m, fmi, [f'KIND={k}', f'RUN={run}', f'WRONG={w}'] + (['FAIL'] if fail else []),
                                          cuts=('alloc.h',), raw=True, unwind=20, lib_unwind=45, checks='leak')
        if fail:
            for g in [[]] + [['GROW', f'MASK={i}'] for i in range(8)]:
                yield Job('-'.join(['importer'] + g[1:]), 'p36_imp.c', None, defs=['FAIL'] + g, sources=['src/FMI.c'], cuts=FMT + ('alloc.h',), unwind=44, max_unwind=80, checks='leak', raw=True)
    return f


SPECS['P36'] = dict(jobs=alloc_jobs(True), bounds='every subset of refused allocations while instantiating, saving a state (twice), serializing, deserializing, restoring, logging an error and freeing, all interface types, FMI 2 and 3, BouncingBall, Clocks, Dahlquist and Stair (the code is shared; the instances of the other models are too large to encode with failures); creation of an importer instance and growth of its log buffer')
SPECS['P38'] = dict(jobs=alloc_jobs(False), bounds='instantiation (accepted or refused), initialization, saving a state once or twice, serialization, deserialization, restoring, errors, freeing in different orders and twice, termination, each step taken or not, all models and interface types, FMI 2 and 3')


def p37():
    for m in FMI2:
        if m == 'Stair':
            for n, calls, k, t in ((5, 1, 9, 1), (5, 1, 8, 0), (5, 2, 8, 1), (4, 1, 9, 0)):
                yield Job(f'{m}-{calls}x{n}-{k}', 'p37_status.c', m, 2, [f'N={n}', f'CALLS={calls}', f'COUNTER={k}', f'TERM={t}'], unwind=14, checks='none')
        else:
            for n, calls in ((1, 0), (1, 1), (2, 1), (1, 2)):
                yield Job(f'{m}-{calls}x{n}', 'p37_status.c', m, 2, [f'N={n}', f'CALLS={calls}', 'TERM=0'], checks='none', witness=m != 'Feedthrough')


SPECS['P37'] = dict(jobs=p37, bounds='every 32-bit status kind and each of the 5 queries, after 0 to 2 steps, after a step that asks for termination (Stair)')

DIMS = [(3, 3, 3), (1, 2, 3), (3, 2, 1), (2, 3, 1), (2, 1, 3), (0, 2, 1), (1, 0, 2), (2, 2, 0)]
DIMS2 = [(5, 4, 5), (5, 5, 5), (4, 5, 3), (5, 1, 2), (1, 5, 4), (0, 0, 0)]


def p21():
    for fmi in (3, 2):
        for kind, mode in ((ME, 2), (CS, 1), (CS, 2)):
            for n, n2 in ((0, 3), (5, 127), (127, 1)):
                yield Job(f'string{fmi}-{kind}{mode}-{n}-{n2}', 'p21_strings.c', 'Feedthrough', fmi, [f'KIND={kind}', f'MODE={mode}', f'N={n}', f'N2={n2}', 'STEP=0.1'], unwind=132, lib_unwind=132, max_unwind=300)
            for n2 in (128, 140):
                yield Job(f'string{fmi}-{kind}{mode}-long-{n2}', 'p21_strings.c', 'Feedthrough', fmi, [f'KIND={kind}', f'MODE={mode}', 'N=3', f'N2={n2}', 'TOOLONG', 'STEP=0.1'], unwind=145, lib_unwind=145, max_unwind=300)
            if fmi == 3:
                for n, n2 in ((5, 128), (128, 0)):
                    yield Job(f'binary-{kind}{mode}-{n}-{n2}', 'p21_strings.c', 'Feedthrough', 3, [f'KIND={kind}', f'MODE={mode}', f'N={n}', f'N2={n2}', 'BINARY', 'STEP=0.1'], unwind=132, lib_unwind=132, max_unwind=300)
                for n2 in (129, 140):
                    yield Job(f'binary-{kind}{mode}-long-{n2}', 'p21_strings.c', 'Feedthrough', 3, [f'KIND={kind}', f'MODE={mode}', 'N=3', f'N2={n2}', 'BINARY', 'TOOLONG', 'STEP=0.1'], unwind=145, lib_unwind=145, max_unwind=300)


SPECS['P21'] = dict(jobs=p21, bounds='all bytes of strings of 0, 1, 3, 5 and 127 characters (the limit) and of 128 and 140 (refused), of binaries of 0, 3, 5, 128 (the limit) and 129, 140 bytes (refused), set twice one after the other, in initialization, event and step mode, FMI 2 and 3')


def p22():
    for k, modes in ((ME, (M_CONF, M_RECONF)), (CS, (M_CONF, M_RECONF)), (CSE, (M_RECONF,))):
        for x in modes:
            yield Job(f'range-{KN[k]}-mode{x}', 'p22_dims.c', 'StateSpace', 3, ['WHAT=0', f'KIND={k}', f'MODE={x}'], checks='none', witness=False)
            for i, d in enumerate(DIMS + DIMS2):
                yield Job(f'size-{KN[k]}-mode{x}-%d%d%d' % d, 'p22_dims.c', 'StateSpace', 3, ['WHAT=1', f'KIND={k}', f'MODE={x}', 'M=%d' % d[0], 'N=%d' % d[1], 'R=%d' % d[2], f'ONEBYONE={i % 2}'], unwind=27, checks='func', witness=i < 2,
                          tiers=('quick', 'thorough') if (k == ME and x == M_CONF) or i < 3 else ('thorough',))
    for k, modes in ((ME, (M_INST, M_INIT, M_EVENT, M_CT, M_TERM)), (CS, (M_INST, M_INIT, M_STEP, M_TERM)), (CSE, (M_EVENT, M_STEP))):
        for x in modes:
            yield Job(f'outside-{KN[k]}-mode{x}', 'p22_dims.c', 'StateSpace', 3, ['WHAT=2', f'KIND={k}', f'MODE={x}'], checks='none')


SPECS['P22'] = dict(jobs=p22, bounds='every 64-bit value for each structural parameter in configuration and reconfiguration mode; 14 dimension triples from 0 to 5 (all in configuration mode for Model Exchange, 3 elsewhere in the quick tier), every announced length up to 26 for every array variable')


def p23():
    for i, d in enumerate(DIMS + DIMS2):
        dd = ['M=%d' % d[0], 'N=%d' % d[1], 'R=%d' % d[2]]
        big = max(d) > 3
        for w, nm in ((0, 'store'), (1, 'init'), (2, 'me'), (3, 'cs')):
            defs = [f'WHAT={w}'] + dd + (['INITSET'] if i % 2 else [])
            small = Job(f'{nm}-%d%d%d-small' % d, 'p23_statespace.c', 'StateSpace', 3, defs + ['SMALL=1'], unwind=27, checks='none', witness=False, timeout=400)
            yield Job(f'{nm}-%d%d%d' % d, 'p23_statespace.c', 'StateSpace', 3, defs, unwind=27, checks='none', backends=('cvc5',), wbackends=('sat',), timeout=60, alt=small, witness=w == 0 and i in (1, 4),
                      tiers=('quick', 'thorough') if not big or (w == 0 and d != (5, 5, 5)) else ('thorough',))


SPECS['P23'] = dict(jobs=p23, technique=MIXED, bounds='every double value of all matrices, inputs and states for 8 dimension triples from 0 to 3 (14 up to 5 in the thorough tier and for storing matrices); one co-simulation step')

FMT = ('fmt.h',)


def p30():
    def job(name, defs, **k):
        a = dict(unwind=28, checks='mem', replay_timeout=2)
        a.update(k)
        return Job(name, 'p30_log.c', None, defs=defs, sources=['src/FMI.c'], cuts=FMT, **a)
    for s in (2, 4, 8):
        for la in range(6):
            for lb in (0, 1, 2, 4):
                yield job(f'text-{s}-{la}-{lb}', ['WHAT=0', f'S={s}', f'LA={la}', f'LB={lb}'])
    for t in range(16):
        num = t in range(2, 10) or t >= 14
        for f in range(8) if t in (1, 11, 12) else range(2, 8, 2 if num else 1):
            for n in (0, 1, 2) if t in (1, 14) and f == 5 else (2,):
                d = ['WHAT=1', f'TYPE={t}', f'FILL={f}', f'N={n}', 'S=8', 'MAJOR=3']
                if t in (11, 12):
                    d += [f'LA={f % 3}']
                elif num:
                    d += [f'DIGITS={3 if f != 4 else 1}', f'NEG={int(t in (2, 4, 6, 8) and f != 6)}']
                yield job(f'array-{t}-{f}-{n}', d)
    for v in (1, 2):
        yield job(f'array-10-5-v{v}', ['WHAT=1', 'TYPE=10', 'FILL=5', 'N=2', 'S=8', f'MAJOR={v}'])
    for l in (0, 1018, 1020, 1021, 1022):
        yield job(f'created-{l}', ['WHAT=2', f'L={l}'])


SPECS['P30'] = dict(jobs=p30, bounds='buffers of 2, 4 and 8 bytes with every fill level and the 1024-byte buffer as created around its end; strings up to 5 arbitrary bytes, arrays of up to 2 values of each type, integers of up to three digits, floating-point values 0 to 9 (rendering of numbers is modelled in solver builds, replays use the C library)')


def p31():
    for n in range(7):
        yield Job(f'path-{n}', 'p31_uri.c', None, defs=[f'N={n}'], sources=['src/FMI.c'], cuts=FMT, unwind=24 + 3 * n, checks='mem',
                  unwindset={'FMIPathToURI.0': 90, 'FMIPathToURI.1': n + 1}, max_unwind=100)


SPECS['P31'] = dict(jobs=p31, bounds='every path of up to 6 bytes, every buffer size up to 8 bytes more than needed, POSIX build')


def p32():
    for d in range(4):
        for last in (0, 1, 2) if d else (2,):
            for m in (0, 1, 3):
                for v in (1, 2, 3):
                    if d > 1 and m == 0 and v != 2:
                        continue
                    yield Job(f'dir{d}-{last}-model{m}-v{v}', 'p32_binary.c', None, defs=[f'D={d}', f'LAST={last}', f'M={m}', f'VER={v}'],
                              sources=['src/FMI.c'], cuts=FMT, unwind=d + m + 45, max_unwind=80, checks='mem')


SPECS['P32'] = dict(jobs=p32, bounds='directory and model names of up to 3 arbitrary bytes, every buffer size up to 8 bytes more than needed, FMI 1 to 3, 64-bit Linux build')


def fwd(v):
    """names of the importer functions in the generated table"""
    return re.findall(r'#define FN (\w+)', open(os.path.join(HERE, 'h', f'fwd{v}.h')).read())


def p33(v):
    def jobs():
        for i, n in enumerate(fwd(v)):
            yield Job(f'{n}', 'p33_fwd.c', None, defs=[f'V={v}', f'F={i}'], sources=['src/FMI.c', f'src/FMI{v}.c'], cuts=FMT,
                      unwind=450, lib_unwind=450, max_unwind=900, checks='mem')
    return jobs


FWD = 'every importer function but instantiation, freeing and version queries; all scalar arguments and statuses, every tracked state and interface type; lists of 1 to 4 elements; with and without call logging (rendering of numbers is modelled by one character)'
SPECS['P33'] = dict(jobs=p33(2), bounds=FWD)
SPECS['P34'] = dict(jobs=p33(3), bounds=FWD)


def p39():
    for v, types in ((2, (0, 1)), (3, (0, 1, 2))):
        for t in types:
            for log in (0, 1):
                for c in ([], ['COMPLETE']):
                    yield Job(f'v{v}-type{t}-log{log}' + ('-complete' if c else ''), 'p39_load.c', None, defs=[f'V={v}', f'T={t}', f'LOG={log}'] + c,
                              sources=['src/FMI.c', f'src/FMI{v}.c'], cuts=FMT + ('dl.h',), unwind=450, lib_unwind=450, max_unwind=900, checks='leak')


SPECS['P39'] = dict(jobs=p39, bounds='FMI 2 and 3, all interface types, with and without callbacks; the library or any one function missing, failing instantiation; all boolean arguments; the dynamic loader is a stand-in')


def p40():
    for m, fmi in CONT:
        o = dict(unwind=12, checks='none', backends=('cvc5',), wbackends=('sat',), timeout=60)
        if m == 'BouncingBall':
            for n, s in ((0, 0), (1, 0), (0, 1), (1, 1)):
                yield Job(f'{m}{fmi}-n{n}-step{s}', 'p40_outder.c', m, fmi, [f'N={n}', f'STEP={s}'], **o,
                          alt=Job(f'{m}{fmi}-n{n}-step{s}-small', 'p40_outder.c', m, fmi, [f'N={n}', f'STEP={s}', 'DYADIC=1'], unwind=12, checks='none', witness=False))
        else:
            yield Job(f'{m}{fmi}-none', 'p40_outder.c', m, fmi, ['N=1', 'STEP=0'], unwind=12, checks='none')


SPECS['P40'] = dict(jobs=p40, technique=MIXED, bounds='BouncingBall: every double value of the states and parameters after initialization, and after one solver step in free fall; both outputs in either order, and any value reference with any order; Dahlquist, VanDerPol and Roberts, which do not offer output derivatives: any value reference and order')



def descr(m, fmi):
    """variables, structure and capabilities declared in the model description"""
    import xml.etree.ElementTree as ET
    root = ET.parse(os.path.join(REPO, m, f'FMI{fmi}.xml')).getroot()
    T3 = dict(Float64='F64', Float32='F32', Int8='I8', UInt8='U8', Int16='I16', UInt16='U16', Int32='I32', UInt32='U32', Int64='I64', UInt64='U64', Boolean='B', String='S', Binary='BIN', Enumeration='I64')
    T2 = dict(Real='F64', Integer='I32', Enumeration='I32', Boolean='B', String='S')
    vs, items = [], {}
    for e in root.iter('EnumerationType' if fmi == 3 else 'SimpleType'):
        items[e.get('name')] = [i.get('value') for i in e.iter('Item')]
    for e in root.find('ModelVariables'):
        t = e if fmi == 3 else next(c for c in e if c.tag in T2)
        if fmi == 3 and e.tag == 'Clock':
            vs.append(None)
            continue
        start = t.get('start')
        if start is None and t.find('Start') is not None:
            start = t.find('Start').get('value')
        vs.append(dict(vr=int(e.get('valueReference')), type=(T3 if fmi == 3 else T2)[t.tag], start=start, min=t.get('min'), max=t.get('max'), nominal=t.get('nominal', '1'), items=items.get(t.get('declaredType')),
                       causality=e.get('causality', 'local'), variability=e.get('variability'), initial=e.get('initial'), derivative=t.get('derivative'),
                       dims=[d.get('valueReference') or d.get('start') for d in e.findall('Dimension')] if fmi == 3 else []))
    by = {v['vr']: v for v in vs if v}
    for v in by.values():
        v['n'] = 1
        for d in v['dims']:
            v['n'] *= int(by[int(d)]['start'])
        if v['derivative']:
            v['state'] = int(v['derivative']) if fmi == 3 else vs[int(v['derivative']) - 1]['vr']
    ms = root.find('ModelStructure')

    def unknowns(tag3, tag2):
        for e in (ms.findall(tag3) if fmi == 3 else ms.findall(f'{tag2}/Unknown')):
            ref = (lambda s: int(s)) if fmi == 3 else (lambda s: vs[int(s) - 1]['vr'])
            dep = e.get('dependencies')
            yield ref(e.get('valueReference') if fmi == 3 else e.get('index')), None if dep is None else [ref(d) for d in dep.split()]
    nz = len(ms.findall('EventIndicator')) if fmi == 3 else int(root.get('numberOfEventIndicators', '0'))
    return by, unknowns, nz, root.find('CoSimulation')


def p41():
    MEM = dict(F64='f64[0]', F32='f32', I8='i8', U8='u8', I16='i16', U16='u16', I32='i32', U32='u32', I64='i64', U64='u64')
    for fmi, ms in ((3, FMI3), (2, FMI2)):
        for m in ms:
            by, unknowns, nz, cs = descr(m, fmi)
            rd, st, wr, settable = [], [], [], []
            for v in by.values():
                t, vr, n = v['type'], v['vr'], v['n']
                rd.append(f'R({t}, {vr}, {n})')
                if v['start'] is not None:
                    s = v['start']
                    if t == 'S':
                        s = '"' + s + '"'
                    elif t == 'BIN':
                        s = ','.join('0x' + s[i:i + 2] for i in range(0, len(s), 2))
                    else:
                        s = ','.join(s.split())
                    st.append(f'S_{t}({vr}, {n}, {s})')
                    if (v['causality'] in ('input', 'parameter') or v['initial'] in ('exact', 'approx')) and v['variability'] != 'constant':
                        settable.append(v)
                        v['cond'] = ' && '.join(f'a.{MEM[t]} {o} {v[b]}' for b, o in (('min', '>='), ('max', '<=')) if v[b]) or ' || '.join(f'a.{MEM[t]} == {i}' for i in v['items'] or ()) or '1'
                        wr.append(f'W({t}, {vr}, {n}, {v["cond"]}, {int(v["initial"] != "approx")})')
            big = m in ('StateSpace',)
            for k in ((SE,) if m == 'Clocks' else (ME, CS)):
                yield Job(f'{m}{fmi}-{KN[k]}-start', 'p41_descr.c', m, fmi, ['WHAT=0', f'KIND={k}', 'READABLE=' + ' '.join(rd), 'STARTS=' + ' '.join(st)], unwind=12, checks='none')
                if wr:
                    yield Job(f'{m}{fmi}-{KN[k]}-set', 'p41_descr.c', m, fmi, ['WHAT=1', f'KIND={k}', 'SETTABLE=' + ' '.join(wr)], unwind=12, checks='none')
            if m == 'Clocks':
                continue
            fp = m in ('Dahlquist', 'VanDerPol', 'Roberts', 'StateSpace')
            o = dict(unwind=12, checks='none', backends=('cvc5',) if fp else ('sat',), wbackends=('sat',), witness=not big)
            ders = list(unknowns('ContinuousStateDerivative', 'Derivatives'))
            X = [(by[d]['state'], d, by[d]['n'], by[by[d]['state']]['nominal']) for d, _ in ders]
            yield Job(f'{m}{fmi}-states', 'p41_descr.c', m, fmi, ['WHAT=2', 'COUNT=' + ' '.join(f'+ {x[2]}' for x in X), 'STATES=' + ' '.join('X(%d, %d, %d, %s)' % x for x in X), f'INDICATORS={nz}'], **o)
            if fmi == 3:
                yield Job(f'{m}-capabilities', 'p41_descr.c', m, 3, ['WHAT=3', f'EVENTS={int(cs.get("hasEventMode") == "true")}', f'FIXEDSTEP={cs.get("fixedInternalStepSize")}', f'STATE={int(cs.get("canSerializeFMUState") == "true")}', f'SPAN={20 if m == "Roberts" else 2}'], unwind=36 if m == 'Roberts' else 12, checks='none')
            states = {x[0] for x in X}
            for what, us in (('init', unknowns('InitialUnknown', 'InitialUnknowns')), ('out', unknowns('Output', 'Outputs')), ('der', ders)):
                for u, dep in us:
                    if dep is None:
                        continue
                    ks = [v for v in settable if what == 'init' or v['causality'] == 'input' or v['vr'] in states]
                    K = ' '.join(f'K({v["type"]}, {v["vr"]}, {v["n"]}, {v["cond"]}, {int(v["vr"] in dep or v["vr"] == u)})' for v in ks if v['initial'] != 'approx')
                    if all(v['vr'] in dep or v['vr'] == u for v in ks):
                        continue
                    yield Job(f'{m}{fmi}-{what}-{u}', 'p41_descr.c', m, fmi, ['WHAT=4', f'INITIAL={int(what == "init")}', 'KNOWNS=' + K, f'UNKNOWN=U({by[u]["type"]}, {u}, {by[u]["n"]})'], **o)


SPECS['P41'] = dict(jobs=p41, technique=MIXED, bounds='every variable, state, unknown and dependency list of every model description; every value of every settable variable within its declared range (strings and binaries of 3 bytes, StateSpace with its start dimensions), every value of the states; internal step size in steps of 1.5 to 2.5 times the declared one (Roberts 19.5 to 20.5); clocks, units, types and FMI 1 descriptions are outside')
