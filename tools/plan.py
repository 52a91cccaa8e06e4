"""Which explorations and which recorded sessions decide which property."""
import defs, gen, lib
from lib import generate_and_replay, record_and_validate, run_all, val_bin, wasm_ex, wasm_serde_ex, wasm_typed_ex, SEED, TIER

ASSUMPTIONS = [
    'the specification in /verif/spec states the intended behaviour; TLC 1.8 and the CommunityModules evaluate it correctly',
    'exhaustive only within the alphabets and bounds of the model configurations; beyond them, recorded sessions with seeded random inputs',
    'the harness projects real values and errors to the model faithfully (harness/common/model.rs)',
]

WIDE = ('WideMachine', 'WideMachine.tla', 'MCWide.cfg')
DEEP = ('DeepMachine', 'DeepMachine.tla', 'MCDeep.cfg')

# property -> (reader configurations, writer configurations, other models, [(profile, quick sessions, thorough sessions)])
UNTYPED = {
    'P01': dict(models=[WIDE], reader=['short', 'maps', 'keys', 'text', 'wide', 'wide8', 'tags8'],
                reader_thorough=['text4', 'nest', 'short3', 'maps7'],
                sessions=[('strict', 300, 6000), ('sizes', 24, 200)]),
    'P02': dict(models=[WIDE], writer=['shapes', 'keys', 'bounds', 'inkeys'], writer_thorough=['perm', 'shapes6', 'hist'],
                sessions=[('write', 300, 6000), ('sizes', 24, 200)]),
    'P03': dict(models=[WIDE], reader=['short', 'maps', 'keys'], writer=['shapes', 'keys', 'bounds', 'inkeys'],
                reader_thorough=['text', 'wide', 'wide8', 'tags8', 'nest', 'maps7'], writer_thorough=['perm', 'shapes6', 'nest'],
                sessions=[('roundtrip', 300, 6000)]),
    'P04': dict(models=[WIDE], reader=['short', 'maps', 'keys', 'text', 'wide', 'wide8', 'tags8'],
                reader_thorough=['text4', 'nest', 'short3', 'maps7'],
                sessions=[('lenient', 300, 6000)]),
    'P05': dict(models=[DEEP], reader=['nest'], writer=['nest6'], reader_thorough=['nest7'], writer_thorough=['nest'],
                sessions=[('nesting', 24, 240)]),
    'P06': dict(models=[DEEP, WIDE], reader=['short', 'maps', 'text', 'wide'], reader_thorough=['keys', 'text4', 'wide8', 'tags8', 'nest', 'short3'],
                sessions=[('errors', 300, 6000)]),
    'P07': dict(models=[DEEP, WIDE], reader=['short', 'maps', 'keys', 'text', 'wide', 'wide8', 'tags8'],
                reader_thorough=['text4', 'nest', 'short3', 'maps7'],
                sessions=[('errors', 300, 6000)]),
    'P08': dict(models=[WIDE, ('order', 'ValueOrder.tla', 'MCOrder.cfg')], sessions=[('order', 400, 8000)]),
    'P09': dict(models=[WIDE], writer=['hist', 'keys'], writer_thorough=['shapes', 'bounds', 'nest', 'hist3'],
                sessions=[('append', 300, 6000)]),
    'P21': dict(models=[('destructure', 'Destructure.tla', 'MCDestructure.cfg')],
                models_thorough=[('destructure-8', 'Destructure.tla', 'MCDestructure_8.cfg')],
                sessions=[('destructure', 600, 8000)]),
    'P22': dict(models=[('build-leaves', 'Construct.tla', 'MCConstruct_leaves.cfg'),
                        ('build-combs', 'Construct.tla', 'MCConstruct_combs.cfg'),
                        ('build-maps', 'Construct.tla', 'MCConstruct_maps.cfg'),
                        ('simple-numbers', 'SimpleNumbers.tla', 'MCSimple.cfg')],
                models_thorough=[('build-combs5', 'Construct.tla', 'MCConstruct_combs5.cfg')],
                sessions=[('build', 600, 8000)]),
    'P26': dict(models=[('ffi-' + c, 'MCFfi.tla', 'MCFfi_%s.cfg' % c) for c in ('short', 'maps', 'text', 'wide', 'chain', 'tags')] + [DEEP, WIDE],
                models_thorough=[('ffi-' + c, 'MCFfi.tla', 'MCFfi_%s.cfg' % c) for c in ('keys', 'wide8', 'short3', 'maps7')],
                sessions=[('ffi', 300, 6000)]),
    'P25': dict(models=[DEEP, WIDE], reader=['short', 'maps', 'wide'], reader_thorough=['wide8', 'nest', 'text', 'short3'],
                sessions=[('memory', 300, 4000)]),
    'P29': dict(models=[DEEP, WIDE, ('order', 'ValueOrder.tla', 'MCOrder.cfg'), ('destructure', 'Destructure.tla', 'MCDestructure.cfg'),
                        ('build-leaves', 'Construct.tla', 'MCConstruct_leaves.cfg'), ('simple-numbers', 'SimpleNumbers.tla', 'MCSimple.cfg')],
                reader=['short', 'maps', 'wide', 'wide8', 'tags8', 'nest'], writer=['shapes', 'keys', 'bounds', 'inkeys'],
                reader_thorough=['keys', 'text', 'text4', 'short3', 'maps7'], writer_thorough=['perm', 'nest', 'hist']),
}


def untyped(prop, rep, p):
    v = None if prop == 'P29' else val_bin()
    ex = wasm_ex() if prop == 'P29' else [v, 'exec', prop]
    deep = TIER == 'thorough'
    jobs = []

    def gen(name, module, cfg):
        jobs.append(lambda: generate_and_replay(rep, name, module, cfg, ex))
    for c in p.get('reader', []) + (p.get('reader_thorough', []) if deep else []):
        gen('ReaderMachine-' + c, 'MCReader.tla', 'MCReader_%s.cfg' % c)
    for c in p.get('writer', []) + (p.get('writer_thorough', []) if deep else []):
        gen('WriterMachine-' + c, 'MCWriter.tla', 'MCWriter_%s.cfg' % c)
    for name, module, cfg in p.get('models', []) + (p.get('models_thorough', []) if deep else []):
        gen(name, module, cfg)
    if prop == 'P29':
        ty = wasm_typed_ex()
        cat = dict(CATALOGUE=lib.os.path.join(lib.GEN, 'catalogue.json'))
        for g in DECODED:
            c = dict(Groups='{"%s"}' % g, Emit='"all"', EditFrom=16 if deep else 2, MaxEdits=1)
            jobs.append(lambda g=g, c=c: generate_and_replay(
                rep, 'TypedMachine-' + g, 'TypedMachine.tla', 'MCTyped.cfg', ty, constants=c, extra_env=cat))
        se = wasm_serde_ex()
        jobs.append(lambda: generate_and_replay(rep, 'WideMachine-typed', WIDE[1], WIDE[2], ty))
        jobs.append(lambda: generate_and_replay(rep, 'WideMachine-serde', WIDE[1], WIDE[2], se))
        scat = dict(CATALOGUE=lib.os.path.join(lib.GEN, 'serde.json'))
        for g in SGROUPS:
            c = dict(Groups='{"%s"}' % g, Emit='"all"', EditFrom=12 if deep else 2, MaxEdits=1)
            jobs.append(lambda g=g, c=c: generate_and_replay(
                rep, 'SerdeMachine-' + g, 'SerdeMachine.tla', 'MCSerde.cfg', se, constants=c, extra_env=scat))
    for profile, quick, thorough in p.get('sessions', []):
        n = thorough if deep else quick
        jobs.append(lambda profile=profile, n=n: record_and_validate(
            rep, 'sessions-' + profile, 'UntypedTrace.tla', [v, 'record', profile, str(SEED), str(n)], prop))
    run_all(jobs)


DECODED = ['prim', 'cont', 'comp', 'struct', 'option', 'ext', 'int', 'rec']
ALL = DECODED + ['bor']
# property -> groups of types, what is emitted, how many samples are edited (quick, thorough), sessions
TYPED = {
    'P06': dict(groups=DECODED, emit='dec', edit=(4, 16), sessions=(1000, 20000)),
    'P10': dict(groups=['prim', 'bor'], emit='all', edit=(32, 32), sessions=(600, 20000)),
    'P11': dict(groups=['cont', 'comp'], emit='all', edit=(8, 32), sessions=(600, 12000)),
    'P12': dict(groups=DECODED, emit='null', edit=(4, 16), sessions=(600, 12000)),
    'P13': dict(groups=['struct', 'rec'], gen=['struct'], emit='all', edit=(8, 40), sessions=(600, 12000)),
    'P14': dict(groups=['option'], gen=['option'], emit='all', edit=(8, 40), sessions=(600, 12000)),
    'P15': dict(groups=['ext', 'rec'], gen=['ext'], emit='all', edit=(8, 40), sessions=(600, 12000)),
    'P16': dict(groups=['int'], gen=['int'], emit='all', edit=(8, 40), sessions=(600, 12000)),
    'P17': dict(groups=ALL, gen=['struct', 'ext', 'int'], only=gen.simple, emit='enc', edit=(1, 1), sessions=(600, 12000)),
    'P23': dict(groups=ALL, emit='enc', edit=(1, 1), sessions=(600, 12000)),
    'P24': dict(groups=ALL, gen=['struct', 'option', 'ext', 'int'], emit='enc', edit=(1, 1), sessions=(600, 12000)),
    'P27': dict(groups=ALL, emit='all', edit=(4, 16), sessions=(600, 12000)),
}
SGROUPS = ['sprim', 'scont', 'srec', 'sstruct', 'senum', 'scomp']
SERDE = {
    'P06': dict(emit='des', edit=(2, 12), sessions=(400, 12000)),
    'P19': dict(emit='ser', edit=(1, 1), sessions=(800, 16000)),
    'P20': dict(emit='all', edit=(4, 24), sessions=(800, 16000)),
    'P28': dict(emit='all', edit=(2, 24), sessions=(800, 16000)),
}
OTHERS = dict(TYPED, **SERDE, P18={})


def definitions(prop, rep):
    """Which definitions the derives accept."""
    deep = TIER == 'thorough'
    defs.check(rep, 'Definitions-2', dict(MaxAnn=2, **(dict(Misuse='{%s}' % ', '.join('"%s"' % b for b in MISUSED)) if deep else {})), lambda i, x: True)
    if deep:
        defs.check(rep, 'Definitions-3', dict(MaxAnn=3), lambda i, x: x['n'] == 3 and i % 3 == SEED % 3)
    typed_bin(rep, ALL)


MISUSED = ['Unit', 'New', 'Pair', 'Two', 'Inner', 'Units', 'UnitNew', 'Maps', 'MapUnit', 'Tuples', 'Wrapped', 'Over', 'Never', 'Gen', 'GenEnum',
           'Arr3', 'Thru', 'Embeds', 'TMaps', 'TFall']


def typed_bin(rep, groups):
    """The typed harness; a definition of the catalogue that does not compile breaks whatever it is there for."""
    t = lib.typed_bin()
    cat, _ = lib.catalogue()
    for e in cat['types']:
        if e['id'] in lib.EXCLUDED and e['g'] in groups:
            rep.violation('Catalogue', dict(what='this definition must compile', type=e['id'], error=lib.EXCLUDED[e['id']]))
    return t


def typed(prop, rep, p):
    t = typed_bin(rep, p['groups'])
    ex = [t, 'exec', prop]
    deep = TIER == 'thorough'
    cat = dict(CATALOGUE=lib.os.path.join(lib.GEN, 'catalogue.json'))
    jobs = []
    for g in p['groups']:
        edit = p['edit'][deep]
        c = dict(Groups='{"%s"}' % g, Emit='"%s"' % p['emit'], EditFrom=edit, MaxEdits=1)
        jobs.append(lambda g=g, c=c: generate_and_replay(
            rep, 'TypedMachine-' + g, 'TypedMachine.tla', 'MCTyped.cfg', ex, constants=c, extra_env=cat))
    if prop in ('P06', 'P27'):
        jobs.append(lambda: generate_and_replay(rep, 'DeepMachine-typed', DEEP[1], DEEP[2], ex))
    if prop in ('P06', 'P10', 'P11', 'P23', 'P27'):
        jobs.append(lambda: generate_and_replay(rep, 'WideMachine-typed', WIDE[1], WIDE[2], ex))
    if prop == 'P27':
        typed_reader(rep, jobs, ex, deep, 'Both')
    n = p['sessions'][deep]
    jobs.append(lambda: record_and_validate(
        rep, 'sessions-typed', 'TypedTrace.tla', [t, 'record', ','.join(p['groups']), str(SEED), str(n)], prop, extra_env=cat))
    jobs += generated(prop, rep, p, deep)
    run_all(jobs)


# How many of the generated definitions are compiled: every so many of those with the most annotations.
EACH = {False: dict(struct=3, option=6, ext=10, int=6), True: dict(struct=1, option=1, ext=2, int=2)}


def generated(prop, rep, p, deep):
    """The same for the definitions that the specification Definitions generates."""
    if 'gen' not in p:
        return []
    wide = len(p['gen']) > 1
    each = {g: n * (3 if wide else 1) for g, n in EACH[deep].items()}
    jobs = []
    for g, (ex, cat) in gen.build(rep, p['gen'], 2, each, p.get('only')).items():
        c = dict(Groups='{"%s"}' % g, Emit='"%s"' % p['emit'], EditFrom=(1, 6)[deep], MaxEdits=1)
        jobs.append(lambda g=g, c=c, ex=ex, cat=cat: generate_and_replay(
            rep, 'Generated-' + g, 'TypedMachine.tla', 'MCTyped.cfg', [ex, 'exec', prop], constants=c, extra_env=dict(CATALOGUE=cat)))
        jobs.append(lambda g=g, ex=ex, cat=cat: record_and_validate(
            rep, 'sessions-generated-' + g, 'TypedTrace.tla', [ex, 'record', g, str(SEED), str((200, 6000)[deep])], prop, extra_env=dict(CATALOGUE=cat)))
    return jobs


def typed_reader(rep, jobs, ex, deep, modes):
    """The decoder's behaviours where it decodes for a type, with the typed limit."""
    c = dict(Limits='LimTyped', Modes=modes)
    for r in ['short', 'maps', 'text', 'wide'] + (['keys', 'text4', 'wide8'] if deep else []):
        jobs.append(lambda r=r: generate_and_replay(rep, 'ReaderMachine-' + r, 'MCReader.tla', 'MCReader_%s.cfg' % r, ex, constants=c))


def serde(prop, rep, p):
    t = lib.serde_bin()
    ex = [t, 'exec', prop]
    deep = TIER == 'thorough'
    cat = dict(CATALOGUE=lib.os.path.join(lib.GEN, 'serde.json'))
    jobs = []
    for g in SGROUPS:
        c = dict(Groups='{"%s"}' % g, Emit='"%s"' % p['emit'], EditFrom=p['edit'][deep], MaxEdits=1)
        jobs.append(lambda g=g, c=c: generate_and_replay(
            rep, 'SerdeMachine-' + g, 'SerdeMachine.tla', 'MCSerde.cfg', ex, constants=c, extra_env=cat))
    if prop in ('P06', 'P20', 'P28'):
        jobs.append(lambda: generate_and_replay(rep, 'DeepMachine-serde', DEEP[1], DEEP[2], ex))
    if prop in ('P06', 'P20', 'P28'):
        jobs.append(lambda: generate_and_replay(rep, 'WideMachine-serde', WIDE[1], WIDE[2], ex))
    if prop == 'P28':
        typed_reader(rep, jobs, ex, deep, 'StrictOnly')
    n = p['sessions'][deep]
    jobs.append(lambda: record_and_validate(
        rep, 'sessions-serde', 'SerdeTrace.tla', [t, 'record', ','.join(SGROUPS), str(SEED), str(n)], prop, extra_env=cat))
    run_all(jobs)


def run(prop, rep):
    if prop in UNTYPED:
        untyped(prop, rep, UNTYPED[prop])
    if prop in TYPED:
        typed(prop, rep, TYPED[prop])
    if prop == 'P18':
        definitions(prop, rep)
    if prop in SERDE:
        serde(prop, rep, SERDE[prop])
    if prop not in UNTYPED and prop not in OTHERS:
        raise lib.ToolError('no check for ' + prop)


TECHNIQUE = {
    '': 'TLA+ specification checked with TLC; TLC-generated behaviours replayed into the real code, recorded sessions of the real code validated against the specification',
}
NOTE = {
    '': 'Exhaustive within the alphabets and bounds of the listed model configurations, for the model (invariants) and for the '
        'real code (every emitted behaviour is replayed); beyond the bounds, seeded random sessions of the real code are checked '
        'against the specification. Trusts TLC, the specification text and the value projection in harness/common.',
}
