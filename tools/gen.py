"""The definitions that the specification Definitions accepts, as further types for TypedMachine."""
import hashlib, json, os, re
import lib, codegen, defs
from lib import log

GROUPS = ['struct', 'option', 'ext', 'int']
CRATE = os.path.join(lib.VERIF, 'harness/gen')


def group(d):
    if d['kind'] == 'enum':
        return 'int' if d['tag'] else 'ext'
    plain = not any(f['optional'] or f['skip'] or f['ser'] or f['de'] for f in d['fields'])
    return 'struct' if plain else 'option'


def usable(d):
    """Types whose data the harness can build: no foreign types, no parameters."""
    return not d['head'] and d['variants' if d['kind'] == 'enum' else 'shape'] \
        and not any(f['ty']['t'] == 'raw' for f in d['fields'] + [f for v in d['variants'] for f in v['fields']])


def simple(d):
    """No variant that leaves the type's own encoding (known findings of P17)."""
    return not any(v['skip'] or v['embed'] for v in d['variants'])


def select(rep, depth, each, groups):
    """All definitions with fewer than `depth` annotations, and every each[group]-th of those with `depth`."""
    recs, states, transitions, emitted = defs.enumerate_definitions(
        rep, 'definitions', dict(MaxAnn=depth, Misuse='{}', Der='{"both", "enc"}'),
        lambda i, x: x['verdict'] == 'accept' and usable(x['d']) and group(x['d']) in groups)
    both = {key(x) for x in recs if x['d']['der'] == 'both'}
    recs = [x for x in recs if x['d']['der'] == 'both' or key(x) not in both]
    out, n = [], dict.fromkeys(groups, 0)
    for x in sorted(recs, key=lambda x: hashlib.sha256(json.dumps(x, sort_keys=True).encode()).digest()):
        if x['n'] == depth:
            g = group(x['d'])
            n[g] += 1
            if n[g] % each[g]:
                continue
        out.append(x)
    out.sort(key=lambda x: (x['n'], x['b'], json.dumps(x)))
    return out, states, transitions


def key(x):
    return json.dumps(dict(x['d'], der=''), sort_keys=True)


def build(rep, groups, depth, each, only=None):
    """Harness binaries and catalogues per group: {group: (binary, catalogue)}."""
    recs, states, transitions = select(rep, depth, each, groups)
    helpers = lib.export('ExportHelpers')
    found, size = {}, {}
    for g in GROUPS:
        part = [x for x in recs if group(x['d']) == g and (only is None or only(x['d']))]
        cat = dict(defs={d['n']: d for d in helpers}, types=[])
        defaults = {}
        for i, x in enumerate(part):
            n = '%s%d' % (x['b'], i)
            cat['defs'][n] = dict(x['d'], n=n)
            defaults[n] = x['default']
            cat['types'].append(dict(id=n, g=g, ty=dict(t='ref', n=n)))
        size[g] = len(part)
        d = os.path.join(lib.GEN, 'g' + g)
        os.makedirs(d, exist_ok=True)
        main = open(os.path.join(lib.VERIF, 'harness/typed/src/main.rs')).read()
        main = re.sub(r'"\.\./\.\./common/', '"../../../harness/common/', main)
        main = re.sub(r'(?m)^mod (conv|table|ops|record);', r'#[path = "../../../harness/typed/src/\1.rs"]\nmod \1;', main)
        main = main.replace('../../../build/gen/', '')
        for f, text in (('main.rs', main), ('types.rs', codegen.Gen(cat, defaults=defaults).render()), ('catalogue.json', json.dumps(cat))):
            p = os.path.join(d, f)
            if not os.path.exists(p) or open(p).read() != text:
                lib.write(p, text)
        found[g] = (os.path.join(lib.BUILD, 'target/debug/g' + g), os.path.join(d, 'catalogue.json'))
    rep.stage('Definitions', states=states, transitions=transitions, types=sum(size.values()), groups=size)
    r = lib.cargo(CRATE, ['build', '--message-format=json'] + sum([['--bin', 'g' + g] for g in groups], []), check=False)
    if r.returncode != 0:
        broken = {}
        for msg, code, spans in lib.compile_errors(r.stdout):
            for f, n in spans:
                g = os.path.basename(os.path.dirname(f))
                if os.path.basename(f) == 'types.rs' and g[1:] in groups:
                    lines = open(os.path.join(lib.GEN, g, 'types.rs')).read().split('\n')
                    k = next((k for k in range(n - 1, -1, -1) if lines[k].startswith('// DEF ')), None)
                    if k is not None:
                        broken.setdefault('\n'.join(lines[k + 1:n]), msg)
        if not broken:
            raise lib.ToolError('build of %s failed: %s' % (CRATE, r.stderr[-2000:]))
        for text, msg in list(broken.items())[:3]:
            rep.violation('Definitions', dict(what='this definition must compile', definition=text, error=msg))
        return {}
    log('built')
    return {g: found[g] for g in groups if size[g]}
