#!/usr/bin/env python3
"""Does trace validation reject recordings that are wrong?  Change one outcome at a time and expect a rejection.

python3 tools/selftest.py [how many]"""
import json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, plan

N = int(sys.argv[1]) if len(sys.argv) > 1 else 12


def flip(j, r):
    """Change one number, text or outcome inside j."""
    spots = []

    def walk(x, at):
        for k, v in (x.items() if isinstance(x, dict) else enumerate(x)):
            if isinstance(v, (dict, list)) and v != []:
                walk(v, at + [k])
            elif k != 'op':
                spots.append((x, k))
    walk(j, [])
    if not spots:
        return
    x, k = r.choice(spots)
    v = x[k]
    if v is True or v is False:
        x[k] = not v
    elif isinstance(v, int):
        x[k] = (v + 1) % 256 if isinstance(x, list) and len(x) > 1 else v + 1
    elif isinstance(v, list):
        x[k] = [1]
    else:
        x[k] = {'ok': 'err', 'err': 'ok'}.get(v, v + 'X')


class Quiet(lib.Report):
    def violation(self, name, what):
        self.violations.append(what)


def run(name, module, recorder, prop, extra):
    d = lib.scratch('selftest')
    good = os.path.join(d, 'good')
    assert os.system(' '.join(recorder + [good])) == 0
    lines = open(good).read().split('\n')[:-1]
    r, rejected, kept = random.Random(lib.SEED), 0, []
    for i in range(N):
        sid = r.randrange(len(lines))
        s = json.loads(lines[sid])
        e = r.randrange(len(s['evs']))
        before = json.dumps(s['evs'][e])
        flip(s['evs'][e], r)
        bad = os.path.join(d, 'bad')
        lib.write(bad, json.dumps(s, separators=(',', ':')) + '\n')
        rep = Quiet(prop)
        try:
            lib.record_and_validate(rep, 'selftest', module, ['cp', bad], prop, extra_env=extra)
        except lib.ToolError as x:
            print('   TOOL', str(x)[:300])
        if before == json.dumps(s["evs"][e]):
            pass
        elif rep.violations:
            rejected += 1
        else:
            kept.append((before, json.dumps(s['evs'][e])))
    print('%s %s: %d of %d changed recordings rejected' % (name, prop, rejected, rejected + len(kept)), flush=True)
    for k in kept if '-v' in sys.argv else []:
        print('   still explained:\n     %s\n     %s' % k)


v = lib.val_bin()
for prop in sorted(plan.UNTYPED):
    for profile, _, _ in plan.UNTYPED[prop].get('sessions', []):
        run(profile, 'UntypedTrace.tla', [v, 'record', profile, '1', '40'], prop, {})
t = lib.typed_bin()
for prop in ('P06', 'P10', 'P11', 'P12', 'P24', 'P27'):
    run('typed', 'TypedTrace.tla', [t, 'record', ','.join(plan.TYPED[prop]['groups']), '1', '60'], prop, dict(CATALOGUE=os.path.join(lib.GEN, 'catalogue.json')))
t = lib.serde_bin()
for prop in ('P19', 'P20'):
    run('serde', 'SerdeTrace.tla', [t, 'record', ','.join(plan.SGROUPS), '1', '60'], prop, dict(CATALOGUE=os.path.join(lib.GEN, 'serde.json')))
