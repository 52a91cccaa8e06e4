"""Compiles definitions with the real derives and compares what is refused with the specification's verdicts."""
import json, os, re, subprocess, time
import lib
from lib import ToolError, log

CRATE = os.path.join(lib.VERIF, 'harness/defs')
CHUNKS = 7

HEAD = '''// Generated by tools/defs.py from spec/Definitions.tla.
#![allow(dead_code, unused, clippy::all, non_camel_case_types)]
use oasis_cbor as cbor;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
#[path = "../../../../harness/typed/src/conv.rs"]
mod conv;
fn main() {}
'''


def enumerate_definitions(rep, name, constants, keep):
    """The definitions TLC emits, thinned out by keep(index, record)."""
    d = lib.scratch('%s-%s' % (rep.prop, name))
    text = open(os.path.join(lib.SPEC, 'MCDefinitions.cfg')).read()
    for k, v in constants.items():
        text, n = re.subn(r'(?m)^CONSTANT %s = .*$' % k, 'CONSTANT %s = %s' % (k, v), text)
        assert n == 1, k
    cfg = os.path.join(d, 'run.cfg')
    lib.write(cfg, text)
    left = max(10, lib.DEADLINE - (time.time() - lib.START))
    r = subprocess.run(['timeout', '-k', '5', str(int(left))] + lib.tlc_cmd('Definitions.tla', cfg, d, 8), cwd=d,
                       capture_output=True, text=True)
    lines, counts = [], None
    for line in r.stdout.split('\n'):
        if line.startswith('"@@'):
            lines.append(json.loads(line)[2:])
        counts = lib.COUNTS.match(line) or counts
    if r.returncode != 0 or counts is None or int(counts.group(3)) != 0:
        raise ToolError('%s: TLC failed (%d): %s' % (name, r.returncode, r.stdout[-2000:]))
    lines.sort()
    recs = [json.loads(x) for x in lines]
    return [x for i, x in enumerate(recs) if keep(i, x)], int(counts.group(2)), int(counts.group(1)), len(recs)


def text_of(gen, rec, i):
    d = rec['d']
    s = gen.definition(d, 'D%d' % i, False, default=rec['default']).replace('\n', ' ')
    if d['dflt']:
        s += 'impl Default for D%d { fn default() -> Self { unimplemented!() } }' % i
    return 'mod m%d { use super::*; %s }' % (i, s)


def compile_set(name, helpers, texts):
    """Checks all the modules; returns those that have errors: index -> messages.  The others compile together."""
    src = os.path.join(lib.GEN, 'defs', 'src')
    os.makedirs(src, exist_ok=True)
    failed = {}
    chunk = lambda k: os.path.join(src, '%s%d.rs' % (name, k))
    for rnd in range(12):
        at = {}
        for k in range(CHUNKS):
            lines = HEAD.rstrip('\n').split('\n') + helpers
            for i in range(k, len(texts), CHUNKS):
                if i not in failed:
                    lines.append(texts[i])
                    at[('%s%d.rs' % (name, k), len(lines))] = i
            text = '\n'.join(lines) + '\n'
            p = chunk(k)
            if not os.path.exists(p) or open(p).read() != text:
                lib.write(p, text)
        args = ['check', '--keep-going', '--message-format=json'] + sum([['--bin', '%s%d' % (name, k)] for k in range(CHUNKS)], [])
        r = lib.cargo(CRATE, args, check=False)
        if r.returncode == 0:
            return failed
        new, stray = {}, []
        for msg, code, spans in lib.compile_errors(r.stdout):
            hit = {at[(os.path.basename(f), n)] for f, n in spans if (os.path.basename(f), n) in at}
            for i in hit:
                new.setdefault(i, []).append(msg)
            if not hit and not msg.startswith('aborting due to'):
                stray.append((msg, spans))
        if not new:
            raise ToolError('definitions: %s %s' % (stray[:3], r.stderr[-1500:]))
        for i, m in new.items():
            failed[i] = m
    raise ToolError('definitions: too many rounds')


def check(rep, name, constants, keep):
    import codegen
    recs, states, transitions, emitted = enumerate_definitions(rep, name, constants, keep)
    gen = codegen.Gen(dict(defs={}, types=[]))
    helpers = [gen.definition(d, d['n'], False).replace('\n', ' ') for d in json.loads(json.dumps(lib.export('ExportHelpers')))]
    kinds = {}
    for verdict, short in (('accept', 'a'), ('refuse', 'r')):
        part = [x for x in recs if x['verdict'] == verdict]
        texts = [text_of(gen, x, i) for i, x in enumerate(part)]
        failed = compile_set(short, helpers, texts)
        bad = [i for i in range(len(part)) if (i in failed) == (verdict == 'accept')]
        kinds[verdict] = len(part)
        for w in part:
            for y in w['why'][:1]:
                kinds[y] = kinds.get(y, 0) + 1
        new = 0
        for i in bad:
            x = part[i]
            what = dict(what='this definition must %s' % ('compile' if verdict == 'accept' else 'be refused by the compiler'),
                        definition=texts[i], derive=x['d']['der'], why=x['why'], errors=failed.get(i, [])[:3],
                        got=dict(finding='%s:%s' % (x['b'], texts[i])))
            if not rep.listed(what):
                new += 1
                if new <= 4:
                    rep.violation(name, what)
        samples = [dict(definition=texts[i], verdict=verdict, why=part[i]['why']) for i in range(0, len(part), max(1, len(part) // 3))][:3]
        rep.stage('%s-%s' % (name, verdict), states=states if verdict == 'accept' else 0, transitions=transitions if verdict == 'accept' else 0,
                  traces=len(part), samples=samples, mismatches=len(bad), emitted=emitted, kinds=dict(kinds))
