"""Renders the catalogue exported by the specification into Rust types with the real derives."""
import json

TAB = '    '


def key_lit(k):
    if k[0] == 3:
        s = bytes(k[1]).decode()
        assert s.isascii() and '"' not in s and '\\' not in s
        return '"%s"' % s
    assert k[0] == 0
    return str(int.from_bytes(bytes(k[1]), 'big'))


def int_lit(v):
    n = int.from_bytes(bytes(v[1]), 'big')
    return str(n if v[0] == 0 else -1 - n)


def refs(ty):
    if isinstance(ty, dict):
        if ty.get('t') == 'ref':
            yield ty['n']
        for v in ty.values():
            yield from refs(v)
    elif isinstance(ty, list):
        for v in ty:
            yield from refs(v)


def closure(cat, skip):
    """All definitions and entries that need one of those left out."""
    skip = set(skip)
    bases = {d['generic'] for n, d in cat['defs'].items() if n in skip and d['generic']}
    bases |= {d['generic'] for d in cat['defs'].values() if d['generic'] in skip}
    skip |= {n for n, d in cat['defs'].items() if d['generic'] and d['generic'] in bases}
    while True:
        more = {n for n, d in cat['defs'].items() if set(refs([d['fields'], d['variants'], d['par']])) & skip}
        more |= {e['id'] for e in cat['types'] if set(refs(e['ty'])) & skip}
        if more <= skip:
            return skip
        skip |= more


class Gen:
    def __init__(self, cat, defaults=None):
        self.defs = cat['defs']
        self.types = cat['types']
        self.funs = {}
        self.out = []
        self.defaults = defaults or {}

    # --- types ---
    def rs(self, ty, par=None):
        t = ty['t']
        r = lambda x: self.rs(x, par)
        if t in ('u', 'i'):
            return '%s%d' % (t, ty['w'] * 8)
        return {
            'u128': lambda: 'u128', 'bool': lambda: 'bool', 'str': lambda: 'String', 'char': lambda: 'char',
            'bytes': lambda: 'Vec<u8>', 'barr': lambda: '[u8; %d]' % ty['n'], 'unit': lambda: '()',
            'value': lambda: 'cbor::Value', 'vec': lambda: 'Vec<%s>' % r(ty['e']),
            'arr': lambda: '[%s; %d]' % (r(ty['e']), ty['n']),
            'tup': lambda: '(%s,)' % ', '.join(r(e) for e in ty['es']),
            'opt': lambda: 'Option<%s>' % r(ty['e']),
            'bor': lambda: "&'static %s" % ('str' if ty['e']['t'] == 'str' else r(ty['e'])),
            'bmap': lambda: 'BTreeMap<%s, %s>' % (r(ty['k']), r(ty['v'])),
            'hmap': lambda: 'HashMap<%s, %s>' % (r(ty['k']), r(ty['v'])),
            'bset': lambda: 'BTreeSet<%s>' % r(ty['e']), 'hset': lambda: 'HashSet<%s>' % r(ty['e']),
            'ref': lambda: ty['n'], 'par': lambda: par or 'T', 'raw': lambda: ty['s'],
        }[t]()

    def boxed(self, ty):
        """A reference that is kept in a box."""
        return False

    def fun(self, ty):
        """The number of the pair of conversion functions of a type."""
        k = json.dumps(ty, sort_keys=True)
        if k not in self.funs:
            self.funs[k] = i = len(self.funs)
            self.emit_fun(i, ty)
        return self.funs[k]

    def emit_fun(self, i, ty):
        t = ty['t']
        to, fr = None, None
        f = self.fun
        if t == 'u':
            to, fr = 'mo::int(*x as i128)', 'mo::to_int(j) as %s' % self.rs(ty)
        elif t == 'i':
            to, fr = 'mo::int(*x as i128)', 'mo::to_int(j) as %s' % self.rs(ty)
        elif t == 'u128':
            to, fr = 'mo::digits(*x)', 'mo::to_nat(j)'
        elif t == 'char':
            to, fr = 'mo::digits(*x as u32 as u128)', 'char::from_u32(mo::to_nat(j) as u32).expect("HARNESS: char")'
        elif t == 'bool':
            to, fr = 'J::Num(*x as i64)', 'j.num() == 1'
        elif t == 'str':
            to, fr = 'mo::bytes(x.as_bytes())', 'String::from_utf8(mo::to_bytes(j)).expect("HARNESS: utf8")'
        elif t == 'bytes':
            to, fr = 'mo::bytes(x)', 'mo::to_bytes(j)'
        elif t == 'barr':
            to, fr = 'mo::bytes(x)', 'mo::to_bytes(j).try_into().expect("HARNESS: len")'
        elif t == 'unit':
            to, fr = '{ let _ = x; J::Arr(vec![]) }', '{ let _ = j; }'
        elif t == 'value':
            to, fr = 'mo::val(x)', 'mo::to_val(j)'
        elif t in ('vec', 'arr', 'bset', 'hset'):
            e = f(ty['e'])
            to = 'J::Arr(x.iter().map(to_%d).collect())' % e
            if t in ('bset', 'hset'):
                to = 'sorted(x.iter().map(to_%d).collect())' % e
            fr = 'j.arr().iter().map(from_%d).collect()' % e
            if t == 'arr':
                fr = 'j.arr().iter().map(from_%d).collect::<Vec<_>>().try_into().ok().expect("HARNESS: len")' % e
        elif t == 'opt':
            e = f(ty['e'])
            to = 'J::Arr(x.iter().map(to_%d).collect())' % e
            fr = 'j.arr().first().map(from_%d)' % e
        elif t == 'bor' and ty['e']['t'] == 'str':
            to, fr = 'mo::bytes(x.as_bytes())', 'Box::leak(String::from_utf8(mo::to_bytes(j)).expect("HARNESS: utf8").into_boxed_str())'
        elif t == 'bor':
            e = f(ty['e'])
            to, fr = 'to_%d(x)' % e, 'Box::leak(Box::new(from_%d(j)))' % e
        elif t == 'tup':
            es = [f(e) for e in ty['es']]
            to = 'J::Arr(vec![%s])' % ', '.join('to_%d(&x.%d)' % (e, n) for n, e in enumerate(es))
            fr = '(%s,)' % ', '.join('from_%d(&j.arr()[%d])' % (e, n) for n, e in enumerate(es))
        elif t in ('bmap', 'hmap'):
            k, v = f(ty['k']), f(ty['v'])
            to = 'sorted(x.iter().map(|(k, v)| J::Arr(vec![to_%d(k), to_%d(v)])).collect())' % (k, v)
            fr = 'j.arr().iter().map(|p| (from_%d(&p.arr()[0]), from_%d(&p.arr()[1]))).collect()' % (k, v)
        elif t == 'ref':
            d = self.defs[ty['n']]
            fty = lambda fd: d['par'] if fd['ty']['t'] == 'par' else fd['ty']
            if d['kind'] == 'struct':
                fs = [(fd['n'] if d['shape'] == 'named' else str(n), f(fty(fd))) for n, fd in enumerate(d['fields'])]
                to = 'J::Arr(vec![%s])' % ', '.join('to_%d(&x.%s)' % (k, n) for n, k in fs)
                vals = ['from_%d(&j.arr()[%d])' % (k, n) for n, (_, k) in enumerate(fs)]
                if d['shape'] == 'unit':
                    fr = ty['n']
                elif d['shape'] == 'named':
                    fr = '%s { %s }' % (ty['n'], ', '.join('%s: %s' % (n, v) for (n, _), v in zip(fs, vals)))
                else:
                    fr = '%s(%s)' % (ty['n'], ', '.join(vals))
                fr = '{ let _ = j; %s }' % fr
            else:
                to_arms, fr_arms = [], []
                for v in d['variants']:
                    ks = [f(fty(fd)) for fd in v['fields']]
                    names = ['a%d' % n for n in range(len(ks))]
                    vals = ['from_%d(&a[%d])' % (k, n) for n, k in enumerate(ks)]
                    path = '%s::%s' % (ty['n'], v['n'])
                    if v['shape'] == 'unit':
                        pat, con = path, path
                    elif v['shape'] == 'named':
                        pat = '%s { %s }' % (path, ', '.join('%s: %s' % (fd['n'], a) for fd, a in zip(v['fields'], names)))
                        con = '%s { %s }' % (path, ', '.join('%s: %s' % (fd['n'], x) for fd, x in zip(v['fields'], vals)))
                    else:
                        pat = '%s(%s)' % (path, ', '.join(names))
                        con = '%s(%s)' % (path, ', '.join(vals))
                    to_arms.append('%s => variant("%s", vec![%s]),' % (
                        pat, v['n'], ', '.join('to_%d(%s)' % (k, a) for k, a in zip(ks, names))))
                    fr_arms.append('"%s" => %s,' % (v['n'], con))
                to = 'match %s { %s }' % ('&**x' if self.boxed(ty) else 'x', ' '.join(to_arms))
                fr = ('{ let a = j.arr()[1].arr(); let _ = a; match j.arr()[0].str() { %s n => panic!("HARNESS: variant {}", n) } }'
                      % ' '.join(fr_arms))
        if t == 'ref' and self.boxed(ty):
            fr = 'Box::new(%s)' % fr
        rs = self.rs(ty)
        self.out.append('// FUN %s\nfn to_%d(x: &%s) -> J { %s }\nfn from_%d(j: &J) -> %s { %s }' % (
            ty.get('n', '') if t == 'ref' else '', i, rs, to, i, rs, fr))

    # --- definitions ---
    def field(self, fd, named, vis='pub '):
        a = []
        if fd['rn']:
            a.append('rename = %s' % key_lit(fd['key']))
        if fd['optional']:
            a.append('optional')
        if fd['skip']:
            a.append('skip')
        if fd['skipif']:
            a.append('skip_serializing_if = "%s"' % fd['skipif'])
        if fd['ser']:
            a.append('serialize_with = "%s"' % fd['ser'])
        if fd['de']:
            a.append('deserialize_with = "%s"' % fd['de'])
        if fd['raw']:
            a.append(fd['raw'])
        attr = '#[cbor(%s)] ' % ', '.join(a) if a else ''
        return '%s%s%s%s' % (attr, vis, fd['n'] + ': ' if named else '', self.rs(fd['ty']))

    def fields(self, shape, fs, vis='pub '):
        if shape == 'unit':
            return ''
        s = ', '.join(self.field(f, shape == 'named', vis) for f in fs)
        return ' { %s }' % s if shape == 'named' else '(%s)' % s

    def definition(self, d, name, generic, default=None):
        """default: derive Default (unless given, wherever a struct may need it)."""
        a = [k for k in ('transparent', 'as_array', 'no_default', 'with_default', 'allow_unknown', 'untagged') if d[k]]
        if d['tag']:
            a.append('tag = %s' % key_lit(d['tag']))
        if d['raw']:
            a.append(d['raw'])
        ders = ['Clone']
        if default is None:
            default = d['kind'] == 'struct' and not d['dflt'] and not d['no_default']
        if default:
            ders.append('Default')
        ders += {'both': ['cbor::Encode', 'cbor::Decode'], 'enc': ['cbor::Encode'], 'dec': ['cbor::Decode']}[d['der']]
        s = '#[derive(%s)]\n' % ', '.join(ders)
        if a:
            s += '#[cbor(%s)]\n' % ', '.join(a)
        par = '<T: cbor::Encode + cbor::Decode%s>' % (' + Default' if 'Default' in ders else '') if generic else d['head']
        if d['kind'] != 'enum':
            body = self.fields(d['shape'], d['fields'])
            s += 'pub %s %s%s%s%s\n' % (d['kind'], name, par, body, '' if d['shape'] == 'named' else ';')
        else:
            vs = []
            for v in d['variants']:
                va = [k for k in ('as_array', 'as_struct', 'skip', 'embed', 'allow_unknown', 'missing') if v[k]]
                if v['rn']:
                    va.append('rename = %s' % key_lit(v['key']))
                if v['raw']:
                    va.append(v['raw'])
                vs.append('%s%s%s%s' % ('#[cbor(%s)] ' % ', '.join(va) if va else '', v['n'],
                                        self.fields(v['shape'], v['fields'], ''),
                                        ' = ' + int_lit(v['disc']) if v['disc'] else ''))
            s += 'pub enum %s%s { %s }\n' % (name, par, ', '.join(vs))
        return s

    def render(self, only=None):
        """only: ids of entries to leave out (definitions that do not compile)."""
        skip = set(only or ())
        seen = set()
        for n, d in self.defs.items():
            if n in skip:
                continue
            base = d['generic']
            if base:
                if base not in seen:
                    seen.add(base)
                    self.out.append('// DEF %s\n%s' % (n, self.definition(d, base, True)))
                self.out.append('// DEF %s\npub type %s = %s<%s>;' % (n, n, base, self.rs(d['par'])))
            else:
                self.out.append('// DEF %s\n%s' % (n, self.definition(d, n, False, default=self.defaults.get(n))))
            if d['dflt']:
                k = self.fun(dict(t='ref', n=n))
                self.out.append('// DEF %s\nimpl Default for %s { fn default() -> Self { from_%d(&crate::json::parse(r#"%s"#)) } }' % (
                    n, n, k, json.dumps(d['dflt'][0])))
        rows = []
        for e in self.types:
            if e['id'] in skip:
                continue
            k = self.fun(e['ty'])
            rs = self.rs(e['ty'])
            dec = '"bor"' not in json.dumps(e['ty']) and all(self.defs[n]['der'] != 'enc' for n in refs(e['ty']))
            rows.append('    // ROW %s\n    row!("%s", "%s", %s, to_%d, from_%d%s),' % (
                e['id'], e['id'], e['g'], rs, k, k, self.row_end(dec)))
        head = self.HEAD
        return head + '\n'.join(self.out) + '\npub fn table() -> Vec<Row> {\n    vec![\n' + '\n'.join(rows) + '\n    ]\n}\n'

    def row_end(self, dec):
        return ', dec' if dec else ', nodec'

    HEAD = '''// Generated by tools/codegen.py from spec/Catalogue.tla.
#![allow(dead_code, unused_imports, clippy::all, non_camel_case_types)]
use crate::conv;
use crate::json::J;
use crate::model as mo;
use crate::table::*;
use oasis_cbor as cbor;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
'''


class SerdeGen(Gen):
    """The catalogue of serde types, with serde's derives."""

    def boxed(self, ty):
        return 'eg' in self.defs[ty['n']]

    def rs(self, ty, par=None):
        t = ty['t']
        if t == 'f':
            return 'f%d' % (ty['w'] * 8)
        if t == 'bbuf':
            return 'serde_bytes::ByteBuf'
        if t == 'dyn':
            return 'Dyn'
        if t == 'human':
            return 'Human'
        if t == 'ref' and self.boxed(ty):
            return 'Box<%s>' % ty['n']
        if t == 'pairs':
            return 'Pairs<%s, %s>' % (self.rs(ty['k'], par), self.rs(ty['v'], par))
        return Gen.rs(self, ty, par)

    def emit_fun(self, i, ty):
        t, f = ty['t'], self.fun
        if t == 'f':
            to, fr = '{ let _ = x; J::Arr(vec![]) }', '{ let _ = j; 1.5 }'
        elif t == 'bbuf':
            to, fr = 'mo::bytes(x)', 'serde_bytes::ByteBuf::from(mo::to_bytes(j))'
        elif t == 'dyn':
            to, fr = 'mo::val(&x.0)', 'Dyn(mo::to_val(j))'
        elif t == 'pairs':
            k, v = f(ty['k']), f(ty['v'])
            to = 'J::Arr(x.0.iter().map(|(k, v)| J::Arr(vec![to_%d(k), to_%d(v)])).collect())' % (k, v)
            fr = 'Pairs(j.arr().iter().map(|p| (from_%d(&p.arr()[0]), from_%d(&p.arr()[1]))).collect())' % (k, v)
        elif t == 'human':
            to, fr = 'mo::bytes(x.0.as_bytes())', 'Human(String::from_utf8(mo::to_bytes(j)).expect("HARNESS: utf8"))'
        else:
            return Gen.emit_fun(self, i, ty)
        rs = self.rs(ty)
        self.out.append('// FUN\nfn to_%d(x: &%s) -> J { %s }\nfn from_%d(j: &J) -> %s { %s }' % (i, rs, to, i, rs, fr))

    def field(self, fd, named, vis='pub '):
        a = []
        if fd['rn']:
            a.append('rename = %s' % key_lit(fd['key']))
        if fd['optional']:
            a.append('default')
        if fd['skip']:
            a.append('skip')
        if fd['flatten']:
            a.append('flatten')
        if fd['skipif']:
            a.append('skip_serializing_if = "%s"' % fd['skipif'])
        attr = '#[serde(%s)] ' % ', '.join(a) if a else ''
        return '%s%s%s%s' % (attr, vis, fd['n'] + ': ' if named else '', self.rs(fd['ty']))

    def definition(self, d, name, generic, default=None):
        a = [k for k in ('transparent', 'untagged') if d[k]]
        if d['tag']:
            a.append('tag = %s' % key_lit(d['tag']))
        if d['content']:
            a.append('content = %s' % key_lit(d['content']))
        if not d['allow_unknown'] and (d['shape'] == 'named' or d['kind'] == 'enum'):
            a.append('deny_unknown_fields')
        s = '#[derive(serde::Serialize, serde::Deserialize)]\n'
        if a:
            s += '#[serde(%s)]\n' % ', '.join(a)
        par = '<T>' if generic else ''
        if d['kind'] == 'struct':
            return s + 'pub struct %s%s%s%s\n' % (name, par, self.fields(d['shape'], d['fields']), '' if d['shape'] == 'named' else ';')
        vs = []
        for v in d['variants']:
            va = ['skip'] if v['skip'] else []
            if v['rn']:
                va.append('rename = %s' % key_lit(v['key']))
            vs.append('%s%s%s' % ('#[serde(%s)] ' % ', '.join(va) if va else '', v['n'], self.fields(v['shape'], v['fields'], '')))
        return s + 'pub enum %s%s { %s }\n' % (name, par, ', '.join(vs))

    def row_end(self, dec):
        return ''

    HEAD = '''// Generated by tools/codegen.py from spec/SerdeCatalogue.tla.
#![allow(dead_code, unused_imports, clippy::all, non_camel_case_types)]
use crate::conv;
use crate::data::*;
use crate::json::J;
use crate::model as mo;
use crate::table::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
'''


if __name__ == '__main__':
    import sys
    print(Gen(json.load(open(sys.argv[1]))).render())
