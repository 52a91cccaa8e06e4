// Replays what TLC emits (on stdin) with the module given, one test at a time, and reports like
// the other executors.  A panic in the module is a trap; the module is then instantiated anew.
const fs = require('fs');
const readline = require('readline');
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let inst;
const fresh = () => { inst = new WebAssembly.Instance(module_, {}).exports; };
fresh();
const enc = new TextEncoder(), dec = new TextDecoder();
const kinds = new Map();
let n = 0, bad = 0, out = [], size = 0;
function put(s) {
  out.push(s);
  size += s.length + 1;
  if (size > 1 << 16) flush();
}
function flush() {
  if (out.length) fs.writeSync(1, out.join('\n') + '\n');
  out = [];
  size = 0;
}
function exec(text) {
  const b = enc.encode(text);
  const p = inst.buffer(b.length);
  new Uint8Array(inst.memory.buffer, p, b.length).set(b);
  const q = inst.run(p, b.length);
  const len = new DataView(inst.memory.buffer).getUint32(q, true);
  const r = dec.decode(new Uint8Array(inst.memory.buffer, q + 4, len));
  inst.done(q, len);
  return JSON.parse(r);
}
function test(text) {
  n++;
  let r;
  try {
    r = exec(text);
  } catch (e) {
    r = { kind: 'trap', got: { trap: String(e.message) } };
    fresh();
  }
  const c = (kinds.get(r.kind) || 0) + 1;
  kinds.set(r.kind, c);
  if (c <= 2) put('SAMPLE ' + text);
  if ('got' in r) {
    bad++;
    if (bad <= 20) put('BAD ' + JSON.stringify(Object.assign(JSON.parse(text), { got: r.got })));
  }
}
function line(l) {
  if (l.startsWith('"@@')) test(l.slice(3, -1).replace(/\\"/g, '"'));
  else put('TLC ' + l);
}
readline.createInterface({ input: process.stdin, crlfDelay: Infinity }).on('line', line).on('close', () => {
  for (const [k, c] of [...kinds].sort()) put('KIND ' + c + ' ' + k);
  put('DONE ' + n + ' ' + bad);
  flush();
});
