// The same protocol as src/main.rs, for a WebAssembly build.
const fs = require('fs');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let x = new WebAssembly.Instance(mod, {}).exports;
const buf = Buffer.alloc(1 << 20);
let have = 0;
function need(n) {
  const out = Buffer.alloc(n);
  let at = 0;
  while (at < n) {
    if (have > 0) {
      const k = Math.min(have, n - at);
      buf.copy(out, at, 0, k);
      buf.copyWithin(0, k, have);
      have -= k; at += k;
      continue;
    }
    let r;
    try { r = fs.readSync(0, buf, 0, buf.length, null); } catch (e) { if (e.code === 'EAGAIN') continue; if (e.code === 'EOF') process.exit(0); throw e; }
    if (r === 0) process.exit(0);
    have = r;
  }
  return out;
}
function send(b) {
  let at = 0;
  while (at < b.length) {
    try { at += fs.writeSync(1, b, at); } catch (e) { if (e.code === 'EAGAIN') continue; process.exit(0); }
  }
}
for (;;) {
  const h = need(12);
  const facet = h.readUInt32LE(0), flags = h.readUInt32LE(4), n = h.readUInt32LE(8);
  const t = need(n * 8);
  const p = x.x_tape(n) >>> 0;
  new Uint8Array(x.memory.buffer, p, n * 8).set(t);
  let out;
  try {
    x.x_run(facet);
    const cnt = flags & 1 ? x.x_count() : 0;
    out = Buffer.alloc(24 + cnt * 4);
    out.writeBigUInt64LE(BigInt.asUintN(64, x.x_hash()), 4);
    out.writeBigUInt64LE(BigInt.asUintN(64, x.x_input()), 12);
    out.writeUInt32LE(cnt, 20);
    if (cnt) Buffer.from(x.memory.buffer, x.x_words() >>> 0, cnt * 4).copy(out, 24);
  } catch (e) {
    if (!(e instanceof WebAssembly.RuntimeError)) throw e;
    // a trap leaves the instance in an unknown state
    x = new WebAssembly.Instance(mod, {}).exports;
    out = Buffer.alloc(24);
    out.writeUInt32LE(1, 0);
  }
  send(out);
}
