// Line-driven face of falcon.js: node js_h.js MODULE; commands with hex arguments ("." is empty).
const readline = require('readline');
require(require('path').resolve(process.argv[2]))().then(m => {
  const GUARD = 64;
  // buffers with guard bytes on both sides, checked after the call
  const alloc = (b, n) => { const p = m._malloc(n + 2 * GUARD); m.HEAPU8.fill(0xC3, p, p + n + 2 * GUARD); if (b) m.HEAPU8.set(b, p + GUARD); return { p, n, a: p + GUARD }; };
  const ok = x => { for (let i = 0; i < GUARD; i++) if (m.HEAPU8[x.p + i] !== 0xC3 || m.HEAPU8[x.a + x.n + i] !== 0xC3) return false; return true; };
  const hex = (x, n) => Buffer.from(m.HEAPU8.slice(x.a, x.a + n)).toString('hex') || '.';
  const arg = s => s === '.' ? Buffer.alloc(0) : Buffer.from(s, 'hex');
  const len = x => { const v = new DataView(m.HEAPU8.buffer, x.a, 8); return Number(v.getBigUint64(0, true)); };
  const run = f => {
    const all = [];
    const A = (b, n) => { const x = alloc(b, n); all.push(x); return x; };
    let out;
    if (f[0] === 'K' || f[0] === 'k') {
      const pk = A(null, 1025), sk = A(null, 1281);
      let r;
      if (f[0] === 'K') { const s = arg(f[1]); r = m._zknox_crypto_sign_keypair_from_seed(pk.a, sk.a, A(s, s.length).a, s.length); }
      else r = m._zknox_crypto_sign_keypair(pk.a, sk.a);
      out = r === 0 ? 'ok ' + hex(pk, 1025) + ' ' + hex(sk, 1281) : 'err';
    } else if (f[0] === 'S') {
      const b = arg(f[1]), k = arg(f[2]), msg = A(b, b.length), sk = A(k, k.length), sm = A(null, b.length + 1067), n = A(null, 8);
      const r = m._zknox_crypto_sign(sm.a, n.a, msg.a, BigInt(b.length), sk.a);
      out = r === 0 ? 'ok ' + hex(sm, len(n)) : 'err';
    } else if (f[0] === 'V') {
      const b = arg(f[1]), k = arg(f[2]), sm = A(b, b.length), pk = A(k, k.length), msg = A(null, b.length), n = A(null, 8);
      const r = m._zknox_crypto_sign_open(msg.a, n.a, sm.a, BigInt(b.length), pk.a);
      out = r === 0 ? 'ok ' + hex(msg, len(n)) : 'no';
    }
    if (!all.every(ok)) out = 'overrun';
    all.forEach(x => m._free(x.p));
    return out;
  };
  const rl = readline.createInterface({ input: process.stdin });
  rl.on('line', l => { let o; try { o = run(l.trim().split(/\s+/)); } catch (e) { o = 'exception ' + String(e).split('\n')[0]; } process.stdout.write(o + '\n'); });
});
