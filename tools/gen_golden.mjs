// Golden signatures made with Node's OpenSSL-backed crypto (run once; the result is committed).
import crypto from 'node:crypto';
import fs from 'node:fs';
const A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
function b58(buf) {
  let n = BigInt('0x' + (buf.toString('hex') || '0')), s = '';
  while (n > 0n) { s = A[Number(n % 58n)] + s; n /= 58n; }
  for (const b of buf) { if (b !== 0) break; s = '1' + s; }
  return s;
}
const did = (m, b) => 'did:key:z' + b58(Buffer.concat([Buffer.from(m), b]));
const msgs = [Buffer.alloc(0), Buffer.from('a'), Buffer.from('eyJhbGciOiJFZERTQSIsInR5cCI6IkpXVCJ9.e30'), Buffer.from([0, 255, 10, 0]), crypto.createHash('sha512').update('x').digest(), Buffer.alloc(5000, 'long ')];
const out = [];
const sign = (k, key, opt) => msgs.map(m => ({ m: m.toString('hex'), s: crypto.sign(k, m, { key, ...opt }).toString('hex') }));
for (let i = 0; i < 6; i++) {
  const { privateKey, publicKey } = crypto.generateKeyPairSync('ed25519');
  const pj = privateKey.export({ format: 'jwk' });
  out.push({ alg: 'EdDSA', secret: Buffer.from(pj.d, 'base64url').toString('hex'), did: did([0xed, 1], Buffer.from(pj.x, 'base64url')), sigs: sign(null, privateKey) });
}
for (let i = 0; i < 8; i++) {
  const { privateKey } = crypto.generateKeyPairSync('ec', { namedCurve: 'P-256' });
  const j = privateKey.export({ format: 'jwk' });
  const x = Buffer.from(j.x, 'base64url'), y = Buffer.from(j.y, 'base64url');
  out.push({ alg: 'ES256', secret: Buffer.from(j.d, 'base64url').toString('hex'), did: did([0x80, 0x24], Buffer.concat([Buffer.from([2 + (y[31] & 1)]), x])), sigs: sign('sha256', privateKey, { dsaEncoding: 'ieee-p1363' }) });
}
for (const [bits, e] of [[2048, 65537], [2048, 3], [3072, 65537], [4096, 65537]]) {
  const { privateKey, publicKey } = crypto.generateKeyPairSync('rsa', { modulusLength: bits, publicExponent: e });
  out.push({ alg: 'RS256', secret: privateKey.export({ format: 'der', type: 'pkcs8' }).toString('hex'), did: did([0x85, 0x24], publicKey.export({ format: 'der', type: 'pkcs1' })), sigs: sign('sha256', privateKey) });
}
fs.writeFileSync(new URL('../harness/fixtures/golden.json', import.meta.url), JSON.stringify(out, null, 1) + '\n');
