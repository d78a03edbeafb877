// stdin: [{alg, key, m, s}] (hex; key: Ed25519 point | P-256 uncompressed point | PKCS#1 DER); stdout: [bool]
import crypto from 'node:crypto';
import fs from 'node:fs';
const jobs = JSON.parse(fs.readFileSync(0, 'utf8'));
const u = b => b.toString('base64url');
console.log(JSON.stringify(jobs.map(j => {
  const k = Buffer.from(j.key, 'hex'), m = Buffer.from(j.m, 'hex'), s = Buffer.from(j.s, 'hex');
  try {
    if (j.alg === 'EdDSA') return crypto.verify(null, m, crypto.createPublicKey({ format: 'jwk', key: { kty: 'OKP', crv: 'Ed25519', x: u(k) } }), s);
    if (j.alg === 'ES256') return crypto.verify('sha256', m, { key: crypto.createPublicKey({ format: 'jwk', key: { kty: 'EC', crv: 'P-256', x: u(k.subarray(1, 33)), y: u(k.subarray(33)) } }), dsaEncoding: 'ieee-p1363' }, s);
    if (j.alg === 'RS256') return crypto.verify('sha256', m, { key: crypto.createPublicKey({ format: 'der', type: 'pkcs1', key: k }), padding: crypto.constants.RSA_PKCS1_PADDING }, s);
  } catch (e) { return String(e); }
  return 'unknown algorithm';
})));
