// Writes openssl.txt: answers of node's OpenSSL on generated inputs, to validate the reference
// implementations. Run once by hand; the result is committed.
import crypto from "node:crypto";
import fs from "node:fs";
let ctr = 0;
const rnd = (n) => {
  const out = [];
  while (out.length < n) out.push(...crypto.createHash("sha256").update("crypto-pure " + ctr++).digest());
  return Buffer.from(out.slice(0, n));
};
const num = (n) => rnd(4).readUInt32LE() % n;
const shape = (n) => {
  switch (num(6)) {
    case 0: return Buffer.alloc(n, 0);
    case 1: return Buffer.alloc(n, 255);
    case 2: return Buffer.from(Array.from({ length: n }, (_, i) => i & 255));
    default: return rnd(n);
  }
};
const L = [];
const put = (name, ...b) => L.push([name, ...b.map((x) => (x.length ? x.toString("hex") : "-"))].join(" "));
for (const h of ["sha224", "sha256", "sha384", "sha512"]) {
  for (let n = 0; n < 300; n++) {
    const m = shape(n);
    put("sha", Buffer.from(h), m, crypto.createHash(h).update(m).digest());
  }
  for (let i = 0; i < 60; i++) {
    const [k, m] = [shape(num(300)), shape(num(300))];
    put("hmac", Buffer.from(h), k, m, crypto.createHmac(h, k).update(m).digest());
    const [ikm, salt, info] = [shape(1 + num(100)), shape(num(200)), shape(num(200))];
    const size = crypto.createHash(h).digest().length;
    const n = i < 2 ? 255 * size - i : 1 + num(400);
    put("hkdf", Buffer.from(h), salt, ikm, info, Buffer.from(crypto.hkdfSync(h, ikm, salt, info, n)));
  }
}
for (const [alg, kl] of [["aes-128-gcm", 16], ["aes-192-gcm", 24], ["aes-256-gcm", 32], ["chacha20-poly1305", 32]]) {
  for (let i = 0; i < 150; i++) {
    const [k, n, a, m] = [shape(kl), shape(12), shape(i < 40 ? i : num(200)), shape(i < 80 ? 80 - i : num(1000))];
    const c = crypto.createCipheriv(alg, k, n, { authTagLength: 16 });
    c.setAAD(a, { plaintextLength: m.length });
    const ct = Buffer.concat([c.update(m), c.final()]);
    put("aead", Buffer.from(alg), k, n, a, m, ct, c.getAuthTag());
  }
}
for (const kl of [16, 24, 32])
  for (let i = 0; i < 100; i++) {
    const [k, b] = [shape(kl), shape(16)];
    const c = crypto.createCipheriv(`aes-${8 * kl}-ecb`, k, null).setAutoPadding(false);
    put("aes", k, b, Buffer.concat([c.update(b), c.final()]));
  }
for (let i = 0; i < 60; i++) {
  const [k, n] = [shape(32), shape(12)];
  const block = num(3) ? num(1000) : 0xfffffff0 + num(8);
  const iv = Buffer.concat([Buffer.alloc(4), n]);
  iv.writeUInt32LE(block);
  const len = Math.min(1 + num(300), 64 * (2 ** 32 - block));
  const c = crypto.createCipheriv("chacha20", k, iv);
  const b = Buffer.alloc(4);
  b.writeUInt32BE(block);
  put("chacha", k, n, b, c.update(Buffer.alloc(len)));
}
const xp = (sk) => crypto.createPrivateKey({ key: Buffer.concat([Buffer.from("302e020100300506032b656e04220420", "hex"), sk]), format: "der", type: "pkcs8" });
const xq = (pk) => crypto.createPublicKey({ key: Buffer.concat([Buffer.from("302a300506032b656e032100", "hex"), pk]), format: "der", type: "spki" });
const ep = (sk) => crypto.createPrivateKey({ key: Buffer.concat([Buffer.from("302e020100300506032b657004220420", "hex"), sk]), format: "der", type: "pkcs8" });
const eq = (pk) => crypto.createPublicKey({ key: Buffer.concat([Buffer.from("302a300506032b6570032100", "hex"), pk]), format: "der", type: "spki" });
const pub = (k) => crypto.createPublicKey(k).export({ format: "der", type: "spki" }).subarray(-32);
for (let i = 0; i < 200; i++) {
  const sk = shape(32);
  const u = i % 2 ? pub(xp(rnd(32))) : shape(32);
  put("xpk", sk, pub(xp(sk)));
  try {
    put("x", sk, u, crypto.diffieHellman({ privateKey: xp(sk), publicKey: xq(u) }));
  } catch {
    put("x", sk, u, Buffer.alloc(32));
  }
}
for (let i = 0; i < 200; i++) {
  const [sk, m] = [shape(32), shape(num(300))];
  const sig = crypto.sign(null, m, ep(sk));
  put("ed", sk, pub(ep(sk)), m, sig);
  const bad = Buffer.from(sig);
  bad[num(64)] ^= 1 << num(8);
  put("edv", pub(ep(sk)), m, bad, Buffer.from([crypto.verify(null, m, eq(pub(ep(sk))), bad) ? 1 : 0]));
}
fs.writeFileSync(new URL("openssl.txt", import.meta.url), L.join("\n") + "\n");
