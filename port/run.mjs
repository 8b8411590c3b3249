// node run.mjs <wasm> peer: the other end of harness::props::config::ask
// node run.mjs <wasm> ops <seconds> <file>: what src/main.rs does
import fs from "node:fs";
const [file, what, seconds, lines] = process.argv.slice(2);
const { exports: x } = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(file)), {});
const take = (r) => {
  r = BigInt.asUintN(64, r);
  const [p, n] = [Number(r >> 32n), Number(r & 0xffffffffn)];
  const out = Buffer.from(x.memory.buffer.slice(p, p + n));
  x.drop_room(p, n);
  return out;
};
const call = (f, bytes) => {
  const p = x.room(bytes.length) >>> 0;
  new Uint8Array(x.memory.buffer, p, bytes.length).set(bytes);
  const r = f(p, bytes.length);
  x.drop_room(p, bytes.length);
  return take(r);
};
const read = (n) => {
  const b = Buffer.alloc(n);
  for (let at = 0; at < n; ) {
    const k = fs.readSync(0, b, at, n - at, null);
    if (k === 0) process.exit(0);
    at += k;
  }
  return b;
};
const write = (b) => {
  for (let at = 0; at < b.length; ) at += fs.writeSync(1, b, at);
};
if (what === "peer") for (;;) write(call(x.peer, read(read(4).readUInt32LE(0))));
const end = Date.now() + 1000 * seconds;
let ran = 0;
const bad = [];
for (const l of fs.readFileSync(lines, "utf8").split("\n")) {
  if (!l || Date.now() >= end) continue;
  const [line, want] = l.split(" = ");
  const got = call(x.op, Buffer.from(line)).toString();
  ran++;
  if (got !== want) bad.push(`differs ${l}\ngot ${got}`);
}
console.log([`machine ${take(x.machine())}`, `ran ${ran}`, ...bad].join("\n"));
