// Runs the JavaScript PackBits decoder of /repo/compress.inc.js on requests
// read from standard input: large byte, 32-bit number of lines, size of dest,
// size of the data; then the table and the data.
// Answers: 32-bit length, status byte (0 false, 1 true, 2 exception), the
// decoded line lengths (32 bit each), dest.
const fs = require('fs');
const $global = {};
new Function('$global', fs.readFileSync(process.argv[2], 'utf8'))($global);
const dec = $global['$github.com/oov/psd$'];
function read(n) {
  const b = Buffer.alloc(n);
  let o = 0;
  while (o < n) {
    let k = 0;
    try {
      k = fs.readSync(0, b, o, n - o, null);
    } catch (e) {
      if (e.code === 'EAGAIN') continue;
      throw e;
    }
    if (k === 0) process.exit(0);
    o += k;
  }
  return b;
}
function write(b) {
  let o = 0;
  while (o < b.length) {
    try {
      o += fs.writeSync(1, b, o, b.length - o);
    } catch (e) {
      if (e.code !== 'EAGAIN') throw e;
    }
  }
}
for (;;) {
  const h = read(13);
  const large = h[0] !== 0, lines = h.readUInt32BE(1), nd = h.readUInt32BE(5), nb = h.readUInt32BE(9);
  const table = new Uint8Array(read(lines * (large ? 4 : 2)));
  const data = new Uint8Array(read(nb));
  const dest = new Uint8Array(nd);
  let out;
  try {
    const lens = dec.decodePackBitsLines(table, lines, large);
    const ok = dec.decodePackBits(dest, data, lens);
    const l = Buffer.alloc(4 * lines);
    for (let i = 0; i < lines; i++) l.writeUInt32BE(lens[i] >>> 0, 4 * i);
    if (lens.length !== lines) throw new Error('table of ' + lens.length + ' lines');
    out = Buffer.concat([Buffer.from([ok === true ? 1 : ok === false ? 0 : 2]), l, Buffer.from(dest)]);
  } catch (e) {
    out = Buffer.concat([Buffer.from([2]), Buffer.from(String(e && e.stack))]);
  }
  const n = Buffer.alloc(4);
  n.writeUInt32BE(out.length, 0);
  write(Buffer.concat([n, out]));
}
