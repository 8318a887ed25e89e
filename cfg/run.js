// node run.js WASM digest LEVEL KIND GROUP LO HI BLOCK | show LEVEL KIND GROUP INDEX: what the native driver does, on wasm.
const fs = require('fs');
const [file, cmd, ...a] = process.argv.slice(2);
const module_ = new WebAssembly.Module(fs.readFileSync(file));
let x;
const fresh = () => { x = new WebAssembly.Instance(module_, {}).exports; };
fresh();
const kind = (k) => BigInt(k === 'mix' ? 6 : k);
const PRIME = 0x10000000001b3n, PANICKED = 0x70616e6963732121n;
const u64 = (v) => BigInt.asUintN(64, v);
// A panic is a trap here; the instance is lost with it.
const trap = (f, otherwise) => { try { return f(); } catch (e) { if (!(e instanceof WebAssembly.RuntimeError)) throw e; fresh(); return otherwise(); } };
if (cmd === 'digest') {
  const level = +a[0], k = kind(a[1]), g = +a[2], lo = +a[3], hi = +a[4], block = +a[5];
  for (let at = lo; at < hi; at += block) {
    const end = Math.min(hi, at + block);
    const h = trap(() => u64(x.block(level, k, g, BigInt(at), BigInt(end))), () => {
      let h = 0n;
      for (let i = at; i < end; i++)
        h = u64((h ^ trap(() => u64(x.single(level, k, g, BigInt(i))), () => PANICKED)) * PRIME);
      return h;
    });
    console.log(`${at} ${end} ${h.toString(16).padStart(16, '0')}`);
  }
} else {
  const text = trap(() => {
    const p = x.show(+a[0], kind(a[1]), +a[2], BigInt(a[3]));
    return Buffer.from(x.memory.buffer, p >>> 0, Number(x.show_len())).toString();
  }, () => `panicked\n= ${PANICKED.toString(16)}\n`);
  process.stdout.write(text);
}
