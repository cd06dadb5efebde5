// Runs the WebAssembly build in node's engine. Frames on stdin and stdout: length (u32, little endian), bytes.
// Requests: "nPAGES": a new instance that may grow by so many pages (0: by all there are); "dTEXT": parse; "q": how much memory it has.
// Answers: 1 and the text; 2 and why the instance died (it takes no more requests); 0: done.
"use strict";
const fs = require("fs");
const code = fs.readFileSync(process.argv[2]);
const module_ = new WebAssembly.Module(code);
// the limits of the memory it imports
const [FIRST, MOST] = (() => {
  const name = Buffer.from("\x03env\x06memory\x02\x01", "latin1");
  let at = code.indexOf(name) + name.length;
  const number = () => {
    let v = 0, k = 0, b;
    do {
      b = code[at++];
      v += (b & 127) * 2 ** (7 * k++);
    } while (b & 128);
    return v;
  };
  return [number(), number()];
})();
let memory = null, x = null;
function begin(pages) {
  memory = new WebAssembly.Memory({ initial: FIRST, maximum: pages ? Math.min(FIRST + pages, MOST) : MOST });
  const imports = {};
  for (const i of WebAssembly.Module.imports(module_)) {
    const m = (imports[i.module] = imports[i.module] || {});
    m[i.name] = i.kind === "memory" ? memory : i.kind === "function" ? () => 0 : i.kind === "table" ? new WebAssembly.Table({ initial: 1024, element: "anyfunc" }) : new WebAssembly.Global({ value: "i32", mutable: true }, 0);
  }
  x = new WebAssembly.Instance(module_, imports).exports;
}
function read(n) {
  const b = Buffer.alloc(n);
  let k = 0;
  while (k < n) {
    let m = 0;
    try {
      m = fs.readSync(0, b, k, n - k, null);
    } catch (e) {
      if (e.code === "EAGAIN") continue;
      throw e;
    }
    if (m === 0) process.exit(0);
    k += m;
  }
  return b;
}
function write(b) {
  let k = 0;
  while (k < b.length) {
    try {
      k += fs.writeSync(1, b, k, b.length - k);
    } catch (e) {
      if (e.code !== "EAGAIN") throw e;
    }
  }
}
function frame(kind, body) {
  const head = Buffer.alloc(5);
  head.writeUInt32LE(body.length + 1, 0);
  head[4] = kind;
  write(Buffer.concat([head, body]));
}
for (;;) {
  const n = read(4).readUInt32LE(0);
  const q = read(n);
  const what = String.fromCharCode(q[0]);
  try {
    if (what === "n") {
      begin(Number(q.toString("latin1", 1)));
      frame(0, Buffer.alloc(0));
    } else if (what === "q") {
      frame(0, Buffer.from(String(memory.buffer.byteLength / 65536)));
    } else {
      if (!x) throw new Error("no instance");
      const p = x.space(q.length - 1) >>> 0;
      new Uint8Array(memory.buffer).set(q.subarray(1), p);
      const len = x.ask() >>> 0;
      const at = x.answer() >>> 0;
      frame(1, Buffer.from(new Uint8Array(memory.buffer, at, len)));
    }
  } catch (e) {
    x = null;
    frame(2, Buffer.from(String(e)));
  }
}
