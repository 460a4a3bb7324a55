"use strict";
// Runs the repository's real engine scripts in one node process, driven synchronously by the simulator.
// stdin: one JSON command per line; stdout: one JSON answer per line.
const stream = require("stream");
const realVm = require("vm");
const { Console } = require("console");
const EventEmitter = require("events");
const send = process.stdout.write.bind(process.stdout);
const engines = new Map();
class ExitSignal { constructor(code) { this.code = code; } }
class HangSignal { }
let current = null;
function str(e) { try { return String(e && e.stack || e); } catch (x) { return "unprintable error"; } }

process.on("uncaughtException", (e) => {
  if (e instanceof HangSignal || e instanceof ExitSignal) return;
  if (current) { current.uncaught = str(e); }
});
process.on("unhandledRejection", (e) => {
  if (e instanceof HangSignal || e instanceof ExitSignal) return;
  if (current) { current.uncaught = str(e); }
});

function makeEngine(id, code, version) {
  const eng = { id, out: [], exit: undefined, hang: false, cost: 0, evals: 0, uncaught: undefined };
  function checkAlive() { if (eng.hang) throw new HangSignal(); if (eng.exit !== undefined) throw new ExitSignal(eng.exit); }
  function mkOut(fd) {
    const w = new stream.Writable({
      decodeStrings: true,
      write(chunk, enc, cb) { cb(); },
    });
    const orig = w.write.bind(w);
    w.write = function (chunk, enc, cb) {
      if (!eng.hang && eng.exit === undefined) {
        const b = Buffer.isBuffer(chunk) ? chunk : Buffer.from(chunk, typeof enc === "string" ? enc : "utf8");
        eng.out.push([fd, b.toString("base64")]);
      }
      return orig(chunk, enc, cb);
    };
    w.fd = fd;
    return w;
  }
  const stdin = new stream.Readable({ read() {} });
  stdin.fd = 0;
  const stdout = mkOut(1), stderr = mkOut(2);
  const fakeConsole = new Console({ stdout, stderr });
  const vmw = Object.assign({}, realVm);
  function scan(src, opts) {
    checkAlive();
    eng.evals++;
    const limit = opts && typeof opts === "object" && opts.timeout > 0 ? opts.timeout / 1000 : Infinity;
    const late = () => Object.assign(new Error("Script execution timed out after " + opts.timeout + "ms"), { code: "ERR_SCRIPT_EXECUTION_TIMEOUT" });
    if (typeof src === "string") {
      const m = src.match(/SIMSLOW (\d+(?:\.\d+)?)/);
      if (m) { const c = parseFloat(m[1]); eng.cost += Math.min(c, limit); if (c > limit) throw late(); }
      if (src.includes("/*SIMHANG*/")) { if (limit < Infinity) { eng.cost += limit; throw late(); } eng.hang = true; throw new HangSignal(); }
      const x = src.match(/SIMEXIT (\d+)/);
      if (x) { eng.exit = parseInt(x[1]); throw new ExitSignal(eng.exit); }
    }
  }
  for (const n of ["runInNewContext", "runInContext", "runInThisContext"]) {
    vmw[n] = function (src, a, b) { scan(src, n === "runInThisContext" ? a : b); return realVm[n].apply(realVm, arguments); };
  }
  class ScriptW extends realVm.Script {
    constructor(src, o) { super(src, o); this.__src = src; }
    runInContext(c, o) { scan(this.__src, o); return super.runInContext(c, o); }
    runInNewContext(c, o) { scan(this.__src, o); return super.runInNewContext(c, o); }
    runInThisContext(o) { scan(this.__src, o); return super.runInThisContext(o); }
  }
  vmw.Script = ScriptW;
  const fp = new EventEmitter();
  Object.assign(fp, {
    stdin, stdout, stderr, argv: ["node"], env: {}, pid: 4242, version: version || process.version,
    versions: Object.assign({}, process.versions, version ? { node: version.replace(/^v/, "") } : {}), platform: "linux", nextTick: process.nextTick.bind(process),
    hrtime: process.hrtime, cwd: () => "/", memoryUsage: process.memoryUsage, execArgv: [], exitCode: undefined,
    exit(c) { if (eng.exit === undefined) eng.exit = (c === undefined || typeof c !== "number") ? (fp.exitCode || 0) : c; throw new ExitSignal(eng.exit); },
  });
  Object.setPrototypeOf(fp, EventEmitter.prototype);
  const req = (n) => {
    if (n === "vm" || n === "node:vm") return vmw;
    if (n === "process" || n === "node:process") return fp;
    if (n === "console") return fakeConsole;
    return require(n);
  };
  eng.start = () => {
    const sandbox = { process: fp, console: fakeConsole, require: req, Buffer, setTimeout, setImmediate, clearTimeout,
      setInterval, clearInterval, queueMicrotask, URL, TextDecoder, TextEncoder };
    const names = Object.keys(sandbox);
    // `node --eval` runs sloppy global code; the directive prologue of the script is kept
    const f = new Function(...names, "global", "globalThis", code);
    f(...names.map((n) => sandbox[n]), sandbox, sandbox);
  };
  eng.stdin = stdin; eng.stderr = stderr;
  return eng;
}

function guarded(eng, f) {
  try { f(); } catch (e) {
    if (e instanceof HangSignal || e instanceof ExitSignal) return;
    eng.uncaught = str(e);
  }
}
function answer(eng) {
  if (eng.uncaught !== undefined && !eng.hang && eng.exit === undefined) {
    eng.out.push([2, Buffer.from(eng.uncaught + "\n").toString("base64")]);
    eng.exit = 1;
  }
  const r = { out: eng.out, exit: eng.exit === undefined ? null : eng.exit, hang: eng.hang, cost: eng.cost, evals: eng.evals,
    listening: ["data", "readable", "end"].some((n) => eng.stdin.listenerCount(n) > 0) };
  eng.out = []; eng.cost = 0; eng.evals = 0; eng.uncaught = undefined;
  current = null;
  send(JSON.stringify(r) + "\n");
}
function settle(eng, n) { if (n === 0) answer(eng); else setImmediate(() => settle(eng, n - 1)); }

function handle(line) {
  const c = JSON.parse(line);
  if (c.op === "ref") {
    let r;
    try { r = { v: JSON.stringify(realVm.runInNewContext(c.code, c.ctx === undefined ? {} : realVm.runInNewContext(c.ctx, {}))) }; if (r.v === undefined) r = { undef: true }; }
    catch (e) { r = { err: str(e) }; }
    send(JSON.stringify(r) + "\n");
    return;
  }
  if (c.op === "reset") { engines.clear(); send("{}\n"); return; }
  if (c.op === "new") {
    const eng = makeEngine(c.id, c.code, c.version);
    engines.set(c.id, eng); current = eng;
    guarded(eng, () => eng.start());
    settle(eng, 2);
    return;
  }
  const eng = engines.get(c.id);
  current = eng;
  if (c.op === "data") guarded(eng, () => eng.stdin.push(Buffer.from(c.b, "base64")));
  else if (c.op === "end") guarded(eng, () => eng.stdin.push(null));
  settle(eng, 3);
}

let acc = "";
process.stdin.setEncoding("utf8");
process.stdin.on("data", (d) => {
  acc += d;
  let i;
  while ((i = acc.indexOf("\n")) > -1) { const l = acc.slice(0, i); acc = acc.slice(i + 1); handle(l); }
});
process.stdin.on("end", () => process.exit(0));
