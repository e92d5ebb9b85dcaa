'use strict';
// launchsim.js LAUNCHER: executes simulated runs of launcher.js. Every line on standard input is the plan
// of one execution, every line on standard output its history. Processes, signals, clock and operating
// system are simulated; only the launcher's own source is real.
const fs = require('fs');
const vm = require('vm');
const path = require('path');
const util = require('util');
const events = require('events');
const readline = require('readline');

const source = fs.readFileSync(process.argv[2], 'utf8').replace(/^#!.*/, '');
const signals = require('os').constants.signals;
const errno = require('os').constants.errno;

class Ended { constructor() { this.ended = true; } }

let current = null;
process.on('unhandledRejection', (e) => { if (current) current.uncaught(e); });
process.on('uncaughtException', (e) => { if (current) current.uncaught(e); });

function nodeError(T, code, msg) {
  const e = new T(msg);
  e.code = code;
  return e;
}

class Sim {
  constructor(plan) {
    this.plan = plan;
    this.now = 0;
    this.seq = 0;
    this.steps = 0;
    this.queue = [];     // future events: {t, seq, f, ref, what}
    this.trace = [];
    this.spawns = [];
    this.kills = [];
    this.children = [];
    this.stdout = '';
    this.stderr = '';
    this.over = false;
    this.exit = null;
    this.signal = null;
    this.api = 0;        // calls of simulated interfaces made by the launcher
    this.booted = false;
    this.pending = (plan.signals || []).map((s) => Object.assign({}, s));
    this.code = undefined;
  }

  log(what) { if (this.trace.length < 2000) this.trace.push(`t=${this.now} ${what}`); }

  at(t, what, f, ref) {
    const e = {t: Math.max(t, this.now), seq: this.seq++, f, ref: ref !== false, what};
    this.queue.push(e);
    return e;
  }

  // an event outside of the launcher: it doesn't keep it running
  world(t, what, f) {
    this.at(t, what, f, false).world = true;
  }

  // a signal reaches the launcher
  deliver(sig) {
    if (this.over) return;
    if (this.process.listenerCount(sig) > 0) {
      this.log(`${sig} arrives at the launcher`);
      this.received.push({sig, t: this.now, alive: this.alive(), spawned: this.spawns.length > 0});
      this.at(this.now, `handle ${sig}`, () => { this.process.emit(sig, sig, signals[sig]); }, false);
      return;
    }
    this.received.push({sig, t: this.now, alive: this.alive(), spawned: this.spawns.length > 0, fatal: true});
    this.log(`${sig} ends the launcher`);
    this.finish(null, sig);
  }

  alive() { return this.children.some((c) => c.alive); }

  finish(code, sig) {
    if (this.over) return;
    this.over = true;
    this.exit = code;
    this.signal = sig;
    this.endT = this.now;
    this.aliveAtEnd = this.alive();
    this.log(sig ? `launcher dies of ${sig}` : `launcher exits with ${code}`);
  }

  // every call the launcher makes is a point where a signal can arrive
  point(what) {
    if (this.over) throw new Ended();
    if (++this.steps > 20000) { this.hang = true; this.finish(1, null); throw new Ended(); }
    this.api++;
    this.log(what);
    if (!this.booted) {
      for (const s of this.pending) {
        if (s.call === this.api && !s.done) { s.done = true; this.deliver(s.sig); }
      }
      if (this.over) throw new Ended();
    }
  }

  uncaught(e) {
    if (e instanceof Ended || this.over) return;
    if (this.process.listenerCount('uncaughtException') > 0) {
      this.log('uncaughtException');
      this.process.emit('uncaughtException', e, 'uncaughtException');
      return;
    }
    this.stderr += String(e && e.stack || e) + '\n';
    this.log(`uncaught: ${e && e.message || e}`);
    this.code = 1;
    this.emitExit(1);
  }

  emitExit(code) {
    if (this.over) return;
    if (!this.exiting) {
      this.exiting = true;
      this.code = code;
      try { this.process.emit('exit', code); } catch (e) { if (!(e instanceof Ended)) { this.code = 7; } }
    }
    const c = this.code === undefined || this.code === null ? 0 : Number(this.code);
    this.finish(c & 0xff, null);
  }

  call(f) {
    if (this.over) return;
    try { f(); } catch (e) { this.uncaught(e); }
  }

  normalise(fn, file, args, opts) {
    if (typeof file !== 'string') throw nodeError(TypeError, 'ERR_INVALID_ARG_TYPE', `The "file" argument must be of type string. Received ${util.inspect(file)}`);
    if (file === '' || file.includes('\0')) throw nodeError(TypeError, 'ERR_INVALID_ARG_VALUE', 'The argument \'file\' is invalid');
    if (args !== undefined && args !== null && !Array.isArray(args)) {
      if (typeof args !== 'object') throw nodeError(TypeError, 'ERR_INVALID_ARG_TYPE', 'The "args" argument must be an array');
      opts = args; args = [];
    }
    args = Array.from(args || []).map((a) => String(a));
    opts = Object.assign({}, opts || {});
    let io = opts.stdio;
    const one = (v, i) => v === 'inherit' || v === i || v === [this.process.stdin, this.process.stdout, this.process.stderr][i];
    const inherit = io === 'inherit' || Array.isArray(io) && [0, 1, 2].every((i) => one(io[i], i));
    const env = opts.env === undefined || opts.env === null || this.sameEnv(opts.env);
    const s = {fn, file, args, inherit, shell: !!opts.shell, cwd: opts.cwd === undefined || opts.cwd === null ? '' : String(opts.cwd), env, t: this.now, detached: !!opts.detached};
    this.spawns.push(s);
    return s;
  }

  sameEnv(env) {
    const a = this.plan.env || {};
    const k = Object.keys(a);
    return k.length === Object.keys(env).length && k.every((x) => env[x] === a[x]);
  }

  // child starts the simulated native binary
  child(s, obj) {
    const plan = this.plan.child;
    const c = {alive: true, plan, pid: 4000 + this.children.length, obj, killed: 0};
    this.children.push(c);
    c.end = (code, sig, why) => {
      if (!c.alive) return;
      c.alive = false;
      c.endT = this.now;
      c.code = code;
      c.signal = sig;
      this.log(`child ends: ${sig || code} (${why})`);
      if (c.onend) c.onend(code, sig);
    };
    c.get = (sig) => {
      if (!c.alive) return;
      this.kills.push({sig, t: this.now});
      this.log(`${sig} reaches the child`);
      const n = c.killed++;
      if (sig === 'SIGKILL') { c.end(null, sig, 'killed'); return; }
      const r = plan.react || {};
      if (n < (r.ignore || 0)) return;
      if (r.code === undefined || r.code === null) {
        if (r.delay) this.world(this.now + r.delay, 'child dies', () => c.end(null, sig, 'signal'));
        else c.end(null, sig, 'signal');
      } else {
        this.world(this.now + (r.delay || 0), 'child cleans up', () => c.end(r.code, null, 'after a signal'));
      }
    };
    this.world(this.now + plan.after, 'child', () => c.end(plan.signal ? null : plan.code, plan.signal || null, 'by itself'));
    return c;
  }

  errorOf(code, file, args) {
    const e = new Error(`spawn ${file} ${code}`);
    e.errno = -errno[code];
    e.code = code;
    e.syscall = 'spawn ' + file;
    e.path = file;
    e.spawnargs = args;
    return e;
  }

  build() {
    const sim = this;
    const plan = this.plan;
    this.received = [];

    const proc = new events.EventEmitter();
    this.process = proc;
    for (const m of ['on', 'once', 'addListener', 'prependListener', 'off', 'removeListener', 'removeAllListeners']) {
      const real = proc[m];
      proc[m] = function(...a) {
        sim.point(`process.${m}(${String(a[0])})`);
        return real.apply(this, a);
      };
    }
    const stream = (fd, write) => {
      const s = new events.EventEmitter();
      s.fd = fd;
      s.isTTY = false;
      s.write = (d) => { sim.point(`write ${fd}`); write(String(d)); return true; };
      s.end = (d) => { if (d !== undefined) s.write(d); };
      return s;
    };
    proc.stdin = stream(0, () => {});
    proc.stdout = stream(1, (d) => { sim.stdout += d; });
    proc.stderr = stream(2, (d) => { sim.stderr += d; });
    proc.argv = ['/usr/bin/node', plan.dir + '/' + plan.tool + '.js', ...plan.args];
    proc.execPath = '/usr/bin/node';
    proc.execArgv = [];
    proc.env = Object.assign({}, plan.env);
    proc.pid = 3000;
    proc.ppid = 2999;
    proc.platform = plan.platform;
    proc.arch = plan.arch;
    proc.version = process.version;
    proc.versions = process.versions;
    proc.cwd = () => plan.cwd;
    proc.chdir = (d) => { sim.point('chdir'); sim.chdir = d; };
    proc.uptime = () => sim.now / 1000;
    proc.hrtime = Object.assign(() => [Math.floor(sim.now / 1000), (sim.now % 1000) * 1e6], {bigint: () => BigInt(sim.now) * 1000000n});
    proc.nextTick = (f, ...a) => { queueMicrotask(() => sim.call(() => f(...a))); };
    proc.emitWarning = () => {};
    proc.exit = (c) => {
      if (c !== undefined && c !== null) proc.exitCode = c;
      sim.log(`process.exit(${c})`);
      sim.emitExit(sim.code);
      throw new Ended();
    };
    proc.reallyExit = proc.exit;
    proc.abort = () => { sim.finish(null, 'SIGABRT'); throw new Ended(); };
    proc.kill = (pid, sig) => {
      if (sig === undefined || sig === null) sig = 'SIGTERM';
      if (typeof sig === 'number') sig = sig === 0 ? 0 : Object.keys(signals).find((k) => signals[k] === sig);
      if (sig !== 0 && signals[sig] === undefined) throw nodeError(TypeError, 'ERR_UNKNOWN_SIGNAL', `Unknown signal: ${sig}`);
      sim.point(`kill ${pid} ${sig}`);
      pid = Number(pid);
      const esrch = () => Object.assign(new Error('kill ESRCH'), {code: 'ESRCH', errno: -errno.ESRCH, syscall: 'kill'});
      if (pid === proc.pid || pid === 0 || pid === -proc.pid) {
        if (pid !== proc.pid) for (const c of sim.children) if (sig !== 0) c.get(sig);
        if (sig === 0) return true;
        if (sig === 'SIGKILL' || proc.listenerCount(sig) === 0) { sim.finish(null, sig); throw new Ended(); }
        sim.at(sim.now, `handle ${sig}`, () => { proc.emit(sig, sig, signals[sig]); }, false);
        return true;
      }
      const c = sim.children.find((x) => x.pid === Math.abs(pid));
      if (!c || !c.alive) throw esrch();
      if (sig !== 0) c.get(sig);
      return true;
    };
    Object.defineProperty(proc, 'exitCode', {
      enumerable: true,
      get: () => sim.code,
      set: (v) => {
        if (v !== undefined && v !== null) {
          const n = typeof v === 'string' && v !== '' ? Number(v) : v;
          if (typeof n !== 'number') throw nodeError(TypeError, 'ERR_INVALID_ARG_TYPE', `The "code" argument must be of type number. Received ${util.inspect(v)}`);
          if (!Number.isInteger(n)) throw nodeError(RangeError, 'ERR_OUT_OF_RANGE', `The value of "code" is out of range. It must be an integer. Received ${util.inspect(v)}`);
        }
        sim.log(`exitCode = ${v}`);
        sim.code = v;
      },
    });

    const spawn = (file, args, opts) => {
      const s = sim.normalise('spawn', file, args, opts);
      sim.point(`spawn ${file} ${JSON.stringify(s.args)}`);
      const ps = new events.EventEmitter();
      ps.spawnfile = file;
      ps.spawnargs = [file, ...s.args];
      ps.exitCode = null;
      ps.signalCode = null;
      ps.killed = false;
      ps.stdin = ps.stdout = ps.stderr = null;
      ps.stdio = [null, null, null];
      ps.connected = false;
      ps.ref = () => { ps.unrefd = false; };
      ps.unref = () => { ps.unrefd = true; if (ps.c) ps.c.unref = true; };
      ps.kill = (sig) => {
        if (sig === undefined || sig === null) sig = 'SIGTERM';
        if (typeof sig === 'number') sig = sig === 0 ? 0 : Object.keys(signals).find((k) => signals[k] === sig);
        if (sig !== 0 && signals[sig] === undefined) throw nodeError(TypeError, 'ERR_UNKNOWN_SIGNAL', `Unknown signal: ${sig}`);
        sim.point(`ps.kill(${sig})`);
        if (!ps.c || !ps.c.alive) return false;
        if (sig !== 0) { ps.killed = true; ps.c.get(sig); }
        return true;
      };
      const err = plan.spawnError;
      if (err && sim.spawns.length <= (plan.spawnErrors || 1000)) {
        const e = sim.errorOf(err, file, s.args);
        s.error = err;
        if (!['EACCES', 'EAGAIN', 'EMFILE', 'ENFILE', 'ENOENT'].includes(err)) throw e;
        sim.at(sim.now, 'spawn error', () => {
          ps.exitCode = -errno[err];
          if (ps.listenerCount('error') === 0) { sim.uncaught(e); return; }
          ps.emit('error', e);
          if (!['EMFILE', 'ENFILE'].includes(err)) sim.at(sim.now, 'close', () => ps.emit('close', ps.exitCode, null));
        });
        return ps;
      }
      const c = sim.child(s, ps);
      ps.c = c;
      ps.pid = c.pid;
      c.onend = (code, sig) => {
        // the launcher learns of it a little later
        sim.at(sim.now + (plan.reap || 0), 'reap', () => {
          ps.exitCode = sig ? null : code;
          ps.signalCode = sig;
          ps.emit('exit', sig ? null : code, sig);
          sim.at(sim.now + (plan.closeGap || 0), 'close', () => ps.emit('close', sig ? null : code, sig));
        }, !ps.unrefd);
      };
      sim.at(sim.now, 'spawn', () => ps.emit('spawn'));
      return ps;
    };
    // the launcher is blocked: signals are delivered when the call returns, unless they kill it
    const spawnSync = (file, args, opts) => {
      const s = sim.normalise('spawnSync', file, args, opts);
      sim.point(`spawnSync ${file} ${JSON.stringify(s.args)}`);
      const res = {pid: 0, output: null, stdout: null, stderr: null, status: null, signal: null};
      if (plan.spawnError) {
        s.error = plan.spawnError;
        res.error = sim.errorOf(plan.spawnError, file, s.args);
        return res;
      }
      const c = sim.child(s, null);
      const kept = [];
      while (c.alive && !sim.over) {
        const e = sim.pop();
        if (!e) break;
        sim.now = e.t;
        if (e.what.startsWith('handle ')) { kept.push(e); continue; }
        e.f();
      }
      for (const e of kept) sim.at(sim.now, e.what, e.f, false);
      if (sim.over) throw new Ended();
      res.pid = c.pid;
      res.status = c.signal ? null : c.code;
      res.signal = c.signal;
      return res;
    };
    const execFile = (file, args, opts, cb) => {
      if (typeof opts === 'function') { cb = opts; opts = {}; }
      if (typeof args === 'function') { cb = args; args = []; opts = {}; }
      const ps = spawn(file, args, Object.assign({}, opts, {stdio: 'pipe'}));
      ps.on('close', (code, sig) => {
        if (!cb) return;
        if (code === 0 && !sig) { cb(null, '', ''); return; }
        cb(Object.assign(new Error('Command failed: ' + file), {code, signal: sig, killed: ps.killed}), '', '');
      });
      ps.on('error', (e) => cb && cb(e, '', ''));
      return ps;
    };
    const cp = {
      spawn, spawnSync, execFile,
      exec: (cmd, opts, cb) => execFile('/bin/sh', ['-c', cmd], opts, cb),
      execFileSync: (file, args, opts) => {
        const r = spawnSync(file, args, opts);
        if (r.error) throw r.error;
        if (r.status !== 0) throw Object.assign(new Error('Command failed: ' + file), r);
        return Buffer.alloc(0);
      },
      execSync: (cmd, opts) => cp.execFileSync('/bin/sh', ['-c', cmd], opts),
      fork: (file, args, opts) => spawn(proc.execPath, [file, ...(args || [])], opts),
      ChildProcess: events.EventEmitter,
    };

    const timer = (f, ms, args, every) => {
      ms = Math.max(1, Number(ms) || 0);
      const h = {live: true, ref() { h.e.ref = true; return h; }, unref() { h.e.ref = false; return h; }, hasRef: () => h.e.ref, [Symbol.toPrimitive]: () => 1};
      const arm = () => {
        h.e = sim.at(sim.now + ms, 'timer', () => {
          if (!h.live) return;
          if (every) arm(); else h.live = false;
          f(...args);
        });
      };
      arm();
      return h;
    };
    const clear = (h) => { if (h && h.e) { h.live = false; const i = sim.queue.indexOf(h.e); if (i >= 0) sim.queue.splice(i, 1); } };
    const timers = {
      setTimeout: (f, ms, ...a) => { sim.point(`setTimeout ${ms}`); return timer(f, ms, a, false); },
      setInterval: (f, ms, ...a) => { sim.point(`setInterval ${ms}`); return timer(f, ms, a, true); },
      setImmediate: (f, ...a) => { const h = {live: true}; h.e = sim.at(sim.now, 'immediate', () => { if (h.live) f(...a); }); return h; },
      clearTimeout: clear, clearInterval: clear, clearImmediate: clear,
    };
    const print = (s) => (...a) => s.write(util.format(...a) + '\n');
    const con = {log: print(proc.stdout), info: print(proc.stdout), debug: print(proc.stdout), error: print(proc.stderr), warn: print(proc.stderr), trace: print(proc.stderr)};
    const os = {
      arch: () => plan.arch, platform: () => plan.platform, type: () => ({linux: 'Linux', darwin: 'Darwin', win32: 'Windows_NT'}[plan.platform] || plan.platform),
      constants: require('os').constants, EOL: '\n', tmpdir: () => '/tmp', homedir: () => '/home/u', release: () => '1', endianness: () => 'LE', cpus: () => [],
    };
    const p = plan.platform === 'win32' ? path.win32 : path.posix;
    const exists = (f) => String(f) === plan.binary;
    const simfs = {
      existsSync: exists,
      accessSync: (f) => { if (!exists(f)) throw Object.assign(new Error('ENOENT: no such file or directory'), {code: 'ENOENT'}); },
      statSync: (f) => { simfs.accessSync(f); return {isFile: () => true, isDirectory: () => false, mode: 0o100755, size: 1}; },
      constants: fs.constants,
      chmodSync: () => {},
    };
    const harmless = ['assert', 'buffer', 'constants', 'path/posix', 'path/win32', 'perf_hooks', 'querystring', 'stream', 'string_decoder', 'tty', 'url', 'util/types', 'async_hooks', 'diagnostics_channel'];
    const mods = {
      os, path: p, child_process: cp, process: proc, events, util, fs: simfs, timers, console: con, 
      'timers/promises': {setTimeout: (ms, v) => new Promise((ok) => timers.setTimeout(() => ok(v), ms))},
    };
    const module = {exports: {}, filename: proc.argv[1], id: '.', loaded: false, children: [], paths: []};
    const req = (n) => {
      n = String(n).replace(/^node:/, '');
      if (harmless.includes(n)) return require(n);
      if (!mods[n]) throw nodeError(Error, 'MODULE_NOT_FOUND', `Cannot find module '${n}'`);
      return mods[n];
    };
    req.main = module;
    req.resolve = (n) => n;
    proc.mainModule = module;
    const ctx = vm.createContext(Object.assign({process: proc, console: con, Buffer, URL, TextEncoder, TextDecoder, AbortController, AbortSignal, queueMicrotask: (f) => queueMicrotask(() => sim.call(f)), structuredClone}, timers));
    ctx.global = ctx.globalThis = ctx;
    return {ctx, module, req};
  }

  // pop takes the next event; events of the same time come in a seeded order
  pop() {
    if (!this.queue.length) return null;
    let t = Infinity;
    for (const e of this.queue) t = Math.min(t, e.t);
    const same = this.queue.filter((e) => e.t === t).sort((a, b) => a.seq - b.seq);
    let e = same[0];
    if (same.length > 1) {
      const ties = this.plan.ties || [];
      e = same[(ties[this.tie++ % Math.max(1, ties.length)] || 0) % same.length];
    }
    this.queue.splice(this.queue.indexOf(e), 1);
    return e;
  }

  // the event loop runs while something can still happen that keeps it alive
  busy() {
    return this.queue.some((e) => e.ref && !e.world) || this.children.some((c) => c.alive && !c.unref && c.obj);
  }

  async run() {
    this.tie = 0;
    const {ctx, module, req} = this.build();
    const src = source.split('_TOOL_').join(this.plan.tool);
    const f = vm.runInContext('(function (exports, require, module, __filename, __dirname) {' + src + '\n})', ctx, {filename: 'launcher.js', timeout: 5000});
    for (const s of this.pending) {
      if (s.call) continue;
      this.world(s.t, 'signal ' + s.sig, () => { s.done = true; this.deliver(s.sig); });
    }
    this.call(() => f.call(module.exports, module.exports, req, module, module.filename, this.plan.dir));
    this.booted = true;
    // signals planned for a call that was never made arrive now
    for (const s of this.pending) if (s.call && !s.done) { s.done = true; this.deliver(s.sig); }
    await drain();
    while (!this.over) {
      if (++this.steps > 20000) { this.hang = true; this.finish(1, null); break; }
      if (!this.busy()) {
        // handlers of signals that already arrived still run
        const i = this.queue.findIndex((e) => e.what.startsWith('handle ') && e.t <= this.now);
        if (i < 0) break;
      }
      const e = this.pop();
      if (!e) break;
      this.now = e.t;
      if (this.now > 10000000) { this.hang = true; this.finish(1, null); break; }
      this.call(e.f);
      await drain();
    }
    if (!this.over && this.process.listenerCount('beforeExit') > 0) this.call(() => this.process.emit('beforeExit', this.code || 0));
    if (!this.over) this.emitExit(this.code);
    return {trace: this.trace, spawns: this.spawns, kills: this.kills, received: this.received, exit: this.exit, signal: this.signal || '', end: this.endT, aliveAtEnd: !!this.aliveAtEnd,
      children: this.children.map((c) => ({alive: c.alive, code: c.code === undefined ? null : c.code, signal: c.signal || '', end: c.endT || 0})), stdout: this.stdout, stderr: this.stderr, hang: !!this.hang, chdir: this.chdir || '', steps: this.steps};
  }
}

function drain() { return new Promise((ok) => setImmediate(ok)); }

async function main() {
  const rl = readline.createInterface({input: process.stdin});
  for await (const line of rl) {
    if (!line.trim()) continue;
    current = new Sim(JSON.parse(line));
    let out;
    try { out = await current.run(); } catch (e) { out = {broken: String(e && e.stack || e)}; }
    current = null;
    process.stdout.write(JSON.stringify(out) + '\n');
  }
}
main();
