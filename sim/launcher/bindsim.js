'use strict';
// bindsim.js INDEX LAUNCHER: executes calls of buildozer's Node binding. Every line on standard input is
// one call, every line on standard output what it did. Only the sources of the binding and of the launcher
// are real; the process it starts ends as the call says (the simulated buildozer is executed in Go).
const fs = require('fs');
const vm = require('vm');
const path = require('path');
const util = require('util');
const events = require('events');
const readline = require('readline');

const index = fs.readFileSync(process.argv[2], 'utf8').replace(/^#!.*/, '');
const launcher = fs.readFileSync(process.argv[3], 'utf8').replace(/^#!.*/, '').split('_TOOL_').join('buildozer');

function text(x) { return x === undefined || x === null ? null : Buffer.from(x).toString('utf8'); }

function call(plan) {
  const procs = [];
  let printed = '';
  const files = [];

  function record(fn, file, args, options) {
    if (typeof file !== 'string') {
      const e = new TypeError('The "file" argument must be of type string. Received ' + typeof file);
      e.code = 'ERR_INVALID_ARG_TYPE';
      throw e;
    }
    if (!Array.isArray(args)) { options = args; args = []; }
    options = options || {};
    let input = options.input;
    const stdin = Array.isArray(options.stdio) ? options.stdio[0] : options.stdio;
    if (input === undefined && typeof stdin === 'number') input = fds[stdin] || '';
    procs.push({fn, file, args: args.map(String), input: text(input), shell: !!options.shell, cwd: options.cwd === undefined ? '' : String(options.cwd),
      env: options.env ? options.env.MARK || '' : plan.env.MARK, timeout: options.timeout || 0});
    return options;
  }

  function outcome(file, args, options) {
    const r = plan.result;
    const enc = options.encoding && options.encoding !== 'buffer';
    const conv = (s) => enc ? s : Buffer.from(s, 'utf8');
    if (r.error && !r.started) {
      const e = new Error(`spawnSync ${file} ${r.error}`);
      Object.assign(e, {errno: -2, code: r.error, syscall: 'spawnSync ' + file, path: file, spawnargs: args});
      return {error: e, status: null, signal: null, output: null, pid: 0, stdout: null, stderr: null};
    }
    let out = r.stdout, err = r.stderr, status = r.signal ? null : r.status, signal = r.signal || null, error;
    const max = options.maxBuffer === undefined ? 1024 * 1024 : options.maxBuffer;
    let code = r.error;
    if (Buffer.byteLength(out) > max) {
      out = Buffer.from(out).subarray(0, max).toString('utf8');
      status = null;
      signal = options.killSignal || 'SIGTERM';
      code = 'ENOBUFS';
    }
    if (code) {
      error = new Error(`spawnSync ${file} ${code}`);
      Object.assign(error, {errno: -105, code, syscall: 'spawnSync ' + file, path: file, spawnargs: args});
    }
    const res = {pid: 4711, status, signal, output: [null, conv(out), conv(err)], stdout: conv(out), stderr: conv(err)};
    if (error) res.error = error;
    return res;
  }

  const cp = {
    spawnSync(file, args, options) {
      options = record('spawnSync', file, args, options);
      return outcome(file, Array.isArray(args) ? args : [], options);
    },
    execFileSync(file, args, options) {
      options = record('execFileSync', file, args, options);
      const r = outcome(file, Array.isArray(args) ? args : [], options);
      if (r.error) throw r.error;
      if (r.status !== 0) {
        const e = new Error('Command failed: ' + file + '\n' + String(r.stderr));
        throw Object.assign(e, r);
      }
      return r.stdout;
    },
    execSync(cmd) { record('execSync', cmd, [], {shell: true}); throw new Error('no shell here'); },
    spawn() { throw new Error('the binding starts an asynchronous process'); },
  };
  cp.default = cp;

  // files the binding may want to write, in a world of their own
  const fds = {};
  const simfs = new Proxy({
    writeFileSync(f, d) { files.push(String(f)); fds[f] = String(d); },
    existsSync() { return true; },
    readFileSync(f) { if (f in fds) return fds[f]; const e = new Error('ENOENT: ' + f); e.code = 'ENOENT'; throw e; },
    mkdtempSync(p) { files.push(p); return p + 'x'; },
    unlinkSync(f) { const i = files.indexOf(String(f)); if (i >= 0) files.splice(i, 1); },
    rmSync(f) { const i = files.indexOf(String(f)); if (i >= 0) files.splice(i, 1); },
    accessSync() {},
    chmodSync() {},
  }, {get(t, k) { if (k in t) return t[k]; throw new Error('fs.' + String(k) + ' is not simulated'); }});

  const os = {arch: () => plan.arch, platform: () => plan.platform, constants: require('os').constants, EOL: plan.platform === 'win32' ? '\r\n' : '\n', tmpdir: () => '/tmp', type: () => 'Linux'};
  const say = (...a) => { printed += util.format(...a) + '\n'; };
  const loud = {out: ''};
  const console = {log: (...a) => { loud.out += util.format(...a) + '\n'; }, info: (...a) => { loud.out += util.format(...a) + '\n'; }, error: say, warn: say, debug: say, trace: say};
  const proc = Object.assign(new events.EventEmitter(), {
    argv: ['/usr/bin/node', '/w/x.js'], argv0: 'node', execPath: '/usr/bin/node', env: Object.assign({}, plan.env), platform: plan.platform, arch: plan.arch, cwd: () => plan.cwd,
    stdout: {write: (s) => { loud.out += s; return true; }}, stderr: {write: (s) => { printed += s; return true; }}, pid: 42, version: process.version, versions: process.versions,
    exit: (c) => { throw Object.assign(new Error('process.exit(' + c + ')'), {exited: true}); }, nextTick: process.nextTick, exitCode: undefined,
  });
  const ctx = vm.createContext({console, process: proc, Buffer, setTimeout, clearTimeout, setImmediate, URL, TextEncoder, TextDecoder});
  ctx.global = ctx;
  const Err = vm.runInContext('Error', ctx);
  const cache = {};
  const dir = plan.dir;
  const mainModule = {exports: {}, filename: '/w/x.js'};
  function load(file, src) {
    if (cache[file]) return cache[file].exports;
    const module = {exports: {}, filename: file, id: file, loaded: false};
    cache[file] = module;
    const req = (name) => {
      const n = name.replace(/^node:/, '');
      switch (n) {
        case 'child_process': return cp;
        case 'os': return os;
        case 'fs': return simfs;
        case 'path': return plan.platform === 'win32' ? path.win32 : path.posix;
        case 'util': return util;
        case 'events': return events;
        case './buildozer': case './buildozer.js': return load((plan.platform === 'win32' ? path.win32 : path.posix).join(dir, 'buildozer.js'), launcher);
      }
      return require(name);
    };
    req.main = mainModule;
    vm.runInContext('(function (exports, require, module, __filename, __dirname) {' + src + '\n})', ctx, {filename: file, timeout: 5000}).call(module.exports, module.exports, req, module, file, dir);
    module.loaded = true;
    return module.exports;
  }
  const res = {procs, threw: false, isError: false, message: '', lines: null, exited: false, kept: '', files};
  let batches;
  try {
    const api = load((plan.platform === 'win32' ? path.win32 : path.posix).join(dir, 'index.js'), index);
    // the caller's own values
    batches = JSON.parse(JSON.stringify(plan.batches));
    const flags = plan.flags ? plan.flags.slice() : undefined;
    const options = plan.options ? Object.assign({}, plan.options) : {};
    const before = JSON.stringify([batches, flags, options]);
    let r;
    try {
      if (plan.fn === 'run') r = api.run(...batches);
      else if (flags === undefined) r = api.runWithOptions(batches, options);
      else r = api.runWithOptions(batches, options, flags);
    } finally {
      if (JSON.stringify([batches, flags, options]) !== before) res.kept = JSON.stringify([batches, flags, options]);
    }
    if (r && typeof r.then === 'function') res.message = 'a promise';
    else if (Array.isArray(r)) res.lines = Array.from(r, String);
    else res.message = util.inspect(r);
  } catch (e) {
    res.threw = true;
    res.isError = !!e && (e instanceof Error || e instanceof Err || util.types.isNativeError(e));
    res.message = String(e && e.message || e);
    res.exited = !!(e && e.exited);
  }
  res.printed = printed;
  res.stdout = loud.out;
  return res;
}

async function main() {
  const rl = readline.createInterface({input: process.stdin});
  for await (const line of rl) {
    if (!line.trim()) continue;
    let out;
    try { out = call(JSON.parse(line)); } catch (e) { out = {broken: String(e && e.stack || e)}; }
    process.stdout.write(JSON.stringify(out) + '\n');
  }
}
main();
