// Runs scenarios against the real JavaScript client in a world of fake sockets, posts and timers.
// usage: node run.js SCENARIOS OUT CLIENT.js FROM STRIDE
'use strict';
const fs = require('fs'), vm = require('vm');
const [scenFile, outFile, clientFile, from, stride] = process.argv.slice(2);
const source = fs.readFileSync(clientFile, 'utf8');
const scens = fs.readFileSync(scenFile, 'utf8').split('\n').filter(x => x).map(x => JSON.parse(x));
const enc = new TextEncoder(), dec = new TextDecoder('utf-8');

function rng(seed) { let x = (seed % 2147483647) || 1; return n => { x = (x * 48271) % 2147483647; return x % n; }; }
function tok(v) {
  if (v === undefined || v === null || v === '') return '';
  if (typeof v === 'string') return v.length > 40 ? 's:' + v.slice(0, 12) + '~' + v.length + '~' + hash(v) : 's:' + v;
  if (typeof v === 'object') return 'o:' + hash(JSON.stringify(v));
  return typeof v + ':' + v;
}
function hash(s) { let h = 7; for (let i = 0; i < s.length; i++) h = (h * 31 + s.charCodeAt(i)) % 1000000007; return h.toString(36); }
function meaning(bytes) { const t = dec.decode(bytes); try { return tok(JSON.parse(t)); } catch (e) { return tok(t); } }
function value(kind, id) {
  switch (kind) {
    case 's': return id;
    case 'u': return 'Zürich-' + id + '-\u{1F600}';
    case 'o': return { t: id, l: [1, 2, { x: 'ä' }] };
    case 'n': return 1000 + id.length;
    case 'z': return 0;
    case 'f': return false;
    case 'e': return '';
    case 'b': return id + 'x'.repeat(70000);
    default: return null;
  }
}
function bytesOf(v) { return v === null || v === undefined ? new Uint8Array(0) : enc.encode(typeof v === 'string' ? v : JSON.stringify(v)); }
function frame(cmd, err, method, seq, body) {
  const m = enc.encode(method), b = new Uint8Array(16 + m.length + body.length), dv = new DataView(b.buffer);
  dv.setUint32(0, m.length + body.length, true);
  b[5] = cmd; b[6] = err ? 1 : 0; b[7] = m.length;
  dv.setUint32(8, seq, true);
  b.set(m, 16); b.set(body, 16 + m.length);
  return b;
}

async function run(sc) {
  const ev = [], cfg = sc.cfg, rnd = rng(sc.seed);
  let now = 0, timers = [], tid = 0, socks = [], posts = [], boom = new Error('boom');
  const log = e => { e.t = now; ev.push(e); };
  const guard = f => { try { f(); } catch (e) { if (e !== boom) log({ e: 'Crash', why: String(e) }); } };
  onReject = e => { if (e !== boom) log({ e: 'Crash', why: 'unhandled: ' + e }); };
  const settle = () => new Promise(r => setImmediate(r));
  const parse = (k, data) => {
    const b = new Uint8Array(data.buffer ? data.buffer.slice(data.byteOffset, data.byteOffset + data.byteLength) : data);
    if (b.length < 16) { log({ e: 'Frame', k, cmd: 0, m: '', seq: 0, d: '', ok: false }); return; }
    const dv = new DataView(b.buffer), bl = dv.getUint32(0, true), ml = b[7];
    const ok = bl === b.length - 16 && ml <= bl && b[4] === 0 && (b[6] & 1) === 0 && dv.getUint32(12, true) === 0;
    log({ e: 'Frame', k, cmd: b[5], m: dec.decode(b.slice(16, 16 + ml)), seq: dv.getUint32(8, true) & 0x7fffffff, d: meaning(b.slice(16 + ml)), ok });
  };
  class FakeWS {
    constructor(url) {
      this.readyState = 0; this.k = socks.length + 1; socks.push(this);
      log({ e: 'Dial', k: this.k });
    }
    send(data) {
      if (this.readyState === 0) throw new Error('InvalidStateError');
      if (this.readyState !== 1) return;
      parse(this.k, data);
    }
    close() { if (this.readyState < 2) { this.readyState = 2; timers.push({ id: ++tid, at: now, f: () => this.down() }); } }
    down() {
      if (this.readyState === 3) return;
      this.readyState = 3;
      log({ e: 'Down', k: this.k });
      guard(() => this.onclose && this.onclose({ type: 'close' }));
    }
  }
  class FakeXHR {
    constructor() { this.readyState = 0; this.responseType = ''; }
    open(method, url) { if (typeof method !== 'string' || typeof url !== 'string') throw new Error('bad open'); this.readyState = 1; }
    setRequestHeader() { }
    send(data) { this.readyState = 2; posts.push(this); this.cur = cur; parse(0, data); }
    answer(status, bytes) {
      this.readyState = 4; this.status = status;
      this.response = this.responseType === 'arraybuffer' ? bytes.buffer.slice(bytes.byteOffset, bytes.byteOffset + bytes.byteLength) : dec.decode(bytes);
      guard(() => { if (this.onreadystatechange) this.onreadystatechange({}); if (this.onload) this.onload({}); });
    }
  }
  let cur = 0;
  const world = {
    WebSocket: FakeWS, XMLHttpRequest: FakeXHR, TextEncoder, TextDecoder,
    console: { log() { }, error() { }, warn() { } },
    setTimeout: (f, d) => { timers.push({ id: ++tid, at: now + (d > 0 ? d : 0), f }); return tid; },
    clearTimeout: id => { timers = timers.filter(x => x.id !== id); },
    setInterval: (f, d) => { timers.push({ id: ++tid, at: now + d, f, every: d }); return tid; },
    clearInterval: id => { timers = timers.filter(x => x.id !== id); },
  };
  world.window = world;
  world.globalThis = world;
  const c = vm.createContext(world);
  vm.runInContext(source, c);
  world.__url = 'ws://x/ws';
  const cli = vm.runInContext('new ArpcClient(__url, undefined, "/http/rpc", "POST")', c);
  if (cfg.seq0 && typeof cli.seqNum === 'number') cli.seqNum = cfg.seq0;
  for (const m of cfg.handlers) cli.handle(m, ctx => { log({ e: 'Cb', m, d: tok(ctx.data) }); if (cfg.boom && rnd(3) === 0) throw boom; });
  if (cfg.keep) cli.keepalive(7);
  const advance = async dt => {
    const end = now + dt;
    for (; ;) {
      timers.sort((a, b) => a.at - b.at || a.id - b.id);
      if (!timers.length || timers[0].at > end) break;
      const x = timers.shift();
      if (x.at > now) now = x.at;
      if (x.every) timers.push({ id: x.id, at: x.at + x.every, f: x.f, every: x.every });
      guard(x.f);
      await settle();
    }
    now = end;
  };
  const quiet = async () => { await settle(); await advance(0); await settle(); log({ e: 'Quiet' }); };
  const sock = () => socks[socks.length - 1];
  await quiet();
  const sent = []; // calls in the order in which their frames were sent: {n, seq, http}
  for (const st of sc.steps) {
    if (st.dt0) await advance(st.dt0);
    switch (st.a) {
      case 'call': {
        const v = value(st.kind, 'c' + st.n), n = st.n;
        log({ e: 'CallB', n, m: st.m, d: tok(v), to: st.to, cb: !!st.cb, http: !!st.http });
        const out = via => r => {
          const err = r && r.err;
          log({ e: 'Settle', n, via, d: tok(r && r.data), err: !err ? '' : (err === 'timeout' ? 'timeout' : (/^.?.?:?/.test(tok(err)) && known.has(tok(err)) ? tok(err) : 'x')) });
        };
        const cb = st.cb ? out('cb') : undefined;
        const mark = ev.length;
        let p;
        cur = n;
        guard(() => { p = st.http ? cli.callHttp(st.m, v, st.to, cb) : cli.call(st.m, v, st.to, cb); });
        cur = 0;
        for (let i = mark; i < ev.length; i++) if (ev[i].e === 'Frame' && ev[i].cmd === 1) sent.push({ n, seq: ev[i].seq, http: ev[i].k === 0, x: posts[posts.length - 1] });
        log({ e: 'CallE', n });
        if (p && typeof p.then === 'function') p.then(out('p'));
        break;
      }
      case 'note': {
        const v = value(st.kind, 'n' + st.n);
        for (let i = 0; i < (st.rep || 1); i++) {
          log({ e: 'NoteB', n: st.n + 1000 * i, m: st.m, d: tok(v), http: !!st.http });
          guard(() => st.http ? cli.notifyHttp(st.m, v) : cli.notify(st.m, v));
          log({ e: 'NoteE', n: st.n + 1000 * i });
        }
        break;
      }
      case 'pkt': {
        const tgt = sent[st.q];
        if (!tgt) break;
        const body = bytesOf(value(st.kind, (st.er ? 'E' : 'r') + tgt.n + '.' + st.id));
        if (st.er) known.add(meaning(body));
        const fr = [];
        for (const f of st.frames) {
          if (f.what === 'rsp') fr.push({ cmd: 2, err: !!st.er, m: st.m, seq: tgt.seq, body });
          else if (f.what === 'other') { const o = sent[f.q]; if (o && o !== tgt && !o.http && !tgt.http) fr.push({ cmd: 2, err: false, m: 'x', seq: o.seq, body: bytesOf('r' + o.n + '.' + st.id) }); }
          else if (f.what === 'ping' || f.what === 'pong') { if (!tgt.http) fr.push({ cmd: f.what === 'ping' ? 4 : 5, err: false, m: '', seq: 0, body: new Uint8Array(0) }); }
          else if (f.what === 'stream') fr.push({ cmd: 6, err: false, m: 'str', seq: 9, body: bytesOf('zz') });
          else if (f.what === 'nometh') fr.push({ cmd: 3, err: false, m: '', seq: 9, body: new Uint8Array(0) });
          else if (f.what === 'unknown') fr.push({ cmd: 2, err: false, m: 'q', seq: 0x7ffffff, body: bytesOf('zz') });
          else if (!tgt.http) fr.push({ cmd: f.what === 'req' ? 1 : 3, err: false, m: f.m, seq: 5, body: bytesOf(value(f.kind, 'p' + st.id + '.' + fr.length)) });
        }
        let bytes = Buffer.concat(fr.map(f => frame(f.cmd, f.err, f.m, f.seq, f.body)));
        bytes = new Uint8Array(bytes);
        const e = { e: 'Pkt', fs: fr.map(f => ({ cmd: f.m === '' && f.cmd === 3 ? 9 : f.cmd, err: f.err, m: f.m, seq: f.seq & 0x7fffffff, d: meaning(f.body) })) };
        if (tgt.http) {
          if (!tgt.x || tgt.x.readyState === 4) break;
          if (st.fail) { log({ e: 'HFail', n: tgt.n }); tgt.x.answer(500, new Uint8Array(0)); break; }
          log(e); tgt.x.answer(200, bytes); log({ e: 'PktE' });
        } else {
          const s = sock();
          if (s.readyState !== 1) break;
          log(e);
          guard(() => s.onmessage && s.onmessage({ data: bytes.buffer.slice(0) }));
          log({ e: 'PktE' });
        }
        break;
      }
      case 'adv': await advance(st.dt); break;
      case 'open': {
        const s = sock();
        if (s.readyState === 0) { s.readyState = 1; log({ e: 'Open', k: s.k }); guard(() => s.onopen && s.onopen({})); }
        break;
      }
      case 'down': {
        const s = sock();
        if (s.readyState < 3) { if (st.error) guard(() => s.onerror && s.onerror({})); s.down(); }
        break;
      }
      case 'shut': log({ e: 'Shut' }); guard(() => cli.shutdown()); break;
    }
    if (!st.nq) await quiet();
  }
  await quiet();
  return ev;
}
const known = new Set();
let onReject = null;
process.on('unhandledRejection', e => { if (onReject) onReject(e); });

(async () => {
  const out = fs.openSync(outFile, 'a');
  for (let i = +from; i < scens.length; i += +stride) {
    known.clear();
    let ev;
    try { ev = await run(scens[i]); } catch (e) { ev = null; console.error('scenario', i, e); process.exitCode = 3; }
    if (ev) fs.writeSync(out, JSON.stringify({ i, id: scens[i].id, cfg: scens[i].cfg, ev }) + '\n');
  }
})();
