// One simulated run of the typescript client: virtual time, simulated servers, simulated faults of the file system.
import fs from 'node:fs'
import path from 'node:path'
import { syncBuiltinESMExports } from 'node:module'

// ---- the connection to the process which runs the C code and makes all decisions ----
const enc = new TextEncoder(), dec = new TextDecoder()
const real = { setTimeout, setImmediate, now: Date.now, log: console.log }
function send(op, vals) {
  let n = 1
  const parts = vals.map(v => {
    if (typeof v === 'string') v = enc.encode(v)
    if (v instanceof Uint8Array) { n += 5 + v.length; return v }
    n += 9
    return BigInt.asIntN(64, BigInt(typeof v === 'boolean' ? +v : v ?? 0))
  })
  const b = Buffer.alloc(n + 4)
  b.writeUInt32LE(n, 0)
  b[4] = op.charCodeAt(0)
  let o = 5
  for (const v of parts)
    if (typeof v === 'bigint') { b[o] = 105; b.writeBigInt64LE(v, o + 1); o += 9 }
    else { b[o] = 98; b.writeUInt32LE(v.length, o + 1); b.set(v, o + 5); o += 5 + v.length }
  for (o = 0; o < b.length;) o += fs_.writeSync(4, b, o, b.length - o)
}
function read(n) {
  const b = Buffer.alloc(n)
  for (let o = 0; o < n;) {
    const k = fs_.readSync(3, b, o, n - o, null)
    if (k <= 0) gone()
    o += k
  }
  return b
}
function gone() {
  clean()
  process.exit(0)
}
function recv() {
  const b = read(read(4).readUInt32LE(0)), vals = []
  for (let o = 1; o < b.length;)
    if (b[o] === 105) { vals.push(Number(b.readBigInt64LE(o + 1))); o += 9 }
    else { const l = b.readUInt32LE(o + 1); vals.push(b.subarray(o + 5, o + 5 + l)); o += 5 + l }
  return [String.fromCharCode(b[0]), vals]
}
const fs_ = { writeSync: fs.writeSync, readSync: fs.readSync, readFileSync: fs.readFileSync, writeFileSync: fs.writeFileSync, unlinkSync: fs.unlinkSync, renameSync: fs.renameSync, rmSync: fs.rmSync, mkdirSync: fs.mkdirSync, existsSync: fs.existsSync }
let pending = null
function call(name, ...args) {
  send('C', [name, ...args])
  for (;;) {
    const [op, vals] = recv()
    if (op === 'R') return vals
    if (op === 'X') { const e = pending; pending = null; throw e }
    let r
    try { r = globalThis.__sim.em(dec.decode(vals[0]), vals.slice(1)) }
    catch (e) { pending = e; send('x', []); continue }
    send('e', [Number(r) || 0])
  }
}
const C = (n, l) => call('choose', n, l)[0]
const fault = (k, pm) => !!call('fault', k, pm)[0]
const count = k => { call('count', k) }
const stat = k => { call('stat', k) }
const log = t => { call('log', t) }
const str = b => dec.decode(b)
let scratch = process.env.SIM_SCRATCH, cleaned = false
function clean() {
  if (cleaned) return
  cleaned = true
  try { process.chdir('/'); fs_.rmSync(scratch, { recursive: true, force: true }) } catch (e) { }
}
function violation(kind, text) {
  clean()
  call('violation', kind, text)
  process.exit(0)
}
const J = v => { try { return JSON.stringify(v) } catch (e) { return String(v) } }

// ---- virtual time ----
let vt = 0, carry = 0, seq = 0, gen = 0
const T0 = 1_700_000_000_000
let timers = []
function addTimer(fn, ms, every) {
  const t = { id: ++seq, at: vt + Math.max(ms > 0 ? +ms : 0, 0), fn, every, gen, ref() { return t }, unref() { return t }, hasRef() { return true }, refresh() { return t }, [Symbol.toPrimitive]() { return t.id } }
  timers.push(t)
  return t
}
function dropTimer(t) { timers = timers.filter(x => x !== t && x.id !== t) }
globalThis.setTimeout = (fn, ms, ...a) => addTimer(() => fn(...a), ms)
globalThis.setInterval = (fn, ms, ...a) => addTimer(() => fn(...a), ms, Math.max(+ms || 1, 1))
globalThis.clearTimeout = globalThis.clearInterval = dropTimer
Date.now = () => T0 + Math.floor(vt)
performance.now = () => vt
const sleep = ms => new Promise(r => addTimer(r, ms))
let steps = 0
/** lets the simulation go on until the condition is met */
async function pump(until, what) {
  for (;;) {
    await new Promise(r => real.setImmediate(r))
    await new Promise(r => real.setImmediate(r))
    if (unhandled) violation('unhandled-rejection', 'a promise was rejected and nobody handles it: ' + unhandled)
    if (until()) return
    if (++steps > 60000) violation('never-ends', 'more than 60000 steps')
    let t = null
    for (const x of timers) if (x.gen === gen && (!t || x.at < t.at || (x.at === t.at && x.id < t.id))) t = x
    if (!t) violation('never-ends', what + ': waits for something that never happens')
    if (t.at > vt) {
      carry += t.at - vt
      vt = t.at
      const n = Math.floor(carry)
      carry -= n
      if (n) call('advance', n)
    }
    if (t.every) { t.at = vt + t.every; t.id = t.id } else timers = timers.filter(x => x !== t)
    t.fn()
  }
}
let unhandled = null
process.on('unhandledRejection', e => { if (R && R.dead) return; unhandled = unhandled || String(e && e.stack || e) })
process.on('uncaughtException', e => { violation('unhandled-exception', String(e && e.stack || e)) })
for (const k of ['log', 'warn', 'error', 'info', 'debug']) console[k] = () => { }

// ---- the native module: use of contexts and requests is recorded ----
let live = new Map() // ctx -> { reqs, n }
let stored = new Map(), exact = false
globalThis.__sim = {
  call,
  gen: () => gen,
  traced(name, a, fn) {
    if (R.dead) throw new Error('crashed')
    const use = p => { if (!live.has(p)) violation('context-used-after-release', name + ' of a context which is not in use'); return live.get(p) }
    if (name === '_c4w_create_proof_ctx' || name === '_c4w_create_verify_ctx') {
      const p = fn()
      if (p) live.set(p, { reqs: new Set(), n: 0 })
      return p
    }
    if (name === '_c4w_free_proof_ctx' || name === '_c4w_free_verify_ctx') { use(a[0]); live.delete(a[0]); return fn() }
    if (name === '_c4w_execute_proof_ctx' || name === '_c4w_verify_proof') {
      const c = use(a[0]), p = fn(), t = str(call('cstr', p)[0])
      let s
      try { s = JSON.parse(t) } catch (e) { violation('invalid-status', 'the status is no json: ' + t.slice(0, 300)) }
      c.reqs = new Set((s.requests || []).map(r => r.req_ptr))
      if (++c.n > 300) violation('never-ends', 'a context was executed 300 times')
      return p
    }
    if (name === '_c4w_req_set_response' || name === '_c4w_req_set_error') {
      const c = [...live.values()].find(c => c.reqs.has(a[0]))
      if (!c) violation('unknown-request', 'a response was given for a request which is not pending')
      c.reqs.delete(a[0])
    }
    return fn()
  },
  em: null,
}
// what is stored has to be found again as it was written (as long as the storage works)
function watched(st) {
  return {
    get(k) {
      const v = st.get(k)
      if (exact) {
        call('checked')
        const want = stored.get(k), same = v == null ? want === undefined : want !== undefined && Buffer.compare(Buffer.from(v), want) === 0
        if (!same) violation('storage', `the storage returns ${v == null ? 'nothing' : v.length + ' bytes'} for ${k}, written were ${want === undefined ? 'nothing' : want.length + ' bytes'}`)
      }
      return v
    },
    set(k, v) { stored.set(k, Buffer.from(v)); st.set(k, v) },
    del(k) { stored.delete(k); st.del(k) },
  }
}

// ---- file system ----
const inside = p => typeof p === 'string' && R && path.resolve(p).startsWith(scratch + '/')
const journal = new Map()
function before(p) {
  p = path.resolve(p)
  if (!journal.has(p)) journal.set(p, fs_.existsSync(p) ? fs_.readFileSync(p) : null)
}
function oserr(code, msg) { const e = new Error(code + ': ' + msg); e.code = code; return e }
function crash(where) {
  log('crash at ' + where)
  R.dead = true
  for (const [p, old] of [...journal].sort((a, b) => a[0] < b[0] ? -1 : 1)) {
    const cur = fs_.existsSync(p) ? fs_.readFileSync(p) : null
    const k = C(5, 'unsynced')
    if (!k || (!cur && !old)) continue
    count(k < 3 ? 'unsynced_write_lost' : 'torn_write')
    const v = k < 3 || !cur ? old : k === 3 ? cur.subarray(0, C(cur.length + 1, 'torn')) : Buffer.alloc(0)
    if (v === null) { if (fs_.existsSync(p)) fs_.unlinkSync(p) } else fs_.writeFileSync(p, v)
  }
  journal.clear()
  throw oserr('EIO', 'crashed')
}
function point(what, p) {
  if (R.dead) throw oserr('EIO', 'crashed')
  if (R.fsfaults && fault('crash', 60)) crash(what + ' ' + path.basename(p))
}
fs.writeFileSync = (p, data, ...o) => {
  if (!inside(p)) return fs_.writeFileSync(p, data, ...o)
  point('write', p)
  if (R.fsfaults && fault('open_error', 40)) throw oserr('EACCES', 'permission denied')
  before(p)
  if (R.fsfaults && fault('disk_full', 100)) {
    fs_.writeFileSync(p, data.subarray(0, C(data.length + 1, 'short')))
    throw oserr('ENOSPC', 'no space left on device')
  }
  if (R.fsfaults && fault('crash_in_write', 60)) {
    fs_.writeFileSync(p, data.subarray(0, C(data.length + 1, 'torn')))
    crash('write ' + path.basename(p))
  }
  fs_.writeFileSync(p, data, ...o)
  point('written', p)
}
fs.readFileSync = (p, ...o) => {
  if (!inside(p)) return fs_.readFileSync(p, ...o)
  if (R.dead) throw oserr('EIO', 'crashed')
  if (R.fsfaults && fault('read_error', 30)) throw oserr('EIO', 'i/o error')
  return fs_.readFileSync(p, ...o)
}
fs.unlinkSync = p => {
  if (!inside(p)) return fs_.unlinkSync(p)
  point('unlink', p)
  before(p)
  fs_.unlinkSync(p)
}
fs.renameSync = (a, b) => {
  if (!inside(b)) return fs_.renameSync(a, b)
  point('rename', b)
  if (R.fsfaults && fault('rename_error', 40)) throw oserr('EIO', 'i/o error')
  before(a), before(b)
  fs_.renameSync(a, b)
  point('renamed', b)
}
syncBuiltinESMExports()

// ---- http ----
const BEH = ['good', 'connect_error', 'http_error', 'no_response', 'broken_body', 'flaky', 'rpc_error', 'no_result', 'null_receipts', 'garbage', 'other_answer', 'behind']
const [GOOD, DOWN, HTTP, SILENT, BROKEN, FLAKY, RPCERR, NORESULT, NULLRCPT, GARBAGE, OTHER, BEHIND] = BEH.keys()
const DELAYS = [10, 200, 50, 3000, 500, 12000, 1000, 100]
class Node {
  constructor(kind, idx) {
    this.kind = kind, this.idx = idx, this.beh = GOOD, this.lag = 0
    const base = `https://${{ r: 'rpc', b: 'beacon', c: 'check', p: 'prover' }[kind]}${idx}.sim`, form = C(3, 'url')
    this.prefix = base + ['', '', '/key' + idx][form]
    this.url = this.prefix
    // a base url with a slash at its end, where the client can deal with it
    if (form === 1 && (kind === 'r' || kind === 'p') && R.slash) this.url += '/'
  }
}
class Resp {
  constructor(status, body, delay, broken) { this.status = status, this.ok = status >= 200 && status < 300, this.b = body, this.delay = delay, this.broken = broken, this.bodyUsed = false, this.headers = new Map(), this.statusText = this.ok ? 'OK' : 'Error', this.gen = gen }
  async bytes_() {
    if (this.bodyUsed) throw new TypeError('Body is unusable: Body has already been read')
    this.bodyUsed = true
    await sleep(this.delay)
    if (this.broken) throw new TypeError('terminated')
    return this.b
  }
  async text() { return dec.decode(await this.bytes_()) }
  async json() { return JSON.parse(await this.text()) }
  async arrayBuffer() { return Uint8Array.from(await this.bytes_()).buffer }
  async blob() { const b = Uint8Array.from(await this.bytes_()); return { size: b.length, arrayBuffer: async () => b.buffer, text: async () => dec.decode(b) } }
}
const UNSUPPORTED = ['eth_mining', 'debug_traceCall', 'foo_bar', 'eth_süd']
const RPC_METHODS_PLAIN = ['eth_gasPrice', 'eth_syncing', 'eth_feeHistory', 'eth_estimateGas', 'net_listening']
globalThis.fetch = async (url, opt = {}) => {
  url = String(url)
  const g = gen
  if (R.dead) return new Promise(() => { })
  if (++R.nhttp > R.maxHttp) violation('never-ends', `more than ${R.maxHttp} http requests in one run`)
  const node = R.nodes.find(n => url === n.url || url === n.prefix || url.startsWith(n.prefix + '/'))
  if (!node) violation('unknown-server', `a request was sent to ${url}, which is not configured`)
  const p = url.slice(node.prefix.length).replace(/^\/+/, '')
  const m = (opt.method || 'GET').toUpperCase(), body = opt.body == null ? '' : String(opt.body)
  const headers = Object.fromEntries(Object.entries(opt.headers || {}).map(([k, v]) => [k.toLowerCase(), v]))
  const ssz = (headers.accept || '').includes('octet-stream')
  let beh = node.beh
  if (beh === FLAKY) beh = [GOOD, DOWN, HTTP, BROKEN, SILENT][C(5, 'flaky')]
  if ((beh === RPCERR || beh === NORESULT) && node.kind !== 'r') beh = GOOD
  if (beh === NULLRCPT && !body.includes('eth_getBlockReceipts')) beh = GOOD
  const lag = beh === BEHIND && !body.includes('eth_getLogs') ? node.lag : 0 // that logs are complete cannot be proven
  if (beh !== GOOD) count(BEH[beh])
  log(`http ${node.kind}${node.idx} ${m} ${p.slice(0, 70)} ${body.slice(0, 80)}: ${BEH[beh]}`)
  await sleep(beh === SILENT ? R.silentMs ?? 300000 : DELAYS[C(R.fast ? 3 : DELAYS.length, 'delay')])
  if (R.dead || g !== gen) return new Promise(() => { })
  if (beh === DOWN || beh === SILENT) throw new TypeError('fetch failed')
  const bd = C(4, 'slow-body') ? DELAYS[C(R.fast ? 3 : DELAYS.length, 'body-delay')] : 0
  const T = (s, d) => new Resp(s, typeof d === 'string' ? enc.encode(d) : d, bd, beh === BROKEN)
  if (beh === HTTP) return T([500, 404, 429, 502, 503, 400][C(6, 'status')], 'some error')
  if (beh === RPCERR) { R.rpcErrors.push('refused by ' + node.idx); return T(200, J({ jsonrpc: '2.0', id: 1, error: { code: -32602, message: 'refused by ' + node.idx } })) }
  if (beh === NORESULT) { R.noresult = true; return T(200, '{"jsonrpc":"2.0","id":1}') }
  if (beh === NULLRCPT) return T(200, '{"jsonrpc":"2.0","id":1,"result":null}')
  if (beh === GARBAGE) {
    const n = C(200, 'garbage')
    return T(200, C(2, 'binary') ? Uint8Array.from({ length: n }, (_, i) => (n * 7 + i * 31) & 255) : ['{"result"', '[]', 'null', '0', '"x"', '{', '{"result":{}}', '{"error":{}}'][C(8, 'text')])
  }
  if (node.kind === 'r' || (node.kind === 'p' && m === 'POST' && p === '')) {
    let q
    try { q = JSON.parse(body) } catch (e) { }
    if (!q || typeof q !== 'object' || m !== 'POST' || p) return T(400, 'bad request')
    if (node.kind === 'p') {
      let mm = q.method || '', aa = J(q.params)
      if (beh === OTHER) [, mm, aa] = call('request', 31).map(x => typeof x === 'number' ? x : str(x))
      const st = typeof q.c4 === 'string' && /^0x([0-9a-f]{2})*$/.test(q.c4) ? Buffer.from(q.c4.slice(2), 'hex') : null
      if (!st) violation('client-state', `the state sent to the prover is ${J(q.c4)}`)
      const [ok, r] = call('prove', mm, aa, st.length > 4 ? st : '', lag)
      if (ok && ssz) return T(200, r)
      return ok ? T(200, J({ id: 1, result: 'unverified' })) : T(500, J({ error: str(r) }))
    }
    if (beh === OTHER) return T(200, J({ jsonrpc: '2.0', id: 1, result: '0x' + C(100, 'other') }))
    if (q.method === 'eth_sendTransaction' && R.verifyTx) violation('not-verified', 'eth_sendTransaction was handed to an RPC server: ' + J(q.params).slice(0, 300))
    if (q.method === 'eth_sendRawTransaction') return T(200, J(R.sent(q)))
    if (R.hostileRpc && C(2, 'alter')) return T(200, R.altered(q, lag))
    if (RPC_METHODS_PLAIN.includes(q.method)) return T(200, J(R.plain(q)))
    const [s, b] = call('node', 'r', '', body, 0, lag)
    return T(s, b)
  }
  if (m !== 'GET') return T(405, 'method not allowed')
  if (ssz && R.strict && /finality_checkpoints|\/headers/.test(p)) return T(406, 'not acceptable') // there is only json
  if (R.wrongCheckpoint && p.includes('finality_checkpoints')) { count('wrong_checkpoint'); return T(200, J({ data: { finalized: { epoch: '1', root: '0x' + '12'.repeat(32) }, current_justified: { epoch: '1', root: '0x' + '12'.repeat(32) }, previous_justified: { epoch: '1', root: '0x' + '12'.repeat(32) } } })) }
  if (beh === OTHER) return T(200, J({ data: { root: '0x' + '12'.repeat(32) } }))
  const [s, b] = call('node', node.kind === 'p' ? 'b' : node.kind, p, '', ssz, lag)
  return T(s, b)
}

// ---- one run ----
let R = null
class Run {
  constructor() {
    Object.assign(this, { nodes: [], dead: false, fsfaults: false, nhttp: 0, rpcErrors: [], given: new Map(), noresult: false, fast: false, slash: true, hostileRpc: false, sentTx: [], alterations: [], maxHttp: 4000 })
  }
  plain(q) {
    const n = this.given.size + 1, res = [null, '0x' + n.toString(16), { n }, false][C(4, 'result')], k = q.method + J(q.params)
    this.given.set(k, [...(this.given.get(k) || []), J(res)])
    return { jsonrpc: '2.0', id: q.id, result: res }
  }
  /** the answer of a node with one value changed */
  altered(q, lag) {
    const [, b] = call('node', 'r', '', J(q), 0, lag), v = JSON.parse(str(b)), leaves = [], lists = []
    const walk = (o, p) => {
      if (Array.isArray(o)) lists.push(p)
      if (typeof o === 'string' && /^0x[0-9a-f]+$/.test(o)) leaves.push(p)
      else if (o && typeof o === 'object') for (const k of Object.keys(o)) walk(o[k], [...p, k])
    }
    walk(v.result, ['result'])
    if (lists.length && C(3, 'list') === 2) { // an element more or less
      const p = lists[C(lists.length, 'which')], o = p.reduce((a, k) => a[k], v), old = o.length
      if (old && C(2, 'shorter')) o.pop()
      else o.push(old ? JSON.parse(J(o[old - 1])) : '0x' + '12'.repeat(32))
      this.alterations.push({ method: q.method, params: J(q.params), result: J(v.result), path: [...p.slice(1), 'length'], old })
      count('altered_list')
    }
    else if (leaves.length) {
      const p = leaves[C(leaves.length, 'leaf')], o = p.slice(0, -1).reduce((a, k) => a[k], v), old = o[p.at(-1)]
      o[p.at(-1)] = old.slice(0, -1) + (old.at(-1) === '1' ? '2' : '1')
      this.alterations.push({ method: q.method, params: J(q.params), result: J(v.result), path: p.slice(1), old })
      count('altered_answer')
    }
    return J(v)
  }
  sent(q) {
    this.sentTx.push(q.params[0])
    return { jsonrpc: '2.0', id: q.id, result: '0x' + (this.sentTx.length + '').padStart(64, '0') }
  }
}
let version = 0
async function load() {
  const mod = await import('./index.mjs?v=' + (++version))
  // the native module is loaded asynchronously by node itself
  const cl = new mod.default({ chainId: R.chain || 1 })
  R.methods = {}
  for (const m of [...RPC_METHODS_PLAIN, ...UNSUPPORTED, 'eth_chainId']) R.methods[m] = await cl.getMethodSupport(m)
  R.plainMethods = RPC_METHODS_PLAIN.filter(m => R.methods[m] === 2)
  R.unsupported = UNSUPPORTED.filter(m => R.methods[m] === 3 || R.methods[m] === 0)
  return mod
}
function nodeSet(kind, n) {
  const ns = Array.from({ length: n }, (_, i) => new Node(kind, i))
  R.nodes.push(...ns)
  return ns
}
const isGood = n => n.beh === GOOD || n.beh === BEHIND
const good = ns => ns.some(isGood)
function behaviours(ns, kind, hostile) {
  if (ns.length > 2 && C(3, 'mixed') === 2) { // one server fails, the next one gives answers which are of no use, only the last one works
    ns[0].beh = [HTTP, DOWN, BROKEN, GOOD][C(4, 'first')]
    ns[1].beh = kind === 'r' ? [NULLRCPT, RPCERR, NORESULT][C(3, 'second')] : [HTTP, DOWN][C(2, 'second')]
    for (const n of ns.slice(2)) n.beh = GOOD
    return
  }
  for (const n of ns) {
    n.beh = GOOD
    if (C(2, 'bad')) n.beh = (kind === 'r' ? [DOWN, HTTP, SILENT, BROKEN, FLAKY, RPCERR, NORESULT, NULLRCPT, GARBAGE, OTHER] : [DOWN, HTTP, SILENT, BROKEN, FLAKY, DOWN, HTTP, FLAKY, GARBAGE, OTHER])[C(hostile ? 10 : 8, 'behaviour')]
  }
  if (ns.length && !good(ns) && C(6, 'one-good')) ns[C(ns.length, 'good')].beh = GOOD
}
const urls = ns => ns.map(n => n.url)
function makeRequest(mod) {
  const k = C(10, 'what')
  if (k < 7) {
    const [i, m, a, must] = call('request', 31)
    // the prover needs the finality for these tags
    if (R.wrongCheckpoint && /finalized|safe/.test(str(a))) return { kind: 'proof', i, method: str(m), params: JSON.parse(str(a)), must: 0 }
    return { kind: 'proof', i, method: str(m), params: JSON.parse(str(a)), must }
  }
  if (k < 9 && R.plainMethods.length) return { kind: 'plain', method: R.plainMethods[C(R.plainMethods.length, 'method')], params: ['0x' + (R.uniq = (R.uniq || 0) + 1).toString(16)] }
  if (C(2, 'local') || !R.unsupported.length) return { kind: 'local', method: 'eth_chainId', params: [] }
  return { kind: 'unsupported', method: R.unsupported[C(R.unsupported.length, 'method')], params: [] }
}
async function doCall(cl, q) {
  try { return ['ok', q.via === 0 ? await cl.request({ method: q.method, params: q.params }) : await cl.rpc(q.method, q.params)] }
  catch (e) { return ['error', e] }
}
const suspects = []
async function batch(mod, clients, healed) {
  const n = 1 + C(4, 'parallel'), reqs = []
  R.alterations = []
  for (const c of clients) c.warned.length = 0
  R.rpcErrors = [], R.given = new Map(), R.noresult = false
  for (let j = 0; j < n; j++) {
    const q = makeRequest(mod)
    q.cl = clients[C(clients.length, 'client')]
    q.via = C(3, 'via') === 2 ? 1 : 0
    reqs.push(q)
    log(`rpc ${j}: ${q.method} ${J(q.params).slice(0, 200)}`)
    q.p = doCall(q.cl, q).then(r => { q.r = r })
  }
  await pump(() => R.dead || reqs.every(q => q.r), 'a call of the client')
  if (R.dead) return null
  // what is in flight for a call that was answered before ends later
  if (clients.some(c => c.strategy === 2)) await pump(() => R.dead || !live.size || timers.every(t => t.gen !== gen), 'a call of the client')
  if (R.dead) return null
  if (live.size) violation('context-not-released', live.size + ' contexts are still in use after all calls have ended')
  for (const [j, q] of reqs.entries()) {
    const [kind, v] = q.r, what = q.method + ' ' + J(q.params).slice(0, 300), msg = kind === 'error' ? String(v?.message ?? v) : ''
    log(`rpc ${j} ended: ${kind} ${kind === 'ok' ? (J(v) || '').slice(0, 120) : msg.slice(0, 200)}`)
    call('state', `${q.kind} ${kind} ${msg.slice(0, 24)}`)
    call('checked')
    if (kind === 'error' && !(v instanceof Error)) violation('foreign-exception', `${what} was rejected with ${String(v)}`)
    if (kind === 'error' && q.via === 0 && !(v instanceof mod.ProviderRpcError && typeof v.code === 'number')) violation('foreign-exception', `${what} was rejected with ${v.name}: ${msg}, which is no ProviderRpcError with a code`)
    if (q.kind === 'proof' && kind === 'ok' && q.cl.strategy === 2 && q.via === 0) {
      // the answer of an rpc node: if it is not the verified one, the user is warned
      const a = R.alterations.find(a => a.method === q.method && a.params === J(q.params) && a.result === J(v))
      if (a && !q.cl.warned.includes(q.method + J(q.params))) suspects.push([a, q, what])
      if (!R.hostile && !a && v !== undefined) {
        const e = str(call('check', q.i, J(v))[0])
        if (e) violation('wrong-answer', `${what}: ${e}: ${J(v).slice(0, 300)}`)
      }
    }
    else if (q.kind === 'proof' && kind === 'ok') {
      const e = str(call(R.hostile ? 'sound' : 'check', q.i, J(v) ?? 'undefined')[0])
      if (e) violation('wrong-answer', `${what}: ${e}: ${(J(v) || '').slice(0, 300)}`)
    }
    if (q.kind === 'plain') {
      const given = R.given.get(q.method + J(q.params)) || []
      if (kind === 'ok' && !R.hostile && !given.includes(J(v)) && !(v === undefined && R.noresult)) violation('wrong-answer', `${what} returned ${J(v)}, the servers gave ${given}`)
      if (kind === 'error' && !R.hostile && !R.fsfaults) {
        const rs = q.cl.sim.r
        if (good(rs)) violation('failover', `${what} failed although a server works: ${msg}`)
        if (R.rpcErrors.length && rs.every(x => x.beh === RPCERR) && !R.rpcErrors.some(m => msg.includes(m))) violation('error-lost', `${what}: the servers answered ${R.rpcErrors}, the client reports ${msg}`)
      }
    }
    if (q.kind === 'local') {
      if (kind === 'error' && R.fsfaults) continue
      if (kind === 'error') violation('local', `${what} failed: ${msg}`)
      if (parseInt(v, 16) !== R.chain) violation('wrong-answer', `${what} returned ${J(v)}`)
    }
    if (q.kind === 'unsupported' && kind === 'ok' && (q.via === 1 || q.cl.strategy === 0) && !R.hostile) violation('wrong-answer', `${what} is not supported, but returned ${J(v)}`)
  }
  return reqs
}
function mustWork(q) {
  const s = q.cl.sim
  if (q.cl.strategy === 2 && q.via === 0 && !s.r.every(n => n.beh === GOOD)) return false
  if (q.kind !== 'proof' || !q.must || R.hostile) return false
  if (!q.cl.config.trusted_checkpoint && !good([...s.c, ...s.b, ...s.p])) return false
  if (s.p.length) return good(s.p)
  return good(s.r) && good(s.b)
}
async function calls() {
  const [chain] = call('world', 0)
  R.chain = chain
  const durable = C(3, 'storage')
  exact = durable < 2
  let mod = await load()
  let mem = new Map()
  const storage = async m => {
    const c4w = { get: k => mem.has(k) ? Uint8Array.from(mem.get(k)) : null, set: (k, v) => { mem.set(k, Uint8Array.from(v)) }, del: k => { mem.delete(k) } }
    if (durable === 0) await m.default.register_storage(watched(c4w))
    else if (exact) await m.default.register_storage(watched(globalThis.__sim.defaultStorage))
  }
  await storage(mod)
  R.hostile = false
  const withCp = C(4, 'checkpoint'), behind = C(3, 'behind')
  const cp = withCp ? str(call('checkpoint', behind)[0]) : undefined
  const set = { r: nodeSet('r', 1 + C(4, 'rpcs')), b: nodeSet('b', 1 + C(3, 'beacons')), c: nodeSet('c', C(3, 'checkpointz')), p: nodeSet('p', C(4, 'provers')) }
  const ncl = 1 + C(2, 'clients')
  R.strict = !!C(2, 'strict')
  // nobody is asked for a checkpoint by a client that has one
  R.wrongCheckpoint = withCp && C(4, 'wrong-checkpoint') === 3
  // a cache of the user for what never changes
  const cached = new Map(), ckey = q => J([q.url, q.payload && [q.payload.method, q.payload.params]])
  const cache = C(4, 'cache') === 3 ? {
    cacheable: q => !/latest|pending|finali|\/head|safe/.test(ckey(q)),
    get: q => { const v = cached.get(ckey(q)); if (v) stat('answers from the cache'); return v },
    set: (q, d) => { if (!R.hostile) cached.set(ckey(q), d) }, // whoever caches answers of hostile servers keeps them
  } : undefined
  const start = () => Array.from({ length: ncl }, (_, i) => {
    const s = i && C(2, 'no-prover') ? { ...set, p: [] } : set
    const strategy = C(3, 'strategy'), warned = []
    const c = new mod.default({ chainId: chain, prover: urls(s.p), rpcs: urls(s.r), beacon_apis: urls(s.b), checkpointz: urls(s.c), trusted_checkpoint: cp, cache, proofStrategy: [mod.Strategy.VerifiedOnly, undefined, mod.Strategy.WarningWithFallback][strategy], warningHandler: async (r, m) => { warned.push(r.method + J(r.params)) }, debug: !!C(2, 'debug') })
    c.sim = s
    c.strategy = strategy
    c.warned = warned
    return c
  })
  let clients = start()
  const fsrun = durable === 2, rounds = 1 + C(4, 'rounds')
  for (let i = 0; i < rounds; i++) {
    R.fsfaults = fsrun
    R.hostile = C(4, 'hostile') === 3
    R.hostileRpc = C(4, 'altering') === 3
    R.hostile ||= R.hostileRpc
    for (const k of 'rbcp') behaviours(set[k], k, R.hostile)
    log(`round ${i}: ` + R.nodes.map(n => n.kind + n.idx + '=' + BEH[n.beh]).join(' '))
    const res = await batch(mod, clients, false)
    if (!res || C(8, 'restart') === 7) {
      log('restart')
      count('restart')
      gen++
      live = new Map()
      call('restart')
      R.dead = R.fsfaults = false
      mod = await load()
      if (durable === 0 && C(2, 'keep')) mem = new Map(), stored = new Map()
      await storage(mod)
      clients = start()
      continue
    }
    for (const q of res)
      if (mustWork(q) && !R.fsfaults) {
        if (q.r[0] === 'error') violation('failover', `${q.method} ${J(q.params).slice(0, 200)} failed although a server of each kind works: ${q.r[1].message}`)
        stat('answered with failing servers')
      }
  }
  // all faults end: requests are answered
  R.fsfaults = R.hostile = R.hostileRpc = false
  for (const n of R.nodes) n.beh = GOOD
  log('healed')
  for (let i = 0; i < 3; i++) {
    const res = await batch(mod, clients, true)
    const f = res.find(q => q.r[0] === 'error' && q.kind === 'proof' && q.must)
    if (!f) stat('healed batches')
    else if (!fsrun) violation('no-recovery', `${f.method} ${J(f.params).slice(0, 200)} fails with working servers: ${f.r[1].message}`)
  }
  for (const [a, q, what] of suspects) {
    let r = null
    doCall(q.cl, { via: 1, method: q.method, params: q.params }).then(x => { r = x })
    await pump(() => r, 'a call of the client')
    if (r[0] !== 'ok') continue
    const verified = a.path.reduce((o, k) => o == null ? undefined : o[k], r[1])
    if (verified === a.old) violation('no-warning', `${what} returned ${a.result.slice(0, 200)} with a wrong value at ${a.path.join('.')} and no warning was given`)
  }
  if (fsrun) {
    let last = null
    for (let i = 0; ; i++) {
      if (i === 14) violation('no-recovery', 'after the storage works again, requests keep failing: ' + last)
      let q = makeRequest(mod)
      while (q.kind !== 'proof') q = makeRequest(mod)
      q.via = 1
      doCall(clients[0], q).then(r => { q.r = r })
      await pump(() => q.r, 'a call of the client')
      if (q.r[0] === 'ok' || !q.must) break
      last = q.r[1].message
    }
  }
}

async function main() {
  fs_.mkdirSync(scratch, { recursive: true })
  process.chdir(scratch)
  scratch = fs.realpathSync(scratch)
  R = new Run()
  const prop = str(call('prop')[0])
  if (prop === 'P17') await (await import('./subs.mjs')).run({ C, call, str, J, log, stat, count, violation, pump, sleep, load, R, nodeSet, urls, BEH, addTimer, isGood, GOOD, DOWN, HTTP, SILENT, BROKEN, FLAKY, BEHIND, vt: () => vt })
  else if (prop === 'P18') await (await import('./txv.mjs')).run({ C, call, str, J, log, stat, count, violation, pump, sleep, load, R, nodeSet, urls, GOOD, DOWN, HTTP })
  else await calls()
  if (unhandled) violation('unhandled-rejection', 'a promise was rejected and nobody handles it: ' + unhandled)
  clean()
  call('done')
  process.exit(0)
}
main().catch(e => { clean(); call('error', 'driver: ' + (e && e.stack || e)) })
