// Subscriptions and filters of the typescript client while the chain grows and servers fail.
export async function run(S) {
  const { C, call, str, J, log, stat, count, violation, pump, sleep, load, R, nodeSet, urls, BEH, addTimer } = S
  const { GOOD, DOWN, HTTP, SILENT, BROKEN, FLAKY, BEHIND } = S
  const [chain, slotSecs] = call('world', 16)
  R.chain = chain
  R.maxHttp = 20000
  R.silentMs = 60000
  const mod = await load(), mem = new Map()
  await mod.default.register_storage({ get: k => mem.has(k) ? Uint8Array.from(mem.get(k)) : null, set: (k, v) => { mem.set(k, Uint8Array.from(v)) }, del: k => { mem.delete(k) } })
  const np = C(3, 'provers')
  const set = { r: nodeSet('r', 1 + C(2, 'rpcs')), b: nodeSet('b', 1 + C(2, 'beacons')), p: nodeSet('p', [1, 2, 0][np]) }
  const PI = [12000, 4000, 30000, 8000][C(4, 'interval')]
  const cl = new mod.default({ chainId: chain, prover: urls(set.p), rpcs: urls(set.r), beacon_apis: urls(set.b), checkpointz: [], trusted_checkpoint: str(call('checkpoint', 0)[0]), pollingInterval: PI, debug: !!C(2, 'debug') })
  const subs = [], byId = new Map()
  if (C(3, 'bad-listener') === 2) cl.on('message', () => { count('listener_throws'); throw new Error('a listener of somebody else') })
  cl.on('message', m => {
    const s = byId.get(m?.data?.subscription)
    if (m?.type !== 'eth_subscription' || !s) {
      if (early) early.push(m)
      else violation('unknown-subscription', `a message for ${J(m?.data?.subscription)}, which is no subscription`)
      return
    }
    if (s.ended) violation('after-unsubscribe', `subscription ${s.id} got a message after it was ended`)
    got(s, s.kind === 'newHeads' ? [m.data.result] : m.data.result, ++s.batches)
  })
  let early = null
  const num = x => Number(BigInt(x))
  function got(s, list, batch) {
    if (!Array.isArray(list)) violation('wrong-result', `${s.kind} delivered ${J(list).slice(0, 200)}`)
    for (const v of list) {
      call('checked')
      let n, key
      if (s.kind === 'newHeads') {
        n = num(v.number)
        const want = str(call('hash', n)[0])
        if (v.hash !== want) violation('wrong-result', `block ${n} was delivered with hash ${v.hash}, canonical is ${want}`)
        key = n
      } else if (s.kind === 'block') {
        n = numberOf(v)
        if (n === undefined) violation('wrong-result', `the block filter delivered ${J(v).slice(0, 100)}, which is no canonical block`)
        key = n
      } else {
        n = num(v.blockNumber)
        key = logKey(v)
      }
      s.got.push({ n, key, batch })
      log(`${s.name} got ${n} ${String(key).slice(0, 60)}`)
    }
  }
  const logKey = l => `${num(l.blockNumber)} ${num(l.transactionIndex)} ${num(l.logIndex)} ${l.address} ${J(l.topics)} ${l.data}`
  function numberOf(hash) {
    const [, b] = call('node', 'r', '', J({ jsonrpc: '2.0', id: 1, method: 'eth_getBlockByHash', params: [hash, false] }), 0, 0)
    const r = JSON.parse(str(b)).result
    return r ? num(r.number) : undefined
  }
  function canonicalLogs(filter, from, to) {
    if (from > to) return []
    const [, b] = call('node', 'r', '', J({ jsonrpc: '2.0', id: 1, method: 'eth_getLogs', params: [{ ...filter, fromBlock: '0x' + from.toString(16), toBlock: '0x' + to.toString(16) }] }), 0, 0)
    return JSON.parse(str(b)).result || []
  }
  async function wait(p, what) {
    let r = null
    p.then(v => { r = ['ok', v] }, e => { r = ['error', e] })
    await pump(() => r, what)
    return r
  }
  const run = async ms => { let d = false; addTimer(() => { d = true }, ms); await pump(() => d, 'time') }
  const top = async () => {
    const r = await wait(cl.rpc('eth_blockNumber', []), 'eth_blockNumber')
    if (r[0] === 'error') violation('no-progress', 'eth_blockNumber fails with working servers: ' + r[1].message)
    return num(r[1])
  }
  async function create() {
    const kind = ['newHeads', 'logs', 'block', 'log'][C(4, 'kind')], s = { kind, got: [], batches: 0, ended: false, polls: 0, name: kind + subs.length }
    if (kind === 'logs' || kind === 'log') {
      const head = call('block', 0)[0], ls = canonicalLogs({}, head - 3, head), l = ls.length ? ls[C(ls.length, 'log')] : null
      s.filter = {}
      const f = C(4, 'filter')
      if (l && f === 1) s.filter.address = l.address
      if (l && f === 2 && l.topics.length) s.filter.topics = [l.topics[0]]
      if (l && f === 3) s.filter.address = [...new Set(ls.slice(0, 3).map(x => x.address))]
      if (kind === 'log') {
        const k = C(6, 'from')
        if (k === 2) s.from = head - 1 - C(4, 'past')
        if (k === 3) s.tag = ['latest', 'pending'][C(2, 'tag')]
        if (C(6, 'to') === 5) s.to = head + C(6, 'until')
      }
    }
    const params = s.filter ? [{ ...s.filter, ...(s.from ? { fromBlock: '0x' + s.from.toString(16) } : s.tag ? { fromBlock: s.tag } : {}), ...(s.to ? { toBlock: '0x' + s.to.toString(16) } : {}) }] : []
    const req = kind === 'newHeads' || kind === 'logs' ? { method: 'eth_subscribe', params: [kind, ...params] } : kind === 'block' ? { method: 'eth_newBlockFilter' } : { method: 'eth_newFilter', params }
    early = []
    const r = await wait(cl.request(req), req.method)
    if (r[0] === 'error') violation('subscribe-failed', `${J(req)}: ${r[1].message}`)
    s.id = r[1]
    if (typeof s.id !== 'string' || byId.has(s.id)) violation('subscription-id', `${J(req)} returned the id ${J(s.id)}`)
    byId.set(s.id, s)
    subs.push(s)
    for (const m of early) if (m?.data?.subscription === s.id) got(s, kind === 'newHeads' ? [m.data.result] : m.data.result, ++s.batches)
    early = null
    log(`created ${s.name} ${s.id} ${J(params)}`)
    if (kind === 'block' || kind === 'log') poller(s)
    return s
  }
  async function poll(s) {
    const start = ++s.clock || (s.clock = 1)
    s.open = (s.open || 0) + 1
    let r
    try { r = ['ok', await cl.request({ method: 'eth_getFilterChanges', params: [s.id] })] } catch (e) { r = ['error', e] }
    s.open--
    if (s.ended) return
    s.polls++
    if (r[0] === 'error') { if (!(r[1] instanceof mod.ProviderRpcError)) violation('foreign-exception', 'eth_getFilterChanges: ' + r[1]); return }
    got(s, r[1], ++s.batches)
  }
  async function poller(s) {
    for (;;) {
      await sleep([PI * 2, PI / 2, PI * 5, PI * 11][C(4, 'poll')])
      if (s.ended) return
      if (s.open && !C(3, 'overlap')) continue
      const p = [poll(s)]
      if (C(4, 'twice') === 3) { s.overlap = true; count('overlapping_polls'); p.push(poll(s)) }
      if (C(4, 'await')) await Promise.all(p)
      else s.overlap = true
    }
  }
  async function end(s) {
    const sub = s.kind === 'newHeads' || s.kind === 'logs', m = sub ? 'eth_unsubscribe' : 'eth_uninstallFilter'
    if (C(3, 'wrong-method') === 2) { // ids of filters and subscriptions are different things
      const o = sub ? 'eth_uninstallFilter' : 'eth_unsubscribe', x = await wait(cl.request({ method: o, params: [s.id] }), o)
      if (x[0] === 'ok' && x[1] === true) violation('unsubscribe-failed', `${o} of ${s.kind} ${s.id} returned true`)
    }
    const r = await wait(cl.request({ method: m, params: [s.id] }), m)
    s.ended = true
    log(`ended ${s.name}: ${J(r[1])}`)
    if (r[0] !== 'ok' || r[1] !== true) violation('unsubscribe-failed', `${m} returned ${r[0] === 'ok' ? J(r[1]) : r[1].message}`)
    check(s, null, null)
    const again = await wait(cl.request({ method: m, params: [s.id] }), m)
    if (again[0] === 'ok' && again[1] === true) violation('unsubscribe-failed', `${m} of a subscription which was ended before returned true`)
    if (!sub) {
      const g = await wait(cl.request({ method: 'eth_getFilterChanges', params: [s.id] }), 'eth_getFilterChanges')
      if (g[0] === 'ok') violation('after-unsubscribe', `eth_getFilterChanges of an uninstalled filter returned ${J(g[1]).slice(0, 100)}`)
    }
    stat('ended subscriptions')
  }
  /** exactly once, in order, nothing missing; start: everything after this block has to be there, final: up to this block */
  function check(s, start, final) {
    call('checked')
    const keys = new Set(), isLog = s.kind === 'logs' || s.kind === 'log'
    for (const g of s.got) {
      if (keys.has(g.key)) violation('duplicate', `${s.name} ${s.id} delivered ${String(g.key).slice(0, 80)} twice`)
      keys.add(g.key)
    }
    for (let i = 1; i < s.got.length; i++)
      if (s.got[i].n < s.got[i - 1].n && !(s.overlap && s.got[i].batch !== s.got[i - 1].batch)) violation('order', `${s.name} ${s.id} delivered block ${s.got[i].n} after ${s.got[i - 1].n}`)
    if (s.to && s.got.some(g => g.n > s.to)) violation('wrong-result', `${s.name} ${s.id} delivered logs after block ${s.to}`)
    const ns = s.got.map(g => g.n), first = ns.length ? Math.min(...ns) : null
    let last = ns.length ? Math.max(...ns) : null
    if (final !== null) {
      if (s.from) start = s.from - 1
      if (isLog) last = s.to ? Math.min(s.to, final) : final
      else {
        if (final > start && (first === null || first > start + 1)) violation('missing', `${s.name} ${s.id} delivered ${first === null ? 'nothing' : 'blocks from ' + first}, but has to start at ${start + 1} or before (head ${final})`)
        if (final > start && last < final) violation('missing', `${s.name} ${s.id} delivered blocks up to ${last}, the head is ${final}`)
      }
    }
    if (isLog) {
      if (last === null) return
      const from = Math.min(start === null ? Infinity : start + 1, first === null ? Infinity : first)
      if (from === Infinity) return
      const want = canonicalLogs(s.filter, from, last).map(logKey)
      // what was delivered is canonical
      const all = new Set(want)
      for (const g of s.got) if (!all.has(g.key)) violation('wrong-result', `${s.name} ${s.id} delivered a log which does not match or is not canonical: ${g.key.slice(0, 200)}`)
      for (const k of want) if (!keys.has(k)) violation('missing', `${s.name} ${s.id} did not deliver the log ${k.slice(0, 100)} (delivered from block ${first}, required from ${start === null ? '-' : start + 1} to ${final})`)
    } else if (first !== null)
      for (let n = first; n <= last; n++) if (!keys.has(n)) violation('missing', `${s.name} ${s.id} did not deliver block ${n}, but ${first} and ${last}`)
    if (s.got.length) stat(s.kind + ' with deliveries')
  }

  // the chain
  let grow = true, left = 15
  addTimer(() => { if (grow && left > 0 && C(6, 'slot') !== 5) { left--; if (!call('new-head')[0]) left = 0 } }, slotSecs * 1000, slotSecs * 1000)
  const n0 = C(3, 'subs')
  const clean = n0 > 0 && C(3, 'clean')
  R.fast = true
  for (let i = 0; i < n0; i++) await create()
  let cleanTop = null
  if (clean) {
    await run(PI * 3 + 60000)
    cleanTop = await top()
    for (const s of subs) if (s.kind === 'newHeads' || s.kind === 'logs' || s.polls) s.start = cleanTop // a filter starts with its first poll
  }
  const phases = 1 + C(5, 'phases')
  for (let i = 0; i < phases; i++) {
    for (const k of 'rbp') for (const n of set[k]) {
      n.beh = GOOD
      if (C(2, 'bad')) n.beh = [DOWN, HTTP, FLAKY, BROKEN, BEHIND, SILENT][C(6, 'behaviour')]
      n.lag = 1 + C(3, 'lag')
    }
    R.fast = !C(3, 'slow')
    log(`phase ${i}: ` + R.nodes.map(n => n.kind + n.idx + '=' + BEH[n.beh]).join(' '))
    await run([PI * 2, PI / 3, slotSecs * 1000, PI * 5, slotSecs * 3000][C(5, 'duration')])
    if (subs.length < 4 && C(3, 'create') === 2) await create()
    const act = subs.filter(s => !s.ended)
    if (act.length && C(6, 'end') === 5) await end(act[C(act.length, 'which')])
    call('state', act.map(s => s.kind + Math.min(s.got.length, 5)).join())
  }
  for (const n of R.nodes) n.beh = GOOD
  R.fast = true
  log('healed')
  if (!subs.length) await create()
  grow = false
  await run(R.silentMs * 2 + 100000 + PI * 6)
  const topA = await top()
  grow = true
  left = Math.max(left, 3)
  await run(slotSecs * 1000 * 4)
  grow = false
  await run(PI * 8 + 120000)
  const final = await top()
  for (const s of subs.filter(s => !s.ended)) { check(s, s.start ?? topA, final); stat('complete subscriptions') }
  for (const s of subs.filter(s => !s.ended)) await end(s)
  await run(PI * 3 + 30000)
}
