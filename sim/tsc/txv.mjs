// Verified transactions of the typescript client: the signer may be hostile, only what the caller asked for reaches the network.
export async function run(S) {
  const { C, call, str, J, log, stat, count, violation, pump, sleep, load, R, nodeSet, urls, GOOD, DOWN, HTTP } = S
  const [chain] = call('world', 0)
  R.chain = chain
  R.verifyTx = true
  const mod = await load()
  const keccak = b => call('keccak', b)[0]

  // ---- transactions: RLP, signatures (nonce of the signature is 1, so r is the x coordinate of the generator) ----
  const N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n, GX = 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798n
  const KEYS = [1n, 2n], ACCOUNTS = ['0x7e5f4552091a69125d5dfcb7b8c2659029395bdf', '0x2b5ad5c4795c026514f8317c7a215e218dccd6cf']
  const bytes = h => Buffer.from(h.replace(/^0x/i, ''), 'hex'), int = v => { let h = BigInt(v).toString(16); if (h === '0') return Buffer.alloc(0); if (h.length % 2) h = '0' + h; return Buffer.from(h, 'hex') }
  const head = (n, o) => n < 56 ? Buffer.from([o + n]) : Buffer.concat([Buffer.from([o + 55 + int(n).length]), int(n)])
  const rlp = v => Array.isArray(v) ? (b => Buffer.concat([head(b.length, 192), b]))(Buffer.concat(v.map(rlp))) : v.length === 1 && v[0] < 128 ? Buffer.from(v) : Buffer.concat([head(v.length, 128), v])
  function unrlp(b) { // one item and what follows
    const c = b[0]
    const long = o => { const k = c - o - 55; return [1 + k, Number(BigInt('0x' + b.subarray(1, 1 + k).toString('hex')))] }
    if (c < 128) return [b.subarray(0, 1), b.subarray(1)]
    const [o, n] = c < 184 ? [1, c - 128] : c < 192 ? long(128) : c < 248 ? [1, c - 192] : long(192)
    const d = b.subarray(o, o + n), rest = b.subarray(o + n)
    if (c < 192) return [d, rest]
    const l = []
    for (let r = d; r.length;) { const [i, x] = unrlp(r); l.push(i); r = x }
    return [l, rest]
  }
  const FIELDS = [['nonce', 'gasPrice', 'gas', 'to', 'value', 'data'], ['chainId', 'nonce', 'gasPrice', 'gas', 'to', 'value', 'data', 'accessList'], ['chainId', 'nonce', 'maxPriorityFeePerGas', 'maxFeePerGas', 'gas', 'to', 'value', 'data', 'accessList'], ['chainId', 'nonce', 'maxPriorityFeePerGas', 'maxFeePerGas', 'gas', 'to', 'value', 'data', 'accessList', 'maxFeePerBlobGas', 'blobVersionedHashes'], ['chainId', 'nonce', 'maxPriorityFeePerGas', 'maxFeePerGas', 'gas', 'to', 'value', 'data', 'accessList', 'authorizationList']]
  const item = (t, f) => f === 'to' || f === 'data' ? bytes(t[f] || '') : f === 'accessList' ? t.accessList || [] : f === 'authorizationList' ? t.authorizationList || [] : f === 'blobVersionedHashes' ? t.blobVersionedHashes || [] : int(t[f] || 0n)
  function sign(t, key) {
    const fs = FIELDS[t.type].map(f => item(t, f)), pre = t.type ? Buffer.from([t.type]) : Buffer.alloc(0)
    const body = Buffer.concat([pre, rlp(t.type ? fs : [...fs, int(t.chainId), int(0), int(0)])])
    let s = (BigInt('0x' + keccak(body).toString('hex')) + GX * key) % N, y = 0n
    if (s > N / 2n) s = N - s, y = 1n
    return '0x' + Buffer.concat([pre, rlp([...fs, int(t.type ? y : t.chainId * 2n + 35n + y), int(GX), int(s)])]).toString('hex')
  }
  const big = b => b.length ? BigInt('0x' + b.toString('hex')) : 0n, hex = b => '0x' + b.toString('hex')
  function decode(raw) {
    const b = bytes(raw), type = b[0] < 128 ? b[0] : 0, [l, rest] = unrlp(type ? b.subarray(1) : b)
    if (rest.length || !FIELDS[type]) throw new Error('no transaction')
    const t = { type }
    FIELDS[type].forEach((f, i) => { t[f] = Array.isArray(l[i]) ? l[i] : f === 'to' || f === 'data' ? hex(l[i]) : big(l[i]) })
    const n = FIELDS[type].length
    if (!type) { const v = big(l[n]); t.chainId = v < 35n ? 0n : (v - 35n) / 2n }
    const un = rlp(type ? l.slice(0, n) : [...l.slice(0, n), int(t.chainId), int(0), int(0)])
    const z = BigInt('0x' + keccak(type ? Buffer.concat([Buffer.from([type]), un]) : un).toString('hex')), s = big(l[n + 2])
    t.from = ACCOUNTS.find((a, i) => [s, N - s].includes((z + GX * KEYS[i]) % N))
    return t
  }

  // ---- what the caller asks for ----
  const rnd = n => { let h = ''; for (let i = 0; i < n; i++) h += C(256, 'byte').toString(16).padStart(2, '0'); return h }
  const amount = k => [0n, 1n, 1000000000n, 10n ** 18n + 7n, 21000n, 0x0123456789n, 255n, 2n ** 63n + 5n][C(8, k)]
  function show(v) { // numbers as the caller may write them
    const k = C(8, 'format')
    if (k === 6 && v < 2n ** 40n) return Number(v)
    if (k === 7) return v
    return '0x' + (k === 5 ? '00' : '') + (k === 4 ? v.toString(16).toUpperCase() : v.toString(16))
  }
  const mixed = a => '0x' + [...a.slice(2)].map((c, i) => i % 3 ? c : c.toUpperCase()).join('')
  function ask() {
    const want = { from: ACCOUNTS[C(2, 'from')] }, tx = {}
    const k = C(6, 'kind')
    if (k !== 5) want.to = k === 4 ? ACCOUNTS[1] : '0x' + rnd(1).repeat(k === 3 ? 1 : 20).padStart(40, '0')
    const d = C(5, 'data')
    if (d || !want.to) want.data = ['0x', '0x00', '0x0012', '0xa9059cbb' + '00'.repeat(12) + '11'.repeat(20) + rnd(4).padStart(64, '0'), '0x' + 'fe'.repeat(1 + C(80, 'len'))][d || 4]
    if (C(3, 'value')) want.value = amount('amount')
    if (C(2, 'gas')) want.gas = [21000n, 100000n, 1n << 24n][C(3, 'limit')]
    const fee = C(4, 'fees')
    if (fee === 1) want.gasPrice = 1n + amount('price') % (1n << 40n)
    if (fee >= 2) want.maxFeePerGas = 2n + amount('price') % (1n << 40n)
    if (fee === 3) want.maxPriorityFeePerGas = 1n + want.maxFeePerGas / 2n
    if (C(2, 'nonce')) want.nonce = [0n, 1n, 200n, 70000n][C(4, 'n')]
    for (const f of Object.keys(want)) tx[f] = f === 'from' || f === 'to' ? (C(3, 'case') ? want[f] : mixed(want[f])) : f === 'data' ? (C(4, 'case') === 3 ? '0x' + want[f].slice(2).toUpperCase() : want[f]) : show(want[f])
    if (C(4, 'nofrom') === 3) delete tx.from, delete want.from
    if (tx.data !== undefined && C(4, 'input') === 3) tx.input = tx.data, delete tx.data
    if (!want.to && C(3, 'null') === 2) tx.to = [null, undefined][C(2, 'empty')]
    return { want, tx }
  }
  /** the honest transaction for a request */
  const fill = w => ({ type: w.gasPrice !== undefined ? C(2, 'type') : 2, chainId: BigInt(chain), nonce: 7n, gas: 90000n, maxFeePerGas: 5n * 10n ** 9n, maxPriorityFeePerGas: 1n, gasPrice: 10n ** 9n, value: 0n, data: '0x', ...(w.maxFeePerGas !== undefined && w.maxPriorityFeePerGas === undefined ? { maxPriorityFeePerGas: 1n } : {}), ...w })
  const asKey = w => KEYS[ACCOUNTS.indexOf(w.from ?? ACCOUNTS[0])]
  /** why a transaction is not what was asked for */
  function differs(w, t) {
    if (t.chainId !== BigInt(chain)) return `chain ${t.chainId}`
    if ((w.to ?? '0x') !== t.to) return `to ${t.to}`
    if ((w.value ?? 0n) !== t.value) return `value ${t.value}`
    if ((w.data ?? '0x') !== t.data) return `data ${t.data.slice(0, 100)}`
    if (w.gas !== undefined && w.gas !== t.gas) return `gas ${t.gas}`
    if (w.nonce !== undefined && w.nonce !== t.nonce) return `nonce ${t.nonce}`
    if (w.gasPrice !== undefined && w.gasPrice !== (t.type > 1 ? t.maxFeePerGas : t.gasPrice)) return `gas price ${t.type > 1 ? t.maxFeePerGas : t.gasPrice}`
    if (w.maxFeePerGas !== undefined && w.maxFeePerGas !== (t.type > 1 ? t.maxFeePerGas : t.gasPrice)) return `maxFeePerGas ${t.type > 1 ? t.maxFeePerGas : t.gasPrice}`
    if (w.maxPriorityFeePerGas !== undefined && t.type > 1 && w.maxPriorityFeePerGas !== t.maxPriorityFeePerGas) return `maxPriorityFeePerGas ${t.maxPriorityFeePerGas}`
    if (w.from !== undefined && w.from !== t.from) return `sender ${t.from}`
    if (t.authorizationList?.length) return 'an authorization'
    if (t.blobVersionedHashes?.length) return 'blobs'
    return ''
  }

  // ---- the signer ----
  const other = '0x' + '66'.repeat(20)
  const ATTACKS = {
    to: t => { t.to = t.to ? other : '0x' + '00'.repeat(20) },
    no_to: t => { delete t.to },
    to_bit: t => { if (t.to) t.to = t.to.slice(0, -1) + (t.to.endsWith('1') ? '2' : '1') },
    value: t => { t.value = [t.value + 1n, t.value * 16n, t.value + (1n << 64n), 10n ** 18n, t.value + (1n << 256n), 1n << 400n][C(6, 'how')] },
    data: t => { t.data = [t.data + '00', '0xdeadbeef', t.data.slice(0, -2).padEnd(2, 'x'), '0x00' + t.data.slice(2), t.data.replace(/^0x0+/, '0x'), '0x'][C(6, 'how')]; if (t.data.length % 2) t.data = '0x0' + t.data.slice(2) },
    gas: t => { t.gas = [t.gas + 1n, t.gas * 256n, t.gas + (1n << 64n)][C(3, 'how')] },
    nonce: t => { t.nonce = [t.nonce + 1n, t.nonce + (1n << 64n)][C(2, 'how')] },
    fee: t => { for (const f of ['gasPrice', 'maxFeePerGas']) t[f] = [t[f] * 2n, t[f] + 1n, t[f] + (1n << 64n), t[f] * 16n][C(4, 'how')] },
    tip: t => { t.maxPriorityFeePerGas = [t.maxPriorityFeePerGas * 2n, t.maxPriorityFeePerGas + (1n << 64n), t.maxFeePerGas][C(3, 'how')] },
    type: t => { if (t.type < 2) { t.type = 2; t.maxPriorityFeePerGas = t.gasPrice; t.maxFeePerGas = t.gasPrice * 1000n } else { t.type = C(2, 't'); t.gasPrice = t.maxPriorityFeePerGas } },
    chain: t => { t.chainId = [t.chainId + 1n, t.chainId * 16n, t.chainId + (1n << 32n)][C(3, 'how')] },
    authorize: t => { if (t.to) { t.type = 4; if (C(2, 'fee')) t.maxFeePerGas = t.gasPrice; t.authorizationList = [[int(chain), bytes(other), int(0), int(0), int(GX), int(5)]] } },
    blobs: t => { if (t.to) { t.type = 3; if (C(2, 'fee')) t.maxFeePerGas = t.gasPrice; t.blobVersionedHashes = [bytes('0x01' + '22'.repeat(31))] } },
  }
  const names = Object.keys(ATTACKS), open = []
  let hostile = false
  const signer = {
    async request(q) {
      const c = open.find(c => c.signing === undefined && sameTx(c, q.params?.[0]))
      log(`signer: ${q.method}`)
      if (q.method !== 'eth_signTransaction') violation('not-verified', `${q.method} was sent to the fallback provider, although transactions have to be verified`)
      if (!c) violation('wrong-request', `the signer was asked for ${J(Object.entries(q.params?.[0] ?? {}).map(String))}, which nobody asked for`)
      c.signing = 1
      await sleep([1, 500, 100, 5000][C(4, 'signing')])
      const t = fill(c.want), key = asKey(c.want), h = hostile ? C(14, 'signer') : 0
      if (h < 2) { c.honest = true; return sign(t, key) }
      count('hostile_signer')
      if (h === 2) { // modifies what it was given
        count('signer_modifies_request')
        const o = q.params[0], evil = fill({ ...c.want, to: other, value: 5n })
        try { o.to = other; o.value = '0x5' } catch (e) { }
        return sign(evil, key)
      }
      if (h === 3) { // something which reads differently every time
        count('signer_returns_object')
        const good = sign(t, key), evil = sign({ ...t, to: other, value: t.value + 3n }, key)
        let n = 0
        const at = 1 + C(3, 'switch'), get = () => n++ < at ? good : evil
        return C(2, 'object') ? { toJSON: get, toString: get } : Object.assign(new String(good), { toJSON: get, toString: get, valueOf: get })
      }
      if (h === 4) { // one of the others
        const o = open[C(open.length, 'which')]
        return sign(fill(o.want), asKey(o.want))
      }
      if (h === 5) { count('signer_refuses'); throw Object.assign(new Error('user rejected'), { code: 4001 }) }
      if (h === 6) return [undefined, null, '', '0x', 5, {}, [], '0x02', '0xzz', sign(t, key).slice(0, 20 + C(60, 'cut')), sign(t, key) + '00', sign(t, key) + ',' + sign({ ...t, to: other }, key)][C(12, 'garbage')]
      if (h === 7 && c.want.from) { count('signer_other_account'); return sign(t, KEYS[1 - KEYS.indexOf(key)]) }
      const n = 1 + C(2, 'attacks')
      for (let i = 0; i < n; i++) { const a = names[C(names.length, 'attack')]; ATTACKS[a](t); count('attack_' + a) }
      return sign(t, key)
    },
  }
  const canon = t => J(Object.entries(t).map(([k, v]) => [k, typeof v === 'bigint' ? 'n' + v : v]).sort())
  const sameTx = (c, t) => t && typeof t === 'object' && canon(t) === c.canon

  // ---- the run ----
  const set = nodeSet('r', 1 + C(3, 'rpcs'))
  const withSigner = C(10, 'no-signer') !== 9
  const cl = new mod.default({ chainId: chain, prover: [], rpcs: urls(set), beacon_apis: [], checkpointz: [], trusted_checkpoint: str(call('checkpoint', 0)[0]), verifyTransactions: true, fallback_provider: withSigner ? signer : undefined, proofStrategy: [undefined, mod.Strategy.VerifiedOnly, mod.Strategy.WarningWithFallback][C(3, 'strategy')], warningHandler: async () => { }, debug: !!C(2, 'debug') })
  const rounds = 1 + C(3, 'rounds')
  for (let i = 0; i < rounds; i++) {
    hostile = C(4, 'hostile') !== 0
    for (const n of set) n.beh = C(3, 'bad') === 2 ? [DOWN, HTTP][C(2, 'how')] : GOOD
    const up = set.some(n => n.beh === GOOD)
    open.length = 0
    R.sentTx.length = 0
    const n = 1 + C(3, 'parallel')
    for (let j = 0; j < n; j++) {
      const c = ask()
      c.canon = canon(c.tx)
      open.push(c)
      log(`send ${j}: ${Object.entries(c.tx).map(([k, v]) => k + '=' + v).join(' ').slice(0, 300)}`)
    }
    for (const c of open) {
      const p = C(3, 'via') ? cl.request({ method: 'eth_sendTransaction', params: [c.tx] }) : cl.rpc('eth_sendTransaction', [c.tx])
      p.then(v => { c.r = ['ok', v] }, e => { c.r = ['error', e] })
    }
    await pump(() => open.every(c => c.r), 'eth_sendTransaction')
    for (const raw of R.sentTx) {
      call('checked')
      let t
      try { t = decode(raw) } catch (e) { continue } // no node accepts it
      const why = open.map(c => differs(c.want, t))
      if (why.every(w => w)) violation('manipulated', `a transaction was sent with ${why.join(' / ')}, asked for was ${open.map(c => Object.entries(c.tx).map(([k, v]) => k + '=' + v).join(' ')).join(' / ')}: ${raw}`)
    }
    for (const [j, c] of open.entries()) {
      const [k, v] = c.r
      log(`send ${j} ended: ${k} ${k === 'ok' ? v : v.message}`)
      call('checked')
      call('state', `${k} ${hostile} ${c.honest} ${k === 'ok' ? '' : String(v.message).slice(0, 60)}`)
      if (k === 'error' && !(v instanceof Error)) violation('foreign-exception', 'eth_sendTransaction was rejected with ' + String(v))
      if (k === 'ok') {
        if (!withSigner) violation('not-verified', 'eth_sendTransaction succeeded without a signer')
        const raw = R.sentTx[parseInt(String(v).slice(2), 10) - 1]
        if (raw === undefined) violation('wrong-answer', `eth_sendTransaction returned ${J(v)}, which no server gave`)
        let w = ''
        try { w = differs(c.want, decode(raw)) } catch (e) { }
        if (w) violation('manipulated', `eth_sendTransaction succeeded with the transaction of another request (${w})`)
        stat('transactions sent')
      }
      if (k === 'error' && (c.honest || (!hostile && withSigner)) && up) violation('refused', `the signed transaction is what was asked for (${Object.entries(c.tx).map(([k, v]) => k + '=' + v).join(' ').slice(0, 400)}), but was refused: ${v.message}`)
    }
  }
}
