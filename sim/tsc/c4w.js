// stands in for the module generated by emscripten: the functions run in the other process
export default async function () {
  const S = globalThis.__sim
  const call = S.call
  const Module = {}
  for (const n of ['_c4w_create_proof_ctx', '_c4w_free_proof_ctx', '_c4w_execute_proof_ctx', '_c4w_req_set_response', '_c4w_req_set_error', '_c4w_get_method_type', '_c4w_create_verify_ctx',
    '_c4w_free_verify_ctx', '_c4w_verify_proof', '_c4w_req_free', '_c4w_buffer_alloc', '_init_storage'])
    Module[n] = (...a) => S.traced(n, a, () => { const r = call(n, ...a); return r.length ? r[0] : undefined })
  Module._malloc = n => call('malloc', n)[0]
  Module._free = p => { call('free', p) }
  const heap = {
    set(data, ptr) { call('poke', ptr, Uint8Array.from(data)) },
    subarray(a, b) { return Uint8Array.from(call('peek', a, b - a)[0]) },
    slice(a, b) { return Uint8Array.from(call('peek', a, b - a)[0]) },
    get length() { return Number.MAX_SAFE_INTEGER },
  }
  Module.HEAPU8 = new Proxy(heap, {
    get(t, k) { return typeof k === 'string' && /^\d+$/.test(k) ? call('peek', Number(k), 1)[0][0] : t[k] },
    set(t, k, v) { if (typeof k === 'string' && /^\d+$/.test(k)) call('poke', Number(k), Uint8Array.of(v)); else t[k] = v; return true },
  })
  Module.UTF8ToString = p => new TextDecoder().decode(call('cstr', p)[0])
  // as in emscripten: at most len bytes with the terminating zero, characters are not cut
  Module.stringToUTF8 = (str, ptr, len) => {
    if (!(len > 0)) return 0
    const out = []
    for (const ch of str) {
      const b = new TextEncoder().encode(ch)
      if (out.length + b.length > len - 1) break
      out.push(...b)
    }
    out.push(0)
    call('poke', ptr, Uint8Array.from(out))
    return out.length - 1
  }
  let storage = null
  Object.defineProperty(Module, 'storage', { get: () => storage, set(v) { if (!storage) S.defaultStorage = v; storage = v }, enumerable: true })
  Module.lengthBytesUTF8 = str => new TextEncoder().encode(str).length
  S.em = (code, args) => {
    const f = new Function('Module', 'HEAPU8', 'UTF8ToString', '_c4w_buffer_alloc', '$0', '$1', '$2', '$3', code)
    return f(Module, Module.HEAPU8, Module.UTF8ToString, Module._c4w_buffer_alloc, ...args)
  }
  return Module
}
