"""One simulated run of the python client: virtual time event loop, simulated http servers, simulated faults of the file system."""
import asyncio, builtins, errno, io, json, os, selectors, shutil, sys, types

import _sim as S
import _c4native as NAT
import aiohttp

class _Null:
    def write(self, *a): return 0
    def flush(self): pass

def C(n, l): return S.choose(n, l)

# ---- the native module as the package sees it: the real functions, with the use of contexts and requests recorded ----
class Native:
    def __init__(self):
        self.reset()
    def reset(self):
        self.live = {}     # id -> (ctx, set of pending request pointers)
        self.created = self.freed = 0
        self.stalled = {}
    def register_storage(self, g, s, d):
        # what is stored has to be found again as it was written (as long as the file system works)
        def get(k):
            v = g(k)
            if R is not None and R.exact:
                S.checked()
                want = R.stored.get(k)
                if v != want: R.violation("storage", "the storage returns %s for %s, written were %s" % (v if v is None else "%d bytes" % len(v), k, want if want is None else "%d bytes" % len(want)))
            return v
        def put(k, v):
            if R is not None: R.stored[k] = v
            s(k, v)
        def delete(k):
            if R is not None: R.stored.pop(k, None)
            d(k)
        NAT.register_storage(get, put, delete)
    def clear_storage(self): NAT.clear_storage()
    def get_method_support(self, chain, m): return NAT.get_method_support(chain, m)
    def _new(self, ctx):
        if ctx is not None:
            self.created += 1
            self.live[id(ctx)] = [ctx, set(), 0]
        return ctx
    def create_prover_ctx(self, method, params, chain_id, flags): return self._new(NAT.create_prover_ctx(method, params, chain_id, flags))
    def create_verify_ctx(self, proof, method, args, chain_id, trusted_checkpoint): return self._new(NAT.create_verify_ctx(proof, method, args, chain_id, trusted_checkpoint))
    def _use(self, ctx, what):
        if id(ctx) not in self.live: R.violation("context-used-after-release", what + " of a context which is released")
        return self.live[id(ctx)]
    def _exec(self, ctx, fn):
        e = self._use(ctx, "execution")
        t = fn(ctx)
        try: st = json.loads(t)
        except ValueError: R.violation("invalid-status", "the status is no json: " + t[:300])
        e[1] = set(int(r["req_ptr"]) for r in st.get("requests", []))
        e[2] += 1
        if e[2] > 400: R.violation("never-ends", "a context was executed 400 times")
        return t
    def prover_execute_json_status(self, ctx): return self._exec(ctx, NAT.prover_execute_json_status)
    def verify_execute_json_status(self, ctx): return self._exec(ctx, NAT.verify_execute_json_status)
    def prover_get_proof(self, ctx):
        self._use(ctx, "prover_get_proof")
        return NAT.prover_get_proof(ctx)
    def _free(self, ctx, fn):
        self._use(ctx, "release")
        del self.live[id(ctx)]
        self.freed += 1
        fn(ctx)
    def free_prover_ctx(self, ctx): self._free(ctx, NAT.free_prover_ctx)
    def verify_free_ctx(self, ctx): self._free(ctx, NAT.verify_free_ctx)
    def _req(self, p):
        for e in self.live.values():
            if p in e[1]:
                e[1].discard(p)
                return
        R.violation("unknown-request", "a response was given for a request which is not pending")
    def req_set_response(self, req_ptr, data, node_index):
        self._req(req_ptr)
        NAT.req_set_response(req_ptr, data, node_index)
    def req_set_error(self, req_ptr, error, node_index):
        self._req(req_ptr)
        NAT.req_set_error(req_ptr, error, node_index)

NATIVE = Native()
_mod = types.ModuleType("colibri._native")
for _n in dir(Native):
    if not _n.startswith("_") and _n != "reset": setattr(_mod, _n, getattr(NATIVE, _n))

def load_package():
    for m in [m for m in sys.modules if m == "colibri" or m.startswith("colibri.")]: del sys.modules[m]
    sys.modules["colibri._native"] = _mod
    import colibri
    return colibri

# ---- virtual time ----
class Hang(Exception): pass
class VSel(selectors.SelectSelector):
    def select(self, timeout=None):
        r = super().select(0)
        if r: return r
        if timeout is None:
            r = super().select(2 if getattr(LOOP, "_default_executor", None) else 0)
            if not r: raise Hang()
            return r
        if timeout > 0:
            LOOP.vt += timeout
            R.elapsed(timeout)
        return []
class VLoop(asyncio.SelectorEventLoop):
    vt = 0.0
    def __init__(self):
        super().__init__(VSel())
    def time(self): return self.vt
LOOP = None

# ---- http ----
GOOD, DOWN, HTTP, SILENT, BROKEN, FLAKY, RPCERR, NORESULT, NULLRCPT, EMPTY, GARBAGE, OTHER = range(12)
NAMES = ["good", "connect_error", "http_error", "no_response", "broken_body", "flaky", "rpc_error", "no_result", "null_receipts", "empty_object", "garbage", "other_answer"]
TRANSPORT = (DOWN, HTTP, SILENT, BROKEN, FLAKY)

class Node:
    def __init__(self, kind, idx):
        self.kind, self.idx, self.beh = kind, idx, GOOD
        base = "https://%s%d.sim" % ({"r": "rpc", "b": "beacon", "c": "check", "p": "prover"}[kind], idx)
        form = C(3, "url")
        self.prefix = base + ["", "", "/key%d" % idx][form]
        self.url = self.prefix + ("/" if form == 1 else "")

_u = aiohttp.client.URL("https://server.sim/")
INFO = aiohttp.RequestInfo(_u, "POST", {}, _u)
class Resp:
    def __init__(self, status, body, ctype, url, broken=False, delay=0, deadline=None):
        self.status, self.body, self.url, self.broken, self.delay, self.deadline = status, body, url, broken, delay, deadline
        self.headers = {"Content-Type": ctype, "Content-Length": str(len(body))}
        self.content_type = ctype
        self.reason = "OK" if status == 200 else "Error"
        self.ok = status < 400
        self.closed = False
        self.content = self
        self.method = "POST"
        self.request_info = None
        self.history = ()
    async def __aenter__(self): return self
    async def __aexit__(self, *a): self.closed = True
    def release(self): self.closed = True
    def close(self): self.closed = True
    async def read(self, n=-1):
        if self.closed: raise aiohttp.ClientConnectionError("Connection closed")
        d, self.delay = self.delay, 0
        if self.deadline is not None and LOOP.time() + d > self.deadline:
            await asyncio.sleep(max(0, self.deadline - LOOP.time()))
            raise asyncio.TimeoutError()
        await asyncio.sleep(d)
        if self.broken: raise aiohttp.ClientPayloadError("Response payload is not completed")
        return self.body
    async def text(self, encoding=None, errors="strict"): return (await self.read()).decode(encoding or "utf-8", errors)
    async def json(self, *, encoding=None, loads=json.loads, content_type="application/json"):
        if content_type and content_type not in self.content_type:
            raise aiohttp.ContentTypeError(INFO, (), status=self.status, message="unexpected mimetype: " + self.content_type, headers=self.headers)
        t = (await self.text()).strip()
        return loads(t) if t else None
    def raise_for_status(self):
        if not self.ok:
            self.closed = True
            raise aiohttp.ClientResponseError(INFO, (), status=self.status, message=self.reason, headers=self.headers)

DELAYS = (0.01, 0.2, 0.05, 3, 0.5, 12, 1, 0.1)

async def fake_request(self, method, str_or_url, **kw):
    url = str(str_or_url)
    if self.closed: raise RuntimeError("Session is closed")
    if R.dead: await asyncio.sleep(1e9)
    R.nhttp += 1
    if R.nhttp > 6000: R.violation("never-ends", "more than 6000 http requests in one run")
    node = next((n for n in R.nodes if url == n.url or url == n.prefix or url.startswith(n.prefix + "/")), None)
    if node is None: R.violation("unknown-server", "a request was sent to %s, which is not configured" % url)
    t = kw.get("timeout")
    if isinstance(t, aiohttp.ClientTimeout): total = t.total
    elif isinstance(t, (int, float)): total = t
    else: total = self._timeout.total if getattr(self, "_timeout", None) else None
    deadline = LOOP.time() + total if total else None
    path = url[len(node.prefix):].lstrip("/")
    headers = {}
    for h in (getattr(self, "_default_headers", None) or {}, kw.get("headers") or {}):
        for k in h: headers[k.lower()] = h[k]
    ssz = "octet-stream" in headers.get("accept", "")
    if kw.get("json") is not None: payload = json.dumps(kw["json"]).encode()
    else:
        payload = kw.get("data") or b""
        if isinstance(payload, str): payload = payload.encode()
    m = method.upper()
    beh = node.beh
    if beh == FLAKY: beh = (GOOD, DOWN, HTTP, BROKEN, SILENT)[C(5, "flaky")]
    if beh in (RPCERR, NORESULT, EMPTY) and node.kind != "r": beh = GOOD
    if beh == NULLRCPT and b"eth_getBlockReceipts" not in payload: beh = GOOD
    if beh != GOOD: S.count(NAMES[beh])
    S.log("http %s%d %s %s %s: %s" % (node.kind, node.idx, m, path[:70], payload[:60].decode(errors="replace"), NAMES[beh]))
    d = DELAYS[C(len(DELAYS), "delay")]
    if beh == SILENT:
        if deadline is None: d = 1e9
        else: d = deadline - LOOP.time() + 1
    if deadline is not None and LOOP.time() + d > deadline:
        await asyncio.sleep(max(0, deadline - LOOP.time()))
        raise asyncio.TimeoutError()
    await asyncio.sleep(d)
    if beh == DOWN: raise aiohttp.ClientConnectionError("Cannot connect to host")
    bd = DELAYS[C(len(DELAYS), "body-delay")] if C(4, "slow-body") else 0
    if beh == HTTP: return Resp((500, 404, 429, 502, 503, 400)[C(6, "status")], b"<html>error \xff</html>" if C(3, "binary") == 2 else b"some error", "text/html", url, delay=bd, deadline=deadline)
    status, body = 200, b""
    if beh == GOOD or beh == BROKEN:
        if node.kind == "r" or (node.kind == "p" and m == "POST" and path == ""):
            try: q = json.loads(payload)
            except ValueError: q = None
            if not isinstance(q, dict) or m != "POST" or path: status, body = 400, b"bad request"
            elif node.kind == "p":
                r = S.prove(q.get("method", ""), json.dumps(q.get("params")))
                if isinstance(r, bytes) and ssz: body = r
                elif isinstance(r, bytes): status, body = 200, json.dumps({"id": 1, "result": "unverified"}).encode()
                else: status, body = 500, json.dumps({"error": r}).encode()
            elif q.get("method") in UNPROVABLE: body = R.plain(node, q)
            else: status, body = S.node("r", "", payload, False)
        elif m != "GET": status, body = 405, b"method not allowed"
        else: status, body = S.node("b" if node.kind == "p" else node.kind, path, b"", ssz)
    elif beh == RPCERR:
        msg = "refused by %d" % node.idx
        R.rpc_errors.append((msg, -32602))
        body = json.dumps({"jsonrpc": "2.0", "id": 1, "error": {"code": -32602, "message": msg}}).encode()
    elif beh == NORESULT or beh == EMPTY:
        R.noresult = True
        body = b"{}" if beh == EMPTY else b'{"jsonrpc":"2.0","id":1}'
    elif beh == NULLRCPT: body = b'{"jsonrpc":"2.0","id":1,"result":null}'
    elif beh == OTHER: # the (correct) answer to another request
        if node.kind == "p" and path == "":
            i, mm, aa, _ = S.request(31)
            r = S.prove(mm, aa)
            body = r if isinstance(r, bytes) else b""
        else: body = b'{"jsonrpc":"2.0","id":1,"result":"0x%d"}' % C(100, "other")
    else:
        n = C(200, "garbage")
        body = bytes((n * 7 + i * 31) & 255 for i in range(n)) if C(2, "binary") else (b'{"result"', b"[]", b"null", b"0", b'"x"', b"{", b"\xff\xfe")[C(7, "text")]
    return Resp(status, body, "application/octet-stream" if ssz and status == 200 else ("application/json" if status == 200 and beh != GARBAGE else "text/plain"), url, beh == BROKEN, bd, deadline)
aiohttp.ClientSession._request = fake_request

# ---- file system ----
_open, _replace, _rename, _unlink, _remove, _fsync = io.open, os.replace, os.rename, os.unlink, os.remove, os.fsync
def inside(p):
    try: p = os.fspath(p)
    except TypeError: return False
    return isinstance(p, str) and R is not None and R.dir is not None and os.path.abspath(p).startswith(R.dir + os.sep)
def point(what, p):
    """a point at which the process may crash"""
    if R.dead: raise OSError(errno.EIO, "crashed")
    if R.fsfaults and S.fault("crash", 60):
        R.crash(what + " " + os.path.basename(os.fspath(p)))
        raise OSError(errno.EIO, "crashed")
def before(p):
    p = os.path.abspath(os.fspath(p))
    if p not in R.journal:
        try:
            with _open(p, "rb") as f: R.journal[p] = f.read()
        except FileNotFoundError: R.journal[p] = None
class File:
    def __init__(self, f, p): self.f, self.p = f, p
    def __enter__(self): return self
    def __exit__(self, *a):
        if not self.f.closed: self.close()
    def __getattr__(self, n): return getattr(self.f, n)
    def write(self, data):
        n = len(data)
        if R.fsfaults and S.fault("disk_full", 100):
            self.f.write(bytes(data)[:C(n + 1, "short")])
            self.f.flush()
            raise OSError(errno.ENOSPC, "No space left on device")
        if R.fsfaults and S.fault("crash_in_write", 60):
            self.f.write(bytes(data)[:C(n + 1, "torn")])
            self.f.flush()
            R.crash("write " + os.path.basename(self.p))
            raise OSError(errno.EIO, "crashed")
        self.f.write(data)
        return n
    def close(self):
        self.f.close()
        point("close", self.p)
def my_open(file, mode="r", *a, **kw):
    if not inside(file): return _open(file, mode, *a, **kw)
    if any(c in mode for c in "wax+"):
        point("open", file)
        if R.fsfaults and S.fault("open_error", 40): raise OSError(errno.EACCES, "Permission denied")
        before(file)
        return File(_open(file, mode, *a, **kw), os.fspath(file))
    if R.dead: raise OSError(errno.EIO, "crashed")
    if R.fsfaults and S.fault("read_error", 30): raise OSError(errno.EIO, "Input/output error")
    return _open(file, mode, *a, **kw)
def two(fn, name):
    def f(a, b, **kw):
        if inside(b):
            point(name, b)
            if R.fsfaults and S.fault("rename_error", 40): raise OSError(errno.EIO, "Input/output error")
            before(b); before(a)
            fn(a, b, **kw)
            point(name + " done", b)
        else: fn(a, b, **kw)
    return f
def one(fn, name):
    def f(a, **kw):
        if inside(a):
            point(name, a)
            before(a)
            fn(a, **kw)
            point(name + " done", a)
        else: fn(a, **kw)
    return f
def my_fsync(fd):
    if R is not None and R.dir:
        try: p = os.readlink("/proc/self/fd/%d" % (fd if isinstance(fd, int) else fd.fileno()))
        except OSError: p = ""
        R.journal.pop(p, None)
io.open = builtins.open = my_open
os.replace, os.rename, os.unlink, os.remove, os.fsync = two(_replace, "replace"), two(_rename, "rename"), one(_unlink, "unlink"), one(_remove, "remove"), my_fsync

UNPROVABLE = ("eth_gasPrice", "eth_sendRawTransaction", "eth_syncing", "eth_feeHistory", "eth_estimateGas", "net_listening")
UNSUPPORTED = ("eth_mining", "eth_sign", "debug_traceCall", "foo_bar", "")

# ---- one run ----
R = None
class Run:
    def __init__(self):
        self.nodes, self.dead, self.fsfaults, self.journal, self.nhttp = [], False, False, {}, 0
        self.rpc_errors, self.given, self.dir, self.carry = [], {}, None, 0.0
        self.crashed = 0
        self.stored, self.exact = {}, False
    def elapsed(self, dt):
        self.carry += dt * 1000
        n = int(self.carry)
        if n > 0:
            self.carry -= n
            S.advance(n)
    def clean(self):
        d, self.dir = self.dir, None
        if d: shutil.rmtree(d, ignore_errors=True)
    def violation(self, kind, text):
        self.clean()
        S.violation(kind, text)
    def plain(self, node, q):
        n = len(self.given) + 1
        res = [None, "0x%x" % n, {"n": n}, False][C(4, "result")] if q["method"] != "eth_sendRawTransaction" else "0x%x" % n
        self.given.setdefault(q["method"] + json.dumps(q.get("params")), []).append(res)
        return json.dumps({"jsonrpc": "2.0", "id": q.get("id"), "result": res}).encode()
    def crash(self, where):
        """the process is gone: nothing it does from now on has an effect"""
        S.log("crash at " + where)
        self.dead = True
        self.crashed += 1
        for p in sorted(self.journal):
            old = self.journal[p]
            try:
                with _open(p, "rb") as f: new = f.read()
            except FileNotFoundError: new = None
            k = C(5, "unsynced")
            if k == 0 or (new is None and old is None): continue
            S.count("unsynced_write_lost" if k < 3 else "torn_write")
            if k < 3 or new is None: v = old
            else: v = new[:C(len(new) + 1, "torn")] if k == 3 else b""
            if v is None:
                try: _unlink(p)
                except FileNotFoundError: pass
            else:
                with _open(p, "wb") as f: f.write(v)
        self.journal = {}

def node_set(kind, n):
    ns = [Node(kind, i) for i in range(n)]
    R.nodes += ns
    return ns

def behaviours(ns, kind, hostile):
    for n in ns:
        n.beh = GOOD
        if C(2, "bad"):
            k = C(10 if hostile else 8, "behaviour")
            if kind == "r": n.beh = (DOWN, HTTP, SILENT, BROKEN, FLAKY, RPCERR, NORESULT, NULLRCPT, GARBAGE, OTHER)[k]
            else: n.beh = (DOWN, HTTP, SILENT, BROKEN, FLAKY, DOWN, HTTP, FLAKY, GARBAGE, OTHER)[k]
    if not any(n.beh == GOOD for n in ns) and ns and C(6, "one-good"): ns[C(len(ns), "good")].beh = GOOD

def good(ns): return any(n.beh == GOOD for n in ns)

async def call(cl, req, col):
    """one rpc call of the user; returns (outcome, value)"""
    try: return ("ok", await cl.rpc(req["method"], req["params"]))
    except asyncio.CancelledError: return ("cancelled", None)
    except col.ColibriError as e: return ("error", e)
    except Hang: raise
    except Exception as e: return ("exception", e)

def make_request():
    k = C(10, "what")
    if k < 7:
        i, m, a, must = S.request(31)
        return {"kind": "proof", "i": i, "method": m, "params": json.loads(a), "must": must}
    if k < 9:
        m = UNPROVABLE[C(len(UNPROVABLE), "method")]
        if NAT.get_method_support(R.chain, m) == 2:
            R.uniq = getattr(R, "uniq", 0) + 1
            return {"kind": "plain", "method": m, "params": ["0x%x" % R.uniq]}
    if C(2, "local"): return {"kind": "local", "method": "eth_chainId", "params": []}
    m = UNSUPPORTED[C(len(UNSUPPORTED), "method")]
    return {"kind": "unsupported", "method": m, "params": []} if NAT.get_method_support(R.chain, m) in (0, 3) else {"kind": "local", "method": "eth_chainId", "params": []}

async def batch(col, clients, healed):
    n = 1 + C(4, "parallel")
    reqs = [make_request() for _ in range(n)]
    R.rpc_errors, R.given, R.noresult = [], {}, False
    tasks, cancels = [], {}
    http0 = R.nhttp
    for j, q in enumerate(reqs):
        q["cl"] = clients[C(len(clients), "client")]
        S.log("rpc %d: %s %s" % (j, q["method"], json.dumps(q["params"])[:200]))
        t = LOOP.create_task(call(q["cl"], q, col))
        tasks.append(t)
        if not healed and S.fault("cancel", 100): LOOP.call_later((0, 0.005, 0.02, 0.3, 1, 5, 20, 31)[C(8, "cancel-at")], t.cancel)
    t0 = LOOP.time()
    for t in tasks:
        while not t.done() and not R.dead:
            await asyncio.wait([t], timeout=5)
            if LOOP.time() - t0 > 200000: R.violation("never-ends", "a call has not ended after %d s" % (LOOP.time() - t0))
    if R.dead:
        for t in tasks: t.cancel()
        for t in tasks:
            try: await t
            except BaseException: pass
        return None
    if NATIVE.live: R.violation("context-not-released", "%d contexts are still in use after all calls have ended" % len(NATIVE.live))
    out = []
    for j, (q, t) in enumerate(zip(reqs, tasks)):
        kind, v = ("cancelled", None) if t.cancelled() else t.result()
        S.log("rpc %d ended: %s %s" % (j, kind, json.dumps(v)[:120] if kind == "ok" else str(v)[:200]))
        S.state("%s %s %s" % (q["kind"], kind, str(v)[:24] if kind == "error" else ""))
        S.checked()
        what = "%s %s" % (q["method"], json.dumps(q["params"])[:300])
        if kind == "exception": R.violation("foreign-exception", "%s raised %s: %s" % (what, type(v).__name__, v))
        if q["kind"] == "proof" and kind == "ok":
            e = S.check(q["i"], json.dumps(v)) if not R.hostile else S.sound(q["i"], json.dumps(v))
            if e: R.violation("wrong-answer", "%s: %s: %s" % (what, e, json.dumps(v)[:300]))
        if q["kind"] == "plain":
            given = R.given.get(q["method"] + json.dumps(q["params"]), [])
            if kind == "ok" and not R.hostile and v not in given and not (v is None and R.noresult): R.violation("wrong-answer", "%s returned %s, the servers gave %s" % (what, v, given))
            if kind == "error":
                if good(q["cl"].sim["r"]) and not R.hostile: R.violation("failover", "%s failed although a server works: %s" % (what, v))
                if R.rpc_errors and not R.hostile and all(x.beh == RPCERR for x in q["cl"].sim["r"]):
                    if not any(m in str(v) and getattr(v, "code", None) == c for m, c in R.rpc_errors): R.violation("error-lost", "%s: the servers answered %s, the client reports %s (code %s)" % (what, R.rpc_errors[:3], v, getattr(v, "code", None)))
        if q["kind"] == "local" and kind == "error": R.violation("local", "%s failed: %s" % (what, v))
        if q["kind"] == "local" and kind == "ok" and int(v, 16) != R.chain: R.violation("wrong-answer", "%s returned %s" % (what, v))
        if q["kind"] == "unsupported" and kind == "ok": R.violation("wrong-answer", "%s is not supported, but returned %s" % (what, v))
        out.append((q, kind, v))
    return out

def must_work(q):
    """a server of each kind works, so the call has to be answered"""
    s = q["cl"].sim
    if q["kind"] != "proof" or not q["must"] or R.hostile: return False
    if not good(s["c"]) and q["cl"].trusted_checkpoint is None and not q["cl"].synced: return False
    if s["p"] and good(s["p"]): return True
    return good(s["r"]) and good(s["b"])

async def main():
    R.chain = S.world()
    R.dir = os.path.join(os.environ.get("SIM_TMP", "/tmp"), "pyc%d" % os.getpid())
    os.makedirs(R.dir, exist_ok=True)
    col = R.col = COL
    durable = C(3, "storage")
    mem = col.MemoryStorage() if durable == 0 else None
    R.exact = durable < 2
    R.hostile = False
    with_cp, behind = C(4, "checkpoint"), C(3, "behind")
    cp = S.checkpoint(behind) if with_cp else None
    sets = [{"r": node_set("r", 1 + C(4, "rpcs")), "b": node_set("b", 1 + C(3, "beacons")), "c": node_set("c", 1 + C(2, "checkpointz")), "p": node_set("p", C(4, "provers"))}]
    def start():
        cls = []
        for i in range(ncl):
            s = sets[0]
            if i and C(2, "no-prover"): s = dict(s, p=[])
            st = mem if mem is not None else col.DefaultStorage(R.dir + "/st")
            c = col.Colibri(chain_id=R.chain, provers=[n.url for n in s["p"]], eth_rpcs=[n.url for n in s["r"]], beacon_apis=[n.url for n in s["b"]], checkpointz=[n.url for n in s["c"]], trusted_checkpoint=cp, include_code=bool(C(2, "code")), storage=st)
            c.sim, c.synced = s, False
            cls.append(c)
        return cls
    ncl = 1 + C(2, "clients")
    clients = start()
    rounds = 1 + C(4, "rounds")
    R.fsfaults_run = durable == 2
    for i in range(rounds):
        R.fsfaults = R.fsfaults_run
        R.hostile = C(4, "hostile") == 3
        for k in "rbcp": behaviours(sets[0][k], k, R.hostile)
        S.log("round %d: %s" % (i, " ".join("%s%d=%s" % (n.kind, n.idx, NAMES[n.beh]) for n in R.nodes)))
        res = await batch(col, clients, False)
        if res is None or C(8, "restart") == 7:
            S.log("restart")
            S.count("restart")
            R.dead = True
            R.dead = False
            NATIVE.reset()
            S.restart()
            col = R.col = load_package()
            if mem is not None:
                mem = col.MemoryStorage()
                R.stored = {}
            fs, R.fsfaults = R.fsfaults, False
            clients = start()
            R.fsfaults = fs
            continue
        for q, kind, v in res:
            if must_work(q) and not R.fsfaults:
                if kind == "error": R.violation("failover", "%s %s failed although a server of each kind works: %s" % (q["method"], json.dumps(q["params"])[:200], v))
                S.stat("answered with failing servers")
    # all faults end: requests are answered
    R.fsfaults = R.hostile = False
    for n in R.nodes: n.beh = GOOD
    S.log("healed")
    bad = 0
    for i in range(3):
        res = await batch(col, clients, True)
        fails = [(q, v) for q, kind, v in res if kind == "error" and q["kind"] == "proof" and q["must"]]
        if fails:
            bad += 1
            if bad > (2 + 8 if R.fsfaults_run else 0): pass
            if not R.fsfaults_run: R.violation("no-recovery", "%s %s fails with working servers: %s" % (fails[0][0]["method"], json.dumps(fails[0][0]["params"])[:200], fails[0][1]))
        else: S.stat("healed batches")
    if R.fsfaults_run:
        for i in range(14):
            q = make_request()
            while q["kind"] != "proof": q = make_request()
            q["cl"] = clients[0]
            kind, v = await call(clients[0], q, col)
            if kind == "ok" or not q["must"]: break
        else: R.violation("no-recovery", "after the storage works again, requests keep failing: %s" % v)

def run(prop):
    global R, LOOP
    sys.stdout = _Null()
    R = Run()
    LOOP = VLoop()
    asyncio.set_event_loop(LOOP)
    try: LOOP.run_until_complete(main())
    except Hang: R.violation("never-ends", "a call waits for something that never happens")
    R.clean()

COL = load_package()
