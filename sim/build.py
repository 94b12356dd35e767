#!/usr/bin/env python3
"""Builds the simulators from /repo's current working tree. Objects are cached by content (source, all headers, flags)."""
import os, sys, glob, hashlib, subprocess, json, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(HERE), "build"))
CC = "gcc"
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
BASE = ["-g1", "-O1", "-w", "-std=gnu17"]

def rd(p):
    with open(p, "rb") as f: return f.read()

def header_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for r, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".table", ".inc", ".hpp")):
                    p = os.path.join(r, f)
                    h.update(p.encode()); h.update(rd(p))
    return h.hexdigest()

GEN = {
 "verifiers.h": '''#ifndef VERIFIERS_H
#define VERIFIERS_H
const ssz_def_t* c4_eth_get_request_type(chain_type_t chain_type);
bool c4_eth_verify(verify_ctx_t* ctx);
method_type_t c4_eth_get_method_type(chain_id_t chain_id, char* method);
#ifdef CHAIN_OP
const ssz_def_t* c4_op_get_request_type(chain_type_t chain_type);
bool c4_op_verify(verify_ctx_t* ctx);
method_type_t c4_op_get_method_type(chain_id_t chain_id, char* method);
#endif
static const ssz_def_t* request_container(chain_type_t chain_type) {
  const ssz_def_t* container = NULL;
  if (!container) container = c4_eth_get_request_type(chain_type);
#ifdef CHAIN_OP
  if (!container) container = c4_op_get_request_type(chain_type);
#endif
  return container;
}
static bool handle_verification(verify_ctx_t* ctx) {
  if (c4_eth_verify(ctx)) return true;
#ifdef CHAIN_OP
  if (c4_op_verify(ctx)) return true;
#endif
  return false;
}
method_type_t c4_get_method_type(chain_id_t chain_id, char* method) {
  method_type_t type = METHOD_UNDEFINED;
  if (!type) type = c4_eth_get_method_type(chain_id, method);
#ifdef CHAIN_OP
  if (!type) type = c4_op_get_method_type(chain_id, method);
#endif
  return type;
}
#endif
''',
 "provers.h": '''#ifndef PROVERS_H
#define PROVERS_H
bool eth_prover_execute(prover_ctx_t* ctx);
#ifdef CHAIN_OP
bool op_prover_execute(prover_ctx_t* ctx);
#endif
static void prover_execute(prover_ctx_t* ctx) {
  if (eth_prover_execute(ctx)) return;
#ifdef CHAIN_OP
  if (op_prover_execute(ctx)) return;
#endif
  ctx->state.error = strdup("Unsupported chain");
}
#endif
''',
 "chain_props.h": '''#ifndef CHAIN_PROPS_H
#define CHAIN_PROPS_H
#include "util/chains.h"
bool c4_eth_chain_props(chain_id_t chain_id, chain_properties_t* props);
static inline bool c4_chains_get_props(chain_id_t chain_id, chain_properties_t* out_props) {
  if (!out_props) return false;
#ifdef HTTP_SERVER
  if (c4_eth_chain_props(chain_id, out_props)) return true;
#endif
  return false;
}
#endif
''',
 "server_handlers.h": '''#ifndef SERVER_HANDLERS_H
#define SERVER_HANDLERS_H
#include "server.h"
void eth_server_init(http_server_t* server);
void eth_server_shutdown(http_server_t* server);
bool eth_get_detection_request(http_server_t* server, data_request_type_t type, const char** path, const char** rpc_payload);
beacon_client_type_t eth_parse_version_response(http_server_t* server, const char* response, data_request_type_t type);
const client_type_mapping_t* eth_get_client_mappings(http_server_t* server);
void eth_server_metrics(http_server_t* server, buffer_t* data);
void eth_configure();
static void c4_server_handlers_init(http_server_t* server) { eth_server_init(server); }
static void c4_server_handlers_shutdown(http_server_t* server) { eth_server_shutdown(server); }
static bool c4_server_handlers_get_detection_request(http_server_t* server, data_request_type_t type, const char** path, const char** rpc_payload) {
  if (eth_get_detection_request(server, type, path, rpc_payload)) return true;
  return false;
}
static beacon_client_type_t c4_server_handlers_parse_version_response(http_server_t* server, const char* response, data_request_type_t type) {
  beacon_client_type_t client_type = BEACON_CLIENT_UNKNOWN;
  client_type = eth_parse_version_response(server, response, type);
  if (client_type != BEACON_CLIENT_UNKNOWN) return client_type;
  return BEACON_CLIENT_UNKNOWN;
}
static const client_type_mapping_t* c4_server_handlers_get_client_mappings(http_server_t* server) {
  const client_type_mapping_t* mappings = NULL;
  mappings = eth_get_client_mappings(server);
  if (mappings) return mappings;
  return NULL;
}
static void c4_server_handlers_metrics(http_server_t* server, buffer_t* data) { eth_server_metrics(server, data); }
static void c4_server_handlers_config() { eth_configure(); }
#endif
''',
}

DEFS = ["BLOCK_HASH_CACHE", "BLS_DESERIALIZE", 'C4_VERSION="0.1.0-sim"', "CHAIN_ETH", "ETH_ACCOUNT", "ETH_BLOCK", "ETH_CALL", "ETH_LOGS",
        "ETH_RECEIPT", "ETH_TX", "ETH_UTIL", "ETH_ZKPROOF", "FILE_STORAGE", "MESSAGES", "PRECOMPILE_ZERO_HASHES", "PROVER", "PROVER_CACHE", "USE_CHECKPOINTZ",
        "TEST", "WITNESS_SIGNER", "USE_ECDSA_SIGN", "USE_RFC6979=1"]

def core_sources():
    s = []
    for d in ("src/util", "src/verifier", "src/prover", "src/chains/eth/verifier", "src/chains/eth/prover", "src/chains/eth/ssz"):
        s += sorted(glob.glob(f"{REPO}/{d}/*.c"))
    s = [x for x in s if not x.endswith(("call_evmone.c", "call_evmlight.c"))]
    s += [f"{REPO}/libs/crypto/{x}.c" for x in ("ecdsa", "bignum", "rand", "secp256k1", "memzero", "sha3", "sha2", "ripemd160", "curves", "rfc6979", "hmac_drbg")]
    s += [f"{REPO}/bindings/colibri.c"]
    return s

def incs():
    return [f"-I{OUT}/gen", f"-I{HERE}/stubs", f"-I{HERE}/core", f"-I{HERE}/world"] + [f"-I{REPO}/{d}" for d in (
        "src", "src/util", "src/verifier", "src/prover", "src/chains/eth", "src/chains/eth/verifier", "src/chains/eth/prover", "src/chains/eth/ssz",
        "src/chains/eth/zk_verifier", "src/chains/eth/bn254", "libs/crypto", "libs/intx", "bindings", "src/server", "src/chains/eth/server")]

TARGETS = {
  # name: (extra sim sources, extra repo sources, extra defines, link flags, variant)
}

def target(name):
    d = os.path.join(HERE, name)
    spec = {"sources": sorted(glob.glob(d + "/*.c")), "repo": [], "defs": [], "undef": [], "ld": [], "cflags": [], "core": True, "world": False}
    f = os.path.join(d, "target.json")
    if os.path.exists(f): spec.update(json.load(open(f)))
    return spec

def restartable(o):
    """moves the static variables of the object into the sections c4data/c4bss, so that a simulated process restart can reset them"""
    r = o[:-2] + ".r.o"
    if not os.path.exists(r):
        tmp = r + ".%d.tmp" % os.getpid()
        cmd = ["objcopy"]
        for s in (".data", ".data.rel.local", ".data.rel"): cmd += ["--rename-section", f"{s}=c4data,alloc,load,data,contents"]
        cmd += ["--set-section-flags", ".bss=alloc,load,data,contents", "--rename-section", ".bss=c4bss,alloc,load,data,contents", o, tmp]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0: raise RuntimeError("objcopy failed: " + p.stderr[-2000:])
        os.rename(tmp, r)
    return r

def compile_all(jobs):
    """jobs: list of (src, cmd, hh) -> list of objects"""
    objdir = os.path.join(OUT, "obj")
    os.makedirs(objdir, exist_ok=True)
    def one(j):
        src, cmd, hh = j
        key = hashlib.sha256((" ".join(cmd) + src + hh).encode() + rd(src)).hexdigest()[:40]
        o = os.path.join(objdir, key + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            p = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True)
            if p.returncode != 0:
                raise RuntimeError("compile failed: " + " ".join(cmd + [src]) + "\n" + p.stderr[-4000:])
            os.rename(tmp, o)
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, jobs))

def build(name, verbose=False):
    os.makedirs(os.path.join(OUT, "gen"), exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(name)

def _build(name):
    spec = target(name)
    gen = dict(GEN)
    gh = hashlib.sha256()
    gdir = os.path.join(OUT, "gen")
    for k, v in gen.items():
        p = os.path.join(gdir, k)
        if not os.path.exists(p) or rd(p).decode() != v:
            with open(p, "w") as f: f.write(v)
        gh.update(v.encode())
    hh = header_hash([f"{REPO}/src", f"{REPO}/libs/crypto", f"{REPO}/libs/intx", f"{REPO}/bindings", HERE]) + gh.hexdigest()
    defs = [d for d in DEFS if d not in spec["undef"]] + spec["defs"]
    dflags = ["-D" + d for d in defs] + [f'-DVERIFIERS_PATH="{gdir}/verifiers.h"', f'-DPROVERS_PATH="{gdir}/provers.h"', f'-DCHAIN_PROPS_PATH="{gdir}/chain_props.h"', f'-DSERVER_HANDLERS_PATH="{gdir}/server_handlers.h"', f'-DHTTP_SERVER_PATH="{gdir}/server_handlers.h"']
    cmd = [CC] + BASE + SAN + dflags + incs() + [c.replace("@SIM@", HERE).replace("@REPO@", REPO) for c in spec["cflags"]]
    srcs = list(spec["sources"])
    srcs += [os.path.join(HERE, s) for s in spec.get("sim", [])]
    srcs += [f"{HERE}/core/sim.c"]
    if spec["world"]: srcs += sorted(glob.glob(f"{HERE}/world/*.c"))
    if spec["core"]: srcs += core_sources() + [f"{HERE}/stubs/blst_sim.c", f"{HERE}/stubs/misc_sim.c"]
    for r in spec["repo"]:
        g = sorted(glob.glob(f"{REPO}/{r}"))
        if not g: raise RuntimeError("missing sources " + r)
        srcs += g
    excl = spec.get("exclude", [])
    srcs = [s for s in srcs if not any(s.endswith(e) for e in excl)]
    seen, u = set(), []
    for s in srcs:
        if s not in seen: seen.add(s); u.append(s)
    fast = [CC, "-g1", "-O2", "-w", "-std=gnu17"] + dflags + incs() # the world model is not under test: no sanitizer
    cxx = ["g++"] + [f for f in cmd[1:] if f != "-std=gnu17"] + ["-std=gnu++17"]
    objs = compile_all([(s, fast if s.startswith(f"{HERE}/world/") else cxx if s.endswith(".cpp") else cmd, hh) for s in u])
    if spec.get("restart"):
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda p: restartable(p[1]) if p[0].startswith(REPO + "/") and p[0].endswith(".c") else p[1], zip(u, objs)))
    ld = SAN + spec["ld"] + ["-lm"]
    key = hashlib.sha256(("|".join(objs) + " ".join(ld)).encode()).hexdigest()[:32]
    exe = os.path.join(OUT, f"{name}-{key}")
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(OUT, f"{name}-*")): os.unlink(old)
        tmp = exe + ".tmp"
        p = subprocess.run([CC] + objs + ld + ["-o", tmp], capture_output=True, text=True)
        if p.returncode != 0: raise RuntimeError("link failed:\n" + p.stderr[-6000:])
        os.rename(tmp, exe)
    if spec.get("bundle"): bundle(spec["bundle"])
    prune()
    return exe

def bundle(b):
    """bundles a typescript client of the repository and puts the files of its driver beside it"""
    d = os.path.join(OUT, b["name"])
    os.makedirs(d, exist_ok=True)
    p = subprocess.run(["/opt/veriftools/node/node_modules/.bin/esbuild", f"{REPO}/{b['entry']}", "--bundle", "--format=esm", "--platform=node", "--external:*/c4w.js", "--log-level=error"], capture_output=True)
    if p.returncode != 0: raise RuntimeError("bundle failed:\n" + p.stderr.decode()[-4000:])
    files = {"index.mjs": p.stdout, "c4w.wasm": b"-", "package.json": b'{"type":"module"}'}
    for f in b["files"]: files[os.path.basename(f)] = rd(os.path.join(HERE, f))
    for f, data in files.items():
        t = os.path.join(d, f)
        if os.path.exists(t) and rd(t) == data: continue
        with open(t + ".tmp", "wb") as o: o.write(data)
        os.rename(t + ".tmp", t)

def prune():
    objs = sorted(glob.glob(os.path.join(OUT, "obj", "*.o")), key=os.path.getmtime)
    for o in objs[:-1500]:
        try: os.unlink(o)
        except OSError: pass

if __name__ == "__main__":
    for n in sys.argv[1:]:
        print(build(n))
