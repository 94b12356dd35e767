HOOKS = {"guard": "none", "enable": "no hooks are compiled into the repository: every seam is an existing interface or a link-time substitute", "source_commits": []}
NOTES = "All checks are seeded simulations; see DESIGN.md."
WRAP = "the clock (virtual), BLS pairing library (ideal, linear), zk-proof library (ideal)"

def part(sim, runs, max_s, t_runs, t_max_s, real, stubs, kind="c", **kw):
    d = {"sim": sim, "kind": kind, "quick": {"runs": runs, "max_s": max_s}, "thorough": {"runs": t_runs, "max_s": t_max_s}, "real": real, "stubs": stubs}
    d.update(kw)
    return d

PROPS = []
def P(id, title, statement, over, qtext, why, files, mechanism, check=None, na=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if observe: a["observe_at"] = observe
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why": why, "anchors": a, "check": check, "na": na})

NETREAL = ["src/verifier", "src/chains/eth/verifier", "src/chains/eth/prover", "src/chains/eth/ssz", "src/chains/eth/bn254 (not called)", "src/prover", "src/util"]
NETSTUB = ["BLS signature library (ideal linear signatures: exact for aggregation, unforgeable without the keys)", "zk proof library (ideal: accepts exactly what its prover oracle produced)", "secp256k1 library where not vendored", "execution and beacon nodes, checkpoint server (simulated chain of four network configurations with forged variants)", "storage plugin (in memory with crash model)", "the clock (virtual)", "the host's request loop (seeded order, delay and failure of answers)"]
ADV = ["The BLS, zk-SNARK and hash primitives are ideal: signatures cannot be made without the keys (170 of 512 keys of each committee are in the adversary's hands, less than one third plus), zk proofs only exist for true statements.",
       "Explored by seeded search, not exhaustively; worlds hold a few hundred blocks and accounts each."]

P("P01", "A verified account, balance, nonce, code, storage or proof answer is canonical",
  "Whatever a prover, RPC node, beacon node or attacker on the path supplies, when the verifier reports success for eth_getBalance, eth_getTransactionCount, eth_getCode, eth_getStorageAt or eth_getProof, the result it returns is the value the canonical chain holds for exactly the requested address and storage keys at exactly the requested block (for a tag: at one canonical block), including the answer for accounts and slots that do not exist. Everything else is rejected with an error.",
  ["inputs", "histories", "faults"], "all requests, all proofs an adversary holding a third of the committee keys can assemble (other proofs, forged chains, mutated and recombined parts, planted roots), all client states and all answers of untrusted nodes",
  "Tests verify a few recorded proofs and flip single bytes; whether a manipulated or recombined proof is accepted depends on the combination of proof parts, request and client state.",
  ["src/chains/eth/verifier/verify_account_proof.c", "src/chains/eth/verifier/eth_account.c", "src/chains/eth/verifier/patricia_trie.c", "src/chains/eth/verifier/patricia.c", "src/util/ssz_merkle.c", "src/verifier/verify.c"],
  [("account and storage trie verification bound to the request", "verify_account_proof, eth_verify_account_proof_exec"), ("state root to signed beacon header", "eth_verify_state_proof, c4_verify_header")],
  check={"note": "Seeded adversary against the real verifier (and real prover as the source of genuine proofs) over simulated chains; every accepted answer is compared with the simulated canonical chain.",
         "parts": [part("net", 2400, 75, 200000, 780, NETREAL, NETSTUB)], "assumptions": ADV})

P("P02", "A verified transaction or receipt answer is canonical",
  "Whatever a prover or node supplies, when the verifier reports success for eth_getTransactionByHash, eth_getTransactionByBlockHashAndIndex, eth_getTransactionByBlockNumberAndIndex or eth_getTransactionReceipt, every field of the returned transaction or receipt which the proof format can cover (all but gasUsed, effectiveGasPrice, contractAddress and the absolute log index of receipts) is that of the requested transaction in the canonical chain, at its canonical position.",
  ["inputs", "histories", "faults"], "all requests, all transaction types, all proofs an adversary holding a third of the committee keys can assemble, all client states and all answers of untrusted nodes",
  "Tests verify recorded proofs; whether fields not covered by a hash, foreign positions or recombined proofs slip through depends on combinations no test enumerates.",
  ["src/chains/eth/verifier/verify_tx_proof.c", "src/chains/eth/verifier/verify_receipt_proof.c", "src/chains/eth/verifier/eth_tx.c", "src/chains/eth/verifier/rlp.c"],
  [("transaction inclusion and decoding", "verify_tx_proof, c4_tx_verify_tx_data"), ("receipt inclusion and decoding", "verify_receipt_proof, c4_tx_verify_receipt_data")],
  check={"note": "Seeded adversary against the real verifier; every accepted answer is compared field by field with the simulated canonical chain.",
         "parts": [part("net", 2400, 75, 200000, 780, NETREAL, NETSTUB)], "assumptions": ADV})

P("P03", "Verified block, block number and log answers are canonical",
  "Whatever a prover or node supplies, when the verifier reports success for eth_getBlockByHash, eth_getBlockByNumber, eth_blockNumber or eth_getLogs, the returned block equals the canonical block asked for (hashes or full transactions as requested), the block number is that of a canonical block, and every returned log exists in the canonical chain inside the requested range, matches the requested filter and carries the canonical block, transaction and content (which logs are missing and the absolute log index are not covered by the format). Methods answered locally give their own answer whatever proof is attached, and a proof that was not verified is never reported as success.",
  ["inputs", "histories", "faults"], "all requests and filters, all proofs an adversary holding a third of the committee keys can assemble, all client states and all answers of untrusted nodes",
  "Tests verify recorded proofs; acceptance of foreign logs, other blocks, recombined or unbound parts depends on combinations no test enumerates.",
  ["src/chains/eth/verifier/verify_block.c", "src/chains/eth/verifier/verify_logs_proof.c", "src/chains/eth/verifier/verify_local.c", "src/chains/eth/verifier/eth_verify.c", "src/verifier/verify.c"],
  [("block data recreated from the verified payload", "verify_block_proof, eth_set_block_data"), ("log membership and filter", "verify_logs_proof"), ("dispatch of proofs by method", "c4_eth_verify, c4_verify")],
  check={"note": "Seeded adversary against the real verifier; every accepted answer is compared with the simulated canonical chain.",
         "parts": [part("net", 2400, 75, 200000, 780, NETREAL, NETSTUB)], "assumptions": ADV})

P("P04", "The client only ever trusts sync committees of the canonical chain",
  "Starting from a trusted checkpoint (configured, or the finalized one of the checkpoint server), whatever the prover and the beacon nodes answer, the committees in the durable client state are those of the canonical chain, a header is accepted with signatures of at least two thirds of the committee of its period and never with fewer, and sync data attached to a proof (light client updates, bootstrap or zk proof) is adopted only when it links to the trusted state; a required witness signature is never skipped. A client that was offline for longer than the weak subjectivity period does not adopt committees signed only by old keys that have leaked in full, unless the checkpoint server confirms the chain.",
  ["inputs", "histories", "faults"], "all client starts and ages, forged committees and headers, manipulated bootstraps, updates, sync data and zk proofs, partial signatures, failing nodes and checkpoint servers",
  "Tests replay recorded updates of one honest chain; forged histories, partial signatures, gaps and leaked old keys need adversarial histories over several periods.",
  ["src/chains/eth/verifier/sync_committee.c", "src/chains/eth/verifier/sync_committee_state.c", "src/chains/eth/verifier/beacon_header.c", "src/chains/eth/zk_verifier"],
  [("update, bootstrap and zk sync", "c4_handle_client_updates, c4_handle_bootstrap, c4_update_from_sync_data, verify_zk"), ("threshold and signature check", "c4_verify_blockroot_signature, verify_signature"), ("weak subjectivity", "c4_check_weak_subjectivity")],
  check={"note": "Seeded adversary controlling all beacon answers and the prover over up to 18 sync periods; after every step the durable state is compared with the canonical committees.",
         "parts": [part("net", 2000, 90, 150000, 780, NETREAL, NETSTUB)],
         "assumptions": ADV + ["Not generated: a long range attack in many small steps without the clock (the code has no clock based check), answers with more updates than asked for, a truncated forged answer whose last finalized header is canonical."]})

P("P05", "A crash or storage fault never leaves the client with an untrusted state",
  "The client's sync state lives in the host's key-value storage. Whatever happens at whatever point (the process stops at any storage operation, writes are lost, torn or reordered by a power loss, the disk is full, old nodes lie before and after), after a restart every answer the client accepts is canonical, every committee it uses is one of the canonical chain for its period, and incomplete or damaged entries are noticed instead of being used.",
  ["crash points", "faults", "histories"], "all points at which the process can stop during a verification, all subsets and prefixes of not yet durable writes, full disks, all following requests and answers",
  "Tests use an in-memory or fresh storage and never stop between two writes; the failures need a crash at a particular write and a particular continuation.",
  ["src/chains/eth/verifier/sync_committee_state.c", "src/chains/eth/verifier/sync_committee.c", "src/util/plugin.h"],
  [("period list and committee keys", "c4_set_sync_period, c4_get_chain_state, c4_get_validators"), ("storage plugin", "storage_plugin_t get/set/del")],
  check={"note": "Seeded crashes, lost and torn writes, power loss and full disks in the storage seam while real client and prover run against honest and hostile nodes; every accepted answer and every stored committee is compared with the simulated chain.",
         "parts": [part("net", 2000, 90, 150000, 780, NETREAL, NETSTUB)],
         "assumptions": ADV + ["A single key is either written completely, or as a prefix of it with the rest missing or zero, or not at all; bits already durable do not rot."]})

P("P06", "Verification recovers by itself once crashes, faults and attacks stop",
  "Whatever the client went through (crashes at any storage operation, lost or torn writes, power loss, full disks, hostile provers and nodes), as soon as storage works again and one honest source answers, a provable request is verified within two further attempts plus one per damaged stored committee: no stored state, remembered error or leftover ever blocks the client for good, and no attempt runs without end.",
  ["crash points", "faults", "histories"], "all histories of crashes, storage faults and hostile answers followed by a healthy phase",
  "Whether a client gets stuck depends on what exactly a crash or an attack left behind; tests start from a clean or complete state.",
  ["src/chains/eth/verifier/sync_committee_state.c", "src/chains/eth/verifier/sync_committee.c", "src/chains/eth/verifier/beacon_header.c"],
  [("fallbacks between stored periods, bootstrap and updates", "c4_get_validators, init_sync_state, req_client_update"), ("rollback of a not confirmed state", "c4_check_weak_subjectivity, clear_sync_state")],
  check={"note": "The runs of P05 followed by a healthy phase; the number of failed attempts in this phase is bounded.",
         "parts": [part("net", 2000, 90, 150000, 780, NETREAL, NETSTUB)],
         "assumptions": ADV + ["Requests in the healthy phase are provable: a descendant block with enough signatures exists and the block is not older than the client's oldest period unless a historic proof is possible."]})

P("P07", "No input from outside crashes, corrupts or hangs prover and verifier",
  "Responses of execution and beacon nodes, checkpoint servers and the chain store, proofs, requests with well-formed or odd parameters and client states sent by others may hold anything. Prover and verifier then still end with success or an error after a bounded number of rounds, never read or write outside of their memory, never use freed memory, and the status and the result they report are valid JSON as long as the caller's own parameters are.",
  ["inputs", "faults", "histories"], "all bytes that can arrive from outside at any point of a flow: truncated, mutated, foreign, empty or random responses, error texts, proofs, client states and parameters, in all combinations of modes",
  "Tests use well-formed recorded responses; memory errors and endless loops need malformed data at one particular step of a multi-step flow.",
  ["src/util/ssz.c", "src/util/ssz_merkle.c", "src/util/json.c", "src/util/bytes.c", "src/chains/eth/verifier/rlp.c", "src/chains/eth/prover", "src/chains/eth/verifier", "bindings/colibri.c"],
  [("structural validation of ssz", "ssz_is_valid"), ("lenient json access", "json_get, json_as_bytes, json_validate"), ("status interface", "c4_prover_execute_json_status, c4_verify_execute_json_status")],
  check={"note": "Real prover and verifier under AddressSanitizer with byzantine answers, proofs, parameters and client states; every run must end within 120 rounds and every status must parse.",
         "parts": [part("net", 12000, 90, 900000, 780, NETREAL, NETSTUB)],
         "assumptions": ["The storage of the client itself is not manipulated (P05 covers torn entries).", "Memory errors are those AddressSanitizer detects; memory leaks are not judged."]})

P("P08", "Shared proof cache never frees, loses or mixes up values in use",
  "A value which a running proof context obtained from the shared cache stays valid and unchanged for this context until the context ends, is freed exactly once afterwards, and belongs to the key that was asked for. An invalidated value is never handed to a context that asks later, an expired or invalidated value which nobody uses is gone after the next cleanup, a valid one is only given up for lack of space, and the reported number and size of entries is exact and within the limit except for values in use.",
  ["schedules", "histories"], "all interleavings of concurrent proof contexts, expiry, cleanup timer, invalidation and worker-thread phases",
  "The existing tests exercise a single context; use-after-free, leaks and stale reads only appear for particular interleavings of several contexts with invalidation, expiry and cleanup.",
  ["src/prover/prover.c", "src/prover/prover.h"], [("reference counted global cache array", "c4_prover_cache_get/set/cleanup/invalidate, c4_prover_free in src/prover/prover.c")],
  check={"note": "Seeded search over interleavings of up to 6 contexts, 5 keys, virtual time; ownership and visibility checked after every step against a reference model.",
         "parts": [part("caches", 6000, 40, 400000, 700, ["src/prover/prover.c (cache and context life cycle)"], ["values (tracked objects with a recording destructor)", "the clock (virtual)"])],
         "assumptions": ["The cache is used from one thread at a time, as the server does (event loop; worker phases only read the context's own entries)."]})

P("P09", "Log queries served from the log cache equal the chain's logs",
  "When a log query is answered from the cache of recent blocks, the answer is exactly the list of matching logs of the requested block range in chain order, for every filter and every history of announced, duplicated, missed and reorganised blocks. A range that is completely cached is answered, a range that is not is never answered from the cache, and the cache never claims more blocks than its configured limit.",
  ["histories", "inputs", "schedules"], "all histories of block announcements (gaps, duplicates, reorganisations, ring rotations), all filters, all timings of receipt answers",
  "Tests load one fixed list of six blocks; ring rotation, reorganisation and filters with many alternatives depend on the history and the filter.",
  ["src/chains/eth/prover/logs_cache.c", "src/chains/eth/prover/logs_cache.h"], [("ring buffer of blocks with bloom prefilter", "push_block, build_match_index, build_result_json_from_matches"), ("filter matching", "address_matches, topics_matches, build_bloom_variants")],
  check={"note": "Seeded search; every answer compared with a reference filter over the simulated chain.",
         "parts": [part("caches", 5000, 40, 300000, 700, ["src/chains/eth/prover/logs_cache.c", "src/chains/eth/prover/eth_req.c", "src/util/json.c"], ["beacon event stream and RPC node (simulated chain)"])],
         "assumptions": ["No reorganisation of a block between the index lookup and the receipt download of the same query."]})

P("P10", "Transaction location cache returns the latest location and loses nothing",
  "A lookup in the cache of transaction locations returns the location that was stored last for exactly this transaction hash, or nothing. An entry disappears only when room is needed for new ones, whole blocks at a time and oldest first, the number of entries never exceeds the limit and is reported exactly, and every operation terminates for every limit.",
  ["histories", "inputs"], "all sequences of block insertions, reorganisations, limit changes and resets, and all sets of hashes including colliding ones",
  "Tests insert a few well separated hashes; the failures need hash clusters, deletions inside a cluster, wrap-around at the table end or a completely filled table.",
  ["src/chains/eth/prover/tx_cache.c", "src/chains/eth/prover/tx_cache.h"], [("open addressing table with backshift deletion", "table_delete_at, table_set, table_find_index"), ("block-wise FIFO eviction", "clean_up_cache")],
  check={"note": "Seeded search with colliding hashes against a map model, full comparison of all keys after evictions.",
         "parts": [part("caches", 4000, 40, 300000, 700, ["src/chains/eth/prover/tx_cache.c"], ["block loader (simulated: reserve and store per block)"])],
         "assumptions": ["No allocation failure."]})

P("P11", "Honest nodes: every provable request is proven and verified, in any order",
  "With nodes that answer truthfully, every provable request (accounts, storage, code, transactions, receipts, logs with filters of any length, blocks, block number; recent or historic; with or without attached sync data or zk proof) ends with a proof which the verifier accepts with the canonical answer, regardless of the order and delay of responses, of other proofs running concurrently, of cached results from before, of the head moving on, of cache cleanups, worker yields and restarts of the prover; and asking again for the same block gives the same answer.",
  ["schedules", "histories", "inputs"], "all interleavings of up to eight concurrent proofs and verifications with head movement, cache expiry, cleanup and restarts, all request kinds and modes",
  "Tests replay one recorded conversation per proof in a fixed order with empty caches; stale caches, races between proofs and head changes and rare combinations of flags never occur there.",
  ["src/chains/eth/prover", "src/prover/prover.c", "src/chains/eth/verifier", "src/util/state.c"],
  [("asynchronous proof building", "c4_prover_execute, TRY_ASYNC, c4_send_eth_rpc, c4_send_beacon_json"), ("caches between proofs", "c4_prover_cache_get/set, c4_eth_get_receipt_proof, tx_cache"), ("proof formats", "c4_proof_account, c4_proof_block, c4_proof_logs, c4_proof_receipt, c4_proof_transaction, c4_get_syncdata_proof")],
  check={"note": "Real prover and real verifier against simulated honest nodes with a seeded scheduler; every answer compared with the simulated chain.",
         "parts": [part("net", 3000, 90, 200000, 780, NETREAL, NETSTUB)],
         "assumptions": ["Beacon nodes answer light client updates in the standard SSZ format (the prover does not convert the lighthouse variant).", "Blocks without a sufficiently signed descendant, and empty log results, are not provable by design."]})

P("P12", "A proof succeeds as long as one node of each kind is good and always ends",
  "With up to 16 execution and 16 beacon nodes of which some are down, answer with HTTP errors, with unsupported-method or invalid-params errors, without a result, with null receipts or unreliably, a node that was found unusable for a request is not asked again for this request, the proof succeeds whenever one node of each kind can answer, its verified answer is canonical, and when none can the proof ends with an error after a bounded number of requests. False answers of execution nodes leave nothing behind: once the nodes tell the truth, the same requests are proven.",
  ["faults", "schedules", "histories"], "all assignments of failures and lies to nodes, orders and timings of responses",
  "Tests mock a single perfect node; failover needs particular failures at particular nodes.",
  ["src/util/state.c", "src/util/state.h", "src/chains/eth/prover/eth_req.c", "src/chains/eth/prover/beacon.c", "bindings/colibri.c"],
  [("exclusion of nodes per request", "RETRY_REQUEST, node_exclude_mask, exclude_mask in the status"), ("pending requests", "c4_state_get_pending_request")],
  check={"note": "Real prover and verifier with a simulated host that picks the next node not excluded, seeded behaviours for up to 16 nodes of each kind.",
         "parts": [part("net", 6000, 60, 300000, 780, NETREAL, NETSTUB)],
         "assumptions": ["The host follows the documented contract: it asks nodes in order, skips excluded ones and reports an error when none is left."]})

SRVREAL = NETREAL + ["src/server (http server, http client, handlers, head poller, metrics, tracing, shutdown)", "src/chains/eth/server"]
SRVSTUB = ["libuv (event loop, TCP, timers, files, worker threads: single threaded seeded scheduler)", "libcurl multi interface (seeded transfers)", "llhttp (own parser with the observable behaviour of llhttp 9)", "file system (in memory)", "memcached (disabled)"] + NETSTUB
P("P13", "Every HTTP request to the server gets exactly one complete, correct response",
  "Clients may split, pipeline or chunk their requests at any byte, read slowly, disconnect at any point and send malformed, oversized or unknown requests, upstream nodes may be slow or fail, and the server may be asked to stop at any time. Every completely received request of a connected client is answered exactly once, in order and on its own connection, with a well-formed HTTP response of the announced length whose content is right: proofs verify to the canonical answer, /rpc results are canonical with the id of the request, proxied results are those of the node, errors are JSON objects with a fitting status. A client that disconnects never disturbs another one, no memory is used after its release, no request stays open, and a graceful shutdown answers the requests the server works on.",
  ["schedules", "faults", "inputs", "histories"], "all segmentations and interleavings of requests of several clients, upstream timings and failures, points of disconnection and of the shutdown signal",
  "The server has no unit tests in the stable suite; such failures need a particular split, a disconnect while an upstream request is in flight or a signal at a particular moment.",
  ["src/server/http_server.c", "src/server/http_client.c", "src/server/handle_proof.c", "src/server/handle_verify.c", "src/server/handle_unverified_rpc.c", "src/server/handle_proxy.c", "src/server/server_control.c", "src/server/http_head_poller.c", "src/chains/eth/server"],
  [("request parsing and response writing", "on_read, on_message_complete, c4_http_respond, on_write_complete"), ("life time of clients", "on_close, close_client_connection"), ("asynchronous requests", "c4_start_curl_requests, c4_add_request"), ("graceful shutdown", "server_control.c, open_requests")],
  check={"note": "The real server with its prover, verifier and HTTP client on a simulated event loop, network and curl; clients, upstream nodes and signals follow a seeded schedule; every response is compared with the simulated chain.",
         "parts": [part("srv", 6000, 70, 400000, 780, SRVREAL, SRVSTUB)],
         "assumptions": ["llhttp, libuv and libcurl behave as documented (they are replaced by models of their interface).", "memcached, the beacon event stream, the web UI and the period store are not part of these runs."]})

P("P14", "The server answers as long as one upstream node of each kind works",
  "With several execution and beacon nodes configured of which some refuse connections, stay silent, are slow, lose responses, answer with HTTP errors or rate limits or do not support a method, for some time or permanently, every provable request to the server is still answered with the right result as long as one node of each kind works. If none works the client gets an error in bounded time, and afterwards the server works normally again: failures of one request, node or client never affect the answers of another, also when equal requests share one upstream request.",
  ["faults", "schedules", "histories"], "all assignments of failures in time to nodes, orders of responses and concurrent requests, moving heads",
  "Failover depends on which node fails how at which step of a multi-step proof while other requests update the health statistics.",
  ["src/server/http_client.c", "src/server/handle_proof.c", "src/server/handle_verify.c", "src/server/http_head_poller.c", "src/chains/eth/server"],
  [("choice and exclusion of upstream servers", "c4_select_best_server, c4_check_retry_request, c4_update_server_health"), ("coalescing of equal requests", "pending_requests"), ("results per request", "handle_curl_events")],
  check={"note": "The same simulation with up to four nodes of each kind and failures in all runs; in most of them one node of each kind is good and every provable request must succeed.",
         "parts": [part("srv", 6000, 70, 400000, 780, SRVREAL, SRVSTUB)],
         "assumptions": ["A node that answers with status 200 and garbage, or with a wrong 404, is not noticed in all cases; runs with such nodes do not require success.", "llhttp, libuv and libcurl behave as documented (they are replaced by models of their interface)."]})

PYREAL = ["bindings/python/src/colibri (the whole package)", "bindings/python/src/bindings.cpp", "bindings/colibri.c"] + NETREAL
PYSTUB = ["pybind11 (a small header with its interface)", "aiohttp.ClientSession._request (simulated servers; the rest of aiohttp is real)", "the asyncio selector (virtual time)", "the file system below the storage directory (real files, faults and crashes injected at open, write, close, rename and unlink)"] + NETSTUB[:4] + NETSTUB[5:6]
P("P15", "Python client: calls end with the true answer while a server of each kind works",
  "Any number of rpc() calls run at the same time, are cancelled at any moment, and the prover, RPC, beacon and checkpoint servers refuse connections, stay silent, break off, answer with HTTP or RPC errors or (hostile) with anything. Every call ends: provable methods return the canonical answer or raise a ColibriError, never anything unproven; other methods return what a configured RPC server gave or report its error; unsupported methods are refused. As long as one server of each kind works (and the others are not hostile) every provable call succeeds: failing provers are passed over, then the proof is made locally, and unusable answers are asked again from other servers. Only configured servers are contacted, contexts are released exactly once, responses are only given to pending requests, what was stored is found again, and after crashes or file system errors at any point the client recovers.",
  ["schedules", "faults", "histories"], "all interleavings of calls, responses, cancellations, timeouts, server failures, file system faults and restarts",
  "The tests replace the native module and the network by mocks with fixed answers; failures need particular combinations of failing servers, retries, cancellation and storage state.",
  ["bindings/python/src/colibri/client.py", "bindings/python/src/colibri/storage.py", "bindings/python/src/colibri/__init__.py", "bindings/python/src/colibri/types.py", "bindings/python/src/bindings.cpp", "bindings/colibri.c"],
  [("request loop", "create_proof, verify_proof, _handle_requests"), ("failover", "_execute_http_request, _fetch_rpc, exclude_mask, node_index"), ("storage", "DefaultStorage, register_storage")],
  check={"note": "The real package and its real native module (embedded interpreter) on a virtual time event loop against simulated servers; the answers are compared with the simulated chain.",
         "parts": [part("pyc", 2000, 75, 200000, 780, PYREAL, PYSTUB)],
         "assumptions": ["aiohttp and pybind11 behave as documented.", "A prover that answers with status 200 and a useless proof is not passed over; runs with such servers do not require success."]})

TSREAL = ["bindings/emscripten/src/*.ts except wasm.ts and the wasm glue", "bindings/emscripten/ems.c"] + NETREAL
TSSTUB = ["the wasm module (the same C code natively in the parent process, called over a pipe)", "fetch (simulated servers)", "timers and clock of node (virtual time)", "node:fs of the default storage (in memory, with faults)"] + NETSTUB[:4] + NETSTUB[5:6]
P("P16", "TypeScript client: calls end with the true answer while working servers exist",
  "Any number of request() and rpc() calls run at the same time while prover, RPC, beacon and checkpoint servers refuse connections, stay silent, break off, answer with HTTP or RPC errors or (hostile) with anything. Every call ends: provable methods return the canonical answer or reject with an error, never anything unproven (the strategy WarningWithFallback must warn, VerifyIfPossible only passes through what cannot be proven); other methods return what a configured RPC server gave or report its error; unsupported methods are refused. As long as one server of each kind works and the others are not hostile every provable call succeeds: failing provers are passed over, and without a configured prover the proof is made locally. Only configured servers are contacted, native contexts and buffers are released exactly once and not used afterwards, responses are only given to pending requests, and after restarts or failing storage the client recovers.",
  ["schedules", "faults", "histories"], "all interleavings of calls, responses, timeouts, server failures, storage faults and restarts",
  "The tests use recorded answers of one fixed call at a time; failures need combinations of failing servers, concurrent calls and storage state.",
  ["bindings/emscripten/src/index.ts", "bindings/emscripten/src/http.ts", "bindings/emscripten/src/strategy.ts", "bindings/emscripten/src/wasm_shared.ts", "bindings/emscripten/src/connectionState.ts", "bindings/emscripten/ems.c"],
  [("request loop", "createProof, verifyProof, rpc"), ("failover", "handle_request, fetch_rpc"), ("strategies", "handleStrategy in strategy.ts")],
  check={"note": "The real TypeScript sources (bundled by esbuild) run in node under virtual time; the wasm module is replaced by the same C code running natively; servers are simulated and the answers compared with the simulated chain.",
         "parts": [part("tsc", 1000, 70, 60000, 780, TSREAL, TSSTUB)],
         "assumptions": ["esbuild translates TypeScript as tsc does.", "The C code behaves the same compiled to wasm32 and natively.", "A prover that answers with status 200 and a useless proof is not passed over; runs with such servers do not require success."]})

P("P17", "TypeScript subscriptions and filters deliver every event exactly once, in order",
  "eth_subscribe (newHeads, logs) and filters (eth_newBlockFilter, eth_newFilter with address, topics, fromBlock, toBlock) are created and removed while the chain grows and servers fail, lag behind and recover; eth_getFilterChanges may overlap. Every delivered block and log is canonical and matches the filter, nothing is delivered twice, order is by block, no block or matching log between the first and the last is skipped whatever failed in between, and after the failures stop everything up to the head is delivered within a bounded time. Nothing is delivered after eth_unsubscribe or eth_uninstallFilter, which succeed exactly once; ids are unique.",
  ["schedules", "faults", "histories"], "all interleavings of polls, new blocks, server failures, subscriptions and unsubscriptions",
  "Lost or repeated events need a failure at one step of one poll, or two overlapping polls, while the chain moves on; unit tests mock the rpc call with fixed answers.",
  ["bindings/emscripten/src/subscriptionManager.ts", "bindings/emscripten/src/index.ts", "bindings/emscripten/src/eventEmitter.ts"],
  [("polls", "executePollLogic, schedulePoll, getFilterChanges"), ("lifetime", "subscribe, unsubscribe, newFilter, uninstallFilter")],
  check={"note": "The same simulation; the chain grows in virtual time, histories of deliveries are compared with the canonical chain.",
         "parts": [part("tsc", 900, 70, 40000, 780, TSREAL, TSSTUB)],
         "assumptions": ["A filter starts with its first eth_getFilterChanges.", "RPC servers which lag behind do not answer eth_getLogs with fewer logs (completeness of logs cannot be proven)."]})

P("P18", "TypeScript client: only the transaction the caller asked for is ever sent",
  "With verifyTransactions every eth_sendTransaction, through request() or rpc() and whatever strategy and servers are configured, is signed by the fallback provider and reaches the network only if the raw transaction is exactly what the caller asked for at the time of the call: to, value and data (missing ones count as contract creation, 0 and empty), sender, gas, fees and nonce as far as given, the chain of the client, no added authorizations or blobs; whatever the signer returns, however often its answer changes when read and whatever it modifies in the request. It is never handed on unverified, a transaction which cannot be compared is refused with an error, without a signer the call is refused, nothing is sent twice, and honest signers succeed, for all types of transactions and all ways of writing numbers and addresses.",
  ["inputs", "schedules", "faults"], "all requests, all signer answers and all interleavings of concurrent calls",
  "The tests check a few mismatches with mocked decoding; attacks need particular encodings, missing fields, overflowing numbers or a signer which changes shared objects while another call is pending.",
  ["bindings/emscripten/src/transactionVerifier.ts", "bindings/emscripten/src/index.ts", "src/chains/eth/verifier/eth_tx.c", "src/chains/eth/verifier/verify_local.c"],
  [("comparison", "TransactionVerifier in transactionVerifier.ts"), ("routing", "request, rpc in index.ts"), ("decoding", "c4_write_tx_data_from_raw")],
  check={"note": "The simulation of P16; a hostile signer builds, signs and modifies transactions with its own RLP encoder; every raw transaction that reaches a simulated RPC server is decoded independently and compared with the request.",
         "parts": [part("tsc", 1400, 70, 60000, 780, TSREAL, TSSTUB)],
         "assumptions": ["The signer is asked through eth_signTransaction.", "A gasPrice asked for bounds maxFeePerGas of a type 2 transaction."]})

OPREAL = ["src/chains/op (verifier, prover, ssz)"] + NETREAL
OPSTUB = ["the key of the sequencer (op_get_chain_config returns the chain with a simulated key)", "the preconf store of the server (simulated, zstd is real)"] + NETSTUB[3:]
OPA = ["ECDSA and keccak are ideal: without the key of the sequencer nobody signs.", "Whatever the sequencer signed for the chain is canonical; a tag may be answered with any canonical block.", "eth_call and simulations need an EVM, which cannot be built here, and are not part of the runs; deposit transactions are not generated."]
P("P19", "OP-Stack: a verified answer is one of a block the sequencer signed",
  "For OP-Stack chains, whatever prover and nodes send (blocks signed with another key, for another chain, with the signature of another block or none, proofs of other requests, parts of other proofs, forged logs given to eth_verifyLogs, mutations of every part, arbitrary bytes, hostile compressed frames), a verification that succeeds for account, storage, code, proof, transaction, receipt, log, block and block number requests returns the canonical answer for exactly this request in the block the sequencer signed, as far as the proof covers it, and no input crashes the process.",
  ["inputs", "faults", "histories"], "all proofs, payload encodings (before and since Isthmus) and sequences of requests",
  "Tests verify recorded valid proofs of a few blocks; wrong acceptance needs a specially built proof.",
  ["src/chains/op/verifier", "src/chains/op/ssz", "src/chains/eth/verifier/eth_tx.c", "src/chains/eth/verifier/eth_account.c", "src/chains/eth/verifier/verify_logs_proof.c"],
  [("signature of the sequencer and binding to the request", "op_extract_verified_execution_payload"), ("transactions", "op_verify_tx_proof"), ("receipts", "op_verify_receipt_proof"), ("logs", "op_verify_logs_proof"), ("accounts", "op_verify_account_proof"), ("blocks", "op_verify_block")],
  check={"note": "Real OP-Stack prover and verifier; an adversary with all data but not the key attacks with forged chains, grafts and mutations; every accepted answer is compared with the simulated chain.",
         "parts": [part("op", 2400, 60, 100000, 780, OPREAL, OPSTUB)], "assumptions": OPA})
P("P20", "OP-Stack: requests for preconfirmed blocks are proven and verified",
  "For OP-Stack chains with a working preconf store and truthful execution nodes every request for account, storage, code, proof, transaction, receipt, logs, block and block number data of a known block (by number or latest, in every form of the payload and of the compressed frame) is proven and verified with the canonical answer, for concurrent requests, a moving head, cache cleanups and restarts. Failing, damaged, cut or false responses end in an error or a canonical answer, never in a crash, and once they stop the same requests succeed.",
  ["schedules", "faults", "histories"], "all orders of responses, concurrent requests and phases of faults",
  "Tests replay recorded responses one request at a time; they do not cover interleavings, faults and what stays in the cache.",
  ["src/chains/op/prover", "src/chains/op/verifier", "src/chains/eth/prover/proof_receipt.c"],
  [("block proofs", "c4_op_create_block_proof, op_get_execution_payload"), ("requests", "c4_op_proof_account, c4_op_proof_logs, c4_op_proof_receipt, c4_op_proof_transaction, c4_op_proof_block")],
  check={"note": "Real OP-Stack prover and verifier with a seeded scheduler of concurrent contexts, phases of lying and failing nodes; answers are compared with the simulated chain.",
         "parts": [part("op", 2400, 60, 100000, 780, OPREAL, OPSTUB)], "assumptions": OPA})

P("P21", "Period store: files hold only the chain, become complete, are served unaltered",
  "A server with a period store follows the heads of honest beacon nodes, backfills, fetches light client updates, bootstraps and historical roots while nodes refuse, fail, stay silent or are slow, blocks are orphaned, slots are missed, the disk fails or is full, clients ask anything, and the process is killed at any point. At every crash point the files of every period hold only block roots and headers of blocks of the chain (or orphaned ones) at the position of their slot, exactly the light client update and bootstrap of the period, and a period is marked as verified only with all its canonical roots; after a restart without failures the backfill makes roots and headers of all slots down to the configured period canonical and complete and marks the periods which can be verified. light_client/updates is answered with exactly the updates of the requested periods in their order or with an error, and with the updates once nodes work; /period_store serves the files from the requested offset and a manifest of exactly the files there are, never anything outside of the store; and no request of a client makes the store unusable.",
  ["schedules", "faults", "crash points", "histories"], "all orders of heads, responses and file operations, crash points between any two of them, disk and node failures, reorgs, requests of clients",
  "There are no tests of the period store at all in the stable suite; lost or mixed up entries need a crash, a failure or a reorg between particular file operations and several lives of the process.",
  ["src/chains/eth/server/period_store_backfill.c", "src/chains/eth/server/period_store_lc.c", "src/chains/eth/server/period_store_historical_roots.c", "src/chains/eth/server/period_store_period_index.c", "src/chains/eth/server/handle_period_static.c", "src/chains/eth/server/handle_lcu.c", "src/server/io/uv_util.c"],
  [("backfill", "backfill, read_parent_block, c4_ps_set_block"), ("updates and bootstraps", "c4_get_light_client_updates, c4_ps_schedule_fetch_lcu, c4_ps_schedule_fetch_lcb"), ("verification of periods", "c4_ps_schedule_verify_all_blocks_for_historical"), ("served files", "c4_handle_period_static"), ("files", "c4_read_files_uv, c4_write_files_uv")],
  check={"note": "The server of P13 on the simulated libuv with a synthetic beacon chain of more than two periods; several lives of the process on one simulated disk, killed at any step; the files and all answers are compared with the chain after every crash and at the end of a last life without failures.",
         "parts": [part("pst", 4000, 140, 100000, 780, SRVREAL, SRVSTUB[:4] + ["beacon nodes (synthetic chain with real header roots, scripted answers)"])],
         "assumptions": ["A crash is one of the process: what was written survives; writes of up to 512 bytes are not torn.", "Beacon nodes may fail, but do not lie; reorgs have a depth of one block.", "Convergence is demanded after a restart, since a running server restarts its backfill only after 100 slots.", "The zk prover is not part of these runs (P22 decides the synchronisation from a master node)."]})

P("P22", "A slave's period store is a faithful copy of the master's, whatever fails",
  "A server configured as slave copies the period store of its master while the master's store grows, files are replaced, downloads fail, are lost, slow or empty, the disk fails or is full, and the process is killed at any point. At every crash point every file of the copy is one the master had (roots and headers: only entries of the master or empty ones at the position of their slot, never parts of two versions), and a period counts as verified or complete only if its files are complete and those of the master; once failures stop, a bounded number of checkpoints makes the copy equal to the master's store. Whatever names, periods, lengths or bytes a hostile master sends, the slave neither creates nor changes anything outside of the directories of its periods, and keeps running.",
  ["schedules", "faults", "crash points", "histories", "hostile input"], "all orders of growth, downloads and file operations, crash points between any two of them, failures of the master and the disk, arbitrary manifests",
  "There are no tests of the synchronisation; mixed files need a growing master, failures and several lives of the process at particular points, and escapes need a hostile manifest.",
  ["src/chains/eth/server/period_store_full_sync.c", "src/server/io/uv_util.c", "src/server/http_client.c"],
  [("synchronisation", "c4_ps_full_sync_on_checkpoint, full_sync_manifest_cb, full_sync_download_next, full_sync_download_cb"), ("files", "c4_write_files_uv")],
  check={"note": "The server on the simulated libuv as slave of a scripted master whose store grows; several lives of the process on one simulated disk, killed at any step; the copy is compared with all versions the master ever had after every crash and with the present one at the end of a last life without failures. A quarter of the runs has a hostile master.",
         "parts": [part("pst", 6000, 60, 200000, 780, SRVREAL, SRVSTUB[:4] + ["the master (scripted store which grows, fails or is hostile)"])],
         "assumptions": ["A crash is one of the process: what was written survives; writes of up to 512 bytes are not torn.", "Roots and headers which the master fills in later are copied when the period is verified.", "The master completes its periods in order and does not change complete ones (a slave which restarts goes on after its last complete period).", "The content of files of a hostile master is not judged, only where it is written."]})

P("P23", "A witness signs only the block it was asked for, with its own key",
  "Whatever was asked before or is asked at the same time, with whichever key, and whatever nodes fail, heads move, caches are cleaned or processes restart: a signed witness (c4_witness, blockhash) holds exactly the chain id, number, hash and roots of the requested block as the execution nodes have it (for latest: a head since the request was made) and a signature which belongs to the key of this request. For a block the nodes do not have nothing is signed. If a node which works is reachable, the witness of an existing block is created.",
  ["schedules", "faults", "histories"], "all orders of responses, concurrent and repeated requests, keys, moving heads, cache lifetimes and failing nodes",
  "There are no tests of witnesses; mixed up or outdated ones need particular requests before, within the lifetime of a cache entry.",
  ["src/chains/eth/prover/proof_witness.c", "src/util/witness.c", "src/prover/prover.c"],
  [("witness", "c4_proof_witness, c4_proof_witness_blockhash"), ("signature", "c4_witness_sign"), ("cache", "c4_prover_cache_get, c4_prover_cache_set")],
  check={"note": "Real prover with the seeded scheduler of P11; the signature is recovered and the content compared with the simulated chain for every witness.",
         "parts": [part("net", 5000, 50, 300000, 780, NETREAL, NETSTUB)],
         "assumptions": ["Nodes may fail, but do not lie (a witness signs what its nodes tell); there are no reorgs in these runs."]})

