#include "caches.h"
#include "../core/sim.h"
#include "tx_cache.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

// Reference model: hash -> (block, index) plus the groups of entries in the order in which they were first stored; whole
// groups are given up, oldest first, only when room is needed.
typedef struct {
  uint8_t  key[32];
  bool     present;
  uint64_t block;
  uint32_t idx;
  uint32_t group;
} ment_t;
static ment_t*  M;
static int      nm;
static uint32_t group_tail, group_head; // group numbers, tail 0: none
static uint64_t group_block;
static size_t   m_size;

static void m_clean(size_t need, size_t max) {
  while (m_size + need > max && m_size) {
    uint32_t g = UINT32_MAX;
    for (int i = 0; i < nm; i++)
      if (M[i].present && M[i].group < g) g = M[i].group;
    for (int i = 0; i < nm; i++)
      if (M[i].present && M[i].group == g) {
        M[i].present = false;
        m_size--;
      }
    if (g == group_tail) group_block = UINT64_MAX; // the newest group is gone
    sim_stat("evicted_groups", 1);
  }
}
static void m_store(ment_t* e, uint64_t block, uint32_t idx) {
  if (!e->present) {
    if (group_block != block) {
      group_tail++;
      group_block = block;
    }
    e->group   = group_tail;
    e->present = true;
    m_size++;
  }
  e->block = block;
  e->idx   = idx;
}

static void check_one(int i, const char* op) {
  ment_t*  e = M + i;
  uint64_t b = 0xdeadbeef;
  uint32_t x = 0xdead;
  bool     hit = c4_eth_tx_cache_get(e->key, &b, &x);
  if (e->present) {
    SIM_REQUIRE(hit, "tx-cache-lost", "after %s: transaction %d (block %llu) is gone although there was room for it", op, i, (unsigned long long) e->block);
    SIM_REQUIRE(b == e->block && x == e->idx, "tx-cache-stale", "after %s: transaction %d is located at %llu/%u, last stored %llu/%u", op, i, (unsigned long long) b, x, (unsigned long long) e->block, e->idx);
  }
  else
    SIM_REQUIRE(!hit, "tx-cache-ghost", "after %s: transaction %d is located at %llu/%u although it was never stored or was given up", op, i, (unsigned long long) b, x);
}
static void check_all(const char* op) {
  for (int i = 0; i < nm; i++) check_one(i, op);
}
static void check_size(const char* op) {
  size_t s = c4_eth_tx_cache_size();
  SIM_REQUIRE(s == m_size, "tx-cache-size", "after %s: the cache reports %zu entries, expected %zu", op, s, m_size);
  SIM_REQUIRE(s <= c4_eth_tx_cache_capacity(), "tx-cache-limit", "after %s: %zu entries with a limit of %zu", op, s, c4_eth_tx_cache_capacity());
  uint64_t h = sim_hash(0, &s, sizeof(s));
  h          = sim_hash(h, &group_tail, 4);
  sim_state(h);
}

static void do_set(int i, uint64_t block, uint32_t idx) {
  ment_t* e   = M + i;
  size_t  max = c4_eth_tx_cache_capacity();
  if (m_size >= max && e->present) {
    // updating an entry of a full cache: making room first and updating in place are both fine. They cannot be told apart
    // if the entry is alone in the oldest group, so this is not done.
    uint32_t oldest = UINT32_MAX;
    int      members = 0;
    for (int k = 0; k < nm; k++)
      if (M[k].present && M[k].group < oldest) oldest = M[k].group;
    for (int k = 0; k < nm; k++) members += M[k].present && M[k].group == oldest;
    if (e->group == oldest && members == 1) return;
    c4_eth_tx_cache_set(e->key, block, idx);
    if (c4_eth_tx_cache_size() != m_size) m_clean(1, max);
  }
  else {
    c4_eth_tx_cache_set(e->key, block, idx);
    m_clean(m_size >= max ? 1 : 0, max);
  }
  m_store(e, block, idx);
  check_one(i, "set");
}

void run_tx_cache(void) {
  uint64_t st   = sim_stream("keys");
  bool     huge = sim_choose(48, "huge") == 47;
  nm            = huge ? 20000 : 8 + (int) sim_choose(400, "keys");
  M             = calloc(nm, sizeof(ment_t));
  group_block   = UINT64_MAX;
  int spread    = sim_choose(4, "spread");
  for (int i = 0; i < nm; i++) {
    sim_fill(&st, M[i].key, 32);
    if (!huge) { // hashes which share their low bits, at the start, the end or anywhere in the value range
      uint64_t v;
      memcpy(&v, M[i].key, 8);
      uint64_t low = spread == 0 ? (v & 3) : spread == 1 ? 16380 + (v & 7) : spread == 2 ? (v & 31) + 16370 : v;
      v            = (v & ~0xffffull) | (low & 0x3fff) | (v & 0xc000);
      memcpy(M[i].key, &v, 8);
    }
  }
  static const uint32_t caps[] = {1, 2, 7, 30, 100, 300, 1000};
  uint32_t              cap    = huge ? 16384 - 4 + sim_choose(5000, "cap") : caps[sim_choose(7, "cap")];
  c4_eth_tx_cache_set_max_size(cap);
  sim_log("keys=%d limit=%u (asked %u) spread=%d", nm, (unsigned) c4_eth_tx_cache_capacity(), cap, spread);
  uint64_t block = 1000;
  int      steps = huge ? 3 : 30 + sim_choose(120, "steps");
  int      next  = 0;
  for (int s = 0; s < steps; s++) {
    int op = huge ? 0 : sim_choose(16, "op");
    if (op <= 8) { // a new block: reserve and store its transactions, as the block loader does
      uint32_t n     = huge ? 8000 : 1 + sim_choose(op == 8 ? 60 : 9, "txs");
      bool     reorg = !huge && sim_fault("reorg", 150);
      if (!reorg) block += 1 + sim_choose(2, "gap");
      else if (sim_chance(500, "deeper")) block -= block > 1002 ? 2 : 0;
      sim_log("block %llu txs %u%s", (unsigned long long) block, n, reorg ? " (reorg)" : "");
      size_t max = c4_eth_tx_cache_capacity();
      c4_eth_tx_cache_reserve(n);
      m_clean(n, max);
      check_size("reserve");
      for (uint32_t i = 0; i < n; i++) {
        int k = huge ? next++ % nm : (int) sim_choose(nm, "tx");
        if (huge) {
          // bulk: model only
          c4_eth_tx_cache_set(M[k].key, block, i);
          m_clean(m_size >= max ? 1 : 0, max);
          m_store(M + k, block, i);
        }
        else
          do_set(k, block, i);
      }
      if (huge || nm < 64 || sim_choose(4, "full check") == 0) check_all("block");
    }
    else if (op <= 11) {
      int k = sim_choose(nm, "lookup");
      sim_log("lookup %d", k);
      check_one(k, "lookup");
    }
    else if (op == 12) { // same transactions again (block fetched a second time)
      int      k = sim_choose(nm, "again");
      uint32_t i = sim_choose(100, "idx");
      sim_log("store %d again at %llu/%u", k, (unsigned long long) block, i);
      do_set(k, block, i);
    }
    else if (op == 13) {
      if (sim_choose(4, "resize") == 3) {
        cap = caps[sim_choose(7, "cap")];
        sim_log("limit %u", cap);
        c4_eth_tx_cache_set_max_size(cap);
        m_clean(0, c4_eth_tx_cache_capacity());
        sim_fault_count("limit-change");
      }
    }
    else if (op == 14) {
      if (sim_choose(8, "reset") == 7) {
        sim_log("reset");
        sim_fault_count("reset");
        c4_eth_tx_cache_reset();
        for (int i = 0; i < nm; i++) M[i].present = false;
        m_size      = 0;
        group_block = UINT64_MAX;
      }
    }
    else {
      sim_log("check all");
      check_all("history");
    }
    check_size("step");
  }
  check_all("end");
}
