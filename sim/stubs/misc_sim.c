// Seams: the virtual clock and ideal functionalities of libraries which are not available here.
#include "bytes.h"
#include "sim.h"
#include "sha2.h"
#include "chains/eth/zk_verifier/zk_verifier_constants.h"
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>

int __wrap_gettimeofday(struct timeval* tv, void* tz) {
  tv->tv_sec  = sim_now_ms / 1000;
  tv->tv_usec = (sim_now_ms % 1000) * 1000;
  return 0;
}
time_t __wrap_time(time_t* t) {
  time_t v = sim_now_ms / 1000;
  if (t) *t = v;
  return v;
}
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
  ts->tv_sec  = sim_now_ms / 1000;
  ts->tv_nsec = (sim_now_ms % 1000) * 1000000;
  return 0;
}

// an ideal zk proof system: only the simulated honest zk prover knows how to make a valid proof for public inputs
void zksim_prove(const uint8_t* pub, size_t len, const uint8_t* vk, uint8_t out[32]) {
  SHA256_CTX c;
  sha256_Init(&c);
  sha256_Update(&c, (const uint8_t*) "zksim-secret", 12);
  sha256_Update(&c, vk, 32);
  sha256_Update(&c, pub, len);
  sha256_Final(&c, out);
}
bool c4_verify_zk_proof(bytes_t proof, bytes_t public_inputs, const uint8_t* program_hash) {
  uint8_t h[32];
  if (proof.len < 32 || memcmp(program_hash, VK_PROGRAM_HASH, 32)) return false; // only this program is registered
  zksim_prove(public_inputs.data, public_inputs.len, program_hash, h);
  return memcmp(h, proof.data, 32) == 0;
}
