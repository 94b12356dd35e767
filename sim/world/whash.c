// independent SHA-256 and Keccak-256
#include "world.h"
#include <string.h>
static const uint32_t K[64] = {
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
#define R(x, n) (((x) >> (n)) | ((x) << (32 - (n))))
static void blk(uint32_t h[8], const uint8_t* p) {
  uint32_t w[64];
  for (int i = 0; i < 16; i++) w[i] = (uint32_t) p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
  for (int i = 16; i < 64; i++) w[i] = w[i - 16] + w[i - 7] + (R(w[i - 15], 7) ^ R(w[i - 15], 18) ^ w[i - 15] >> 3) + (R(w[i - 2], 17) ^ R(w[i - 2], 19) ^ w[i - 2] >> 10);
  uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], j = h[7];
  for (int i = 0; i < 64; i++) {
    uint32_t t1 = j + (R(e, 6) ^ R(e, 11) ^ R(e, 25)) + ((e & f) ^ (~e & g)) + K[i] + w[i];
    uint32_t t2 = (R(a, 2) ^ R(a, 13) ^ R(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
    j = g, g = f, f = e, e = d + t1, d = c, c = b, b = a, a = t1 + t2;
  }
  h[0] += a, h[1] += b, h[2] += c, h[3] += d, h[4] += e, h[5] += f, h[6] += g, h[7] += j;
}
void w_sha256(const void* data, size_t n, uint8_t out[32]) {
  uint32_t       h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  const uint8_t* p    = data;
  size_t         l    = n;
  for (; l >= 64; l -= 64, p += 64) blk(h, p);
  uint8_t t[128] = {0};
  if (l) memcpy(t, p, l);
  t[l]     = 0x80;
  int      m = l < 56 ? 64 : 128;
  uint64_t b = (uint64_t) n * 8;
  for (int i = 0; i < 8; i++) t[m - 1 - i] = b >> (8 * i);
  blk(h, t);
  if (m == 128) blk(h, t + 64);
  for (int i = 0; i < 8; i++) out[4 * i] = h[i] >> 24, out[4 * i + 1] = h[i] >> 16, out[4 * i + 2] = h[i] >> 8, out[4 * i + 3] = h[i];
}
void w_sha2(const uint8_t a[32], const uint8_t b[32], uint8_t out[32]) {
  uint8_t t[64];
  memcpy(t, a, 32);
  memcpy(t + 32, b, 32);
  w_sha256(t, 64, out);
}
static const uint64_t RC[24] = {1, 0x8082, 0x800000000000808aULL, 0x8000000080008000ULL, 0x808b, 0x80000001, 0x8000000080008081ULL, 0x8000000000008009ULL, 0x8a, 0x88, 0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008bULL, 0x8000000000008089ULL, 0x8000000000008003ULL, 0x8000000000008002ULL, 0x8000000000000080ULL, 0x800a, 0x800000008000000aULL, 0x8000000080008081ULL, 0x8000000000008080ULL, 0x80000001, 0x8000000080008008ULL};
static const int ROT[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44};
static const int PI[24]  = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
static void kf(uint64_t s[25]) {
  for (int r = 0; r < 24; r++) {
    uint64_t c[5], t;
    for (int i = 0; i < 5; i++) c[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20];
    for (int i = 0; i < 5; i++) {
      t = c[(i + 4) % 5] ^ (c[(i + 1) % 5] << 1 | c[(i + 1) % 5] >> 63);
      for (int j = 0; j < 25; j += 5) s[j + i] ^= t;
    }
    t = s[1];
    for (int i = 0; i < 24; i++) {
      uint64_t x = s[PI[i]];
      s[PI[i]]   = t << ROT[i] | t >> (64 - ROT[i]);
      t          = x;
    }
    for (int j = 0; j < 25; j += 5) {
      for (int i = 0; i < 5; i++) c[i] = s[j + i];
      for (int i = 0; i < 5; i++) s[j + i] ^= ~c[(i + 1) % 5] & c[(i + 2) % 5];
    }
    s[0] ^= RC[r];
  }
}
void w_keccak(const void* data, size_t n, uint8_t out[32]) {
  uint64_t       s[25] = {0};
  const uint8_t* p     = data;
  uint64_t       t[17];
  for (; n >= 136; n -= 136, p += 136) {
    memcpy(t, p, 136);
    for (int i = 0; i < 17; i++) s[i] ^= t[i];
    kf(s);
  }
  uint8_t b[136] = {0};
  if (n) memcpy(b, p, n);
  b[n] = 1;
  b[135] |= 0x80;
  memcpy(t, b, 136);
  for (int i = 0; i < 17; i++) s[i] ^= t[i];
  kf(s);
  memcpy(out, s, 32);
}
