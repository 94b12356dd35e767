// A simulated libcurl (easy, multi with socket callbacks, share, slist) on top of the simulated time
#ifndef SCURL_H
#define SCURL_H
#include "../world/world.h"
#include <stdbool.h>
#include <stdint.h>
typedef struct {
  int      outcome; // 0 answer, 1 connection refused, 2 no answer at all, 3 connection lost within the answer
  long     code;
  wbuf     body;
  uint64_t connect_ms, delay_ms;
  bool     stream; // the answer never ends (server sent events)
} sresp;
// answers of the nodes, asked when the request is sent
extern void (*scurl_answer)(const char* method, const char* url, const uint8_t* post, size_t n, const char* accept, sresp* out);
void scurl_reset(void);
extern int scurl_open; // transfers in progress
#endif
