// A simulated libuv: the event loop, timers, streams, polls, the thread pool and the file system behind the real uv.h interface.
#ifndef SUV_H
#define SUV_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <uv.h>

// the other end of a tcp connection
typedef struct speer speer;
struct speer {
  void (*on_data)(speer* p, const uint8_t* d, size_t n);
  void (*on_close)(speer* p); // the server closed the connection
  void (*on_open)(speer* p);  // an outgoing connection was accepted
  void*  ctx;
  struct sconn* conn;
};
void suv_dial(speer* p);                                  // a new connection to the listening server
void suv_send(speer* p, const void* d, size_t n);         // makes bytes readable for the server
void suv_hangup(speer* p, int err);                       // UV_EOF or an error after the bytes sent so far
size_t suv_delivered(speer* p);                           // bytes read by the server
bool suv_gone(speer* p);                                  // closed by the server
// decides about an outgoing connection: NULL refuses; *delay ms until the answer (-1: never)
extern speer* (*suv_on_connect)(int port, int* delay);
void suv_at(uint64_t delay_ms, void (*fn)(void*), void* arg); // event of a simulated actor
bool suv_iterate(void);                                   // one loop iteration, false if nothing can ever happen again
uint64_t suv_next(void);                                  // ms until the next event of an actor or timer
void suv_signal(int signum);
void suv_reset(void); // the process died
extern int suv_slow_work; // the thread pool takes its time
int  suv_handles(void);   // number of handles not yet closed
// readiness of the sockets of the simulated curl
int  scurl_ready(int fd, int events);
uint64_t scurl_next(void); // time of the next readiness change
#endif
