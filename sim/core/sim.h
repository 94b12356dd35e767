// Deterministic simulation core: one seed (or one decision tape) = one exactly repeatable execution.
#ifndef SIM_H
#define SIM_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#define SIM_TAPE_MAX   (1u << 17)
#define SIM_FAULTS_MAX 96
#define SIM_STATES_MAX 4096
#define SIM_TRACE_MAX  (1u << 18)

// ---- decisions (on the tape; 0 is always the benign choice) ------------------
// uniform 0..n-1
uint32_t sim_choose(uint32_t n, const char* label);
// true with `permille`/1000
bool     sim_chance(uint32_t permille, const char* label);
// a fault: like sim_chance, but scaled by the swarm configuration of the run and counted when it fires
bool     sim_fault(const char* kind, uint32_t permille);
// count a fault which was injected by other means
void     sim_fault_count(const char* kind);
// false once faults have been healed
bool     sim_faults_on(void);
void     sim_heal(void);
// ---- content randomness (not on the tape, derived from the seed and the stream name) -----
uint64_t sim_rand(uint64_t* stream);
uint64_t sim_stream(const char* name);
void     sim_fill(uint64_t* stream, uint8_t* out, size_t len);
// ---- virtual clock ----------------------------------------------------------------
extern uint64_t sim_now_ms; // virtual unix time in ms
void     sim_advance(uint64_t ms);
// ---- history ------------------------------------------------------------------------
void     sim_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// hash (not text) of data into the trace
void     sim_log_data(const char* tag, const void* data, size_t len);
// an abstract state reached (measure for distinct states)
void     sim_state(uint64_t h);
uint64_t sim_hash(uint64_t h, const void* data, size_t len);
// counts one oracle evaluation
void     sim_checked(uint32_t n);
void     sim_stat(const char* name, uint64_t n);
bool     sim_verbose(void);
uint64_t sim_seed(void);
const char* sim_prop(void); // property under check
bool     sim_is(const char* prop);
// ---- verdicts -------------------------------------------------------------------------
// reports a violation of the property under check and ends the run. `kind` identifies the
// violated invariant (it has to be stable), the text describes the instance.
void     sim_violation(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
// the run cannot decide anything (harness trouble): ends the run with an error
void     sim_error(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
// ends the run successfully right here
void     sim_done(void) __attribute__((noreturn));
#define SIM_REQUIRE(cond, kind, ...) do { sim_checked(1); if (!(cond)) sim_violation(kind, __VA_ARGS__); } while (0)

// supplied by the simulator
typedef struct {
  const char* prop;
  const char* tier;
} sim_cfg_t;
void sim_warmup(const sim_cfg_t* cfg); // once per worker process before any run
void sim_run(const sim_cfg_t* cfg);    // one simulated run, in a fresh forked process
extern const char* sim_name;
#endif
