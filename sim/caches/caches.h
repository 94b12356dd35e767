void run_prover_cache(void);
void run_logs_cache(void);
void run_tx_cache(void);
