/* Reports to the books, if linked with ledger.c. */
extern long ledger_live(void) __attribute__((weak));
extern void ledger_start(void) __attribute__((weak));
#define LEDGER_TO(f, ...) do { if (ledger_live) { fprintf(f, "M "); fprintf(f, __VA_ARGS__); fprintf(f, " %ld\n", ledger_live()); } } while (0)
#define LEDGER(...) LEDGER_TO(stdout, __VA_ARGS__)
