// the command line parser itself, with its file-local functions in reach of nobody but this unit
#include "bin/cachesim/cli_parser.c"
#include "bin/cli_reader_utils.c"
void verif_parse(int argc, char **argv, uint64_t *sizes, uint64_t *csizes, int *n) {
  static struct arguments a;
  memset(&a, 0, sizeof a);
  parse_cmd(argc, argv, &a);
  *n = a.n_cache_size;
  for (int i = 0; i < a.n_cache_size && i < N_MAX_CACHE_SIZE; i++) { sizes[i] = a.cache_sizes[i]; csizes[i] = a.caches[i]->cache_size; }
}
// two algorithms the parser names but the library archive does not hold; never created here
__attribute__((weak)) cache_t *flashProb_init(const common_cache_params_t p, const char *s) { abort(); }
__attribute__((weak)) cache_t *S3LRU_init(const common_cache_params_t p, const char *s) { abort(); }
