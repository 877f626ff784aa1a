#include "common.hpp"
// name, traits, parameter strings ("" = defaults)
#define A(n, tr, ...) {#n, n##_init, {"", ##__VA_ARGS__}, tr}
enum { REM = T_REMOVE, EVC = T_EVICT, TOE = T_TOEVICT, ALL = T_REMOVE | T_EVICT | T_TOEVICT };
const vector<Algo> &all_algos() {
  static vector<Algo> v = {
      A(FIFO, ALL), A(LRU, ALL), A(MRU, ALL), A(Clock, ALL, "n-bit-counter=1", "n-bit-counter=2", "n-bit-counter=3"),
      A(Sieve, ALL),
      A(SLRU, ALL | T_HIT_EVICTS, "n-seg=1", "n-seg=2", "n-seg=3", "n-seg=8", "seg-size=1:2:1", "seg-size=3:1"),
      A(LFU, ALL), A(LFUCpp, ALL), A(LFUDA, ALL), A(GDSF, ALL), A(Size, ALL),
      A(Hyperbolic, ALL | T_RAND, "n-sample=8", "n-sample=2"),
      A(Random, REM | EVC | T_RAND), A(RandomTwo, REM | EVC | T_RAND), A(RandomLRU, REM | EVC | T_RAND, "n-sample=4", "n-sample=2"),
      A(ARC, REM), A(TwoQ, REM, "Ain-size-ratio=0.1,Aout-size-ratio=0.5", "Ain-size-ratio=0.5,Aout-size-ratio=1"),
      A(LeCaR, ALL | T_RAND, "lru-weight=0.9", "update-weight=0"), A(Cacheus, T_RAND | T_NO_MD),
      A(WTinyLFU, REM | EVC | T_HIT_EVICTS | T_OWN_ADMIT, "main-cache=SLRU", "main-cache=LRU,window-size=0.1", "main-cache=Clock,window-size=0.3"),
      A(FIFO_Merge, EVC | T_RAND, "retain-policy=frequency", "retain-policy=recency,n-exam=20,n-keep=10", "n-exam=10,n-keep=2", "retain-policy=none,n-exam=10"),
      A(FIFO_Reinsertion, REM | EVC | T_RAND, "retain-policy=recency,n-exam=20,n-keep=10", "n-exam=10,n-keep=2", "retain-policy=none,n-exam=10"),
      A(S3FIFO, REM, "fifo-size-ratio=0.2,ghost-size-ratio=0.5,move-to-main-threshold=1", "fifo-size-ratio=0.5,move-to-main-threshold=3"),
      A(QDLP, REM, "fifo-size-ratio=0.2", "fifo-size-ratio=0.25,ghost-size-ratio=0.5,move-to-main-threshold=2", "main-cache=Sieve", "main-cache=LRU"),
      A(LHD, ALL | T_RAND | T_SENTINEL), A(Belady, ALL | T_ORACLE), A(BeladySize, REM | EVC | T_HIT_EVICTS | T_ORACLE | T_RAND | T_HIT_VANISH, "n-sample=16"),
  };
  return v;
}
