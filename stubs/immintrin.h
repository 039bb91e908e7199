/* the part of immintrin.h this code can reach at the baseline instruction set: the full header costs a
   quarter of a second per translation unit */
#if defined(__AVX__) || defined(__FMA__)
#include_next <immintrin.h>
#else
#include <smmintrin.h>
#endif
