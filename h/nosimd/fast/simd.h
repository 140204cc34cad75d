/* stands in for /repo/inc/fast/simd.h on a machine without SIMD: selects the portable code */
#ifndef VERIF_NOSIMD_H
#define VERIF_NOSIMD_H
#define __NO_SIMD__ 1
#define SIMD_PREFETCH_T0(x) ((void)(x))
#endif
