/* Stand-in for <immintrin.h>: declares the vector types and intrinsics the code
 * uses without bodies.  Their lane-wise meaning is given in engine/intrin.py and
 * is compared with the real hardware instructions by native/intrin_check. */
#pragma once
typedef struct vcg_m256 { unsigned char b[32]; } __m256i;
typedef struct vcg_m128 { unsigned char b[16]; } __m128i;
__m256i _mm256_loadu_si256(const __m256i *p);
__m256i _mm256_load_si256(const __m256i *p);
__m128i _mm_loadu_si128(const __m128i *p);
void _mm256_storeu_si256(__m256i *p, __m256i a);
void _mm256_store_si256(__m256i *p, __m256i a);
void _mm_storeu_si128(__m128i *p, __m128i a);
__m256i _mm256_add_epi8(__m256i a, __m256i b);
__m256i _mm256_add_epi16(__m256i a, __m256i b);
__m256i _mm256_add_epi64(__m256i a, __m256i b);
__m256i _mm256_sub_epi8(__m256i a, __m256i b);
__m256i _mm256_sub_epi16(__m256i a, __m256i b);
__m256i _mm256_mullo_epi16(__m256i a, __m256i b);
__m256i _mm256_mulhi_epu16(__m256i a, __m256i b);
__m256i _mm256_srai_epi16(__m256i a, int n);
__m256i _mm256_srli_epi16(__m256i a, int n);
__m256i _mm256_slli_epi16(__m256i a, int n);
__m256i _mm256_and_si256(__m256i a, __m256i b);
__m256i _mm256_or_si256(__m256i a, __m256i b);
__m256i _mm256_xor_si256(__m256i a, __m256i b);
__m256i _mm256_set1_epi8(char n);
__m256i _mm256_set1_epi16(short n);
__m256i _mm256_setzero_si256(void);
__m256i _mm256_unpacklo_epi8(__m256i a, __m256i b);
__m256i _mm256_unpackhi_epi8(__m256i a, __m256i b);
__m256i _mm256_cvtepu8_epi16(__m128i a);
__m128i _mm256_extracti128_si256(__m256i a, int n);
__m256i _mm256_shuffle_epi8(__m256i a, __m256i b);
__m256i _mm256_permute2x128_si256(__m256i a, __m256i b, int n);
__m256i _mm256_permute4x64_epi64(__m256i a, int n);
__m256i _mm256_min_epu8(__m256i a, __m256i b);
__m256i _mm256_max_epu8(__m256i a, __m256i b);
__m256i _mm256_cmpeq_epi8(__m256i a, __m256i b);
__m256i _mm256_cmpgt_epi8(__m256i a, __m256i b);
__m256i _mm256_blendv_epi8(__m256i a, __m256i b, __m256i m);
__m256i _mm256_andnot_si256(__m256i a, __m256i b);
__m256i _mm256_subs_epu8(__m256i a, __m256i b);
__m128i _mm_add_epi8(__m128i a, __m128i b);
__m128i _mm_and_si128(__m128i a, __m128i b);
__m128i _mm_srli_epi16(__m128i a, int n);
int _mm256_movemask_epi8(__m256i a);
