/* exports inline/static functions of the real headers and sizes of the real
   types so that the replay engine can drive the code; no logic of its own */
#include <stdint.h>
#include <string.h>
#include "api.h"
#include "LESS.h"
#include "seedtree.h"
#include "utils.h"
#include "fips202.h"
#include "keccakf1600.h"
#include "sha3.h"
#include "fq_arith.h"
#ifndef N_pad
#define N_pad N
#endif
#ifndef N_K_pad
#define N_K_pad (N-K)
#endif
size_t vx_size(int w) {
    switch (w) {
    case 0: return sizeof(generator_mat_t);
    case 1: return sizeof(rref_generator_mat_t);
    case 2: return sizeof(normalized_IS_t);
    case 3: return sizeof(monomial_t);
    case 4: return sizeof(monomial_action_IS_t);
    case 5: return sizeof(pubkey_t);
    case 6: return sizeof(prikey_t);
    case 7: return sizeof(sign_t);
    case 8: return sizeof(((generator_mat_t *)0)->values[0]);
    case 9: return sizeof(((rref_generator_mat_t *)0)->values[0]);
    case 10: return sizeof(((normalized_IS_t *)0)->values[0]);
    case 11: return offsetof(monomial_t, permutation);
    case 12: return offsetof(monomial_action_IS_t, permutation);
    case 13: return offsetof(rref_generator_mat_t, column_pos);
    case 14: return sizeof(SHAKE_STATE_STRUCT);
    case 15: return sizeof(LESS_SHA3_INC_CTX);
    case 16: return offsetof(sign_t, monom_actions);
    case 17: return offsetof(sign_t, digest);
    case 18: return offsetof(sign_t, seed_storage);
    case 19: return N;
    case 20: return K;
    case 21: return T;
    case 22: return W;
    case 23: return MAX_PUBLISHED_SEEDS;
    case 24: return MONO_ACTION_PACKEDBYTES;
    case 25: return RREF_MAT_PACKEDBYTES;
    case 26: return NUM_NODES_OF_SEED_TREE;
    case 27: return sizeof(POSITION_T);
#ifdef CRYPTO_BYTES
    case 28: return CRYPTO_BYTES;
#endif
#ifdef CRYPTO_PUBLICKEYBYTES
    case 29: return CRYPTO_PUBLICKEYBYTES;
#endif
#ifdef CRYPTO_SECRETKEYBYTES
    case 30: return CRYPTO_SECRETKEYBYTES;
#endif
    }
    return 0;
}
#ifdef VX_RED
unsigned vx_fq_red(unsigned x) { return fq_red((FQ_DOUBLEPREC) x); }
#endif
#ifdef VX_INV
unsigned vx_fq_inv(unsigned x) { return fq_inv((FQ_ELEM) x); }
#endif
#ifdef VX_BR
unsigned vx_br_mul(unsigned a, unsigned b) { return br_mul((FQ_ELEM) a, (FQ_ELEM) b); }
unsigned vx_br_red(unsigned x) { return br_red((FQ_ELEM) x); }
#endif
#ifdef VX_SAMP
void vx_fq_star(SHAKE_STATE_STRUCT *s, FQ_ELEM *b, size_t n) { fq_star_rnd_state_elements(s, b, n); }
void vx_rand_q(SHAKE_STATE_STRUCT *s, FQ_ELEM *b, size_t n) { rand_range_q_state_elements(s, b, n); }
#endif
#ifdef VX_RB
void vx_csprng(SHAKE_STATE_STRUCT *s, unsigned char *x, unsigned long long n) { csprng_randombytes(x, n, s); }
void vx_seed_platform(const unsigned char *seed, uint32_t n) { initialize_csprng(&platform_csprng_state, seed, n); }
void vx_randombytes(unsigned char *x, unsigned long long n) { randombytes(x, n); }
#endif
#ifdef VX_SHA3
void vx_sha3_init(LESS_SHA3_INC_CTX *c) { LESS_SHA3_INC_INIT(c); }
void vx_sha3_absorb(LESS_SHA3_INC_CTX *c, const uint8_t *p, size_t n) { LESS_SHA3_INC_ABSORB(c, p, n); }
void vx_sha3_final(uint8_t *o, LESS_SHA3_INC_CTX *c) { LESS_SHA3_INC_FINALIZE(o, c); }
#endif
#ifdef VX_PROG
/* the challenge can be programmed and the recomputed digest observed (linked with --wrap) */
static int vx_on;
static uint8_t vx_x[T], vx_d[HASH_DIGEST_LENGTH];
static int vx_seen;
#define VX_P2(a, b) a##b
#define VX_P(a, b) VX_P2(a, b)
void __real_expand_digest_to_fixed_weight(uint8_t *x, const uint8_t *d);
void __wrap_expand_digest_to_fixed_weight(uint8_t *x, const uint8_t *d) {
    if (vx_on) memcpy(x, vx_x, T); else __real_expand_digest_to_fixed_weight(x, d);
}
void VX_P(__real_, VX_FIN)(uint8_t *o, LESS_SHA3_INC_CTX *c);
void VX_P(__wrap_, VX_FIN)(uint8_t *o, LESS_SHA3_INC_CTX *c) {
    VX_P(__real_, VX_FIN)(o, c);
    memcpy(vx_d, o, HASH_DIGEST_LENGTH);
    vx_seen = 1;
}
/* verdict of LESS_verify on sig for the programmed challenge; digest != 0: place the digest it recomputed in the signature and ask again */
int vx_verify(const pubkey_t *pk, const char *m, uint64_t n, sign_t *sig, const uint8_t *x, uint8_t *digest, int *seen, int flip) {
    memcpy(vx_x, x, T);
    vx_on = 1;
    vx_seen = 0;
    int r = LESS_verify(pk, m, n, sig);
    *seen = vx_seen;
    if (vx_seen) {
        memcpy(digest, vx_d, HASH_DIGEST_LENGTH);
        memcpy(sig->digest, vx_d, HASH_DIGEST_LENGTH);
        if (flip >= 0)
            sig->digest[flip >> 3] ^= (uint8_t) (1 << (flip & 7));
        r = LESS_verify(pk, m, n, sig);
    }
    vx_on = 0;
    return r;
}
#endif
