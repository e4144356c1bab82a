"""Which units (functions under contract) decide which property."""
SETS = [('1', 'BALANCED'), ('1', 'INTERMEDIATE'), ('1', 'SHORT_SIG'),
        ('3', 'BALANCED'), ('3', 'SHORT_SIG'), ('5', 'BALANCED'), ('5', 'SHORT_SIG')]
DIMS = [('1', 'BALANCED'), ('3', 'BALANCED'), ('5', 'BALANCED')]    # one set per (N,K,S)
IMPLS = ['ref', 'avx2']

TB = ['CBMC 6.11 front end (goto-cc) for C semantics', '/verif/engine (VC generator, own memory model: typed objects, no aliasing between distinct objects)',
      'z3', 'gcc -E preprocessing; only textual change: block-scope "static const T X =" becomes "const T X ="',
      'harness preconditions as listed in DESIGN.md', 'C library memcpy/memset/memmove contracts']

LANES = 'vector intrinsics: lane-wise meaning as stated in engine/intrin.py; field meaning of a lane established by evaluating all 127^2 operand pairs'


def U(module, funcs, bases, sets=SETS, impls=IMPLS, limit=300):
    return [(module, f, i, c, v, bases, limit) for f in funcs for i in impls for c, v in sets]


def N(secs, sets=SETS, impls=IMPLS, san=False):
    return [(i, c, v, secs, san) for i in impls for c, v in sets]


def LEM(*fs):
    return U('spec_lemmas', ['u_' + f for f in fs], [], sets=[('1', 'BALANCED')], impls=['ref'])


LEAN = 'Lean 4 kernel and Mathlib for the lemmas in lemmas/*.lean, whose hypotheses are read off the contracts'
RANKL = 'a product of a matrix with K unit columns and a valid monomial has rank K, so its row reduction succeeds (lemmas Rref.systematic_rank, Rref.monomial_rank)'


def T(tier, q, t):
    return q if tier == 'quick' else t


def C02(tier):
    return dict(level='proof', units=U('spec_monomial', ['u_mul', 'u_inv', 'u_id', 'u_compose'], ['monomial']),
                native=N(T(tier, 2, 30), DIMS), trusted=TB,
                bounded='random and structured monomials against the executable specification',
                assumptions=['res, A and B are distinct objects', 'fq_red and fq_inv by contract (discharged in C01)'])


def C03(tier):
    return dict(level='proof', units=U('spec_monomial', ['u_shuffle', 'u_expand_eph', 'u_expand_prv', 'u_star', 'u_star_platform', 'u_rnd'], ['monomial']),
                native=N(T(tier, 2, 30), DIMS), trusted=TB,
                bounded='random seeds against the executable specification',
                assumptions=['stream contract: OUT(id,k) is byte k of the extendable output of the absorbed string (C17)',
                             'fewer than 2^56 words are drawn from one stream'])


def C06(tier):
    return dict(level='proof', units=U('spec_monomial', ['u_valid', 'u_valid_complete'], ['monomial']),
                native=N(T(tier, 2, 30), DIMS), trusted=TB, bounded='well-formed and malformed actions', assumptions=[])


def C04(tier):
    return dict(level='proof', units=U('spec_monomial', ['u_star', 'u_star_platform'], ['monomial']) + U('spec_monomial', ['u_range', 'u_range_platform'], ['codes']) + U('spec_codes', ['u_sfseed', 'u_rnd'], ['codes']),
                native=N(T(tier, 2, 30), DIMS), trusted=TB, bounded='random streams and seeds against the executable specification',
                assumptions=['stream contract: OUT(id,k) is byte k of the extendable output of the absorbed string (C17)',
                             'fewer than 2^56 words are drawn from one stream, 1 <= n <= 2^40 elements requested'])


def C07(tier):
    return dict(level='proof', units=U('spec_codes', ['u_gmm'], ['codes']) + U('spec_codes', ['u_rgmm'], ['codes'], impls=['ref']),
                native=N(T(tier, 2, 30), DIMS), trusted=TB + [LANES], bounded='random and structured matrices and monomials',
                assumptions=['result and operands are distinct objects', 'fq_red by contract (C01)'])


def C08(tier):
    return dict(level='proof', units=U('spec_rref', ['u_rref'], ['codes'], limit=400) + LEM('rref_facts'),
                native=N(T(tier, 3, 40), DIMS), trusted=TB + [LANES, LEAN], bounded='full-rank, rank-deficient and late-pivot matrices',
                assumptions=['the flag array is zero on entry (every caller zeroes it)', 'field lemmas of F_127 (C01)',
                             'the proved step is an invertible row operation, success and failure decide the rank and the reduced form is unique: lemmas Rref.step, Rref.steps, Rref.success_full_rank, Rref.failure_rank, Rref.unique'])


def C10(tier):
    return dict(level='proof', units=U('spec_codes', ['u_compact', 'u_expand'], ['codes']) + LEM('ranks'),
                native=N(T(tier, 2, 30), DIMS), trusted=TB, bounded='random pivot sets',
                assumptions=['ranks of a K-subset of the columns exist with the facts used (lemmas Ranks.ranks, Ranks.complement)'])


def C11(tier):
    return dict(level='proof', units=U('spec_codes', ['u_lexmin'], ['codes']),
                native=N(T(tier, 2, 30), DIMS), trusted=TB, bounded='columns with every position of the first nonzero entry',
                assumptions=['field lemmas of F_127 (C01)'])


ONE = [('1', 'BALANCED')]      # code that does not depend on the parameter set


def C17(tier):
    return dict(level='proof', units=U('spec_keccak', ['u_absorb', 'u_squeeze', 'u_absorb1', 'u_blocks', 'u_init', 'u_finalize', 'u_w_shake128', 'u_w_shake256',
                                                       'u_w_256', 'u_w_384', 'u_w_512'], ['fips202'], sets=ONE) +
                U('spec_keccak', ['u_xor', 'u_extract'], ['keccakf1600'], sets=ONE) + U('spec_keccak', ['u_csprng', 'u_draw'], ['rng'], sets=DIMS),
                native=N(T(tier, 4, 60), ONE), trusted=TB, bounded='random messages, chunkings and output lengths against an independent implementation',
                assumptions=['the permutation by its contract: lane l of the state after a block is BL/SL of the block position (discharged in C18)',
                             'fewer than 2^60 bytes are absorbed and 2^50 blocks squeezed', 'FIPS 202 padding written from the standard'])


def C18(tier):
    return dict(level='proof', units=U('spec_keccak', ['u_permute', 'u_xor', 'u_extract'], ['keccakf1600'], sets=ONE),
                native=N(T(tier, 2, 20), ONE), trusted=TB + ['engine/bitcanon.py: canonical form for exclusive-or/product terms'],
                bounded='random states against an independent implementation', assumptions=['rotation offsets and round constants generated from the definitions in FIPS 202'])


def C01(tier):
    return dict(level='proof', units=U('spec_field', ['u_scalar'], ['codes', 'monomial'], sets=DIMS) + U('spec_field', ['u_lemmas'], ['codes'], sets=ONE, impls=['ref']) +
                U('spec_codes', ['u_gmm'], ['codes'], sets=T(tier, ONE, DIMS), impls=['avx2']) + U('spec_rref', ['u_rref'], ['codes'], sets=T(tier, ONE, DIMS), impls=['avx2'], limit=400),
                native=N(T(tier, 2, 20), DIMS), trusted=TB + [LANES], bounded='field operations through the matrix and monomial entry points',
                assumptions=['scalar functions are evaluated on their complete operand range through the verification-condition generator, which is exhaustive, not sampled'])


def C12(tier):
    return dict(level='proof', units=U('spec_sort', ['u_compare', 'u_swap', 'u_partition', 'u_quicksort', 'u_sortcols'], ['codes'], sets=DIMS),
                native=N(T(tier, 3, 40), DIMS), trusted=TB, bounded='random, sorted, reversed and heavily repeated columns',
                assumptions=['recursion depth is at most the number of columns (126 to 274 frames)'])


def C13(tier):
    return dict(level='proof', units=U('spec_commit', ['u_prepare'], ['codes'], sets=DIMS) + U('spec_codes', ['u_apply'], ['codes'], sets=DIMS) + LEM('ranks', 'rref_facts'),
                native=N(T(tier, 3, 40), DIMS), trusted=TB + [LEAN], bounded='random monomials against the executable specification',
                assumptions=['generator_monomial_mul, generator_RREF, lex_minimize and lex_sort_cols by contract (discharged in C07, C08, C11, C12)',
                             RANKL, 'ranks of the pivot columns exist with the facts used; K distinct used columns leave N-K (lemmas Ranks.ranks, Ranks.distinct_count)'])


def C05(tier):
    return dict(level='proof', units=U('spec_codec', ['u_action'], ['monomial'], sets=DIMS) + U('spec_codec', ['u_room'], ['LESS']),
                native=N(T(tier, 2, 30), DIMS), trusted=TB + ['engine/bitcanon.py: canonical form for exclusive-or/product terms'],
                bounded='random and extreme actions',
                assumptions=['the action and the byte string are distinct objects',
                             'both functions are executed completely: their K iterations are a constant of the parameter set and their control flow does not depend on the data, which is itself an obligation'])


def C09(tier):
    return dict(level='proof', units=U('spec_codec', ['u_compress', 'u_expand_rref', 'u_rref_roundtrip'], ['codes'], sets=DIMS) + U('spec_codec', ['u_room'], ['LESS']),
                native=N(T(tier, 2, 30), DIMS), trusted=TB, bounded='random pivot sets and entries, malformed strings',
                assumptions=['number of pivots before a column: definition by recursion, with its monotonicity', 'flags are 0 or 1 and K of them are set (C08)',
                             'the callers of expand_to_rref reject when it reports failure (decided in C20)'])


def C28(tier):
    us = [f'u_{x}_{b}' for b in ('kat_util', 'kat_nist') for x in ('update', 'update0', 'init', 'initp', 'rand', 'ecb', 'ecb0')]
    return dict(level='proof', units=U('spec_drbg', us[:7], ['kat_util'], sets=ONE, impls=['ref']) + U('spec_drbg', us[7:], ['kat_nist'], sets=ONE),
                native=N(T(tier, 3, 30), ONE), trusted=TB + ['OpenSSL: EVP_EncryptUpdate under EVP_aes_256_ecb computes AES-256 of one block when it reports success'],
                bounded='random request sequences and counters about to overflow, against an independent AES-256 CTR DRBG',
                assumptions=['one request asks for fewer than 2^31 bytes (the code indexes with int)', 'output buffer, seed and generator state are distinct objects'])


def C14(tier):
    return dict(level='proof', units=U('spec_seed', ['u_generate', 'u_path', 'u_rebuild'], ['seedtree']) + LEM('ranks'),
                native=N(T(tier, 2, 30), SETS), trusted=TB, bounded='random, extreme and evenly spread hidden sets',
                assumptions=['at least one round is hidden (the challenge has weight W > 0, C16)', 'stream contract: OUT(id,k) is byte k of the extendable output of the absorbed string (C17)',
                             'number of published nodes before a node and k-th published node exist with the facts used (lemma Ranks.ranks)'])


def C15(tier):
    return dict(level='proof', units=U('spec_seed', ['u_path'], ['seedtree']) + U('spec_seed', ['u_secrecy'], ['seedtree'], impls=['ref']) + U('spec_seed', ['u_space'], ['LESS']) + LEM('space_bound'),
                native=N(T(tier, 2, 30), SETS), trusted=TB + [LEAN],
                bounded='random hidden sets and sets that maximise the path',
                assumptions=['exactly W rounds are hidden (C16)', 'a table that dominates every split bounds the number of published nodes (lemma Space.bound, whose hypotheses on the table are obligations)', 'the seeds of distinct nodes are related only through the extendable output (one-way by assumption)'])


def C16(tier):
    return dict(level='proof', units=U('spec_challenge', ['u_challenge'], ['utils']) + LEM('ranks'),
                native=N(T(tier, 2, 30), SETS), trusted=TB, bounded='random digests',
                assumptions=['the challenge array is zero on entry (every caller initialises it so)', 'termination is not claimed: it depends on the extendable output',
                             'stream contract: OUT(id,k) is byte k of the extendable output of the absorbed string (C17)',
                             'the number of nonzero entries rises by one whenever a nonzero value is stored over a zero (lemma Ranks.store_count)'])


CAT1 = [x for x in SETS if x[0] == '1']
CRYPTO = ['the extendable output, the hash and the sponge by contract (C17): OUT(id,k) is byte k of the output determined by the absorbed string',
          'callees of LESS.c by contract, each discharged in its own property (C03, C04, C05, C06, C09, C10, C13, C14, C16)']
SEARCH = [(i, c, v) for i in ['avx2', 'ref'] for c, v in CAT1]


def C19(tier):
    return dict(level='proof', units=U('spec_less', ['u_sign'], ['LESS']) + LEM('ranks', 'rref_facts'), native=N(T(tier, 15, 120), T(tier, ONE, CAT1), T(tier, ['avx2'], IMPLS)), search=SEARCH, trusted=TB,
                bounded='signatures recomputed by an independent executable specification',
                assumptions=CRYPTO + ['message, secret key and signature are distinct objects', RANKL, 'hidden rounds are counted with the facts of lemma Ranks.ranks'])


def C20(tier):
    return dict(level='proof', units=U('spec_less', ['u_verify'], ['LESS']) + U('spec_monomial', ['u_valid', 'u_valid_complete'], ['monomial'], sets=DIMS) + LEM('ranks', 'rref_facts'),
                native=N(T(tier, 15, 120), T(tier, [('1', 'BALANCED'), ('1', 'SHORT_SIG')], CAT1), T(tier, ['avx2'], IMPLS)), search=SEARCH, trusted=TB,
                bounded='programmed challenges with well-formed and malformed keys and responses, tampered signatures',
                assumptions=CRYPTO + [RANKL, 'hidden rounds are counted with the facts of lemma Ranks.ranks'])


def C21(tier):
    return dict(level='proof', units=U('spec_sign', ['u_open'], ['sign']) + U('spec_less', ['u_verify'], ['LESS']) +
                U('spec_codec', ['u_expand_rref', 'u_action'], ['codes', 'monomial'], sets=DIMS) + U('spec_monomial', ['u_valid'], ['monomial'], sets=DIMS) +
                U('spec_challenge', ['u_challenge'], ['utils']) + U('spec_seed', ['u_rebuild'], ['seedtree']) + U('spec_codes', ['u_apply'], ['codes'], sets=DIMS),
                native=N(T(tier, 12, 120), T(tier, ONE, DIMS), IMPLS, san=True), search=SEARCH, trusted=TB,
                bounded='random, truncated and mutated signed messages with every claimed seed count, under address and undefined-behaviour sanitisers',
                assumptions=CRYPTO + ['fewer than 2^62 bytes in a signed message', 'the output buffer has room for the message and does not overlap the input'])


def C22(tier):
    return dict(level='proof', units=U('spec_sign', ['u_sign_api'], ['sign']) + U('spec_sign', ['u_api'], ['api']) + U('spec_less', ['u_sign'], ['LESS']) + U('spec_seed', ['u_space'], ['LESS']) + LEM('space_bound'),
                native=N(T(tier, 15, 120), T(tier, ONE, CAT1), T(tier, ['avx2'], IMPLS)), search=SEARCH, trusted=TB, bounded='messages of many lengths signed and opened',
                assumptions=CRYPTO + ['message, key and signed-message buffers are distinct; the signed-message buffer has the message length plus the maximum signature size'])


def C23(tier):
    return dict(level='proof', units=U('spec_less', ['u_keygen'], ['LESS']) + U('spec_sign', ['u_keypair'], ['sign']) + U('spec_sign', ['u_api'], ['api']) + LEM('rref_facts'),
                native=N(T(tier, 5, 60), T(tier, DIMS, SETS)), search=SEARCH + [('avx2',) + x for x in SETS if x[0] != '1'], trusted=TB, bounded='key pairs recomputed by an independent executable specification',
                assumptions=CRYPTO + [RANKL])


def path_units(impls=IMPLS):
    """every function on the way from randomness to verdict"""
    big = dict(sets=DIMS, impls=impls)
    return (U('spec_sign', ['u_open', 'u_sign_api', 'u_keypair'], ['sign'], impls=impls) + U('spec_less', ['u_sign', 'u_verify', 'u_keygen'], ['LESS'], impls=impls) +
            U('spec_seed', ['u_generate', 'u_path', 'u_rebuild'], ['seedtree'], impls=impls) + U('spec_challenge', ['u_challenge'], ['utils'], impls=impls) +
            U('spec_codec', ['u_action'], ['monomial'], **big) + U('spec_codec', ['u_compress', 'u_expand_rref'], ['codes'], **big) +
            U('spec_monomial', ['u_mul', 'u_inv', 'u_compose', 'u_valid', 'u_star', 'u_shuffle', 'u_expand_eph', 'u_expand_prv'], ['monomial'], **big) +
            U('spec_monomial', ['u_range'], ['codes'], **big) + U('spec_codes', ['u_sfseed', 'u_gmm', 'u_compact', 'u_expand', 'u_lexmin', 'u_apply'], ['codes'], **big) +
            (U('spec_codes', ['u_rgmm'], ['codes'], sets=DIMS, impls=['ref']) if 'ref' in impls else []) +
            U('spec_commit', ['u_prepare'], ['codes'], **big) + U('spec_rref', ['u_rref'], ['codes'], sets=DIMS, impls=impls, limit=400) +
            U('spec_sort', ['u_compare', 'u_swap', 'u_partition', 'u_quicksort', 'u_sortcols'], ['codes'], **big) +
            U('spec_field', ['u_scalar'], ['codes', 'monomial'], **big))


SPONGE = ['u_absorb', 'u_squeeze', 'u_init', 'u_finalize']


def C24(tier):
    return dict(level='proof', units=path_units() + LEM('agree', 'rref_facts', 'ranks'), native=N(T(tier, 15, 120), T(tier, ONE, CAT1), T(tier, ['avx2'], IMPLS)), search=SEARCH, trusted=TB + [LANES, LEAN],
                bounded='keys generated, messages signed and opened; commitments of signer and verifier compared',
                assumptions=CRYPTO + ['the contracts of the functions combine to equal commitment objects in every hidden round by lemmas Agree.agree and Agree.sorted_agree; in disclosed rounds '
                                      'signer and verifier satisfy the same contract on the same seed (C14)', RANKL])


def C25(tier):
    return dict(level='proof', units=path_units() + U('spec_keccak', ['u_permute'], ['keccakf1600'], sets=ONE) + U('spec_keccak', SPONGE, ['fips202'], sets=ONE),
                native=N(T(tier, 15, 120), T(tier, CAT1, CAT1), ['avx2']), pairs=True, search=[('avx2',) + x for x in CAT1], trusted=TB + [LANES],
                bounded='both builds run on the same key material, message and random stream',
                assumptions=CRYPTO)


def C26(tier):
    return dict(level='proof', units=path_units(['ref', 'neon']) + U('spec_keccak', ['u_permute'], ['keccakf1600'], sets=ONE, impls=['ref', 'neon']) +
                U('spec_keccak', SPONGE, ['fips202'], sets=ONE, impls=['ref', 'neon']) + LEM('rref_facts'),
                native=N(T(tier, 8, 120), T(tier, DIMS, SETS), ['neon']), pairs=True, search=[('neon',) + x for x in SETS], trusted=TB + [LANES.replace('vector', 'NEON'), LEAN],
                bounded='the NEON translation units run on this machine with executable definitions of the intrinsics (engine/shadow_neon) next to the reference build and against the executable specification',
                assumptions=CRYPTO + ['operands of the matrix routines are canonical, the monomial is valid, and padding columns hold canonical values (every caller initialises them)',
                             'both builds satisfy the same contract text; the reduced form is unique (lemma Rref.unique), the product is determined entry by entry',
                             'arm_neon.h and the <_types/...> headers of the Apple toolchain are answered by engine/shadow_neon (declarations for the verifier, executable definitions for the native runs)'])


PROPS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}
