/* the sizes the interface promises, as the callers' compiler sees them; no logic of its own */
#include "api.h"
unsigned long vx_public_key_bytes(void) { return CRYPTO_PUBLICKEYBYTES; }
unsigned long vx_secret_key_bytes(void) { return CRYPTO_SECRETKEYBYTES; }
unsigned long vx_signature_bytes(void) { return CRYPTO_BYTES; }
