// AES as one function of (key, block): sx_aes.
#pragma once
#include <cstring>
#include "sx.h"
#define AES_BLOCK_SIZE 16
struct aes_key_st { unsigned char k[32]; unsigned bytes; };
typedef struct aes_key_st AES_KEY;
inline int AES_set_encrypt_key(const unsigned char* key, const int bits, AES_KEY* out) {
  if (!key || !out) return -1;
  if (bits != 128 && bits != 192 && bits != 256) return -2;
  memset(out, 0, sizeof *out);
  memcpy(out->k, key, bits / 8);
  out->bytes = bits / 8;
  return 0;
}
inline void AES_encrypt(const unsigned char* in, unsigned char* out, const AES_KEY* key) { sx_aes(key->k, key->bytes, in, out); }
