/* AES-128 with the interface of Brian Gladman's library (deps/AES in the product, not shipped here): the media code is built
   with HAVE_LIBGYPAES against this. Checked against FIPS-197 by harness group media_crypt/aes. */
#pragma once
#include <stdint.h>
#include <string.h>
#include <stdlib.h>

typedef int AES_RETURN;
typedef struct { uint8_t rk[176]; uint8_t pos; } aes_encrypt_ctx;
typedef void cbuf_inc(unsigned char * cbuf);

namespace vaes {
inline const uint8_t * sbox()
{
	static uint8_t s[256];
	static bool done = false;
	if (!done) {
		uint8_t p = 1, q = 1;
		do {
			p = p ^ (uint8_t)(p << 1) ^ ((p & 0x80) ? 0x1B : 0);
			q ^= q << 1; q ^= q << 2; q ^= q << 4;
			if (q & 0x80) q ^= 0x09;
			uint8_t x = q ^ (uint8_t)((q << 1) | (q >> 7)) ^ (uint8_t)((q << 2) | (q >> 6))
				^ (uint8_t)((q << 3) | (q >> 5)) ^ (uint8_t)((q << 4) | (q >> 4));
			s[p] = x ^ 0x63;
		} while (p != 1);
		s[0] = 0x63;
		done = true;
	}
	return s;
}
inline uint8_t x2(uint8_t v) { return (uint8_t)(v << 1) ^ ((v & 0x80) ? 0x1B : 0); }
inline void block(const uint8_t * in, uint8_t * out, const uint8_t * rk)
{
	const uint8_t * s = sbox();
	uint8_t a[16], b[16];
	for (int i = 0; i < 16; i++) a[i] = in[i] ^ rk[i];
	for (int r = 1; r <= 10; r++) {
		for (int c = 0; c < 4; c++)
			for (int w = 0; w < 4; w++)
				b[4 * c + w] = s[a[4 * ((c + w) & 3) + w]];
		if (r < 10)
			for (int c = 0; c < 4; c++) {
				uint8_t * p = b + 4 * c;
				uint8_t t = p[0] ^ p[1] ^ p[2] ^ p[3], f = p[0];
				p[0] ^= t ^ x2(p[0] ^ p[1]); p[1] ^= t ^ x2(p[1] ^ p[2]);
				p[2] ^= t ^ x2(p[2] ^ p[3]); p[3] ^= t ^ x2(p[3] ^ f);
			}
		for (int i = 0; i < 16; i++) a[i] = b[i] ^ rk[16 * r + i];
	}
	memcpy(out, a, 16);
}
// the inverse, used by the oracles only
inline void unblock(const uint8_t * in, uint8_t * out, const uint8_t * rk)
{
	const uint8_t * s = sbox();
	uint8_t inv[256], a[16], b[16];
	for (int i = 0; i < 256; i++) inv[s[i]] = (uint8_t)i;
	for (int i = 0; i < 16; i++) a[i] = in[i] ^ rk[160 + i];
	for (int r = 9; r >= 0; r--) {
		for (int c = 0; c < 4; c++)
			for (int w = 0; w < 4; w++)
				b[4 * ((c + w) & 3) + w] = inv[a[4 * c + w]];
		for (int i = 0; i < 16; i++) a[i] = b[i] ^ rk[16 * r + i];
		if (r)
			for (int c = 0; c < 4; c++) {
				uint8_t q[4];
				for (int i = 0; i < 4; i++) {
					uint8_t v = a[4 * c + i], v2 = x2(v), v4 = x2(v2), v8 = x2(v4);
					uint8_t m[4] = { (uint8_t)(v8 ^ v4 ^ v2), (uint8_t)(v8 ^ v), (uint8_t)(v8 ^ v4 ^ v), (uint8_t)(v8 ^ v2 ^ v) };
					for (int k = 0; k < 4; k++) q[(i + k) & 3] = (uint8_t)((i ? q[(i + k) & 3] : 0) ^ m[k]);
				}
				memcpy(a + 4 * c, q, 4);
			}
	}
	memcpy(out, a, 16);
}
}

inline AES_RETURN aes_init(void) { vaes::sbox(); return EXIT_SUCCESS; }
inline AES_RETURN aes_encrypt_key(const unsigned char * key, int len, aes_encrypt_ctx ctx[1])
{
	if (len != 16) return EXIT_FAILURE;
	const uint8_t * s = vaes::sbox();
	memcpy(ctx->rk, key, 16);
	uint8_t rc = 1;
	for (int i = 16; i < 176; i += 4) {
		uint8_t t[4];
		memcpy(t, ctx->rk + i - 4, 4);
		if (i % 16 == 0) {
			uint8_t f = t[0];
			t[0] = s[t[1]] ^ rc; t[1] = s[t[2]]; t[2] = s[t[3]]; t[3] = s[f];
			rc = vaes::x2(rc);
		}
		for (int k = 0; k < 4; k++) ctx->rk[i + k] = ctx->rk[i - 16 + k] ^ t[k];
	}
	ctx->pos = 0;
	return EXIT_SUCCESS;
}
inline AES_RETURN aes_ecb_encrypt(const unsigned char * in, unsigned char * out, int len, const aes_encrypt_ctx ctx[1])
{
	if (len & 15) return EXIT_FAILURE;
	for (int i = 0; i < len; i += 16) vaes::block(in + i, out + i, ctx->rk);
	return EXIT_SUCCESS;
}
inline AES_RETURN aes_cbc_encrypt(const unsigned char * in, unsigned char * out, int len, unsigned char * iv, const aes_encrypt_ctx ctx[1])
{
	if (len & 15) return EXIT_FAILURE;
	for (int i = 0; i < len; i += 16) {
		for (int k = 0; k < 16; k++) iv[k] ^= in[i + k];
		vaes::block(iv, iv, ctx->rk);
		memcpy(out + i, iv, 16);
	}
	return EXIT_SUCCESS;
}
inline AES_RETURN aes_ctr_crypt(const unsigned char * in, unsigned char * out, int len, unsigned char * cbuf, cbuf_inc inc, aes_encrypt_ctx ctx[1])
{
	uint8_t ks[16];
	int pos = ctx->pos;
	if (pos) vaes::block(cbuf, ks, ctx->rk);
	for (int i = 0; i < len; i++) {
		if (pos == 16) { inc(cbuf); pos = 0; }
		if (pos == 0) vaes::block(cbuf, ks, ctx->rk);
		out[i] = in[i] ^ ks[pos++];
	}
	if (pos == 16) { inc(cbuf); pos = 0; }
	ctx->pos = (uint8_t)pos;
	return EXIT_SUCCESS;
}
#define aes_ctr_encrypt aes_ctr_crypt
#define aes_ctr_decrypt aes_ctr_crypt
inline AES_RETURN aes_cbc_undo(const unsigned char * in, unsigned char * out, int len, unsigned char * iv, const aes_encrypt_ctx ctx[1])
{
	for (int i = 0; i < len; i += 16) {
		vaes::unblock(in + i, out + i, ctx->rk);
		for (int k = 0; k < 16; k++) out[i + k] ^= iv[k];
		memcpy(iv, in + i, 16);
	}
	return EXIT_SUCCESS;
}
