//@ unit prop=C18 defs=V_TYPED_CALLOC unwind=5,9 unwindset=v_header_get.0:100 stub=hexdump:v_hexdump cost=20 native=0 witness=h_roundtrip witness_defs=NATIVE_CRYPTO
#include "models.h"
#include "../contracts/address_spec.h"
#include "../contracts/network.h"
#define MODEL_NO_STDIO
#include "db_inputs.h"
#include "country.c"
#include "network.c"
#include "stringpool.c"
#include "as.c"
#include "database.c"
#include "net_inputs.h"

#include "crypto_model.h"
#ifdef __CPROVER__
static int v_final[3];			/* results for both signatures */
static struct loc_database v_db;
static char v_sig[2][2048];
/* Both signatures and their lengths are replaced by zeroes */
static uint8_t v_expected(void) {
	return v_x >= F_SIG1_LENGTH && v_x < F_PADDING ? 0 : v_byte;
}
int EVP_DigestVerifyInit(EVP_MD_CTX* ctx, EVP_PKEY_CTX** pctx, const EVP_MD* type, ENGINE* e, EVP_PKEY* key) { return v_init(ctx, key); }
int EVP_DigestVerifyUpdate(EVP_MD_CTX* ctx, const void* p, size_t n) { return EVP_DigestUpdate(ctx, p, n); }
int EVP_DigestVerifyFinal(EVP_MD_CTX* ctx, const unsigned char* sig, size_t length) {
	__CPROVER_assert(ctx == (EVP_MD_CTX*)&v_contexts, "Final: context");
	CHECK(!v_failed, "loc_database_verify.stops-at-errors");
	CHECK(v_digested == v_len, "loc_database_verify.digests-the-entire-file");
	CHECK(v_x >= v_len || (v_seen && v_value == v_expected()), "loc_database_verify.digests-every-byte");
	int i = sig == (unsigned char*)v_sig[0] ? 0 : sig == (unsigned char*)v_sig[1] ? 1 : 2;
	CHECK(i < 2, "loc_database_verify.signature");
	CHECK(length == (i ? v_db.signature2.length : v_db.signature1.length), "loc_database_verify.length");
	CHECK(length > 0, "loc_database_verify.length-not-zero");
	int r;
	__CPROVER_assume(r >= -1 && r <= 1);
	v_final[i] = r;
	return r;
}

//@ target h_verify fn=loc_database_verify assume="the file does not change while it is being read; OpenSSL follows its documentation"
void h_verify(void) {
	uint64_t length, x;
	uint8_t byte;
	__CPROVER_assume(length < (uint64_t)1 << 40 && x < (uint64_t)1 << 41);
	v_len = length; v_x = x; v_byte = byte;
	static FILE key, file;
	v_db.ctx = v_ctx();
	v_db.refcount = 1;
	v_db.version = LOC_DATABASE_VERSION_1;
	v_db.f = &file;
	/* From the header: without a signature, its length is zero */
	uint16_t l1, l2;
	__CPROVER_assume(l1 <= 2048 && l2 <= 2048);
	__CPROVER_bool data;
	if (l1 || data)
		v_db.signature1 = (struct loc_database_signature){ v_sig[0], l1 };
	if (l2 || data)
		v_db.signature2 = (struct loc_database_signature){ v_sig[1], l2 };
	int r = loc_database_verify(&v_db, &key);
	bool accepted = (l1 && v_final[0] == 1) || (l2 && v_final[1] == 1);
	CHECK((r == 0) == accepted, "loc_database_verify.accepts-valid-signatures-only");
	if (v_failed || (!l1 && !l2))
		CHECK(r != 0, "loc_database_verify.any-error-is-a-failure");
	if (l1 && l2 && !v_failed && v_len >= F_END)
		REACH("signed twice");
	CHECK(v_contexts == 0 && v_keys == 0, "loc_database_verify.releases");
	if (r == 0)
		REACH("accepted");
	if (v_len > 1 << 20 && r == 0)
		REACH("large files");
	REACH("end");
}
#else
/*
	The real cryptographic library, on the files which this harness signs itself
*/
void h_roundtrip(void) {
	IN_U32(size); IN_U64(seed); IN_U32(at); IN_U8(change);
	IN_RANGE(which, 0, 5);
	IN_RANGE(large, 0, 15);
	size = F_END + size % (large ? 300 : 200000);
	v_file_new(size, seed);
	v_put_magic(1);
	for (unsigned int i = F_AS_OFFSET; i < F_SIG1_LENGTH; i += 4)
		v_put32(i, 0);
	v_put16(F_SIG1_LENGTH, 0);
	v_put16(F_SIG2_LENGTH, 0);
	memset(v_file + F_SIG1, 0, 4096);
	static EVP_PKEY *key, *other;
	if (!key) {
		key = EVP_PKEY_Q_keygen(NULL, NULL, "EC", "P-256");
		other = EVP_PKEY_Q_keygen(NULL, NULL, "EC", "P-256");
	}
	/* 0: first, 1: second, 2: both, 3: first invalid, 4: by another key, 5: none */
	EVP_MD_CTX* ctx = EVP_MD_CTX_new();
	unsigned char sig[2048];
	size_t length = sizeof(sig);
	ASSUME(EVP_DigestSignInit(ctx, NULL, NULL, NULL, which == 4 ? other : key) == 1);
	ASSUME(EVP_DigestSign(ctx, sig, &length, v_file, v_file_len) == 1);
	EVP_MD_CTX_free(ctx);
	if (which == 3) {
		memset(v_file + F_SIG1, seed, length);
		v_put16(F_SIG1_LENGTH, seed % 2 ? length : 1 + seed % 2000);
	}
	if (which == 1 || which == 2 || which == 3) {
		memcpy(v_file + F_SIG2, sig, length);
		v_put16(F_SIG2_LENGTH, length);
	}
	if (which == 0 || which == 2 || which == 4) {
		memcpy(v_file + F_SIG1, sig, length);
		v_put16(F_SIG1_LENGTH, length);
	}
	bool good = which < 4;
	struct loc_database* db = NULL;
	/* Change one byte after that, if it still is a database then */
	at %= v_file_len;
	if (seed % 4 == 0 && change && (at >= F_PADDING || (at >= F_CREATED && at < F_AS_OFFSET))) {
		v_file[at] ^= change;
		good = false;
	}
	ASSUME(loc_database_new(v_ctx(), &db, v_file_handle()) == 0 && db);
	FILE* f = tmpfile();
	PEM_write_PUBKEY(f, key);
	rewind(f);
	int r = loc_database_verify(db, f);
	CHECK((r == 0) == good, "loc_database_verify.accepts-valid-signatures-only");
	CHECK(loc_database_verify(db, f) != 0, "loc_database_verify.no-key");
	fclose(f);
	loc_database_unref(db);
	REACH("end");
}
#endif
