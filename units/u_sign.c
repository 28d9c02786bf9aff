//@ unit prop=C18 defs=V_TYPED_CALLOC unwind=5,9 unwindset=v_header_get.0:100 stub=hexdump:v_hexdump cost=20 native=0 witness=h_written witness_defs=NATIVE_CRYPTO
/*
	What is being signed (see u_verify.c for the other side)
*/
#include "models.h"
#define MODEL_NO_STDIO
#include "db_inputs.h"
#include "writer.c"
#include "crypto_model.h"
#ifdef __CPROVER__
static uint8_t v_header_byte;
static char v_signature[LOC_SIGNATURE_MAX_LENGTH];
static int v_final;
/* The magic and the data from the file, the header from memory */
static uint8_t v_expected(void) {
	return v_x >= F_CREATED && v_x < F_END ? v_header_byte : v_byte;
}
int EVP_DigestSignInit(EVP_MD_CTX* ctx, EVP_PKEY_CTX** pctx, const EVP_MD* type, ENGINE* e, EVP_PKEY* key) { return v_init(ctx, key); }
int EVP_DigestSignUpdate(EVP_MD_CTX* ctx, const void* p, size_t n) { return EVP_DigestUpdate(ctx, p, n); }
int EVP_DigestSignFinal(EVP_MD_CTX* ctx, unsigned char* sig, size_t* length) {
	__CPROVER_assert(ctx == (EVP_MD_CTX*)&v_contexts, "Final: context");
	CHECK(!v_failed, "loc_writer_create_signature.stops-at-errors");
	CHECK(v_digested == v_len, "loc_writer_create_signature.digests-the-entire-file");
	CHECK(v_x >= v_len || (v_seen && v_value == v_expected()), "loc_writer_create_signature.digests-every-byte");
	CHECK(sig == (unsigned char*)v_signature && *length == sizeof(v_signature), "loc_writer_create_signature.buffer");
	int r; size_t size;
	__CPROVER_assume(size <= *length);
	*length = size;
	if (r != 1)
		v_failed = true;
	v_final++;
	return r;
}

//@ target h_create_signature fn=loc_writer_create_signature assume="the file does not change while it is being read and has at least a header; OpenSSL follows its documentation; EVP_MD_CTX_new() does not fail"
void h_create_signature(void) {
	uint64_t length, x;
	uint8_t byte;
	__CPROVER_assume(length >= F_END && length < (uint64_t)1 << 40 && x < (uint64_t)1 << 41);
	v_len = length; v_x = x; v_byte = byte;
	uint64_t pos;
	__CPROVER_assume(pos <= length);
	v_pos = pos;
	static struct loc_writer writer;
	static FILE file;
	writer.ctx = v_ctx();
	struct loc_database_header_v1 header;
	if (v_x >= F_CREATED && v_x < F_END)
		v_header_byte = v_header_get(&header, v_x - F_CREATED);
	size_t n = sizeof(v_signature);
	v_keys = 1;
	int r = loc_writer_create_signature(&writer, &header, &file, (EVP_PKEY*)&v_keys, v_signature, &n);
	CHECK((r == 0) == !v_failed, "loc_writer_create_signature.any-error-is-a-failure");
	CHECK((r == 0) == (v_final == 1 && !v_failed), "loc_writer_create_signature.signs-once");
	CHECK(v_contexts == 0, "loc_writer_create_signature.releases");
	if (r == 0)
		REACH("signed");
	if (r == 0 && v_len > 1 << 20)
		REACH("large files");
	REACH("end");
}
#else
#include <libloc/database.h>
/* Databases which are written and signed by the library are accepted, but not with a changed byte */
void h_written(void) {
	IN_U32(count); IN_U64(seed); IN_U32(at); IN_U8(change);
	IN_RANGE(keys, 0, 3);
	static EVP_PKEY* key[2];
	for (int i = 0; i < 2; i++)
		if (!key[i])
			key[i] = EVP_PKEY_Q_keygen(NULL, NULL, i ? "RSA" : "EC", i ? (void*)(size_t)2048 : (void*)"P-256");
	FILE* f[2] = { NULL, NULL };
	for (int i = 0; i < 2; i++)
		if (keys & (1 << i)) {
			f[i] = tmpfile();
			PEM_write_PrivateKey(f[i], key[i], NULL, NULL, 0, NULL, NULL);
			rewind(f[i]);
		}
	struct loc_writer* w = NULL;
	ASSUME(loc_writer_new(v_ctx(), &w, f[0], f[1]) == 0);
	count %= seed % 8 ? 40 : 20000;
	for (unsigned int i = 0; i < count; i++) {
		struct loc_as* as = NULL;
		ASSUME(loc_writer_add_as(w, &as, i * 7919 % 100003) == 0);
		char name[32];
		snprintf(name, sizeof(name), "N%u", i * 31 % 1000);
		loc_as_set_name(as, name);
		loc_as_unref(as);
	}
	loc_writer_set_vendor(w, "vendor");
	FILE* file = tmpfile();
	CHECK(loc_writer_write(w, file, LOC_DATABASE_VERSION_UNSET) == 0, "loc_writer_write.succeeds");
	loc_writer_unref(w);
	if (seed & 2) {
		/* Change a byte which leaves this a database */
		fseek(file, 0, SEEK_END);
		at %= ftell(file);
		if (change && (at >= F_PADDING || (at >= F_CREATED && at < F_AS_OFFSET))) {
			uint8_t byte;
			fseek(file, at, SEEK_SET);
			ASSUME(fread(&byte, 1, 1, file) == 1);
			byte ^= change;
			fseek(file, at, SEEK_SET);
			fwrite(&byte, 1, 1, file);
		} else
			change = 0;
		fflush(file);
	} else
		change = 0;
	struct loc_database* db = NULL;
	ASSUME(loc_database_new(v_ctx(), &db, file) == 0);
	for (int i = 0; i < 2; i++) {
		FILE* p = tmpfile();
		PEM_write_PUBKEY(p, key[i]);
		rewind(p);
		int r = loc_database_verify(db, p);
		fclose(p);
		CHECK((r == 0) == (!change && (keys & (1 << i))), "loc_writer_create_signature.verifies");
	}
	loc_database_unref(db);
	fclose(file);
	for (int i = 0; i < 2; i++)
		if (f[i]) fclose(f[i]);
	REACH("end");
}
#endif
