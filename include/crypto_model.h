/*
	Reading and digesting a file of any length with any contents. The file is modelled
	by its length and one byte at any one position (v_x), which stands for all others: reading
	copies that byte to where it belongs and leaves the rest of the buffer alone, and the digest
	looks where it gets to.

	The loop over the file is cut by induction: after two iterations, the position is
	moved forward to any later one, at which the same holds that has held before.
*/
#ifdef __CPROVER__
static uint64_t v_len, v_x;		/* length of the file, position of the byte */
static uint8_t v_byte;
static uint64_t v_pos;			/* of the file */
static bool v_eof, v_error;		/* of the file */
static uint64_t v_digested;		/* number of bytes */
static bool v_seen;
static uint8_t v_value;			/* the digested byte at that position */
static unsigned int v_chunks;
static size_t v_request;		/* the size of the last read */
static const uint8_t* v_at;		/* where the byte has been read to, when that is a chunk */
static bool v_failed;			/* has anything failed? */
static int v_contexts, v_keys;

static uint8_t v_expected(void);
static bool v_invariant(void) {
	return v_digested == v_pos && v_seen == (v_x < v_pos) && (!v_seen || v_value == v_expected());
}

/* A byte of the header (this only is about keeping the formula small) */
static uint8_t v_header_get(const void* p, uint64_t i) {
	const struct loc_database_header_v1* h = p;
	if (i >= F_PADDING - 8)
		return h->padding[i - (F_PADDING - 8)];
	if (i >= F_SIG2 - 8)
		return h->signature2[i - (F_SIG2 - 8)];
	if (i >= F_SIG1 - 8)
		return h->signature1[i - (F_SIG1 - 8)];
	for (unsigned int j = 0; j < F_SIG1 - 8; j++)
		if (i == j)
			return ((const uint8_t*)p)[j];
	return 0;
}

void rewind(FILE* f) { v_pos = 0; v_eof = v_error = false; }
int fseek(FILE* f, long offset, int whence) {
	__CPROVER_bool fail;
	if (fail) {
		v_failed = true;
		return -1;
	}
	v_eof = false;
	v_pos = whence == SEEK_SET ? offset : whence == SEEK_CUR ? v_pos + offset : v_len + offset;
	return 0;
}
int feof(FILE* f) { return v_eof; }
int ferror(FILE* f) { return v_error; }
size_t fread(void* p, size_t size, size_t n, FILE* f) {
	__CPROVER_assert(size == 1, "fread: bytes");
	if (n > F_END) {
		/* The loop over the file */
		if (v_chunks == 2 && !v_failed) {
			SHAPE(v_invariant(), "the file is read and digested in chunks");
			uint64_t pos;
			__CPROVER_assume(pos >= v_pos && pos <= v_len);
			v_digested = v_pos = pos;
			v_seen = v_x < pos;
			v_value = v_expected();
		} else if (v_chunks > 3)
			__CPROVER_assume(0);
		v_chunks++;
	}
	uint64_t left = v_pos < v_len ? v_len - v_pos : 0;
	size_t length = n;
	if (length > left) {
		length = left;
		v_eof = true;
	}
	__CPROVER_bool fail;
	if (fail) {
		size_t less;
		__CPROVER_assume(less < n && less <= length);
		length = less;
		v_eof = false;
		v_failed = v_error = true;
	}
	__CPROVER_assert(__CPROVER_w_ok(p, n), "fread: buffer is writable");
	v_at = NULL;
	v_request = n;
	if (v_x >= v_pos && v_x < v_pos + length) {
		if (n == sizeof(struct loc_database_header_v1)) {
			struct loc_database_header_v1 header;
			__CPROVER_assume(v_header_get(&header, v_x - v_pos) == v_byte);
			*(struct loc_database_header_v1*)p = header;
		} else if (n <= 16)
			((uint8_t*)p)[v_x - v_pos] = v_byte;
		else
			v_at = (uint8_t*)p + (v_x - v_pos);
	}
	v_pos += length;
	return length;
}

EVP_PKEY* PEM_read_PUBKEY(FILE* f, EVP_PKEY** x, pem_password_cb* cb, void* u) {
	__CPROVER_bool fail;
	if (fail) {
		v_failed = true;
		return NULL;
	}
	v_keys++;
	return (EVP_PKEY*)&v_keys;
}
void EVP_PKEY_free(EVP_PKEY* key) {
	if (key)
		v_keys--;
}
EVP_MD_CTX* EVP_MD_CTX_new(void) {
	v_contexts++;
	return (EVP_MD_CTX*)&v_contexts;
}
void EVP_MD_CTX_free(EVP_MD_CTX* ctx) {
	if (ctx)
		v_contexts--;
}
static int v_init(EVP_MD_CTX* ctx, EVP_PKEY* key) {
	__CPROVER_assert(ctx == (EVP_MD_CTX*)&v_contexts && key == (EVP_PKEY*)&v_keys, "Init: context and key");
	v_digested = 0;
	v_seen = false;
	int r;
	if (r != 1)
		v_failed = true;
	return r;
}
unsigned long ERR_get_error(void) { unsigned long e; return e; }
char* ERR_error_string(unsigned long e, char* buffer) { return "error"; }
int EVP_DigestUpdate(EVP_MD_CTX* ctx, const void* p, size_t n) {
	__CPROVER_assert(ctx == (EVP_MD_CTX*)&v_contexts, "Update: context");
	__CPROVER_assert(n == 0 || __CPROVER_r_ok(p, n), "Update: readable");
	if (v_x >= v_digested && v_x < v_digested + n) {
		v_seen = true;
		uint64_t i = v_x - v_digested;
		uint8_t other;
		if (v_request > F_END)
			v_value = v_at && __CPROVER_same_object(p, v_at) && (const uint8_t*)p + i == v_at ? v_byte : other;
		else if (n == sizeof(struct loc_database_header_v1))
			v_value = v_header_get(p, i);
		else
			v_value = ((const uint8_t*)p)[i];
	}
	v_digested += n;
	int r;
	if (r != 1)
		v_failed = true;
	return r;
}
#endif
