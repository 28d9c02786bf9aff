//@ unit prop=C15 defs=V_TYPED_CALLOC unwind=40 cost=30
#include "models.h"
#include "../contracts/address_spec.h"
#include "../contracts/network.h"
#include "../contracts/country.h"
#include "db_inputs.h"
#include "country.c"
#include "network.c"
#include "stringpool.c"
#include "as.c"
#include "database.c"
#include "net_inputs.h"

/*
	Binary search in any number of records. Fetching a record has a contract
	of its own (u_reader.c). Records are sorted and unique, so that all which are before
	a position have a smaller key than what is being searched for, the one at that
	position has that key (if it is in the database), and all others have a larger one.
*/
static uint64_t v_count, v_k;
static bool v_exists;
static uint32_t v_number;
static char v_code[3];

/* How does the key at this position compare? */
static int v_relation(uint64_t pos) {
	return pos < v_k ? -1 : (pos == v_k && v_exists) ? 0 : 1;
}

/* The same object gets returned again and again, with one more reference */
static struct loc_as v_as;
static struct loc_country v_country;

int v_fetch_as(struct loc_database* db, struct loc_as** as, off_t pos) {
	if ((uint64_t)pos >= v_count)
		return 1;
	V_ND(uint32_t, number);
	int r = v_relation(pos);
	ASSUME(r < 0 ? number < v_number : r > 0 ? number > v_number : number == v_number);
	*as = &v_as;
	v_as.ctx = db->ctx;
	v_as.number = number;
	v_as.refcount++;
	return 0;
}

/* A database with this many records (of 8 bytes) in one section */
#ifdef V_MANY
#define V_LIMIT V_MANY
#else
#define V_LIMIT ((uint64_t)1 << 29)
#endif
#ifdef __CPROVER__
static struct loc_database v_db;
static void v_file_of(size_t field) { ASSUME(v_count < V_LIMIT); }
static struct loc_database* v_open(void) {
	v_as = (struct loc_as){ .ctx = v_ctx(), .refcount = 1 };
	v_country = (struct loc_country){ .ctx = v_ctx(), .refcount = 1 };
	v_db = (struct loc_database){
		.ctx = v_ctx(), .refcount = 2, .version = LOC_DATABASE_VERSION_1,
		.as_objects = { .count = v_count }, .country_objects = { .count = v_count },
	};
	return &v_db;
}
#else
static void v_file_of(size_t field) {
	v_file_new(F_END + 8 * v_count, 0);
	memset(v_file, 0, v_file_len);
	v_put_magic(1);
	v_put32(field, F_END);
	v_put32(field + 4, 8 * v_count);
}
static struct loc_database* v_open(void) {
	struct loc_database* db = NULL;
	ASSUME(loc_database_new(v_ctx(), &db, v_file_handle()) == 0 && db);
	return db;
}
#endif

//@ target h_get_as fn=loc_database_get_as stub=loc_database_fetch_as:v_fetch_as,hexdump:v_hexdump loops=get_as.json fallback=h_get_as_bounded unwind=3
//@ target h_get_as_bounded fn=loc_database_get_as prop= stub=loc_database_fetch_as:v_fetch_as,hexdump:v_hexdump defs=V_TYPED_CALLOC,V_MANY=256 level=bounded bound="fewer than 256 records" unwind=10 name=h_get_as
void h_get_as(void) {
	IN_U32(count); IN_U32(k); IN_RANGE(exists, 0, 1); IN_U32(number); IN_U64(seed);
	if (!SYMBOLIC) {
		count %= 70;
		k %= count + 1;
	}
	v_count = count; v_k = k; v_exists = exists; v_number = number;
	ASSUME(k <= count && (!exists || k < count));
	v_file_of(F_AS_OFFSET);
	if (!SYMBOLIC) {
		for (unsigned int i = 0; i < count; i++) {
			int64_t n = (int64_t)number + ((int64_t)i - (int64_t)k) * (seed % 3 + 1) + (exists ? 0 : i >= k ? 1 : 0);
			ASSUME(n >= 0 && n <= 0xffffffff);
			v_put32(F_END + 8 * i, n);
		}
	}
	struct loc_database* db = v_open();
	struct loc_as* as = NULL;
	int r = loc_database_get_as(db, &as, number);
	if (exists) {
		CHECK(r == 0 && as, "loc_database_get_as.found");
		CHECK(loc_as_get_number(as) == number, "loc_database_get_as.number");
		REACH("found");
	} else {
		CHECK(!as, "loc_database_get_as.not-found");
		REACH("not found");
	}
	if (as)
		loc_as_unref(as);
	loc_database_unref(db);
	CHECK(V_CTX_BALANCED() && (!SYMBOLIC || v_as.refcount == 1), "loc_database_get_as.releases");
}

/* strcmp() for codes, without a loop */
int v_strcmp(const char* a, const char* b) {
	if (a[0] != b[0] || !a[0])
		return (unsigned char)a[0] - (unsigned char)b[0];
	if (a[1] != b[1] || !a[1])
		return (unsigned char)a[1] - (unsigned char)b[1];
	CHECK(!a[2] || !b[2], "strcmp.codes");
	return (unsigned char)a[2] - (unsigned char)b[2];
}

int v_fetch_country(struct loc_database* db, struct loc_country** country, off_t pos) {
	if ((uint64_t)pos >= v_count)
		return 1;
	V_ND(uint16_t, key);
	int r = v_relation(pos);
	uint16_t code = V_CC(v_code);
	ASSUME(v_cc_valid(key) && (r < 0 ? key < code : r > 0 ? key > code : key == code));
	*country = &v_country;
	v_country.ctx = db->ctx;
	v_country.code[0] = key >> 8;
	v_country.code[1] = key;
	v_country.code[2] = 0;
	v_country.refcount++;
	return 0;
}

//@ target h_get_country fn=loc_database_get_country stub=loc_database_fetch_country:v_fetch_country,hexdump:v_hexdump,strcmp:v_strcmp loops=get_country.json fallback=h_get_country_bounded unwind=4
//@ target h_get_country_bounded fn=loc_database_get_country prop= stub=loc_database_fetch_country:v_fetch_country,hexdump:v_hexdump defs=V_TYPED_CALLOC,V_MANY=256 level=bounded bound="fewer than 256 records" unwind=10 name=h_get_country
void h_get_country(void) {
	IN_U32(count); IN_U32(k); IN_RANGE(exists, 0, 1); IN_U64(seed);
	IN_U8(c0); IN_U8(c1);
	if (!SYMBOLIC) {
		count %= 70;
		k %= count + 1;
		c0 = 'A' + c0 % 26;
		c1 = 'A' + c1 % 26;
	}
	v_count = count; v_k = k; v_exists = exists;
	v_code[0] = c0; v_code[1] = c1; v_code[2] = 0;
	ASSUME(k <= count && (!exists || k < count));
	v_file_of(F_COUNTRY_OFFSET);
	bool valid = v_cc_valid(V_CC(v_code));
	ASSUME(valid || !exists);
	if (!SYMBOLIC) {
		uint16_t key = V_CC(v_code);
		/* the codes before and after this one */
		for (int64_t i = (int64_t)k - 1; i >= 0; i--) {
			do { ASSUME(key > 0); key--; } while (!v_cc_valid(key));
			v_put16(F_END + 8 * i, key);
		}
		key = V_CC(v_code);
		if (exists)
			v_put16(F_END + 8 * k, key);
		for (unsigned int i = k + exists; i < count; i++) {
			do { ASSUME(key < 0xffff); key++; } while (!v_cc_valid(key));
			v_put16(F_END + 8 * i, key);
		}
	}
	struct loc_database* db = v_open();
	struct loc_country* country = NULL;
	int r = loc_database_get_country(db, &country, v_code);
	if (exists) {
		CHECK(r == 0 && country, "loc_database_get_country.found");
		CHECK(V_CC(loc_country_get_code(country)) == V_CC(v_code), "loc_database_get_country.code");
		REACH("found");
	} else {
		CHECK(!country, "loc_database_get_country.not-found");
		if (!valid)
			CHECK(r != 0, "loc_database_get_country.refuses-invalid-codes");
		REACH("not found");
	}
	if (country)
		loc_country_unref(country);
	loc_database_unref(db);
	CHECK(V_CTX_BALANCED() && (!SYMBOLIC || v_country.refcount == 1), "loc_database_get_country.releases");
}
