//@ unit prop=C10 stub=loc_network_str:v_network_str,hexdump:v_hexdump,loc_prefix_to_bitmask:v_prefix_to_bitmask,loc_address_cmp:v_address_cmp defs=V_TYPED_CALLOC unwind=9,18,34,66 cost=30
#include "models.h"
#include "../contracts/address_spec.h"
#include "../contracts/network.h"
#include "db_inputs.h"
#include "country.c"
#include "network.c"
#include "stringpool.c"
#include "as.c"
#include "database.c"
#include "net_inputs.h"

/* Files of any length with any contents. To let the native search find something, it
   may be told to make a header that is well-formed. */
#define IN_FILE() \
	IN_U64(length); IN_U64(seed); \
	if (!SYMBOLIC) length = length % 3 ? F_END + length % 512 : length % (F_END + 512); \
	ASSUME(length < (uint64_t)1 << 40); \
	v_file_new(length, seed); \
	IN_RANGE(good, 0, 1); \
	if (good) v_good_file(); \
	IN_U32(change_offset); IN_U32(change_value); \
	if (!SYMBOLIC && good) v_change(change_offset, change_value)

static void v_good_file(void) {
	if (SYMBOLIC || v_file_len < F_END)
		return;
	static const unsigned int sections[] = { F_AS_OFFSET, F_NETWORK_OFFSET, F_TREE_OFFSET, F_COUNTRY_OFFSET, F_POOL_OFFSET };
	v_put_magic(1);
	v_put16(F_SIG1_LENGTH, v_get16(F_SIG1_LENGTH) % 2049);
	v_put16(F_SIG2_LENGTH, v_get16(F_SIG2_LENGTH) % 2049);
	for (unsigned int i = 0; i < 5; i++) {
		uint32_t o = v_get32(sections[i]) % (v_file_len + 1);
		v_put32(sections[i], o);
		v_put32(sections[i] + 4, v_get32(sections[i] + 4) % (v_file_len - o + 1));
	}
	uint32_t o = v_get32(F_POOL_OFFSET), l = v_get32(F_POOL_LENGTH);
	if (l && o + l > F_END)
		v_put8(o + l - 1, 0);
	else if (l)
		v_put32(F_POOL_LENGTH, 0);
}
static void v_change(uint32_t o, uint32_t v) {
	if (v_file_len >= 72 && o % 3 == 0) {
		o = 7 + o % 65;
		if (o % 2) v_put8(o, v); else v_put32(o / 4 * 4, v);
	}
}

static bool v_section(size_t field) {
	uint64_t offset = v_get32(field), length = v_get32(field + 4);
	return offset + length <= v_file_len;
}

/* What makes a file a database */
static bool v_valid(void) {
	if (v_file_len < F_END)
		return false;
	if (v_file[0] != 'L' || v_file[1] != 'O' || v_file[2] != 'C' || v_file[3] != 'D' || v_file[4] != 'B'
			|| v_file[5] != 'X' || v_file[6] != 'X' || v_file[7] != 1)
		return false;
	if (v_get16(F_SIG1_LENGTH) > 2048 || v_get16(F_SIG2_LENGTH) > 2048)
		return false;
	if (!v_section(F_AS_OFFSET) || !v_section(F_NETWORK_OFFSET) || !v_section(F_TREE_OFFSET)
			|| !v_section(F_COUNTRY_OFFSET) || !v_section(F_POOL_OFFSET))
		return false;
	uint32_t pool = v_get32(F_POOL_OFFSET), pool_length = v_get32(F_POOL_LENGTH);
	return !pool_length || !v_file[(size_t)pool + pool_length - 1];
}

/* A string in the pool, or nothing if there is no such string */
static bool v_is_string(const char* s, uint32_t offset) {
	if (offset >= v_get32(F_POOL_LENGTH))
		return s == NULL;
	return s && (SYMBOLIC ? s == (const char*)v_file + v_get32(F_POOL_OFFSET) + offset
		: strcmp(s, (const char*)v_file + v_get32(F_POOL_OFFSET) + offset) == 0);
}

static struct loc_database* v_open(void) {
	struct loc_database* db = NULL;
	int r = loc_database_new(v_ctx(), &db, v_file_handle());
	if (r)
		return NULL;
	v_string_end = (size_t)v_get32(F_POOL_OFFSET) + v_get32(F_POOL_LENGTH) - 1;
	return db;
}

//@ target h_open prop=C10,C22 fn=loc_database_new,loc_database_get_vendor,loc_database_get_description,loc_database_get_license,loc_database_created_at,loc_database_count_as
void h_open(void) {
	IN_FILE();
	struct loc_database* db = NULL;
	int r = loc_database_new(v_ctx(), &db, v_file_handle());
	CHECK((r == 0) == v_valid(), "loc_database_new.opens-databases-and-nothing-else");
	if (r) {
		REACH("not a database");
	} else {
		CHECK(db != NULL, "loc_database_new.result");
		CHECK((uint64_t)loc_database_created_at(db) == v_get64(F_CREATED), "loc_database_created_at.post");
		CHECK(v_is_string(loc_database_get_vendor(db), v_get32(F_VENDOR)), "loc_database_get_vendor.post");
		CHECK(v_is_string(loc_database_get_description(db), v_get32(F_DESCRIPTION)), "loc_database_get_description.post");
		CHECK(v_is_string(loc_database_get_license(db), v_get32(F_LICENSE)), "loc_database_get_license.post");
		CHECK(loc_database_count_as(db) == v_get32(F_AS_LENGTH) / 8, "loc_database_count_as.post");
		loc_database_unref(db);
		REACH("end");
	}
#ifdef __CPROVER__
	CHECK(v_open_handles == 0 && v_mappings == 0, "loc_database_new.releases-the-file");
	CHECK(V_CTX_BALANCED(), "loc_database_new.releases-the-context");
#endif
}

/* Any record of an AS */
//@ target h_fetch_as prop=C10,C11 fn=loc_database_fetch_as,loc_as_new_from_database_v1
void h_fetch_as(void) {
	IN_FILE();
	IN_U32(pos);
	struct loc_database* db = v_open();
	ASSUME(db);
	size_t count = v_get32(F_AS_LENGTH) / 8;
	if (!SYMBOLIC && count) pos %= 2 * count;
	struct loc_as* as = NULL;
	int r = loc_database_fetch_as(db, &as, pos);
	CHECK((r == 0) == (pos < count), "loc_database_fetch_as.post");
	if (r == 0) {
		size_t record = v_get32(F_AS_OFFSET) + (size_t)8 * pos;
		CHECK(as && loc_as_get_number(as) == v_get32(record), "loc_as_new_from_database_v1.number");
		uint32_t name = v_get32(record + 4);
		const char* s = loc_as_get_name(as);
		if (name < v_get32(F_POOL_LENGTH))
			CHECK(s && V_IS_COPY(s, (size_t)v_get32(F_POOL_OFFSET) + name), "loc_as_new_from_database_v1.name");
		else
			CHECK(s == NULL, "loc_as_new_from_database_v1.no-name");
		loc_as_unref(as);
		REACH("end");
	}
	loc_database_unref(db);
	CHECK(V_CTX_BALANCED(), "loc_database_fetch_as.releases-the-context");
}

//@ target h_fetch_country prop=C10,C11 fn=loc_database_fetch_country,loc_country_new_from_database_v1
void h_fetch_country(void) {
	IN_FILE();
	IN_U32(pos);
	struct loc_database* db = v_open();
	ASSUME(db);
	size_t count = v_get32(F_COUNTRY_LENGTH) / 8;
	if (!SYMBOLIC && count) pos %= 2 * count;
	size_t record = v_get32(F_COUNTRY_OFFSET) + (size_t)8 * pos;
	struct loc_country* country = NULL;
	int r = loc_database_fetch_country(db, &country, pos);
	if (pos >= count) {
		CHECK(r != 0, "loc_database_fetch_country.post");
	} else if (r == 0) {
		CHECK(country != NULL, "loc_country_new_from_database_v1.result");
		const char* code = loc_country_get_code(country);
		CHECK(code[0] == (char)v_file[record] && code[1] == (char)v_file[record + 1] && !code[2], "loc_country_new_from_database_v1.code");
		CHECK(v_cc_valid(v_get16(record)), "loc_country_new_from_database_v1.valid");
		const char* continent = loc_country_get_continent_code(country);
		if (continent && continent[0])
			CHECK(continent[0] == (char)v_file[record + 2] && continent[1] == (char)v_file[record + 3] && !continent[2], "loc_country_new_from_database_v1.continent");
		uint32_t name = v_get32(record + 4);
		const char* s = loc_country_get_name(country);
		if (name < v_get32(F_POOL_LENGTH))
			CHECK(s && V_IS_COPY(s, (size_t)v_get32(F_POOL_OFFSET) + name), "loc_country_new_from_database_v1.name");
		loc_country_unref(country);
		REACH("end");
	} else
		CHECK(!v_cc_valid(v_get16(record)) , "loc_country_new_from_database_v1.error");
	loc_database_unref(db);
	CHECK(V_CTX_BALANCED(), "loc_database_fetch_country.releases-the-context");
}
