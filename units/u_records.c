//@ unit prop=C11 defs=V_TYPED_CALLOC stub=loc_network_str:v_network_str,loc_prefix_to_bitmask:v_prefix_to_bitmask unwind=18,34
#include "models.h"
#include "../contracts/address_spec.h"
#include "../contracts/network.h"
#include "../contracts/country.h"
#include "str_inputs.h"
#include "country.c"
#include "stringpool.c"
#include "as.c"
#include "network.c"
#include "net_inputs.h"

/*
	Records in a database, byte by byte (from the documentation of the format):

	network: country code (2), 2 unused, ASN (4), flags (2), 2 unused
	AS:      number (4), name (4)
	country: code (2), continent code (2), name (4)
*/
static uint32_t v_be32(const uint8_t* p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static uint16_t v_be16(const uint8_t* p) { return p[0] << 8 | p[1]; }

/* The string pool: proved on its own in u_stringpool.c */
static const char* v_added;
static off_t v_position;
static unsigned int v_adds;
off_t v_pool_add(struct loc_stringpool* pool, const char* string) {
	v_added = string;
	v_adds++;
	return v_position;
}
static bool v_is_position(struct loc_stringpool* pool, uint32_t position, const char* s) {
	if (SYMBOLIC)
		return v_adds == 1 && v_added == s && position == (uint32_t)v_position;
	const char* p = loc_stringpool_get(pool, position);
	return p && strcmp(p, s) == 0;
}

//@ target h_network_to fn=loc_network_to_database_v1
void h_network_to(void) {
	IN_NET(n);
	IN_U8(garbage);
	uint8_t record[12];
	for (unsigned int i = 0; i < 12; i++)
		record[i] = garbage;
	CHECK(sizeof(struct loc_database_network_v1) == 12, "loc_database_network_v1.size");
	struct v_net v = v_view(n);
	int r = loc_network_to_database_v1(n, (struct loc_database_network_v1*)record);
	CHECK(r == 0, "loc_network_to_database_v1.succeeds");
	CHECK(v_be16(record) == v.cc, "loc_network_to_database_v1.country-code");
	CHECK(v_be32(record + 4) == v.asn, "loc_network_to_database_v1.asn");
	CHECK(v_be16(record + 8) == (uint16_t)v.flags, "loc_network_to_database_v1.flags");
	CHECK(!record[2] && !record[3] && !record[10] && !record[11], "loc_network_to_database_v1.unused");
	CHECK(v_same(v, v_view(n)), "loc_network_to_database_v1.frame");
	REACH("end");
}

/* Any record, at any place in the tree */
//@ target h_network_from prop=C11,C09,C10 fn=loc_network_new_from_database_v1
void h_network_from(void) {
	IN_ADDR(a);
	IN_RANGE(prefix, 0, 128);
	IN_U32(w0); IN_U32(w1); IN_U32(w2);
	uint8_t record[12] = { w0 >> 24, w0 >> 16, w0 >> 8, w0, w1 >> 24, w1 >> 16, w1 >> 8, w1, w2 >> 24, w2 >> 16, w2 >> 8, w2 };
	if (!SYMBOLIC && w0 % 4) {
		record[0] = 'A' + record[0] % 26;
		record[1] = 'A' + record[1] % 26;
	}
	struct loc_network* n = NULL;
	struct in6_addr copy = a;
	int r = loc_network_new_from_database_v1(v_ctx(), &n, &a, prefix, (struct loc_database_network_v1*)record);
	CHECK(v_num(&a) == v_num(&copy), "loc_network_new_from_database_v1.address-unchanged");
	uint16_t cc = v_be16(record);
	if (record[0] && !v_cc_valid(cc)) {
		CHECK(r != 0 && n == NULL, "loc_network_new_from_database_v1.refuses-invalid-codes");
		CHECK(V_CTX_BALANCED(), "loc_network_new_from_database_v1.releases");
		REACH("refused");
		return;
	}
	CHECK(r == 0 && n != NULL, "loc_network_new_from_database_v1.succeeds");
	struct v_net v = v_view(n);
	CHECK(v_canonical(v) && v.raw == prefix && v.first == (v_num(&a) & v_mask(prefix)), "loc_network_new_from_database_v1.network");
	CHECK(v.cc == (record[0] ? cc : 0), "loc_network_new_from_database_v1.country-code");
	CHECK(v.asn == v_be32(record + 4), "loc_network_new_from_database_v1.asn");
	CHECK(v.flags == v_be16(record + 8), "loc_network_new_from_database_v1.flags");
	REACH("end");
}

//@ target h_as_to fn=loc_as_to_database_v1 stub=loc_stringpool_add:v_pool_add
void h_as_to(void) {
	IN_U32(number);
	IN_STR(name);
	IN_RANGE(named, 0, 1);
	IN_U32(position);
	v_position = position;
	struct loc_ctx* ctx = v_ctx();
	struct loc_as* as = NULL;
	ASSUME(loc_as_new(ctx, &as, number) == 0);
	CHECK(loc_as_get_number(as) == number && !loc_as_get_name(as), "loc_as_new.post");
	if (named)
		ASSUME(loc_as_set_name(as, name) == 0 && loc_as_get_name(as));
	struct loc_stringpool* pool = NULL;
	ASSUME(loc_stringpool_new(ctx, &pool) == 0);
	uint8_t record[8];
	CHECK(sizeof(struct loc_database_as_v1) == 8, "loc_database_as_v1.size");
	const char* s = loc_as_get_name(as);
	int r = loc_as_to_database_v1(as, pool, (struct loc_database_as_v1*)record);
	CHECK(r == 0, "loc_as_to_database_v1.succeeds");
	CHECK(v_be32(record) == number, "loc_as_to_database_v1.number");
	if (s)
		CHECK(v_is_position(pool, v_be32(record + 4), s), "loc_as_to_database_v1.name");
	else if (SYMBOLIC)
		CHECK(v_adds == 1 && v_added && !*v_added && v_be32(record + 4) == (uint32_t)v_position, "loc_as_to_database_v1.no-name");
	else
		CHECK(v_is_position(pool, v_be32(record + 4), ""), "loc_as_to_database_v1.no-name");
	CHECK(loc_as_get_number(as) == number && loc_as_get_name(as) == s, "loc_as_to_database_v1.frame");
	REACH("end");
}

#ifdef __CPROVER__
char* strdup(const char* s) {
	char* p = malloc(V_STR);
	for (unsigned int i = 0; i < V_STR; i++)
		p[i] = s[i];
	return p;
}
char* strcasestr(const char* haystack, const char* needle);
#endif

//@ target h_country_to fn=loc_country_to_database_v1 stub=loc_stringpool_add:v_pool_add
void h_country_to(void) {
	IN_RANGE(c0, 'A', 'Z'); IN_RANGE(c1, 'A', 'Z');
	IN_RANGE(d0, 1, 255); IN_RANGE(d1, 1, 255);
	ASSUME(c0 != 'X');
	IN_STR(name);
	IN_RANGE(named, 0, 1);
	IN_RANGE(continent, 0, 1);
	IN_U32(position);
	v_position = position;
	IN_U8(garbage);
	struct loc_ctx* ctx = v_ctx();
	struct loc_country* country = NULL;
	char code[3] = { c0, c1, 0 }, cc[3] = { d0, d1, 0 };
	ASSUME(loc_country_new(ctx, &country, code) == 0);
	if (continent)
		ASSUME(loc_country_set_continent_code(country, cc) == 0);
	if (named)
		ASSUME(loc_country_set_name(country, name) == 0 && loc_country_get_name(country));
	struct loc_stringpool* pool = NULL;
	ASSUME(loc_stringpool_new(ctx, &pool) == 0);
	/* Every pool of a writer starts with an empty string */
	if (!SYMBOLIC)
		loc_stringpool_add(pool, "");
	uint8_t record[8];
	for (unsigned int i = 0; i < 8; i++)
		record[i] = garbage;
	CHECK(sizeof(struct loc_database_country_v1) == 8, "loc_database_country_v1.size");
	const char* s = loc_country_get_name(country);
	int r = loc_country_to_database_v1(country, pool, (struct loc_database_country_v1*)record);
	CHECK(r == 0, "loc_country_to_database_v1.succeeds");
	CHECK(record[0] == c0 && record[1] == c1, "loc_country_to_database_v1.code");
	if (continent)
		CHECK(record[2] == d0 && record[3] == d1, "loc_country_to_database_v1.continent-code");
	else
		CHECK(!record[2] && !record[3], "loc_country_to_database_v1.no-continent-code");
	if (s)
		CHECK(v_is_position(pool, v_be32(record + 4), s), "loc_country_to_database_v1.name");
	else if (SYMBOLIC)
		CHECK(v_adds ? v_adds == 1 && v_added && !*v_added && v_be32(record + 4) == (uint32_t)v_position : v_be32(record + 4) == 0, "loc_country_to_database_v1.no-name");
	else
		CHECK(v_is_position(pool, v_be32(record + 4), ""), "loc_country_to_database_v1.no-name");
	REACH("end");
}

/* AS numbers are compared as numbers */
//@ target h_as_cmp prop=C24,C15 fn=loc_as_cmp
void h_as_cmp(void) {
	IN_U32(a);
	IN_U32(b);
	struct loc_as *x = NULL, *y = NULL;
	ASSUME(loc_as_new(v_ctx(), &x, a) == 0 && loc_as_new(v_ctx(), &y, b) == 0);
	CHECK(v_sign(loc_as_cmp(x, y)) == (a > b) - (a < b), "loc_as_cmp.post");
	REACH("end");
}

/* A name that contains the string, without regard to case. strcasestr() is from libc */
static const char *v_haystack, *v_needle;
static bool v_found;
char* v_strcasestr(const char* haystack, const char* needle) {
	v_haystack = haystack;
	v_needle = needle;
	return v_found ? (char*)haystack : NULL;
}
static char v_lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool v_contains_string(const char* name, const char* string) {
	for (unsigned int i = 0; ; i++) {
		unsigned int j = 0;
		while (string[j] && v_lower(name[i + j]) == v_lower(string[j]))
			j++;
		if (!string[j])
			return true;
		if (!name[i])
			return false;
	}
}
//@ target h_match_string prop=C13 fn=loc_as_match_string stub=strcasestr:v_strcasestr assume="strcasestr() tells if a string contains another without regard to case"
void h_match_string(void) {
	IN_STR(name);
	IN_STR(string);
	IN_RANGE(named, 0, 1);
	IN_RANGE(searched, 0, 1);
	IN_RANGE(found, 0, 1);
	if (!SYMBOLIC)
		for (unsigned int i = 0; i < V_STR; i++) {
			name[i] = name[i] ? "aAbB"[name[i] & 3] : 0;
			string[i] = i < 3 && string[i] ? "aAbB"[string[i] & 3] : 0;
		}
	v_found = found;
	struct loc_as* as = NULL;
	ASSUME(loc_as_new(v_ctx(), &as, 1) == 0);
	if (named)
		ASSUME(loc_as_set_name(as, name) == 0 && loc_as_get_name(as));
	int r = loc_as_match_string(as, searched ? string : NULL);
	if (!searched)
		CHECK(r == 1, "loc_as_match_string.no-string");
	else if (!named)
		CHECK(r == 0, "loc_as_match_string.no-name");
#ifdef __CPROVER__
	else {
		SHAPE(v_haystack, "loc_as_match_string uses strcasestr");
		CHECK(r == found && v_haystack == loc_as_get_name(as) && v_needle == string, "loc_as_match_string.post");
	}
#else
	else
		CHECK(r == v_contains_string(name, string), "loc_as_match_string.post");
#endif
	REACH("end");
}
