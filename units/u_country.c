//@ unit prop=C16 stub=loc_network_str:v_network_str assume="strlen() follows the C standard for strings of any length (include/str_inputs.h)"
#include "../contracts/country.h"
#include "../contracts/network.h"
#include "str_inputs.h"
#include "country.c"
#include "stringpool.c"
#include "network.c"
#include "net_inputs.h"

//@ target h_code_is_valid enforce=loc_country_code_is_valid
void h_code_is_valid(void) {
	IN_STR(cc);
	IN_RANGE(null, 0, 1);
	const char* s = null ? NULL : cc;
	int r = loc_country_code_is_valid(s);
	CHECK(!!r == v_code_valid(s), "loc_country_code_is_valid.post");
	REACH("end");
}

//@ target h_special enforce=loc_country_special_code_to_flag
void h_special(void) {
	IN_STR(cc);
	IN_RANGE(null, 0, 1);
	const char* s = null ? NULL : cc;
	int r = loc_country_special_code_to_flag(s);
	CHECK(r == v_special(s), "loc_country_special_code_to_flag.post");
	REACH("end");
}

//@ target h_set_country_code enforce=loc_network_set_country_code defs=V_NO_CC
void h_set_country_code(void) {
	IN_NET(n);
	IN_STR(cc);
	IN_RANGE(null, 0, 1);
	const char* s = null ? NULL : cc;
	g_old = v_view(n);
	int r = loc_network_set_country_code(n, s);
	CHECK(post_set_country_code(r, g_old, v_view(n), s), "loc_network_set_country_code.post");
	const char* code = loc_network_get_country_code(n);
	CHECK(code && (!code[0] || !code[2]), "loc_network_get_country_code.terminated");
	REACH("end");
}

/* The same with a code (and an ASN, and flags) that has been set before */
//@ target h_set_again fn=loc_network_set_country_code,loc_network_set_asn,loc_network_set_flag
void h_set_again(void) {
	IN_NET(n);
	IN_STR(cc);
	IN_RANGE(null, 0, 1);
	IN_U32(asn);
	IN_U32(flag);
	const char* s = null ? NULL : cc;
	g_old = v_view(n);
	int r = loc_network_set_country_code(n, s);
	CHECK(post_set_country_code(r, g_old, v_view(n), s), "loc_network_set_country_code.post");
	loc_network_set_asn(n, asn);
	loc_network_set_flag(n, flag);
	struct v_net v = v_view(n);
	CHECK(v.asn == asn && v.flags == (g_old.flags | flag), "loc_network_set_asn.post");
	REACH("end");
}

//@ target h_matches_country_code enforce=loc_network_matches_country_code
void h_matches_country_code(void) {
	IN_NET(n);
	IN_STR(cc);
	IN_RANGE(null, 0, 1);
	const char* s = null ? NULL : cc;
	struct v_net v = v_view(n);
	int r = loc_network_matches_country_code(n, s);
	CHECK(post_matches_country_code(r, v, s), "loc_network_matches_country_code.post");
	CHECK(v_same(v, v_view(n)), "loc_network_matches_country_code.frame");
	REACH("end");
}

//@ target h_set_asn enforce=loc_network_set_asn defs=V_NO_ASN
void h_set_asn(void) {
	IN_NET(n);
	IN_U32(asn);
	g_old = v_view(n);
	int r = loc_network_set_asn(n, asn);
	struct v_net v = v_view(n);
	CHECK(r == 0 && v.asn == asn, "loc_network_set_asn.post");
	CHECK(v_frame_but_properties(g_old, v) && g_old.cc == v.cc && g_old.flags == v.flags, "loc_network_set_asn.frame");
	REACH("end");
}

//@ target h_set_flag enforce=loc_network_set_flag defs=V_NO_FLAGS fn=loc_network_has_flag
void h_set_flag(void) {
	IN_NET(n);
	IN_U32(flag);
	IN_U32(query);
	g_old = v_view(n);
	int r = loc_network_set_flag(n, flag);
	struct v_net v = v_view(n);
	CHECK(r == 0 && v.flags == (g_old.flags | flag), "loc_network_set_flag.post");
	CHECK(!!loc_network_has_flag(n, query) == !!(v.flags & query), "loc_network_has_flag.post");
	CHECK(v_frame_but_properties(g_old, v) && g_old.cc == v.cc && g_old.asn == v.asn, "loc_network_set_flag.frame");
	REACH("end");
}

/* Only valid codes make a country */
//@ target h_country_new enforce=loc_country_new
void h_country_new(void) {
	struct loc_ctx* ctx = v_ctx();
	IN_STR(cc);
	struct loc_country* c = NULL;
	int r = loc_country_new(ctx, &c, cc);
	CHECK(post_country_new(r, c, cc), "loc_country_new.post");
	if (r == 0)
		loc_country_unref(c);
	CHECK(V_CTX_BALANCED(), "loc_country.context-released");
	REACH("end");
}

//@ target h_continent_code enforce=loc_country_set_continent_code
void h_continent_code(void) {
	struct loc_ctx* ctx = v_ctx();
	IN_STR(continent);
	IN_RANGE(null, 0, 1);
	const char* s = null ? NULL : continent;
	struct loc_country* c = NULL;
	ASSUME(loc_country_new(ctx, &c, "DE") == 0);
	int r = loc_country_set_continent_code(c, s);
	CHECK(post_set_continent_code(r, c, s), "loc_country_set_continent_code.post");
	CHECK(v_code_is(loc_country_get_code(c), "DE"), "loc_country_set_continent_code.frame");
	REACH("end");
}

/* The order of countries is the order of their codes */
//@ target h_country_cmp enforce=loc_country_cmp
void h_country_cmp(void) {
	struct loc_ctx* ctx = v_ctx();
	IN_RANGE(a0, 'A', 'Z'); IN_RANGE(a1, 'A', 'Z');
	IN_RANGE(b0, 'A', 'Z'); IN_RANGE(b1, 'A', 'Z');
	ASSUME(a0 != 'X' && b0 != 'X');
	char a[3] = { a0, a1, 0 }, b[3] = { b0, b1, 0 };
	struct loc_country *c = NULL, *d = NULL;
	ASSUME(loc_country_new(ctx, &c, a) == 0);
	ASSUME(loc_country_new(ctx, &d, b) == 0);
	CHECK(v_sign(loc_country_cmp(c, d)) == v_country_order(c, d), "loc_country_cmp.post");
	REACH("end");
}
