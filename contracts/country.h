#ifndef CONTRACTS_COUNTRY_H
#define CONTRACTS_COUNTRY_H
#include "models.h"
#include "network.h"

/* A country code is two letters, and the first one is not X */
static inline bool v_code_valid(const char* cc) {
	return cc && cc[0] && cc[1] && !cc[2]
		&& cc[0] >= 'A' && cc[0] <= 'Z' && cc[1] >= 'A' && cc[1] <= 'Z' && cc[0] != 'X';
}
static inline int v_special(const char* cc) {
	if (!cc || !cc[0])
		return -1;
	if (!cc[1] || cc[2])
		return 0;
	if (cc[0] == 'A' && cc[1] == '1') return 1;
	if (cc[0] == 'A' && cc[1] == '2') return 2;
	if (cc[0] == 'A' && cc[1] == '3') return 4;
	if (cc[0] == 'X' && cc[1] == 'D') return 8;
	return 0;
}

int loc_country_code_is_valid(const char* cc)
ENSURES(!!RET == v_code_valid(cc))
ASSIGNS(verif_errno);

int loc_country_special_code_to_flag(const char* cc)
ENSURES(RET == v_special(cc))
ASSIGNS(verif_errno);

/* Ghost: the view of the network before the call */
struct v_net g_old;
static inline bool v_frame_but_properties(struct v_net a, struct v_net b) {
	return a.first == b.first && a.last == b.last && a.prefix == b.prefix && a.family == b.family;
}
#define V_CC(s) ((uint16_t)((uint8_t)(s)[0] << 8 | (uint8_t)(s)[1]))

/* Setting an invalid code changes nothing; setting none clears it */
static inline bool post_set_country_code(int r, struct v_net old, struct v_net new, const char* s) {
	if (!v_frame_but_properties(old, new) || old.asn != new.asn || old.flags != new.flags)
		return false;
	if (!s || !*s)
		return r == 0 && new.cc == 0;
	if (v_code_valid(s))
		return r == 0 && new.cc == V_CC(s);
	return r != 0 && new.cc == old.cc;
}
int loc_network_set_country_code(struct loc_network* network, const char* country_code)
REQUIRES(v_wf(network) && v_same(g_old, v_view(network)))
ENSURES(post_set_country_code(RET, g_old, v_view(network), country_code))
ENSURES(v_wf(network))
ASSIGNS(__CPROVER_object_whole(network), verif_errno);

/* A special code matches its flag; any other code must be equal; what is no code is an error */
static inline bool post_matches_country_code(int r, struct v_net v, const char* s) {
	if (v_special(s) > 0)
		return r >= 0 && !!r == !!(v.flags & v_special(s));
	if (v_code_valid(s))
		return r >= 0 && !!r == (v.cc == V_CC(s));
	return r < 0;
}
int loc_network_matches_country_code(struct loc_network* network, const char* country_code)
REQUIRES(v_wf(network))
ENSURES(post_matches_country_code(RET, v_view(network), country_code))
ASSIGNS(verif_errno);

int loc_network_set_asn(struct loc_network* network, uint32_t asn)
REQUIRES(v_wf(network) && v_same(g_old, v_view(network)))
ENSURES(RET == 0 && v_view(network).asn == asn)
ENSURES(v_frame_but_properties(g_old, v_view(network)) && g_old.cc == v_view(network).cc && g_old.flags == v_view(network).flags)
ASSIGNS(__CPROVER_object_whole(network));

int loc_network_set_flag(struct loc_network* network, uint32_t flag)
REQUIRES(v_wf(network) && v_same(g_old, v_view(network)))
ENSURES(RET == 0 && v_view(network).flags == (g_old.flags | flag))
ENSURES(v_frame_but_properties(g_old, v_view(network)) && g_old.cc == v_view(network).cc && g_old.asn == v_view(network).asn)
ASSIGNS(__CPROVER_object_whole(network));

struct loc_country;
const char* loc_country_get_code(struct loc_country* country);
const char* loc_country_get_continent_code(struct loc_country* country);
const char* loc_country_get_name(struct loc_country* country);

static inline bool v_code_is(const char* code, const char* s) {
	return code && code[0] == s[0] && code[1] == s[1] && code[2] == 0;
}
static inline bool post_country_new(int r, struct loc_country* c, const char* s) {
	if (!v_code_valid(s))
		return r != 0;
	return r == 0 && v_code_is(loc_country_get_code(c), s)
		&& loc_country_get_name(c) == NULL && loc_country_get_continent_code(c) == NULL;
}
int loc_country_new(struct loc_ctx* ctx, struct loc_country** country, const char* country_code)
REQUIRES(ctx != NULL && country != NULL)
ENSURES(post_country_new(RET, *country, country_code))
ASSIGNS(*country, verif_errno, ctx->refcount);

/* A continent code has two characters */
static inline bool post_set_continent_code(int r, struct loc_country* c, const char* s) {
	if (s && s[0] && s[1] && !s[2])
		return r == 0 && v_code_is(loc_country_get_continent_code(c), s);
	return r != 0 && loc_country_get_continent_code(c) == NULL;
}
int loc_country_set_continent_code(struct loc_country* country, const char* continent_code)
REQUIRES(country != NULL && loc_country_get_continent_code(country) == NULL)
ENSURES(post_set_continent_code(RET, country, continent_code))
ASSIGNS(__CPROVER_object_whole(country), verif_errno);

static inline int v_country_order(struct loc_country* a, struct loc_country* b) {
	int x = V_CC(loc_country_get_code(a)), y = V_CC(loc_country_get_code(b));
	return (x > y) - (x < y);
}
int loc_country_cmp(struct loc_country* country1, struct loc_country* country2)
REQUIRES(v_code_valid(loc_country_get_code(country1)) && v_code_valid(loc_country_get_code(country2)))
ENSURES(v_sign(RET) == v_country_order(country1, country2))
ASSIGNS();
#endif
