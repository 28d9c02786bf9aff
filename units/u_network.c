//@ unit stub=loc_network_str:v_network_str
#include "models.h"
#include "../contracts/network.h"
#include "country.c"
#include "network.c"
#include "net_inputs.h"

//@ target h_new prop=C02 enforce=loc_network_new
void h_new(void) {
	struct loc_ctx* ctx = v_ctx();
	IN_ADDR(a);
	IN_PREFIX(prefix);
	struct loc_network* n = NULL;
	struct in6_addr copy = a;
	int r = loc_network_new(ctx, &n, &a, prefix);
	CHECK(post_network_new(r, v_num(&copy), prefix, n), "loc_network_new.post");
	REACH("end");
}

//@ target h_matches_address prop=C03 enforce=loc_network_matches_address
void h_matches_address(void) {
	IN_NET(n);
	IN_ADDR(a);
	int r = loc_network_matches_address(n, &a);
	CHECK(!!r == v_contains(v_view(n), v_num(&a)), "loc_network_matches_address.post");
	REACH("end");
}

//@ target h_cmp prop=C03 enforce=loc_network_cmp
void h_cmp(void) {
	IN_NET(n);
	IN_NET(m);
	int r = loc_network_cmp(n, m);
	CHECK(v_sign(r) == v_order(v_view(n), v_view(m)), "loc_network_cmp.post");
	REACH("end");
}

//@ target h_overlaps prop=C03 enforce=loc_network_overlaps
void h_overlaps(void) {
	IN_NET(n);
	IN_NET(m);
	int r = loc_network_overlaps(n, m);
	CHECK(!!r == v_overlap(v_view(n), v_view(m)), "loc_network_overlaps.post");
	REACH("end");
}

//@ target h_is_subnet prop=C03 enforce=loc_network_is_subnet
void h_is_subnet(void) {
	IN_NET(n);
	IN_NET(m);
	int r = loc_network_is_subnet(n, m);
	CHECK(!!r == v_is_subnet(v_view(n), v_view(m)), "loc_network_is_subnet.post");
	REACH("end");
}

//@ target h_properties_cmp prop=C04 enforce=loc_network_properties_cmp
void h_properties_cmp(void) {
	IN_NET(n);
	IN_NET(m);
	int r = loc_network_properties_cmp(n, m);
	CHECK((r == 0) == v_same_properties(v_view(n), v_view(m)), "loc_network_properties_cmp.post");
	REACH("end");
}

//@ target h_subnets prop=C04 enforce=loc_network_subnets
void h_subnets(void) {
	IN_NET(n);
	struct loc_network *s1 = NULL, *s2 = NULL;
	struct v_net v = v_view(n);
	int r = loc_network_subnets(n, &s1, &s2);
	CHECK(post_network_subnets(r, v, s1, s2), "loc_network_subnets.post");
	REACH("end");
}

//@ target h_merge prop=C04 enforce=loc_network_merge
void h_merge(void) {
	IN_NET(n);
	IN_NET(m);
	struct v_net v = v_view(n), w = v_view(m);
	struct loc_network* result = NULL;
	int r = loc_network_merge(&result, n, m);
	CHECK(post_network_merge(r, v, w, result), "loc_network_merge.post");
	CHECK(v_same(v, v_view(n)) && v_same(w, v_view(m)), "loc_network_merge.inputs-unchanged");
	REACH("end");
}
