//@ unit prop=C05 cost=60 defs=V_TYPED_CALLOC
#include "models.h"
#include "../contracts/address_spec.h"
#include "../contracts/network.h"
#include "country.c"
#include "stringpool.c"
#include "network.c"
#include "network-list.c"
#include "net_inputs.h"

#ifdef STEP
/*
	Excluding one network, by induction over the levels between both. The contract: when
	other is a proper subnet of network, networks get pushed on the list such that
	every address (of which any one is looked at) is covered exactly once
	if it is in network, but not in other, and not at all otherwise.
*/
static u128 v_x;
static int v_covered;
static struct loc_network_list* v_list;
static struct { bool called; struct v_net network, other; int r; } below;

int v_push(struct loc_network_list* list, struct loc_network* network) {
	CHECK(list == v_list, "__loc_network_exclude.list");
	CHECK(v_wf(network), "__loc_network_exclude.network");
	if (v_contains(v_view(network), v_x))
		v_covered++;
	return 0;
}
/* Does this path end in ::fffe:0:0/95, which cannot be split? */
static bool v_possible(struct v_net network, struct v_net other) {
	struct v_net half = { .first = (u128)0xfffe << 32, .raw = 95, .family = AF_INET6 };
	return !(v_is_subnet(network, half) && v_is_subnet(half, other) && other.raw > 95);
}
int v_exclude(struct loc_network* network, struct loc_network* other, struct loc_network_list* list) {
	below.called = true;
	struct v_net n = v_view(network), o = v_view(other);
	CHECK(list == v_list && v_canonical(n) && v_canonical(o), "__loc_network_exclude.precondition");
	CHECK(v_is_subnet(n, o) && o.raw > n.raw, "__loc_network_exclude.proper-subnet");
	below.network = n;
	below.other = o;
	REACH("USED __loc_network_exclude");
	if (!v_possible(n, o))
		return 1;
	if (v_contains(n, v_x) && !v_contains(o, v_x))
		v_covered++;
	return 0;
}
int v_real(struct loc_network* network, struct loc_network* other, struct loc_network_list* list) { return 1; }

//@ target h_step fn=__loc_network_exclude defs=STEP,V_TYPED_CALLOC stub=loc_network_str:v_network_str,loc_prefix_to_bitmask:v_prefix_to_bitmask,loc_address_cmp:v_address_cmp,loc_network_list_push:v_push,__loc_network_exclude:v_exclude entry=v_real:__loc_network_exclude unwind=18 native=0 witness=h_short witness_defs=V_TYPED_CALLOC cost=60
void h_step(void) {
	IN_PLAIN_NET(network);
	IN_PLAIN_NET(other);
	IN_ADDR(x);
	struct v_net n = v_view(network), o = v_view(other);
	ASSUME(v_is_subnet(n, o) && o.raw > n.raw);
	v_x = v_num(&x);
	ASSUME(loc_network_list_new(v_ctx(), &v_list) == 0);
	int r = v_real(network, other, v_list);
	if (!v_possible(n, o)) {
		CHECK(r != 0, "__loc_network_exclude.impossible");
		REACH("impossible");
		return;
	}
	CHECK(r == 0, "__loc_network_exclude.succeeds");
	CHECK(v_covered == (v_contains(n, v_x) && !v_contains(o, v_x) ? 1 : 0), "__loc_network_exclude.covers-exactly-the-rest");
	if (below.called)
		CHECK(below.network.raw > n.raw, "__loc_network_exclude.terminates");
	REACH("end");
}

//@ target h_exclude fn=loc_network_exclude defs=STEP,V_TYPED_CALLOC stub=loc_network_str:v_network_str,loc_prefix_to_bitmask:v_prefix_to_bitmask,loc_address_cmp:v_address_cmp,__loc_network_exclude:v_exclude,loc_network_list_new:v_list_new unwind=18 native=0 witness=h_short witness_defs=V_TYPED_CALLOC cost=30
int v_list_new(struct loc_ctx* ctx, struct loc_network_list** list) {
	static struct loc_network_list object;
	object.ctx = ctx;
	object.refcount = 1;
	v_list = *list = &object;
	return 0;
}
void h_exclude(void) {
	IN_PLAIN_NET(network);
	IN_PLAIN_NET(other);
	IN_ADDR(x);
	struct v_net n = v_view(network), o = v_view(other);
	v_x = v_num(&x);
	bool proper = v_is_subnet(n, o) && o.raw > n.raw;
	ASSUME(!proper || v_possible(n, o));
	struct loc_network_list* list = loc_network_exclude(network, other);
	CHECK(list && list == v_list, "loc_network_exclude.returns-the-list");
	CHECK(below.called == proper, "loc_network_exclude.only-proper-subnets");
	CHECK(loc_network_list_size(list) == 0, "loc_network_exclude.nothing-else");
	if (proper)
		CHECK(v_order(below.network, n) == 0 && v_order(below.other, o) == 0, "loc_network_exclude.networks");
	REACH("end");
}
#else
/* Everything at once */
static void check_exclude(struct v_net n, struct v_net o, struct loc_network* network, struct loc_network* other, u128 x) {
	struct loc_network_list* list = loc_network_exclude(network, other);
	CHECK(list != NULL, "loc_network_exclude.returns-a-list");
	size_t size = loc_network_list_size(list);
	if (!v_is_subnet(n, o) || o.raw <= n.raw) {
		CHECK(size == 0, "loc_network_exclude.only-proper-subnets");
		REACH("none");
	} else {
		int covered = 0;
		for (size_t i = 0; i < size; i++) {
			struct loc_network* e = loc_network_list_get(list, i);
			CHECK(v_wf(e), "loc_network_exclude.networks");
			if (v_contains(v_view(e), x))
				covered++;
			loc_network_unref(e);
		}
		CHECK(covered == (v_contains(n, x) && !v_contains(o, x)), "loc_network_exclude.covers-exactly-the-rest");
		REACH("end");
	}
	loc_network_list_unref(list);
}
void h_short(void) {
	IN_PLAIN_NET(network);
	IN_PLAIN_NET(other);
	IN_ADDR(x);
	if (!SYMBOLIC) {
		IN_RANGE(related, 0, 3);
		struct in6_addr a = v_addr(v_view(network).first | (v_num(&other_a) & ~v_mask(v_view(network).raw)));
		if (related) {
			other = NULL;
			loc_network_new(v_ctx(), &other, &a, other_p);
			ASSUME(other);
		}
		IN_RANGE(inside, 0, 2);
		if (inside)
			x = v_addr(v_view(network).first | (v_num(&x) & ~v_mask(v_view(network).raw)));
	}
	struct v_net n = v_view(network), o = v_view(other);
	ASSUME(!SYMBOLIC || o.raw <= n.raw + 2);
	struct v_net half = { .first = (u128)0xfffe << 32, .raw = 95, .family = AF_INET6 };
	ASSUME(!(v_is_subnet(n, half) && v_is_subnet(half, o) && o.raw > 95));
	check_exclude(n, o, network, other, v_num(&x));
	loc_network_unref(network);
	loc_network_unref(other);
	CHECK(V_CTX_BALANCED(), "loc_network_exclude.releases-the-context");
}
#endif
