//@ unit prop=C07 stub=loc_network_str:v_network_str,loc_prefix_to_bitmask:v_prefix_to_bitmask,loc_address_cmp:v_address_cmp,loc_address_all_ones:v_address_all_ones,loc_address_bit_length:v_address_bit_length cost=60 defs=V_TYPED_CALLOC
#include "models.h"
#include "../contracts/address_spec.h"
#include "../contracts/network.h"
#include "country.c"
#include "stringpool.c"
#include "network.c"
#include "network-list.c"
#include "net_inputs.h"

/*
	The loop invariant: everything from first to the address before start is on the list
	exactly once, and start is not beyond last. An iteration from any start pushes
	one network that begins at start and does not go beyond last, and then goes on after
	that network, or stops if it has reached last. Any first address makes the first
	iteration one from any start. 
*/
/* IPv6 ranges that span the IPv4 addresses, which do not fit into one network */
static bool v_excepted(u128 first, u128 last) {
	return first < V_FIRST4 && last > V_LAST4 && !(first == 0 && last >= ((u128)1 << 49) - 1);
}

#ifdef __CPROVER__
static u128 v_last, v_start, v_end;
static bool v_done, v_pushed;
static int v_iterations;
int v_push(struct loc_network_list* list, struct loc_network* network) {
	struct v_net n = v_view(network);
	CHECK(!v_done && !v_pushed, "loc_network_list_summarize.nothing-beyond-last");
	CHECK(v_canonical(n), "loc_network_list_summarize.network");
	CHECK(n.first == v_start, "loc_network_list_summarize.begins-where-the-previous-one-ends");
	CHECK(n.last <= v_last && (n.family == AF_INET) == v_is4(v_last), "loc_network_list_summarize.does-not-go-beyond-last");
	v_end = n.last;
	v_done = n.last == v_last;
	v_pushed = true;
	REACH("USED push");
	return 0;
}
static bool v_in_new;
static unsigned int v_b, v_masks;
static u128 v_end_of(u128 start, unsigned int bits) { return start | ~v_mask(bits + (v_is4(v_last) ? 96 : 0)); }

/*
	Every iteration starts with this. The number of bits is then incremented until the
	network fits. The invariant of this loop: the network begins at start, and any
	smaller number of bits would have been too large. Returns any such number.
*/
unsigned int v_bits(const struct in6_addr* address) {
	REACH("USED loc_address_bit_length");
	if (v_iterations++) {
		CHECK(v_pushed && !v_done, "loc_network_list_summarize.continues-only-before-last");
		CHECK(v_num(address) == v_end + 1 && v_num(address) <= v_last, "loc_network_list_summarize.continues-after-the-network");
		/* From here on, it is a call with another first address */
		ASSUME(false);
	}
	SHAPE(v_num(address) == v_start, "starts with the first address");
	unsigned int bits = v_address_bit_length(address);
	V_ND(unsigned int, b);
	ASSUME(b >= bits && b <= (v_is4(v_last) ? 32 : 128));
	ASSUME(b == bits || v_end_of(v_start, b - 1) > v_last);
	v_b = b;
	return b;
}
struct in6_addr v_bitmask(const unsigned int prefix) {
	if (!v_in_new) {
		SHAPE(v_iterations == 1, "one after another");
		unsigned int bits = v_is4(v_last) ? prefix - 96 : prefix;
		if (v_masks++) {
			SHAPE(bits == v_b + 1, "one bit more");
			CHECK(v_end_of(v_start, v_b) > v_last, "loc_network_list_summarize.no-smaller-than-necessary");
			CHECK(bits <= (v_is4(v_last) ? 32 : 128), "loc_network_list_summarize.fits-in-the-end");
			/* From here on, it is another b */
			ASSUME(false);
		}
		SHAPE(bits == v_b, "starts with all bits needed");
	}
	return v_prefix_to_bitmask(prefix);
}
int v_real_new(struct loc_ctx* ctx, struct loc_network** network, struct in6_addr* address, unsigned int prefix) { return 1; }
int v_network_new(struct loc_ctx* ctx, struct loc_network** network, struct in6_addr* address, unsigned int prefix) {
	v_in_new = true;
	int r = v_real_new(ctx, network, address, prefix);
	v_in_new = false;
	return r;
}

//@ target h_step fn=loc_network_list_summarize stub=loc_network_str:v_network_str,loc_network_new:v_network_new,loc_prefix_to_bitmask:v_bitmask,loc_address_cmp:v_address_cmp,loc_address_all_ones:v_address_all_ones,loc_address_bit_length:v_bits,loc_network_list_push:v_push,loc_address_increment:v_address_increment unwind=6 entry=v_real_new:loc_network_new native=0 witness=h_range assume="the address at which the next network starts is the only thing that one iteration of loc_network_list_summarize() passes on to the next"
void h_step(void) {
	IN_ADDR(first); IN_ADDR(last);
	struct loc_network_list* list = NULL;
	ASSUME(loc_network_list_new(v_ctx(), &list) == 0);
	v_start = v_num(&first);
	v_last = v_num(&last);
	ASSUME(!v_excepted(v_start, v_last));
	struct in6_addr f = first, l = last;
	int r = loc_network_list_summarize(v_ctx(), &f, &l, &list);
	CHECK(v_num(&f) == v_num(&first) && v_num(&l) == v_last, "loc_network_list_summarize.addresses-unchanged");
	if (v_is4(v_num(&first)) != v_is4(v_last) || v_num(&first) > v_last) {
		CHECK(r != 0 && !v_pushed, "loc_network_list_summarize.invalid");
		REACH("invalid");
		return;
	}
	CHECK(r == 0 && v_done, "loc_network_list_summarize.reaches-last");
	REACH("end");
}
#endif

/* Everything at once, for short ranges */
/* (Only run natively, to find inputs for violations) */
void h_range(void) {
	IN_ADDR(first); IN_ADDR(last);
	if (SYMBOLIC)
		ASSUME((v_num(&first) ^ v_num(&last)) < 8);
	else {
		IN_RANGE(kind, 0, 3); IN_PREFIX(p);
		if (kind) {
			if (p > 128) p = 128;
			last = v_addr((v_num(&first) & v_mask(p)) | (v_num(&last) & ~v_mask(p)));
		}
		if (kind == 2) last = v_addr(v_num(&last) | ~v_mask(p));
		if (kind == 3) first = v_addr(v_num(&first) & v_mask(p));
	}
	u128 f = v_num(&first), l = v_num(&last);
	ASSUME(!v_excepted(f, l));
	struct loc_network_list* list = NULL;
	ASSUME(loc_network_list_new(v_ctx(), &list) == 0);
	int r = loc_network_list_summarize(v_ctx(), &first, &last, &list);
	if (v_is4(f) != v_is4(l) || f > l) {
		CHECK(r != 0 && loc_network_list_size(list) == 0, "loc_network_list_summarize.invalid");
		REACH("invalid");
		return;
	}
	CHECK(r == 0, "loc_network_list_summarize.valid");
	size_t n = loc_network_list_size(list);
	CHECK(n > 0, "loc_network_list_summarize.something");
	u128 next = f;
	for (size_t i = 0; i < n; i++) {
		struct loc_network* network = loc_network_list_get(list, i);
		struct v_net v = v_view(network);
		CHECK(v_canonical(v) && v.first == next && v.last <= l, "loc_network_list_summarize.contiguous");
		next = v.last + 1;
		loc_network_unref(network);
	}
	CHECK(next == l + 1, "loc_network_list_summarize.reaches-last");
	loc_network_list_unref(list);
	REACH("end");
}
