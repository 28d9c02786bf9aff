/*
	The contracts of the helpers in libloc/address.h as functions, for units that are
	verified against the contracts of these helpers instead of their bodies. The
	helpers are checked against the same contracts in units/u_address.c, and these
	targets are part of every check that uses this.
*/
#ifndef ADDRESS_SPEC_H
#define ADDRESS_SPEC_H
#include "address.h"
#ifdef __CPROVER__
struct in6_addr v_prefix_to_bitmask(const unsigned int prefix) {
	__CPROVER_assert(prefix <= 128, "loc_prefix_to_bitmask.precondition");
	return v_addr(v_mask(prefix));
}
int v_address_cmp(const struct in6_addr* a1, const struct in6_addr* a2) {
	u128 x = v_num(a1), y = v_num(a2);
	return (x > y) - (x < y);
}
int v_address_all_zeroes(const struct in6_addr* a) { return v_num(a) == v_family_first(v_num(a)); }
int v_address_all_ones(const struct in6_addr* a) { return v_num(a) == v_family_last(v_num(a)); }
unsigned int v_address_bit_length(const struct in6_addr* a) {
	unsigned int r;
	__CPROVER_assume(post_address_bit_length(r, v_num(a)));
	return r;
}
void v_address_increment(struct in6_addr* a) {
	u128 n = v_num(a);
	*a = v_addr(n == v_family_last(n) ? n : n + 1);
}
void v_address_decrement(struct in6_addr* a) {
	u128 n = v_num(a);
	*a = v_addr(n == v_family_first(n) ? n : n - 1);
}
#endif
#endif
