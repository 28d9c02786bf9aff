//@ summary: the address helpers equal 128 bit (or 32 bit) arithmetic
//@ unit prop=C01
#include "models.h"
#include "../contracts/address.h"

//@ target h_family enforce=loc_address_family
void h_family(void) {
	IN_ADDR(a);
	int r = loc_address_family(&a);
	CHECK(r == V_FAMILY(v_num(&a)), "loc_address_family.post");
	REACH("end");
}

//@ target h_family_bit_length enforce=loc_address_family_bit_length
void h_family_bit_length(void) {
	IN_U32(family);
	unsigned int r = loc_address_family_bit_length(family);
	CHECK(r == (family == AF_INET6 ? 128 : family == AF_INET ? 32 : 0), "loc_address_family_bit_length.post");
	REACH("end");
}

//@ target h_valid_prefix enforce=loc_address_valid_prefix
void h_valid_prefix(void) {
	IN_ADDR(a);
	IN_PREFIX(prefix);
	int r = loc_address_valid_prefix(&a, prefix);
	CHECK(!!r == (prefix <= (v_is4(v_num(&a)) ? 32 : 128)), "loc_address_valid_prefix.post");
	REACH("end");
}

//@ target h_cmp enforce=loc_address_cmp
void h_cmp(void) {
	IN_ADDR(a);
	IN_ADDR(b);
	int r = loc_address_cmp(&a, &b);
	CHECK(post_address_cmp(r, &a, &b), "loc_address_cmp.post");
	REACH("end");
}

//@ target h_all_zeroes enforce=loc_address_all_zeroes
void h_all_zeroes(void) {
	IN_ADDR(a);
	int r = loc_address_all_zeroes(&a);
	CHECK(!!r == (v_num(&a) == v_family_first(v_num(&a))), "loc_address_all_zeroes.post");
	REACH("end");
}

//@ target h_all_ones enforce=loc_address_all_ones
void h_all_ones(void) {
	IN_ADDR(a);
	int r = loc_address_all_ones(&a);
	CHECK(!!r == (v_num(&a) == v_family_last(v_num(&a))), "loc_address_all_ones.post");
	REACH("end");
}

//@ target h_get_bit enforce=loc_address_get_bit
void h_get_bit(void) {
	IN_ADDR(a);
	IN_RANGE(i, 0, 127);
	int r = loc_address_get_bit(&a, i);
	CHECK(r == (int)((v_num(&a) >> (127 - i)) & 1), "loc_address_get_bit.post");
	REACH("end");
}

//@ target h_set_bit enforce=loc_address_set_bit
void h_set_bit(void) {
	IN_ADDR(a);
	IN_RANGE(i, 0, 127);
	IN_RANGE(val, 0, 1);
	u128 old = v_num(&a);
	loc_address_set_bit(&a, i, val);
	CHECK(post_address_set_bit(old, v_num(&a), i, val), "loc_address_set_bit.post");
	REACH("end");
}

//@ target h_bitmask enforce=loc_prefix_to_bitmask
void h_bitmask(void) {
	IN_RANGE(prefix, 0, 128);
	struct in6_addr r = loc_prefix_to_bitmask(prefix);
	CHECK(v_num(&r) == v_mask(prefix), "loc_prefix_to_bitmask.post");
	REACH("end");
}

//@ target h_bit_length enforce=loc_address_bit_length
void h_bit_length(void) {
	IN_ADDR(a);
	unsigned int r = loc_address_bit_length(&a);
	CHECK(post_address_bit_length(r, v_num(&a)), "loc_address_bit_length.post");
	REACH("end");
}

//@ target h_common_bits enforce=loc_address_common_bits
void h_common_bits(void) {
	IN_ADDR(a);
	IN_ADDR(b);
	int r = loc_address_common_bits(&a, &b);
	CHECK(post_address_common_bits(r, v_num(&a), v_num(&b)), "loc_address_common_bits.post");
	REACH("end");
}

//@ target h_reset enforce=loc_address_reset
void h_reset(void) {
	IN_ADDR(a);
	IN_U32(family);
	u128 old = v_num(&a);
	int r = loc_address_reset(&a, family);
	CHECK(post_address_reset(r, family, old, v_num(&a), false), "loc_address_reset.post");
	REACH("end");
}

//@ target h_reset_last enforce=loc_address_reset_last
void h_reset_last(void) {
	IN_ADDR(a);
	IN_U32(family);
	u128 old = v_num(&a);
	int r = loc_address_reset_last(&a, family);
	CHECK(post_address_reset(r, family, old, v_num(&a), true), "loc_address_reset_last.post");
	REACH("end");
}

//@ target h_and enforce=loc_address_and
void h_and(void) {
	IN_ADDR(a);
	IN_ADDR(b);
	struct in6_addr r = loc_address_and(&a, &b);
	CHECK(v_num(&r) == (v_num(&a) & v_num(&b)), "loc_address_and.post");
	REACH("end");
}

//@ target h_or enforce=loc_address_or
void h_or(void) {
	IN_ADDR(a);
	IN_ADDR(b);
	struct in6_addr r = loc_address_or(&a, &b);
	CHECK(v_num(&r) == (v_num(&a) | ~v_num(&b)), "loc_address_or.post");
	REACH("end");
}

//@ target h_sub enforce=loc_address_sub
void h_sub(void) {
	IN_ADDR(a);
	IN_ADDR(b);
	struct in6_addr result = a;
	int r = loc_address_sub(&result, &a, &b);
	CHECK(post_address_sub(r, v_num(&result), v_num(&a), v_num(&b)), "loc_address_sub.post");
	REACH("end");
}

//@ target h_increment enforce=loc_address_increment
void h_increment(void) {
	IN_ADDR(a);
	u128 old = v_num(&a);
	loc_address_increment(&a);
	CHECK(post_address_increment(old, v_num(&a)), "loc_address_increment.post");
	REACH("end");
}

//@ target h_decrement enforce=loc_address_decrement
void h_decrement(void) {
	IN_ADDR(a);
	u128 old = v_num(&a);
	loc_address_decrement(&a);
	CHECK(post_address_decrement(old, v_num(&a)), "loc_address_decrement.post");
	REACH("end");
}

//@ target h_get_octet enforce=loc_address_get_octet
void h_get_octet(void) {
	IN_ADDR(a);
	IN_U32(i);
	int r = loc_address_get_octet(&a, i);
	CHECK(post_address_get_octet(r, v_num(&a), i), "loc_address_get_octet.post");
	REACH("end");
}

//@ target h_get_nibble enforce=loc_address_get_nibble
void h_get_nibble(void) {
	IN_ADDR(a);
	IN_U32(i);
	int r = loc_address_get_nibble(&a, i);
	CHECK(post_address_get_nibble(r, v_num(&a), i), "loc_address_get_nibble.post");
	REACH("end");
}
