/*
	Contracts of libloc/address.h: every helper is specified as arithmetic on the
	128 bit number (or the 32 bit number inside ::ffff:0:0/96) that an address is.
*/
#ifndef CONTRACTS_ADDRESS_H
#define CONTRACTS_ADDRESS_H
#include "verif.h"

#define V_FAMILY(n) (v_is4(n) ? AF_INET : AF_INET6)

/* First and last address of the family of n */
static inline u128 v_family_first(u128 n) { return v_is4(n) ? V_FIRST4 : 0; }
static inline u128 v_family_last(u128 n)  { return v_is4(n) ? V_LAST4 : V_ONES; }

static inline int loc_address_family(const struct in6_addr* address)
REQUIRES(address != NULL)
ENSURES(RET == V_FAMILY(v_num(address)))
ASSIGNS();

static inline unsigned int loc_address_family_bit_length(const int family)
ENSURES(RET == (family == AF_INET6 ? 128 : family == AF_INET ? 32 : 0))
ASSIGNS();

static inline int loc_address_valid_prefix(const struct in6_addr* address, unsigned int prefix)
REQUIRES(address != NULL)
ENSURES(!!RET == (prefix <= (v_is4(v_num(address)) ? 32 : 128)))
ASSIGNS();

static inline bool post_address_cmp(int r, const struct in6_addr* a1, const struct in6_addr* a2) {
	u128 x = v_num(a1), y = v_num(a2);
	return v_sign(r) == (x > y) - (x < y);
}
static inline int loc_address_cmp(const struct in6_addr* a1, const struct in6_addr* a2)
REQUIRES(a1 != NULL && a2 != NULL)
ENSURES(post_address_cmp(RET, a1, a2))
ASSIGNS();

static inline int loc_address_all_zeroes(const struct in6_addr* address)
REQUIRES(address != NULL)
ENSURES(!!RET == (v_num(address) == v_family_first(v_num(address))))
ASSIGNS();

static inline int loc_address_all_ones(const struct in6_addr* address)
REQUIRES(address != NULL)
ENSURES(!!RET == (v_num(address) == v_family_last(v_num(address))))
ASSIGNS();

static inline int loc_address_get_bit(const struct in6_addr* address, unsigned int i)
REQUIRES(address != NULL && i < 128)
ENSURES(RET == (int)((v_num(address) >> (127 - i)) & 1))
ASSIGNS();

static inline bool post_address_set_bit(u128 old, u128 new, unsigned int i, unsigned int val) {
	u128 bit = (u128)1 << (127 - i);
	return new == (val ? old | bit : old & ~bit);
}
static inline void loc_address_set_bit(struct in6_addr* address, unsigned int i, unsigned int val)
REQUIRES(address != NULL && i < 128 && val <= 1)
ENSURES(post_address_set_bit(v_numv(__CPROVER_old(*address)), v_num(address), i, val))
ASSIGNS(*address);

static inline struct in6_addr loc_prefix_to_bitmask(const unsigned int prefix)
REQUIRES(prefix <= 128)
ENSURES(v_numv(RET) == v_mask(prefix))
ASSIGNS();

/* The smallest prefix for which the address is the first one of its network */
static inline bool post_address_bit_length(unsigned int r, u128 n) {
	unsigned int length = v_is4(n) ? 32 : 128;
	unsigned int offset = 128 - length;
	return r <= length
		&& ((n & ~v_mask(r + offset)) == 0)
		&& (r == 0 || (n & ~v_mask(r + offset - 1)) != 0);
}
static inline unsigned int loc_address_bit_length(const struct in6_addr* address)
REQUIRES(address != NULL)
ENSURES(post_address_bit_length(RET, v_num(address)))
ASSIGNS();

static inline bool post_address_common_bits(int r, u128 x, u128 y) {
	if (v_is4(x) != v_is4(y))
		return r < 0;
	unsigned int length = v_is4(x) ? 32 : 128;
	unsigned int offset = 128 - length;
	if (r < 0 || (unsigned int)r > length)
		return false;
	return ((x ^ y) & v_mask(r + offset)) == 0
		&& ((unsigned int)r == length || ((x ^ y) & v_mask(r + offset + 1)) != 0);
}
static inline int loc_address_common_bits(const struct in6_addr* a1, const struct in6_addr* a2)
REQUIRES(a1 != NULL && a2 != NULL)
ENSURES(post_address_common_bits(RET, v_num(a1), v_num(a2)))
ASSIGNS();

static inline bool post_address_reset(int r, int family, u128 old, u128 new, bool last) {
	switch (family) {
		case AF_INET6: return r == 0 && new == (last ? V_ONES : 0);
		case AF_INET:  return r == 0 && new == (last ? V_LAST4 : V_FIRST4);
		default:       return r != 0 && new == old;
	}
}
static inline int loc_address_reset(struct in6_addr* address, int family)
REQUIRES(address != NULL)
ENSURES(post_address_reset(RET, family, v_numv(__CPROVER_old(*address)), v_num(address), false))
ASSIGNS(*address);

static inline int loc_address_reset_last(struct in6_addr* address, int family)
REQUIRES(address != NULL)
ENSURES(post_address_reset(RET, family, v_numv(__CPROVER_old(*address)), v_num(address), true))
ASSIGNS(*address);

static inline struct in6_addr loc_address_and(const struct in6_addr* address, const struct in6_addr* bitmask)
REQUIRES(address != NULL && bitmask != NULL)
ENSURES(v_numv(RET) == (v_num(address) & v_num(bitmask)))
ASSIGNS();

/* This is not a bitwise or: it sets all bits that are not part of the mask */
static inline struct in6_addr loc_address_or(const struct in6_addr* address, const struct in6_addr* bitmask)
REQUIRES(address != NULL && bitmask != NULL)
ENSURES(v_numv(RET) == (v_num(address) | ~v_num(bitmask)))
ASSIGNS();

static inline bool post_address_sub(int r, u128 result, u128 x, u128 y) {
	if (v_is4(x) != v_is4(y))
		return r != 0;
	if (r != 0)
		return false;
	if (v_is4(x))
		return result == (V_FIRST4 | (uint32_t)((uint32_t)x - (uint32_t)y));
	return result == x - y;
}
static inline int loc_address_sub(struct in6_addr* result, const struct in6_addr* address1, const struct in6_addr* address2)
REQUIRES(result != NULL && address1 != NULL && address2 != NULL)
ENSURES(post_address_sub(RET, v_num(result), v_num(address1), v_num(address2)))
ASSIGNS(*result, verif_errno);

static inline bool post_address_increment(u128 old, u128 new) {
	return new == (old == v_family_last(old) ? old : old + 1);
}
static inline void loc_address_increment(struct in6_addr* address)
REQUIRES(address != NULL)
ENSURES(post_address_increment(v_numv(__CPROVER_old(*address)), v_num(address)))
ASSIGNS(*address);

static inline bool post_address_decrement(u128 old, u128 new) {
	return new == (old == v_family_first(old) ? old : old - 1);
}
static inline void loc_address_decrement(struct in6_addr* address)
REQUIRES(address != NULL)
ENSURES(post_address_decrement(v_numv(__CPROVER_old(*address)), v_num(address)))
ASSIGNS(*address);

static inline bool post_address_get_octet(int r, u128 n, unsigned int i) {
	if (v_is4(n))
		return i < 4 ? r == V_OCTET(n, 12 + i) : r < 0;
	return i < 16 ? r == V_OCTET(n, i) : r < 0;
}
static inline int loc_address_get_octet(const struct in6_addr* address, const unsigned int i)
REQUIRES(address != NULL)
ENSURES(post_address_get_octet(RET, v_num(address), i))
ASSIGNS();

static inline bool post_address_get_nibble(int r, u128 n, unsigned int i) {
	unsigned int offset = v_is4(n) ? 24 : 0;
	if (i >= (v_is4(n) ? 8u : 32u))
		return r < 0;
	return r == (int)((n >> (124 - 4 * (i + offset))) & 0xf);
}
static inline int loc_address_get_nibble(const struct in6_addr* address, const unsigned int i)
REQUIRES(address != NULL)
ENSURES(post_address_get_nibble(RET, v_num(address), i))
ASSIGNS();

/* The contracts have to be seen before the definitions */
#include <libloc/address.h>

#endif
