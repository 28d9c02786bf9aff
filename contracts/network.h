/*
	Contracts of network.c. They talk about a network only through its accessors, so
	that they do not depend on how it is stored.
*/
#ifndef CONTRACTS_NETWORK_H
#define CONTRACTS_NETWORK_H
#include "models.h"
#include <libloc/libloc.h>
#include <libloc/format.h>
struct loc_network;
struct loc_network_list;

/* The view of a network that all specifications use */
const struct in6_addr* loc_network_get_first_address(struct loc_network* network);
const struct in6_addr* loc_network_get_last_address(struct loc_network* network);
int loc_network_address_family(struct loc_network* network);
unsigned int loc_network_prefix(struct loc_network* network);
const char* loc_network_get_country_code(struct loc_network* network);
uint32_t loc_network_get_asn(struct loc_network* network);
int loc_network_has_flag(struct loc_network* network, uint32_t flag);

struct v_net {
	u128 first, last;
	int family;
	unsigned int prefix;		/* as users see it */
	unsigned int raw;		/* counted from the first of 128 bits */
	uint16_t cc;			/* both characters */
	uint32_t asn;
	uint32_t flags;
};

static inline struct v_net v_view(struct loc_network* n) {
	struct v_net v;
	v.first  = v_num(loc_network_get_first_address(n));
	v.last   = v_num(loc_network_get_last_address(n));
	v.family = loc_network_address_family(n);
	v.prefix = loc_network_prefix(n);
	v.raw    = v.prefix + (v.family == AF_INET ? 96 : 0);
	const char* cc = loc_network_get_country_code(n);
	v.cc     = cc[0] ? (uint8_t)cc[0] << 8 | (uint8_t)cc[1] : 0;
	v.asn    = loc_network_get_asn(n);
	v.flags  = loc_network_has_flag(n, 0xffffffffu);
	return v;
}

/* Canonical form: exactly the addresses that share their first bits */
static inline bool v_canonical(struct v_net v) {
	return (v.family == AF_INET ? v.prefix <= 32 : (v.family == AF_INET6 && v.prefix <= 128))
		&& v.family == (v_is4(v.first) ? AF_INET : AF_INET6)
		&& (v.first & ~v_mask(v.raw)) == 0
		&& v.last == (v.first | ~v_mask(v.raw));
}

static inline bool v_cc_valid(uint16_t cc) {
	uint8_t a = cc >> 8, b = cc;
	return a >= 'A' && a <= 'Z' && b >= 'A' && b <= 'Z' && a != 'X';
}

/* A network as it comes out of the public API */
static inline bool v_wf(struct loc_network* n) {
	struct v_net v = v_view(n);
	return v_canonical(v) && (v.cc == 0 || v_cc_valid(v.cc));
}

static inline bool v_same_properties(struct v_net a, struct v_net b) {
	return a.cc == b.cc && a.asn == b.asn && a.flags == b.flags;
}
static inline bool v_same(struct v_net a, struct v_net b) {
	return a.first == b.first && a.last == b.last && a.family == b.family
		&& a.prefix == b.prefix && v_same_properties(a, b);
}
static inline bool v_contains(struct v_net a, u128 x) {
	return ((x ^ a.first) & v_mask(a.raw)) == 0;
}
static inline bool v_is_subnet(struct v_net a, struct v_net b) {
	return a.raw <= b.raw && v_contains(a, b.first);
}
static inline bool v_overlap(struct v_net a, struct v_net b) {
	return v_is_subnet(a, b) || v_is_subnet(b, a);
}
static inline int v_order(struct v_net a, struct v_net b) {
	if (a.first != b.first)
		return a.first < b.first ? -1 : 1;
	return (a.raw > b.raw) - (a.raw < b.raw);
}

/* ---- loc_network_new ---- */
static inline bool post_network_new(int r, u128 address, unsigned int prefix, struct loc_network* n) {
	bool valid = prefix <= (v_is4(address) ? 32 : 128);
	if (!valid)
		return r != 0;
	if (r != 0)
		return false;
	struct v_net v = v_view(n);
	unsigned int raw = v_is4(address) ? prefix + 96 : prefix;
	return v_canonical(v) && v.raw == raw && v.prefix == prefix && v.first == (address & v_mask(raw))
		&& v.cc == 0 && v.asn == 0 && v.flags == 0;
}
int loc_network_new(struct loc_ctx* ctx, struct loc_network** network, struct in6_addr* address, unsigned int prefix)
REQUIRES(ctx != NULL && network != NULL && address != NULL)
ENSURES(post_network_new(RET, v_num(address), prefix, *network))
ENSURES(v_num(address) == v_numv(__CPROVER_old(*address)))
ASSIGNS(*network, verif_errno, ctx->refcount);

/* ---- relations ---- */
int loc_network_matches_address(struct loc_network* network, const struct in6_addr* address)
REQUIRES(v_wf(network) && address != NULL)
ENSURES(!!RET == v_contains(v_view(network), v_num(address)))
ASSIGNS();

int loc_network_cmp(struct loc_network* self, struct loc_network* other)
REQUIRES(v_wf(self) && v_wf(other))
ENSURES(v_sign(RET) == v_order(v_view(self), v_view(other)))
ASSIGNS();

int loc_network_overlaps(struct loc_network* self, struct loc_network* other)
REQUIRES(v_wf(self) && v_wf(other))
ENSURES(!!RET == v_overlap(v_view(self), v_view(other)))
ASSIGNS();

int loc_network_is_subnet(struct loc_network* self, struct loc_network* other)
REQUIRES(v_wf(self) && v_wf(other))
ENSURES(!!RET == v_is_subnet(v_view(self), v_view(other)))
ASSIGNS();

int loc_network_properties_cmp(struct loc_network* self, struct loc_network* other)
REQUIRES(v_wf(self) && v_wf(other))
ENSURES((RET == 0) == v_same_properties(v_view(self), v_view(other)))
ASSIGNS();

/* ---- splitting and merging ---- */

/* ::fffe:0:0/95 is the only network that cannot be split, since its second half is
   the IPv4 address space */
static inline bool v_splittable(struct v_net n) {
	return n.raw < 128 && !(n.family == AF_INET6 && n.raw == 95 && n.first == ((u128)0xfffe << 32));
}
static inline bool post_network_subnets(int r, struct v_net n, struct loc_network* s1, struct loc_network* s2) {
	if (!v_splittable(n))
		return r != 0 && s1 == NULL && s2 == NULL;
	if (r != 0)
		return false;
	struct v_net a = v_view(s1), b = v_view(s2);
	return v_canonical(a) && v_canonical(b)
		&& a.raw == n.raw + 1 && b.raw == n.raw + 1
		&& a.family == n.family && b.family == n.family
		&& a.first == n.first && b.last == n.last && b.first == a.last + 1
		&& v_same_properties(a, n) && v_same_properties(b, n);
}
int loc_network_subnets(struct loc_network* network, struct loc_network** subnet1, struct loc_network** subnet2)
REQUIRES(v_wf(network) && subnet1 != NULL && subnet2 != NULL && subnet1 != subnet2)
ENSURES(post_network_subnets(RET, v_view(network), *subnet1, *subnet2))
ASSIGNS(*subnet1, *subnet2, verif_errno, v_ctx_object.refcount);

/* Merges if, and only if, the result is exactly the union of two equal halves */
static inline bool v_mergeable(struct v_net a, struct v_net b) {
	return a.family == b.family && a.raw == b.raw
		&& a.prefix > 0 && a.last != V_ONES && a.last != V_LAST4 && a.last + 1 == b.first
		&& (a.first & ~v_mask(a.raw - 1)) == 0
		&& v_same_properties(a, b);
}
static inline bool post_network_merge(int r, struct v_net a, struct v_net b, struct loc_network* n) {
	if (r != 0)
		return false;
	if (!v_mergeable(a, b))
		return n == NULL;
	if (!n)
		return false;
	struct v_net v = v_view(n);
	return v_canonical(v) && v.family == a.family && v.raw == a.raw - 1
		&& v.first == a.first && v.last == b.last && v_same_properties(v, a);
}
int loc_network_merge(struct loc_network** n, struct loc_network* n1, struct loc_network* n2)
REQUIRES(n != NULL && v_wf(n1) && v_wf(n2))
ENSURES(post_network_merge(RET, v_view(n1), v_view(n2), *n))
ASSIGNS(*n, verif_errno, v_ctx_object.refcount);

#include <libloc/network.h>
#endif
