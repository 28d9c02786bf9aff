/* Symbolic networks, built through the public API */
#ifndef NET_INPUTS_H
#define NET_INPUTS_H
#include "verif.h"

static struct loc_network* v_make_network(struct in6_addr* a, unsigned int prefix,
		uint8_t c0, uint8_t c1, uint32_t asn, uint32_t flags) {
	struct loc_network* n = NULL;
	unsigned int max = v_is4(v_num(a)) ? 32 : 128;
	ASSUME(prefix <= max);
	int r = loc_network_new(v_ctx(), &n, a, prefix);
	ASSUME(r == 0 && n);
	char cc[3] = { c0, c1, 0 };
	if (!v_cc_valid((uint16_t)(c0 << 8 | c1)))
		cc[0] = 0;
#ifndef V_NO_CC
	r = loc_network_set_country_code(n, cc);
	ASSUME(r == 0);
#endif
#ifndef V_NO_ASN
	loc_network_set_asn(n, asn);
#endif
#ifndef V_NO_FLAGS
	loc_network_set_flag(n, flags);
#endif
	return n;
}

/* Only used for log messages; proved on its own in units/u_text.c */
const char* v_network_str(struct loc_network* network) { return network ? "::/0" : NULL; }

#define IN_NET(n) \
	IN_ADDR(n##_a); IN_PREFIX(n##_p); IN_U8(n##_c0); IN_U8(n##_c1); IN_U32(n##_asn); IN_U16(n##_flags); \
	struct loc_network* n = v_make_network(&n##_a, n##_p, n##_c0, n##_c1, n##_asn, n##_flags)

/* The same without any properties */
#define IN_PLAIN_NET(n) \
	IN_ADDR(n##_a); IN_PREFIX(n##_p); \
	struct loc_network* n = v_make_network(&n##_a, n##_p, 0, 0, 0, 0)
#endif
