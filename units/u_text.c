//@ unit prop=C20 defs=V_TYPED_CALLOC cost=20 unwind=52
/*
	Addresses and networks as text, against the contracts of inet_pton(), inet_ntop(), strtoul() and
	the family of printf().
*/
#define MODEL_NO_ADDRESS_STR
#define MODEL_NO_INET_NTOP
#define MODEL_NO_SNPRINTF
#include "models.h"
#include "../contracts/address_spec.h"
#include "../contracts/network.h"
#include <stdio.h>
#include <stdarg.h>
#include "address.c"
#include "country.c"
#include "network.c"
#include "net_inputs.h"

#ifdef PARSE
#ifndef V_TEXT
#define V_TEXT 60
#endif
#ifndef V_SHORTEST
#define V_SHORTEST 0
#endif
static char* v_string;
static unsigned int v_slash, v_length;	/* position of the first slash (or the end) */
static bool v_is6, v_is4_;
static struct in6_addr v_in6;
static struct in_addr v_in4;
static unsigned int v_asked;
#ifdef __CPROVER__
static unsigned int v_any;		/* any position */
int snprintf(char* s, size_t n, const char* format, ...) {
	__CPROVER_assert(format[0] == '%' && format[1] == 's' && !format[2], "snprintf: %s");
	va_list ap;
	va_start(ap, format);
	const char* from = va_arg(ap, const char*);
	va_end(ap);
	unsigned int length = 0;
	while (from[length]) {
		if (length + 1 < n)
			s[length] = from[length];
		length++;
	}
	if (n)
		s[length < n ? length : n - 1] = 0;
	return length;
}
int inet_pton(int af, const char* s, void* to) {
	/* It has to be the string before the slash */
	CHECK(v_any > v_slash || s[v_any] == (v_any == v_slash ? 0 : v_string[v_any]), "loc_address_parse.address");
	v_asked |= af == AF_INET6 ? 1 : 2;
	if (af == AF_INET6) {
		if (v_is6)
			*(struct in6_addr*)to = v_in6;
		return v_is6;
	}
	CHECK(af == AF_INET, "loc_address_parse.family");
	if (v_is4_)
		*(struct in_addr*)to = v_in4;
	return v_is4_;
}
unsigned long strtoul(const char* s, char** end, int base) {
	__CPROVER_assert(base == 10, "strtoul: decimal");
	const char* p = s;
	unsigned long value = 0;
	while (*p == ' ' || (*p >= 9 && *p <= 13))
		p++;
	bool negative = *p == '-';
	if (*p == '-' || *p == '+')
		p++;
	const char* digits = p;
	while (*p >= '0' && *p <= '9') {
		value = value > 100000 ? ~0ul : value * 10 + (*p - '0');
		p++;
	}
	if (end)
		*end = (char*)(p == digits ? s : p);
	return negative && value != ~0ul ? -value : value;
}
#endif
static void v_input(void) {
	IN_RANGE(length, V_SHORTEST, V_TEXT);
	v_length = length;
	v_string = malloc(length + 1);
#ifdef __CPROVER__
	__CPROVER_assume(v_string);
	unsigned int slash, any;
	__CPROVER_assume(slash <= length && any <= length);
	/* No byte is zero, and none before the slash is a slash */
#ifdef V_SLASH
	/* Long strings */
	__CPROVER_assume(slash == V_SLASH);
	for (unsigned int i = 0; i < V_SLASH; i++)
		v_string[i] = 'x';
#endif
	for (unsigned int i = 0; i < V_TEXT; i++)
		if (i < length)
			__CPROVER_assume(v_string[i] != 0 && (i >= slash || v_string[i] != '/'));
	v_string[length] = 0;
	__CPROVER_assume(slash == length || v_string[slash] == '/');
	v_slash = slash; v_any = any;
	__CPROVER_bool is6, is4;
	struct in6_addr a6; struct in_addr a4;
	/* These notations are disjoint */
	v_is6 = is6; v_is4_ = is4 && !is6;
	/* Neither of these is longer than this */
	__CPROVER_assume(!v_is6 || slash < INET6_ADDRSTRLEN);
	__CPROVER_assume(!v_is4_ || slash < INET_ADDRSTRLEN);
	v_in6 = a6; v_in4 = a4;
#else
	IN_U64(seed); IN_RANGE(kind, 0, 7); IN_RANGE(number, 0, 160); IN_U32(a);
	char s[200], address[INET6_ADDRSTRLEN];
	unsigned int n = 0;
	struct in6_addr in6;
	for (int i = 0; i < 16; i++) {
		seed = seed * 6364136223846793005ull + 1442695040888963407ull;
		in6.s6_addr[i] = seed >> 62 ? seed >> 50 : 0;
	}
	if (a % 5 == 0)
		memcpy(&in6, "\0\0\0\0\0\0\0\0\0\0\377\377", 12);
	if (kind & 1) inet_ntop(AF_INET, &a, address, sizeof(address));
	else inet_ntop(AF_INET6, &in6, address, sizeof(address));
	if (kind & 2) n = snprintf(s, sizeof(s), "%s/%u", address, number);
	else n = snprintf(s, sizeof(s), "%s", address);
	if (!(seed >> 32 & 7)) { static const char* const tails[] = { " ", "/", "x", "/-1", "/+3", "/ 3", "/3 ", "/4294967296", "/18446744073709551617", "/0x8", "/008", "0", ".", ":", "/1/2", "/00000000000000000000000000000000000000001" }; n += sprintf(s + n, "%s", tails[seed >> 40 & 15]); }
	if (!(seed >> 36 & 15)) s[seed % (n + 1)] = seed >> 9;
	free(v_string);
	v_string = strdup(s);
	v_length = strlen(s);
	v_slash = strcspn(s, "/");
	char copy[200];
	strcpy(copy, s);
	copy[v_slash] = 0;
	v_is6 = inet_pton(AF_INET6, copy, &v_in6) == 1;
	v_is4_ = inet_pton(AF_INET, copy, &v_in4) == 1;
#endif
}
/* The number of a valid prefix, or -1 */
static int v_prefix(int max) {
	if (v_slash == v_length)
		return max;
	if (v_slash + 1 == v_length)
		return -1;
	int n = 0;
	for (unsigned int i = 0; i < (SYMBOLIC ? V_TEXT : 200); i++) {
		unsigned int k = v_slash + 1 + i;
		if (k >= v_length)
			break;
		if (v_string[k] < '0' || v_string[k] > '9')
			return -1;
		n = n * 10 + v_string[k] - '0';
		if (n > max)
			return -1;
	}
	return n;
}

//@ target h_parse fn=loc_address_parse defs=V_TYPED_CALLOC,PARSE,V_TEXT=10 unwind=64 level=bounded bound="strings of up to 10 characters" assume="inet_pton() accepts a string in one of the two notations, which are no longer than INET6_ADDRSTRLEN and INET_ADDRSTRLEN; strtoul() follows the C standard"
//@ target h_parse_long name=h_parse fn=loc_address_parse defs=V_TYPED_CALLOC,PARSE,V_SHORTEST=44,V_TEXT=56,V_SLASH=42 unwind=64 level=bounded bound="strings of 44 to 56 characters, of which the first 42 are the address"
void h_parse(void) {
	v_input();
	struct in6_addr address;
	unsigned int prefix = 1000;
	IN_RANGE(null, 0, 1);
	int r = loc_address_parse(&address, null ? NULL : &prefix, v_string);
	int expected = v_is6 ? v_prefix(128) : v_is4_ ? v_prefix(32) : -1;
	/* It may refuse what is too long because of leading zeroes */
	if (v_length < INET6_ADDRSTRLEN + 4)
		CHECK((r == 0) == (expected >= 0), "loc_address_parse.accepts");
	else
		CHECK(r != 0 || expected >= 0, "loc_address_parse.accepts");
	if (r == 0) {
		u128 n = v_is6 ? v_numv(v_in6) : V_FIRST4 | ntohl(v_in4.s_addr);
		CHECK(v_numv(address) == n, "loc_address_parse.result");
		CHECK(null || prefix == (unsigned int)expected, "loc_address_parse.prefix");
		if (v_slash < v_length && v_is6)
			REACH("IPv6 with a prefix");
#ifndef V_SLASH
		if (v_slash == v_length && v_is4_)
			REACH("IPv4 without a prefix");
#endif
	}
	free(v_string);
	v_string = NULL;
	REACH("end");
}
#endif

#ifdef PRINT
#ifdef __CPROVER__
static struct in6_addr v_address;
static char* v_printed;
static const char* v_text;
static size_t v_size;
const char* inet_ntop(int af, const void* src, char* dst, socklen_t size) {
	u128 n = v_num(&v_address);
	if (af == AF_INET) {
		CHECK(v_is4(n), "loc_address_str.family");
		CHECK(ntohl(((const struct in_addr*)src)->s_addr) == (uint32_t)n, "loc_address_str.address");
	} else {
		CHECK(af == AF_INET6 && !v_is4(n), "loc_address_str.family");
		CHECK(v_num((const struct in6_addr*)src) == n, "loc_address_str.address");
	}
	CHECK(size >= INET6_ADDRSTRLEN && __CPROVER_w_ok(dst, size), "loc_address_str.buffer");
	dst[0] = '1'; dst[1] = 0;
	v_printed = dst;
	return dst;
}
static int v_snprintf;
int snprintf(char* s, size_t n, const char* format, ...) {
	CHECK(format[0] == '%' && format[1] == 's' && format[2] == '/' && format[3] == '%' && (format[4] == 'u' || format[4] == 'd') && !format[5], "loc_network_str.format");
	CHECK(n >= INET6_ADDRSTRLEN + 3 && __CPROVER_w_ok(s, n), "loc_network_str.buffer");
	va_list ap;
	va_start(ap, format);
	CHECK(va_arg(ap, const char*) == v_printed && v_printed, "loc_network_str.address");
	unsigned int prefix = va_arg(ap, unsigned int);
	va_end(ap);
	s[0] = 1; s[1] = prefix; s[2] = 0;
	v_snprintf++;
	return 2;
}
#endif
static char v_other[256];

//@ target h_address_str fn=loc_address_str defs=V_TYPED_CALLOC,PRINT assume="inet_ntop() prints the address that it is given"
void h_address_str(void) {
	IN_ADDR(a);
#ifdef __CPROVER__
	v_address = a;
	/* Whatever has been printed before */
	int i;
	__CPROVER_assume(i >= 0 && i < LOC_ADDRESS_BUFFERS);
	__loc_address_buffer_idx = i;
	const char* s = loc_address_str(&a);
	CHECK(s && s == v_printed, "loc_address_str.result");
	CHECK(__loc_address_buffer_idx >= 0 && __loc_address_buffer_idx < LOC_ADDRESS_BUFFERS, "loc_address_str.invariant");
	const char* t = loc_address_str(&a);
	CHECK(t != s, "loc_address_str.two-at-once");
	CHECK(loc_address_str(NULL) == NULL, "loc_address_str.null");
	REACH("end");
#else
	const char* s = loc_address_str(&a);
	struct in6_addr b;
	if (v_is4(v_num(&a))) {
		struct in_addr x;
		CHECK(inet_pton(AF_INET, s, &x) == 1 && ntohl(x.s_addr) == (uint32_t)v_num(&a), "loc_address_str.address");
	} else
		CHECK(inet_pton(AF_INET6, s, &b) == 1 && !memcmp(&a, &b, 16), "loc_address_str.address");
	REACH("end");
#endif
}

//@ target h_network_str fn=loc_network_str,loc_network_prefix defs=V_TYPED_CALLOC,PRINT deps=loc_address_str assume="snprintf() formats its arguments"
void h_network_str(void) {
	IN_NET(network);
#ifdef __CPROVER__
	v_address = network->first_address;
	const char* s = loc_network_str(network);
	CHECK(s == network->string && s[0] == 1 && (uint8_t)s[1] == (v_is4(v_numv(v_address)) ? network->prefix - 96 : network->prefix) && !s[2], "loc_network_str.prefix");
	CHECK(loc_network_str(network) == s && s[0], "loc_network_str.again");
	REACH("end");
#else
	const char* s = loc_network_str(network);
	struct loc_network* other = NULL;
	CHECK(loc_network_new_from_string(v_ctx(), &other, s) == 0 && loc_network_cmp(network, other) == 0, "loc_network_str.parses");
	loc_network_unref(other);
	REACH("end");
#endif
}
#endif
