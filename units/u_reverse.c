//@ unit prop=C21 defs=V_TYPED_CALLOC cost=20 unwind=36 malloc=fail leak=1
/*
	Reverse pointers. Printed strings are lists of parts here: literal characters, numbers in some
	base and other strings; the format strings are interpreted.
*/
#include "models.h"
#include "../contracts/address_spec.h"
#include "../contracts/network.h"
#include <stdio.h>
#include <stdarg.h>
#include "country.c"
#include "network.c"
#include "net_inputs.h"

static char v_suffix[] = "suffix.";
#ifdef __CPROVER__
#define V_STRINGS 40
#define V_PARTS 12
/* Every string is a list of parts, and it ends in another one (or -1 for a string that is not one of these) */
static unsigned int v_strings;
static char* v_pointer[V_STRINGS];
static bool v_freed[V_STRINGS];
static unsigned int v_parts[V_STRINGS];
static int v_kind[V_STRINGS][V_PARTS];		/* 0: literal, 1: decimal, 2: hexadecimal */
static unsigned int v_part[V_STRINGS][V_PARTS];
static const char* v_tail[V_STRINGS];
static int v_tail_id[V_STRINGS];

int asprintf(char** s, const char* format, ...) {
	unsigned int id = v_strings++;
	__CPROVER_bool fail;
	if (fail) {
		*s = NULL;
		return -1;
	}
	SHAPE(id < V_STRINGS, "so many strings");
	va_list ap;
	va_start(ap, format);
	unsigned int n = 0;
	v_tail_id[id] = -1;
	v_tail[id] = NULL;
	for (unsigned int i = 0; format[i]; i++) {
		SHAPE(n < V_PARTS && !v_tail[id], "strings that end in another string");
		if (format[i] != '%') {
			v_kind[id][n] = 0;
			v_part[id][n++] = format[i];
			continue;
		}
		i++;
		if (format[i] == 'd' || format[i] == 'u' || format[i] == 'x') {
			v_kind[id][n] = format[i] == 'x' ? 2 : 1;
			v_part[id][n++] = va_arg(ap, unsigned int);
		} else {
			SHAPE(format[i] == 's', "conversions");
			const char* tail = va_arg(ap, const char*);
			__CPROVER_assert(__CPROVER_r_ok(tail, 1), "asprintf: readable");
			v_tail[id] = tail;
			if (tail[0] == 1)
				/* One of ours */
				v_tail_id[id] = tail[1];
		}
	}
	va_end(ap);
	v_parts[id] = n;
	char* p = __CPROVER_allocate(2, 0);
	__CPROVER_bool may_leak;
	__CPROVER_deallocated = (p == __CPROVER_deallocated) ? 0 : __CPROVER_deallocated;
	__CPROVER_memory_leak = may_leak ? p : __CPROVER_memory_leak;
	p[0] = 1;
	p[1] = id;
	v_pointer[id] = p;
	*s = p;
	return 1;
}
int v_any_string(char** s, const char* format, ...) {
	*s = malloc(2);
	(*s)[0] = 0;
	return 1;
}
/* Reading a string from its start */
static int v_at_id; static unsigned int v_at_part; static const char* v_at_tail;
static void v_follow(void) {
	if (v_at_id >= 0 && v_at_part == v_parts[v_at_id]) {
		v_at_tail = v_tail[v_at_id];
		v_at_id = v_tail_id[v_at_id];
		v_at_part = 0;
	}
}
static bool v_is(int kind, unsigned int value) {
	v_follow();
	v_follow();
	if (v_at_id < 0)
		return false;
	bool r = v_part[v_at_id][v_at_part] == value && (v_kind[v_at_id][v_at_part] == kind || (value < 10 && kind && v_kind[v_at_id][v_at_part]));
	v_at_part++;
	return r;
}
static const char* v_end(void) {
	v_follow();
	v_follow();
	v_follow();
	return v_at_id < 0 ? v_at_tail : NULL;
}
#else
static const char* v_s;
static bool v_is(int kind, unsigned int value) {
	if (kind == 0)
		return *v_s++ == (char)value;
	char number[16];
	snprintf(number, sizeof(number), kind == 2 ? "%x" : "%u", value);
	size_t n = strlen(number);
	bool r = strncmp(v_s, number, n) == 0;
	v_s += n;
	return r;
}
static const char* v_end(void) { return v_s; }
#endif
static bool v_is_suffix(const char* s, const char* suffix) {
	for (unsigned int i = 0; i < 16; i++) {
		if (s[i] != suffix[i])
			return false;
		if (!s[i])
			return true;
	}
	return false;
}

#ifndef V_STEP
#define V_STEP 1
#define V_START 0
#endif
static void v_reverse(bool is4, struct in6_addr* a, unsigned int prefix, bool custom) {
	struct loc_network* n = v_make_network(a, prefix, 0, 0, 0, 0);
#ifdef __CPROVER__
	/* (the verifier knows the values then) */
	unsigned int offset = is4 ? 96 : 0;
	CHECK(n->family == (is4 ? AF_INET : AF_INET6) && n->prefix == prefix + offset, "loc_network_new.family");
	n->family = is4 ? AF_INET : AF_INET6;
	n->prefix = prefix + offset;
	v_strings = 0;
#endif
	u128 first = v_numv(n->first_address);
	char* s = loc_network_reverse_pointer(n, custom ? v_suffix : NULL);
#ifndef __CPROVER__
	CHECK(s, "loc_network_reverse_pointer.succeeds");
#endif
	if (s) {
#ifdef __CPROVER__
		CHECK(s == v_pointer[v_strings - 1] && s[0] == 1, "loc_network_reverse_pointer.result");
		v_at_id = v_strings - 1;
		v_at_part = 0;
#else
		v_s = s;
#endif
		if (prefix < (is4 ? 32 : 128)) {
			CHECK(v_is(0, '*'), "loc_network_reverse_pointer.wildcard");
			CHECK(v_is(0, '.'), "loc_network_reverse_pointer.wildcard");
		}
		unsigned int count = prefix / (is4 ? 8 : 4);
		for (unsigned int i = 0; i < count; i++) {
			/* The last octet or nibble comes first */
			unsigned int k = count - 1 - i;
			unsigned int value = is4 ? V_OCTET(first, 12 + k) : (unsigned int)(first >> (124 - 4 * k)) & 0xf;
			CHECK(v_is(is4 ? 1 : 2, value), "loc_network_reverse_pointer.number");
			CHECK(v_is(0, '.'), "loc_network_reverse_pointer.dot");
		}
		const char* end = v_end();
		CHECK(end && v_is_suffix(end, custom ? v_suffix : is4 ? "in-addr.arpa." : "ip6.arpa."), "loc_network_reverse_pointer.suffix");
		free(s);
		REACH("printed");
	}
	loc_network_unref(n);
	CHECK(V_CTX_BALANCED(), "loc_network_reverse_pointer.context");
}

//@ target h_reverse4 fn=loc_network_reverse_pointer,loc_network_reverse_pointer4 prop=C21,C22 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails"
void h_reverse4(void) {
	IN_U32(address); IN_RANGE(custom, 0, 1);
	struct in6_addr a = v_addr(V_FIRST4 | address);
	for (unsigned int prefix = 0; prefix <= 32; prefix += 8)
		v_reverse(true, &a, prefix, custom);
	REACH("end");
}

//@ target h_reverse6_0 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=0 cost=10
//@ target h_reverse6_4 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=4 cost=11
//@ target h_reverse6_8 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=8 cost=12
//@ target h_reverse6_12 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21,C22 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=12 cost=13
//@ target h_reverse6_16 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=16 cost=14
//@ target h_reverse6_20 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=20 cost=15
//@ target h_reverse6_24 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=24 cost=16
//@ target h_reverse6_28 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=28 cost=17
//@ target h_reverse6_32 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=32 cost=18
//@ target h_reverse6_36 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=36 cost=19
//@ target h_reverse6_40 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=40 cost=20
//@ target h_reverse6_44 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=44 cost=21
//@ target h_reverse6_48 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=48 cost=22
//@ target h_reverse6_52 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=52 cost=23
//@ target h_reverse6_56 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=56 cost=24
//@ target h_reverse6_60 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=60 cost=25
//@ target h_reverse6_64 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=64 cost=26
//@ target h_reverse6_68 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=68 cost=27
//@ target h_reverse6_72 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=72 cost=28
//@ target h_reverse6_76 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=76 cost=29
//@ target h_reverse6_80 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=80 cost=30
//@ target h_reverse6_84 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=84 cost=31
//@ target h_reverse6_88 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=88 cost=32
//@ target h_reverse6_92 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=92 cost=33
//@ target h_reverse6_96 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=96 cost=34
//@ target h_reverse6_100 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=100 cost=35
//@ target h_reverse6_104 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=104 cost=36
//@ target h_reverse6_108 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=108 cost=37
//@ target h_reverse6_112 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=112 cost=38
//@ target h_reverse6_116 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=116 cost=39
//@ target h_reverse6_120 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=120 cost=40
//@ target h_reverse6_124 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=124 cost=41
//@ target h_reverse6_128 name=h_reverse6 fn=loc_network_reverse_pointer,loc_network_reverse_pointer6 prop=C21,C22 assume="asprintf() formats its arguments, and sets the pointer to NULL if it fails" defs=V_TYPED_CALLOC,V_STEP=33,V_START=128 cost=42
void h_reverse6(void) {
	IN_ADDR(a); IN_RANGE(custom, 0, 1);
	ASSUME(!v_is4(v_num(&a)));
	for (unsigned int prefix = V_START; prefix <= 128; prefix += 4 * V_STEP)
		v_reverse(false, &a, prefix, custom);
	REACH("end");
}

//@ target h_boundaries fn=loc_network_reverse_pointer,loc_network_reverse_pointer4,loc_network_reverse_pointer6 prop=C21 malloc= stub=asprintf:v_any_string
void h_boundaries(void) {
	IN_ADDR(a); IN_PREFIX(prefix); IN_RANGE(custom, 0, 1);
	ASSUME(prefix % (v_is4(v_num(&a)) ? 8 : 4));
	struct loc_network* n = v_make_network(&a, prefix, 0, 0, 0, 0);
	CHECK(loc_network_reverse_pointer(n, custom ? v_suffix : NULL) == NULL, "loc_network_reverse_pointer.boundary");
	loc_network_unref(n);
	CHECK(V_CTX_BALANCED(), "loc_network_reverse_pointer.context");
	REACH("end");
}
