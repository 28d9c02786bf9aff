/*
	Symbolic strings of any length: the first V_STR bytes are arbitrary. In symbolic mode
	a string that has no terminator in there stands for all strings that are longer,
	and strlen() is told so. Natively, those are terminated in the last byte.
*/
#ifndef STR_INPUTS_H
#define STR_INPUTS_H
#include "verif.h"
#define V_STR 8

#ifdef __CPROVER__
size_t strlen(const char* s) {
	size_t room = __CPROVER_OBJECT_SIZE(s) - __CPROVER_POINTER_OFFSET(s);
	for (size_t i = 0; i < V_STR; i++) {
		if (i >= room)
			break;
		if (!s[i])
			return i;
	}
	size_t n;
	__CPROVER_assume(n >= room && n < 0x7fffffff);
	return n;
}
#define V_TERMINATE(s)
#else
#define V_TERMINATE(s) s[V_STR - 1] = 0
#endif

#define IN_STR(s) \
	IN_U64(s##_bytes); \
	char s[V_STR] = { (char)s##_bytes, (char)(s##_bytes >> 8), (char)(s##_bytes >> 16), (char)(s##_bytes >> 24), \
		(char)(s##_bytes >> 32), (char)(s##_bytes >> 40), (char)(s##_bytes >> 48), (char)(s##_bytes >> 56) }; \
	V_TERMINATE(s)
#endif
