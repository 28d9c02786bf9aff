/*
	Dual-mode harness support.

	Under goto-cc (__CPROVER__ defined) the IN_* macros are unconstrained symbolic
	values, ASSUME/CHECK are the verifier's assume/assert, and REQUIRES/ENSURES/
	ASSIGNS are CBMC code contracts.

	Under gcc the same harness is a native program: IN_* values come from a replay
	file (the verifier's counterexample) or from a seeded generator, and the
	contracts are checked by the CHECKs in the harness.
*/
#ifndef VERIF_H
#define VERIF_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <netinet/in.h>
#include <sys/types.h>

typedef unsigned __int128 u128;

#ifdef __CPROVER__
#  define ASSUME(c)      __CPROVER_assume(c)
#  define CHECK(c, id)   __CPROVER_assert(c, id)
#  define REACH(id)      __CPROVER_assert(0, "REACH " id)
/* The code is not (any more) what this proof by induction is made for */
#  define SHAPE(c, id)   do { if (!(c)) { __CPROVER_assert(0, "REACH SHAPE " id); __CPROVER_assume(0); } } while (0)
#  define IN_U8(n)       uint8_t  n; __CPROVER_input(#n, n)
#  define IN_U16(n)      uint16_t n; __CPROVER_input(#n, n)
#  define IN_U32(n)      uint32_t n; __CPROVER_input(#n, n)
#  define IN_U64(n)      uint64_t n; __CPROVER_input(#n, n)
#  define IN_PREFIX(n)   uint32_t n; __CPROVER_input(#n, n)
#  define IN_RANGE(n,lo,hi) uint32_t n; __CPROVER_input(#n, n); __CPROVER_assume(n >= (lo) && n <= (hi))
#  define IN_ADDR(n)     uint64_t n##_hi, n##_lo; __CPROVER_input(#n "_hi", n##_hi); __CPROVER_input(#n "_lo", n##_lo); \
                         struct in6_addr n = v_addr(((u128)n##_hi << 64) | n##_lo)
#  define REQUIRES(...)  __CPROVER_requires(__VA_ARGS__)
#  define ENSURES(...)   __CPROVER_ensures(__VA_ARGS__)
#  define ASSIGNS(...)   __CPROVER_assigns(__VA_ARGS__)
#  define FREES(...)     __CPROVER_frees(__VA_ARGS__)
#  define RET            __CPROVER_return_value
#  define V_ND(type, n)  type n
#  define SYMBOLIC 1
#else
#  include <stdio.h>
#  include <setjmp.h>
#  define SYMBOLIC 0
uint64_t vin(const char* name, unsigned bits);
uint64_t vin_range(const char* name, uint64_t lo, uint64_t hi);
uint64_t vin_prefix(const char* name);
void vin_addr(const char* hi_name, const char* lo_name, uint64_t* hi, uint64_t* lo);
void v_assume_failed(void) __attribute__((noreturn));
void v_check_failed(const char* id, const char* file, int line) __attribute__((noreturn));
void v_reached(const char* id);
extern long v_outstanding;	/* allocations that have not been released */
#  define ASSUME(c)      do { if (!(c)) v_assume_failed(); } while (0)
#  define CHECK(c, id)   do { if (!(c)) v_check_failed(id, __FILE__, __LINE__); } while (0)
#  define REACH(id)      v_reached(id)
#  define IN_U8(n)       uint8_t  n = vin(#n, 8)
#  define IN_U16(n)      uint16_t n = vin(#n, 16)
#  define IN_U32(n)      uint32_t n = vin(#n, 32)
#  define IN_U64(n)      uint64_t n = vin(#n, 64)
#  define IN_PREFIX(n)   uint32_t n = vin_prefix(#n)
#  define IN_RANGE(n,lo,hi) uint32_t n = vin_range(#n, lo, hi); ASSUME(n >= (lo) && n <= (hi))
#  define IN_ADDR(n)     uint64_t n##_hi, n##_lo; vin_addr(#n "_hi", #n "_lo", &n##_hi, &n##_lo); \
                         struct in6_addr n = v_addr(((u128)n##_hi << 64) | n##_lo)
#  define REQUIRES(...)
#  define ENSURES(...)
#  define ASSIGNS(...)
#  define FREES(...)
#  define RET 0
#  define V_ND(type, n)  type n = {0}
#endif

/* ---- Specification functions (pure) ------------------------------------- */

/* The 128 bit number an address stands for */
static inline u128 v_num(const struct in6_addr* a) {
	return ((u128)a->s6_addr[0] << 120) | ((u128)a->s6_addr[1] << 112)
		| ((u128)a->s6_addr[2] << 104) | ((u128)a->s6_addr[3] << 96)
		| ((u128)a->s6_addr[4] << 88) | ((u128)a->s6_addr[5] << 80)
		| ((u128)a->s6_addr[6] << 72) | ((u128)a->s6_addr[7] << 64)
		| ((u128)a->s6_addr[8] << 56) | ((u128)a->s6_addr[9] << 48)
		| ((u128)a->s6_addr[10] << 40) | ((u128)a->s6_addr[11] << 32)
		| ((u128)a->s6_addr[12] << 24) | ((u128)a->s6_addr[13] << 16)
		| ((u128)a->s6_addr[14] << 8) | (u128)a->s6_addr[15];
}

static inline u128 v_numv(struct in6_addr a) {
	return ((u128)a.s6_addr[0] << 120) | ((u128)a.s6_addr[1] << 112)
		| ((u128)a.s6_addr[2] << 104) | ((u128)a.s6_addr[3] << 96)
		| ((u128)a.s6_addr[4] << 88) | ((u128)a.s6_addr[5] << 80)
		| ((u128)a.s6_addr[6] << 72) | ((u128)a.s6_addr[7] << 64)
		| ((u128)a.s6_addr[8] << 56) | ((u128)a.s6_addr[9] << 48)
		| ((u128)a.s6_addr[10] << 40) | ((u128)a.s6_addr[11] << 32)
		| ((u128)a.s6_addr[12] << 24) | ((u128)a.s6_addr[13] << 16)
		| ((u128)a.s6_addr[14] << 8) | (u128)a.s6_addr[15];
}

#define V_OCTET(n, i) ((uint8_t)((n) >> (120 - 8 * (i))))
static inline struct in6_addr v_addr(u128 n) {
	struct in6_addr a;
	a.s6_addr[0] = V_OCTET(n, 0);   a.s6_addr[1] = V_OCTET(n, 1);
	a.s6_addr[2] = V_OCTET(n, 2);   a.s6_addr[3] = V_OCTET(n, 3);
	a.s6_addr[4] = V_OCTET(n, 4);   a.s6_addr[5] = V_OCTET(n, 5);
	a.s6_addr[6] = V_OCTET(n, 6);   a.s6_addr[7] = V_OCTET(n, 7);
	a.s6_addr[8] = V_OCTET(n, 8);   a.s6_addr[9] = V_OCTET(n, 9);
	a.s6_addr[10] = V_OCTET(n, 10); a.s6_addr[11] = V_OCTET(n, 11);
	a.s6_addr[12] = V_OCTET(n, 12); a.s6_addr[13] = V_OCTET(n, 13);
	a.s6_addr[14] = V_OCTET(n, 14); a.s6_addr[15] = V_OCTET(n, 15);
	return a;
}

#define V_ONES (~(u128)0)

/* Is this in ::ffff:0:0/96? */
static inline bool v_is4(u128 n) { return (n >> 32) == 0xffff; }
#define V_FIRST4 ((u128)0xffff << 32)
#define V_LAST4  (((u128)0xffff << 32) | 0xffffffffu)

static inline u128 v_mask(unsigned int prefix) {
	return prefix == 0 ? 0 : (prefix >= 128 ? V_ONES : (V_ONES << (128 - prefix)));
}

static inline int v_sign(int x) { return (x > 0) - (x < 0); }

#endif
