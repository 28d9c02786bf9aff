//@ unit prop=C06 defs=V_TYPED_CALLOC,V_ELEMENTS=8 unwind=12 cost=20 deps=loc_network_cmp
/*
	The list against the contract of loc_network_cmp() (which is enforced in
	u_network.c): a total order in which networks that are equal compare as 0. Networks are
	opaque here: network k of a total order of V_KEYS networks, in two copies.
*/
#define V_OPAQUE_NETWORKS
#include "models.h"
#include <libloc/network.h>
#include <libloc/network-list.h>
#ifndef V_KEYS
#define V_KEYS 8
#endif

#ifdef __CPROVER__
/* A network is the address of an octet. References are counted for any one network */
char v_keys[2 * V_KEYS];
static size_t v_watched;
static int v_count;
static size_t v_id(struct loc_network* n) {
	CHECK(__CPROVER_POINTER_OBJECT(n) == __CPROVER_POINTER_OBJECT(v_keys), "loc_network_list.only-uses-networks");
	return __CPROVER_POINTER_OFFSET(n);
}
static int v_key_of(struct loc_network* n) { return v_id(n) >> 1; }
int loc_network_cmp(struct loc_network* a, struct loc_network* b) {
	int x = v_key_of(a), y = v_key_of(b);
	return (x > y) - (x < y);
}
struct loc_network* loc_network_ref(struct loc_network* n) { if (v_id(n) == v_watched) v_count++; return n; }
struct loc_network* loc_network_unref(struct loc_network* n) {
	if (v_id(n) == v_watched) v_count--;
	CHECK(v_count >= 0, "loc_network_list.only-releases-what-it-has-referenced");
	return n;
}
const char* loc_network_str(struct loc_network* n) { return "::/0"; }
static struct loc_network* v_network(int copy, int key) { return (struct loc_network*)(v_keys + 2 * key + copy); }
static void v_setup(void) {
	V_ND(size_t, any);
	ASSUME(any < 2 * V_KEYS);
	v_watched = any;
	v_count = 0;
}
#else
static struct loc_network* v_networks[2 * V_KEYS];
static void v_setup(void) {
	for (int i = 0; i < 2 * V_KEYS; i++) {
		/* 0/0, 0/1, 64/2, 64/8 ... */
		int k = i % V_KEYS;
		char buffer[64];
		snprintf(buffer, sizeof(buffer), "%d.%d.0.0/%d", k / 16, k / 2 % 8 * 32, k % 2 ? 24 : 16);
		loc_network_new_from_string(v_ctx(), &v_networks[i], buffer);
	}
}
static struct loc_network* v_network(int copy, int key) { return v_networks[copy * V_KEYS + key]; }
static int v_key_of(struct loc_network* n) {
	for (int i = 0; i < 2 * V_KEYS; i++)
		if (v_networks[i] == n) return i % V_KEYS;
	return -1;
}
static int v_count;
#endif
#include "network-list.c"

/* The element at this position, or -1 */
static int v_at(struct loc_network_list* list, unsigned int i) {
	struct loc_network* n = loc_network_list_get(list, i);
	if (!n)
		return -1;
	int key = v_key_of(n);
	loc_network_unref(n);
	return key;
}

/* Compares the list with a set */
static void v_compare(struct loc_network_list* list, uint32_t set) {
	unsigned int n = 0;
	for (int k = 0; k < V_KEYS; k++) {
		bool there = set >> k & 1;
		if (there) {
			CHECK(v_at(list, n) == k, "loc_network_list.elements-in-ascending-order");
			n++;
		}
		CHECK(!!loc_network_list_contains(list, v_network(0, k)) == there, "loc_network_list_contains.post");
	}
	CHECK(loc_network_list_size(list) == n, "loc_network_list_size.post");
	CHECK(!!loc_network_list_empty(list) == (n == 0), "loc_network_list_empty.post");
	CHECK(loc_network_list_get(list, n) == NULL, "loc_network_list_get.out-of-range");
}

#if defined(HISTORY) || defined(MERGE)
#define OP(i) \
	IN_RANGE(op##i, 0, 4); IN_RANGE(key##i, 0, V_KEYS - 1); IN_RANGE(copy##i, 0, 1); \
	set = v_operation(list, set, op##i, copy##i, key##i)

static uint32_t v_operation(struct loc_network_list* list, uint32_t set, unsigned int op, int copy, int key) {
	struct loc_network* n = v_network(copy, key);
	uint32_t bit = (uint32_t)1 << key;
	if (op == 0 || op == 1) {
		CHECK(loc_network_list_push(list, n) == 0, "loc_network_list_push.succeeds");
		return set | bit;
	} else if (op == 2) {
		CHECK(loc_network_list_remove(list, n) == 0, "loc_network_list_remove.succeeds");
		return set & ~bit;
	} else if (op == 3 || op == 4) {
		n = op == 3 ? loc_network_list_pop(list) : loc_network_list_pop_first(list);
		if (!set) {
			CHECK(n == NULL, "loc_network_list_pop.empty");
			return set;
		}
		int k = -1;
		for (int i = 0; i < V_KEYS; i++)
			if (set >> i & 1 && (op == 3 || k < 0)) k = i;
		CHECK(n && v_key_of(n) == k, "loc_network_list_pop.post");
		loc_network_unref(n);
		return set & ~((uint32_t)1 << k);
	}
	return set;
}

/* An empty list that has been used before */
static void v_warm_up(struct loc_network_list* list) {
	CHECK(loc_network_list_push(list, v_network(0, 0)) == 0, "loc_network_list_push.succeeds");
	CHECK(loc_network_list_pop(list) == v_network(0, 0), "loc_network_list_pop.post");
	loc_network_unref(v_network(0, 0));
}

#endif
#ifdef HISTORY
//@ target h_history fn=loc_network_list_push,loc_network_list_pop,loc_network_list_pop_first,loc_network_list_remove,loc_network_list_contains,loc_network_list_get,loc_network_list_clear,loc_network_list_size defs=HISTORY,V_KEYS=6,V_TYPED_CALLOC,V_ELEMENTS=16 unwind=8 level=bounded bound="any four operations after one another, 6 networks" cost=15
void h_history(void) {
	v_setup();
	struct loc_network_list* list = NULL;
	CHECK(loc_network_list_new(v_ctx(), &list) == 0 && list, "loc_network_list_new.post");
	v_warm_up(list);
	uint32_t set = 0;
	OP(0); OP(1); OP(2); OP(3);
	v_compare(list, set);
	loc_network_list_clear(list);
	v_compare(list, 0);
	CHECK(loc_network_list_push(list, v_network(0, 2)) == 0, "loc_network_list_push.succeeds");
	v_compare(list, 4);
	loc_network_list_unref(list);
	CHECK(v_count == 0, "loc_network_list.releases-all-networks");
	CHECK(V_CTX_BALANCED(), "loc_network_list.releases-the-context");
	REACH("end");
}
#endif

#ifdef N
/* Pushes a network into (or removes it from) a list with N elements, for any position */
static void sized(void) {
	v_setup();
	IN_RANGE(position, 0, 2 * N);
	struct loc_network_list* list = NULL;
	CHECK(loc_network_list_new(v_ctx(), &list) == 0 && list, "loc_network_list_new.post");
	/* all odd keys are on the list */
	for (unsigned int k = 1; k < 2 * N + 1; k += 2)
		CHECK(loc_network_list_push(list, v_network(0, k)) == 0, "loc_network_list_push.succeeds");
	CHECK(loc_network_list_size(list) == N, "loc_network_list_size.post");
	struct loc_network* n = v_network(1, position);
	bool there = position % 2;
	CHECK(!!loc_network_list_contains(list, n) == there, "loc_network_list_contains.post");
	CHECK(loc_network_list_push(list, n) == 0, "loc_network_list_push.succeeds");
	CHECK(loc_network_list_size(list) == N + !there, "loc_network_list_push.adds-it-once");
	IN_RANGE(any, 0, N);
	int expected = there || any < position / 2 ? 2 * any + 1 : any == position / 2 ? position : 2 * any - 1;
	if (any < N + !there)
		CHECK(v_at(list, any) == expected, "loc_network_list_push.at-the-right-place");
	else
		CHECK(v_at(list, any) == -1, "loc_network_list_get.out-of-range");
	CHECK(loc_network_list_remove(list, n) == 0, "loc_network_list_remove.succeeds");
	CHECK(loc_network_list_size(list) == N - there, "loc_network_list_remove.removes-it");
	CHECK(!loc_network_list_contains(list, n), "loc_network_list_remove.removes-it");
	expected = there && any >= position / 2 ? 2 * any + 3 : 2 * any + 1;
	CHECK(v_at(list, any) == (any < N - there ? expected : -1), "loc_network_list_remove.keeps-the-others");

	/* Take elements from both ends */
	unsigned int rest = N - there;
	struct loc_network* first = loc_network_list_pop_first(list);
	struct loc_network* last = loc_network_list_pop(list);
	if (rest == 0)
		CHECK(!first && !last, "loc_network_list_pop.empty");
	else {
		CHECK(first && v_key_of(first) == (there && position == 1 ? 3 : 1), "loc_network_list_pop_first.post");
		if (rest == 1)
			CHECK(!last, "loc_network_list_pop.empty");
		else
			CHECK(last && v_key_of(last) == (there && position == 2 * N - 1 ? 2 * N - 3 : 2 * N - 1), "loc_network_list_pop.post");
		if (rest > 2) {
			CHECK(loc_network_list_size(list) == rest - 2, "loc_network_list_pop.removes-it");
			expected = there && any + 1 >= position / 2 ? 2 * any + 5 : 2 * any + 3;
			CHECK(v_at(list, any) == (any < rest - 2 ? expected : -1), "loc_network_list_pop.keeps-the-others");
		}
	}
	loc_network_list_clear(list);
	CHECK(loc_network_list_size(list) == 0 && loc_network_list_empty(list), "loc_network_list_clear.post");
	REACH("end");
}
//@ target h_size_0 defs=N=0,V_KEYS=1,V_TYPED_CALLOC,V_ELEMENTS=3 unwind=6 level=bounded bound="empty lists"
//@ target h_size_3 defs=N=3,V_KEYS=7,V_TYPED_CALLOC,V_ELEMENTS=5 unwind=10 level=bounded bound="lists with 3 elements"
//@ target h_size_4 defs=N=4,V_KEYS=9,V_TYPED_CALLOC,V_ELEMENTS=6 unwind=12 level=bounded bound="lists with 4 elements"
void h_size_0(void) { sized(); }
void h_size_3(void) { sized(); }
void h_size_4(void) { sized(); }
//@ target h_size_1 defs=N=1,V_KEYS=3,V_TYPED_CALLOC,V_ELEMENTS=3 unwind=6 level=bounded bound="lists with 1 element"
//@ target h_size_2 defs=N=2,V_KEYS=5,V_TYPED_CALLOC,V_ELEMENTS=4 unwind=8 level=bounded bound="lists with 2 elements"
//@ target h_size_7 defs=N=7,V_KEYS=15,V_TYPED_CALLOC,V_ELEMENTS=9 unwind=18 level=bounded bound="lists with 7 elements"
//@ target h_size_16 defs=N=16,V_KEYS=33,V_TYPED_CALLOC,V_ELEMENTS=18 unwind=36 level=bounded bound="lists with 16 elements"
void h_size_1(void) { sized(); }
void h_size_2(void) { sized(); }
void h_size_7(void) { sized(); }
void h_size_16(void) { sized(); }
#endif

#ifdef MERGE
//@ target h_merge fn=loc_network_list_merge defs=MERGE,V_KEYS=3,V_TYPED_CALLOC,V_ELEMENTS=16 unwind=8 level=bounded bound="3 networks in each list"
void h_merge(void) {
	v_setup();
	IN_RANGE(set1, 0, (1 << V_KEYS) - 1);
	IN_RANGE(set2, 0, (1 << V_KEYS) - 1);
	struct loc_network_list *list = NULL, *other = NULL;
	CHECK(loc_network_list_new(v_ctx(), &list) == 0 && list, "loc_network_list_new.post");
	CHECK(loc_network_list_new(v_ctx(), &other) == 0 && other, "loc_network_list_new.post");
	v_warm_up(list);
	v_warm_up(other);
	for (int k = 0; k < V_KEYS; k++) {
		if (set1 >> k & 1)
			loc_network_list_push(list, v_network(0, k));
		if (set2 >> k & 1)
			loc_network_list_push(other, v_network(1, k));
	}
	CHECK(loc_network_list_merge(list, other) == 0, "loc_network_list_merge.succeeds");
	v_compare(list, set1 | set2);
	v_compare(other, set2);
	REACH("end");
}
#endif

#ifdef GROW
/*
	The invariant of the list, for lists of any size: there is space for at least as many
	elements as there are on the list. Pushing a network to the end of such a list keeps
	all others.
*/
#ifdef __CPROVER__
static size_t v_any;
void* v_reallocarray(void* p, size_t n, size_t s) {
	CHECK(s == sizeof(void*) && n < (size_t)1 << 40, "reallocarray: an array of pointers");
	struct loc_network** q = malloc(n * sizeof(*q));
	if (p) {
		size_t length = __CPROVER_OBJECT_SIZE(p) / sizeof(void*);
		/* Everything is copied, of which one element is looked at */
		if (v_any < length && v_any < n)
			q[v_any] = ((struct loc_network**)p)[v_any];
		free(p);
	}
	return q;
}
#endif
void w_grow(void) {
#ifndef __CPROVER__
	/* A list of this many networks */
	struct loc_network_list* list = NULL;
	loc_network_list_new(v_ctx(), &list);
	unsigned int n = 3500;
	for (unsigned int i = 0; i < n; i++) {
		struct loc_network* network = NULL;
		char buffer[64];
		snprintf(buffer, sizeof(buffer), "10.%d.%d.0/24", i / 256, i % 256);
		loc_network_new_from_string(v_ctx(), &network, buffer);
		CHECK(loc_network_list_push(list, network) == 0, "loc_network_list_push.succeeds");
		loc_network_unref(network);
	}
	CHECK(loc_network_list_size(list) == n, "loc_network_list_size.post");
	loc_network_list_unref(list);
#endif
}
//@ target h_grow fn=loc_network_list_grow defs=GROW,V_KEYS=4,V_TYPED_CALLOC stub=reallocarray:v_reallocarray unwind=8 native=0 witness=w_grow cost=20
void h_grow(void) {
	v_setup();
	IN_U64(size); IN_U64(space); IN_U64(any);
	ASSUME(size <= space && space < (size_t)1 << 36);
#ifdef __CPROVER__
	v_any = any;
#endif
	struct loc_network_list* list = NULL;
	CHECK(loc_network_list_new(v_ctx(), &list) == 0 && list, "loc_network_list_new.post");
	list->elements_size = space;
	list->elements = space ? malloc(space * sizeof(*list->elements)) : NULL;
	list->size = size;
	if (size)
		list->elements[size - 1] = v_network(0, 1);
	struct loc_network* before = any < size ? list->elements[any] : NULL;
	CHECK(loc_network_list_push(list, v_network(0, 2)) == 0, "loc_network_list_push.succeeds");
	CHECK(list->size == size + 1, "loc_network_list_push.adds-it");
	CHECK(list->size <= list->elements_size, "loc_network_list_push.invariant");
#ifdef __CPROVER__
	CHECK(list->elements_size <= __CPROVER_OBJECT_SIZE(list->elements) / sizeof(*list->elements), "loc_network_list_push.invariant");
#endif
	CHECK(list->elements[size] == v_network(0, 2), "loc_network_list_push.at-the-end");
	if (any < size)
		CHECK(list->elements[any] == before, "loc_network_list_push.keeps-the-others");
	REACH("end");
}
#endif
