//@ unit prop=C05 cost=60
/*
	Excluding a list of networks from another one. loc_network_exclude_list() only uses
	the relations between networks, splits them and keeps them in lists, so that it is
	verified against these contracts (enforced in u_network.c and u_netlist.c):

	A network is a node of a binary tree that has LEVELS levels below the network from
	which the others are excluded (which is the first one). Nodes are numbered in
	ascending order of their networks. A list is the set of its elements.
*/
#include "models.h"
#include "../contracts/address_spec.h"
#include "../contracts/network.h"
#include "country.c"
#include "stringpool.c"
#include "network.c"
#include "net_inputs.h"
#ifndef LEVELS
#define LEVELS 2
#endif
#define NODES ((2 << LEVELS) - 1)
#define LEAVES (1 << LEVELS)
#if LEVELS == 2
static const int v_levels[] = { 0, 1, 2, 2, 1, 2, 2 };
static const int v_firsts[] = { 0, 0, 0, 1, 2, 2, 3 };
#else
static const int v_levels[] = { 0, 1, 2, 3, 3, 2, 3, 3, 1, 2, 3, 3, 2, 3, 3 };
static const int v_firsts[] = { 0, 0, 0, 0, 1, 2, 2, 3, 4, 4, 4, 5, 6, 6, 7 };
#endif
/* Covers node this address? */
static bool v_covers(int node, int x) { return v_firsts[node] == x >> (LEVELS - v_levels[node]) << (LEVELS - v_levels[node]); }
static bool v_below(int above, int node) { return v_levels[node] >= v_levels[above] && v_covers(above, v_firsts[node]); }

#ifdef __CPROVER__
char v_tags[NODES << 8];
static int v_node(struct loc_network* n) {
	CHECK(__CPROVER_POINTER_OBJECT(n) == __CPROVER_POINTER_OBJECT(v_tags), "loc_network_exclude_list.only-uses-networks");
	return (uint16_t)__CPROVER_POINTER_OFFSET(n) >> 8;
}
static struct loc_network* v_network(int node) { return (struct loc_network*)(v_tags + (node << 8)); }
int v_cmp(struct loc_network* a, struct loc_network* b) {
	int x = v_node(a), y = v_node(b);
	return (x > y) - (x < y);
}
int v_subnet(struct loc_network* a, struct loc_network* b) { return v_below(v_node(a), v_node(b)); }
int v_overlaps(struct loc_network* a, struct loc_network* b) { return v_subnet(a, b) || v_subnet(b, a); }
static size_t v_watched;
static int v_count;
struct loc_network* v_ref(struct loc_network* n) { if (v_node(n) == v_watched) v_count++; return n; }
struct loc_network* v_unref(struct loc_network* n) {
	if (v_node(n) == v_watched) v_count--;
	CHECK(v_count >= 0, "loc_network_exclude_list.only-releases-what-it-has-referenced");
	return NULL;
}
int v_subnets(struct loc_network* n, struct loc_network** s1, struct loc_network** s2) {
	int node = v_node(n);
	if (v_levels[node] >= LEVELS)
		return 1;
	*s1 = v_ref(v_network(node + 1));
	*s2 = v_ref(v_network(node + (1 << (LEVELS - v_levels[node]))));
	return 0;
}

/* Lists */
struct loc_network_list { uint32_t set; int refcount; };
static struct loc_network_list v_lists[3];
static int v_nlists;
int loc_network_list_new(struct loc_ctx* ctx, struct loc_network_list** list) {
	CHECK(v_nlists < 3, "loc_network_exclude_list.lists");
	*list = &v_lists[v_nlists++];
	(*list)->set = 0;
	(*list)->refcount = 1;
	return 0;
}
struct loc_network_list* loc_network_list_ref(struct loc_network_list* list) { list->refcount++; return list; }
struct loc_network_list* loc_network_list_unref(struct loc_network_list* list) {
	CHECK(list->refcount > 0, "loc_network_exclude_list.only-releases-its-lists");
	if (--list->refcount == 0) {
		if (list->set >> v_watched & 1) v_count--;
		list->set = 0;
	}
	return NULL;
}
size_t loc_network_list_size(struct loc_network_list* list) {
	size_t n = 0;
	for (int i = 0; i < NODES; i++)
		n += list->set >> i & 1;
	return n;
}
int loc_network_list_empty(struct loc_network_list* list) { return !list->set; }
struct loc_network* loc_network_list_get(struct loc_network_list* list, size_t index) {
	size_t n = 0;
	int node = -1;
	for (int i = 0; i < NODES; i++) {
		if (list->set >> i & 1) {
			if (n == index) node = i;
			n++;
		}
	}
	return node < 0 ? NULL : v_ref(v_network(node));
}
int loc_network_list_contains(struct loc_network_list* list, struct loc_network* n) { return list->set >> v_node(n) & 1; }
int loc_network_list_push(struct loc_network_list* list, struct loc_network* n) {
	if (!loc_network_list_contains(list, n)) {
		v_ref(n);
		list->set |= 1 << v_node(n);
	}
	return 0;
}
static struct loc_network* v_take(struct loc_network_list* list, bool first) {
	int node = -1;
	for (int i = 0; i < NODES; i++)
		if (list->set >> i & 1 && (!first || node < 0)) node = i;
	if (node < 0)
		return NULL;
	list->set &= ~(1 << node);
	return v_network(node);
}
struct loc_network* loc_network_list_pop(struct loc_network_list* list) { return v_take(list, false); }
struct loc_network* loc_network_list_pop_first(struct loc_network_list* list) { return v_take(list, true); }
int loc_network_list_remove(struct loc_network_list* list, struct loc_network* n) {
	if (loc_network_list_contains(list, n))
		v_unref(n);
	list->set &= ~(1 << v_node(n));
	return 0;
}
void loc_network_list_clear(struct loc_network_list* list) {
	if (list->set >> v_watched & 1) v_count--;
	list->set = 0;
}
int loc_network_list_merge(struct loc_network_list* list, struct loc_network_list* other) {
	if (other->set & ~list->set & 1 << v_watched) v_count++;
	list->set |= other->set;
	return 0;
}
/* The contract of __loc_network_exclude(): what is next to the path from network to other */
int v_exclude(struct loc_network* network, struct loc_network* other, struct loc_network_list* list) {
	int n = v_node(network), o = v_node(other);
	CHECK(v_below(n, o) && n != o, "__loc_network_exclude.precondition");
	for (int i = 1; i < NODES; i++) {
		bool next = v_levels[i] > v_levels[n] && v_levels[i] <= v_levels[o] && v_below(n, i) && !v_below(i, o)
			&& (v_firsts[i] ^ v_firsts[o]) >> (LEVELS - v_levels[i] + 1) == 0;
		if (next)
			loc_network_list_push(list, v_network(i));
	}
	return 0;
}
#else
#include <libloc/network-list.h>
static struct in6_addr v_base;
static unsigned int v_prefix;
static struct loc_network* v_networks[NODES];
static int v_count;
static struct loc_network* v_network(int node) {
	if (!v_networks[node]) {
		unsigned int raw = v_prefix + LEVELS + (v_is4(v_num(&v_base)) ? 96 : 0);
		u128 a = (v_num(&v_base) & v_mask(raw - LEVELS)) | (u128)v_firsts[node] << (128 - raw);
		struct in6_addr address = v_addr(a);
		loc_network_new(v_ctx(), &v_networks[node], &address, v_prefix + v_levels[node]);
	}
	return v_networks[node];
}
static int v_node(struct loc_network* n) {
	for (int i = 0; i < NODES; i++)
		if (loc_network_cmp(v_network(i), n) == 0)
			return i;
	CHECK(false, "loc_network_exclude_list.only-networks-inside");
	return 0;
}
#endif

#ifdef __CPROVER__
static void setup(void) {
	V_ND(size_t, any);
	ASSUME(any < NODES);
	v_watched = any;
	v_count = 0;
}
#else
static void setup(void) {
	IN_ADDR(base); IN_PREFIX(prefix);
	ASSUME(prefix + LEVELS <= (v_is4(v_num(&base)) ? 32 : 128));
	v_base = base;
	v_prefix = prefix;
	unsigned int raw = v_prefix + (v_is4(v_num(&v_base)) ? 96 : 0);
	ASSUME(!v_is4(v_num(&v_base) & v_mask(raw)) == !v_is4(v_num(&v_base)));
	ASSUME(v_is4(v_num(&v_base)) || (v_num(&v_base) & v_mask(raw)) != (((u128)0xffff << 32) & v_mask(raw)));
	memset(v_networks, 0, sizeof(v_networks));
}
#endif

//@ unit stub=loc_network_str:v_network_str,loc_network_cmp:v_cmp,loc_network_is_subnet:v_subnet,loc_network_overlaps:v_overlaps,loc_network_ref:v_ref,loc_network_unref:v_unref,loc_network_subnets:v_subnets,__loc_network_exclude:v_exclude deps=loc_network_list_push,loc_network_list_contains,loc_network_list_pop_first,loc_network_list_get,loc_network_list_size
//@ target h_two_levels fn=loc_network_exclude_list defs=LEVELS=2 level=bounded bound="any list of networks that are up to 2 levels below the network" unwind=130 cost=100
//@ target h_three_levels fn=loc_network_exclude_list defs=LEVELS=3 level=bounded bound="any list of up to 2 networks that are up to 3 levels below the network" unwind=20 cost=100
static void exclude(uint32_t set, unsigned int x) {
#ifdef __CPROVER__
	v_nlists = 0;
#endif
	struct loc_network_list* list = NULL;
	CHECK(loc_network_list_new(v_ctx(), &list) == 0, "loc_network_list_new.post");
	bool excluded = false;
	for (int i = 0; i < NODES; i++) {
		if (set >> i & 1) {
			CHECK(loc_network_list_push(list, v_network(i)) == 0, "loc_network_list_push.succeeds");
			excluded |= v_covers(i, x);
		}
	}
	struct loc_network_list* result = loc_network_exclude_list(v_network(0), list);
	CHECK(result != NULL, "loc_network_exclude_list.returns-a-list");
	int covered = 0;
	size_t size = loc_network_list_size(result);
	CHECK(size <= LEAVES, "loc_network_exclude_list.not-more-than-necessary");
	for (int i = 0; i < LEAVES; i++) {
		struct loc_network* e = loc_network_list_get(result, i);
		if (e) {
			covered += v_covers(v_node(e), x);
#ifdef __CPROVER__
			v_unref(e);
#endif
		}
	}
	CHECK(covered == !excluded, "loc_network_exclude_list.covers-exactly-the-rest");
	loc_network_list_unref(list);
	loc_network_list_unref(result);
	CHECK(v_count == 0, "loc_network_exclude_list.releases-all-networks");
}
/* It does nothing unless there is a proper subnet in the list */
void h_two_levels(void) {
	setup();
	IN_RANGE(x, 0, LEAVES - 1);
	if (SYMBOLIC) {
		for (uint32_t set = 2; set < 1 << NODES; set++)
			exclude(set, x);
	} else {
		IN_RANGE(set, 2, (1 << NODES) - 1);
		exclude(set, x);
	}
	REACH("end");
}
void h_three_levels(void) {
	setup();
	IN_RANGE(x, 0, LEAVES - 1);
	if (SYMBOLIC) {
		for (int i = 0; i < NODES; i++)
			for (int j = i > 0 ? i : 1; j < NODES; j++)
				exclude(1 << i | 1 << j, x);
	} else {
		IN_RANGE(set, 2, (1 << NODES) - 1);
		exclude(set, x);
	}
	REACH("end");
}
