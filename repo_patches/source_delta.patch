From 124aead1b6ad8c75cd5bc20300e0603bab13dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 01/39] fix: database: Reject files that are shorter than what
 the header claims

The boundary check underflowed when the wanted length was larger than the
whole file, so truncated databases were opened and read out of bounds.
---
 src/database.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index 8bbbe79..00a4849 100644
--- a/src/database.c
+++ b/src/database.c
@@ -152,7 +152,7 @@ static inline int __loc_database_check_boundaries(struct loc_database* db,
 	size_t offset = p - db->data;
 
 	// Return if everything is within the boundary
-	if (offset <= db->length - length)
+	if (length <= (size_t)db->length && offset <= db->length - length)
 		return 1;
 
 	DEBUG(db->ctx, "Database read check failed at %p for %zu byte(s)\n", p, length);
@@ -275,6 +275,10 @@ static int loc_database_mmap(struct loc_database* db) {
 */
 static int loc_database_map_objects(struct loc_database* db, struct loc_database_objects* objects,
 		const size_t size, const off_t offset, const size_t length) {
+	// Check if the objects are part of the mapped area
+	if (!__loc_database_check_boundaries(db, db->data + offset, length))
+		return 1;
+
 	// Store parameters
 	objects->data   = db->data + offset;
 	objects->length = length;
-- 
2.43.0


From ce38846325cda3a0831c001ed5d8f3096b780f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 02/39] fix: database: Reject string pools that are not
 terminated

The last string would have been read beyond the end of the file.
---
 src/database.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/database.c b/src/database.c
index 00a4849..41d7f89 100644
--- a/src/database.c
+++ b/src/database.c
@@ -348,6 +348,13 @@ static int loc_database_read_header_v1(struct loc_database* db) {
 	if (!__loc_database_check_boundaries(db, stringpool_start, stringpool_length))
 		return 1;
 
+	// The last string must be terminated
+	if (stringpool_length && stringpool_start[stringpool_length - 1]) {
+		ERROR(db->ctx, "The string pool is not terminated\n");
+		errno = EINVAL;
+		return 1;
+	}
+
 	// Open the stringpool
 	r = loc_stringpool_open(db->ctx, &db->pool, stringpool_start, stringpool_length);
 	if (r)
-- 
2.43.0


From b38417feb8da524a1e7c25fe9cf880e5092f703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 03/39] fix: database: Do not read beyond the last bit of an
 address on lookup

A node at level 128 (i.e. any single IP address) read and changed the byte
after the address, and a cyclic tree made the lookup recurse forever.
---
 src/database.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/database.c b/src/database.c
index 41d7f89..51ba6ad 100644
--- a/src/database.c
+++ b/src/database.c
@@ -892,20 +892,29 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 
 	int r;
 
+	// Check boundaries
+	if ((size_t)node_index >= db->network_node_objects.count) {
+		errno = ERANGE;
+		return 1;
+	}
+
 	// Fetch the next node
 	node_v1 = (struct loc_database_network_node_v1*)loc_database_object(db,
 		&db->network_node_objects, sizeof(*node_v1), node_index);
 	if (!node_v1)
 		return 1;
 
-	// Follow the path
-	int bit = loc_address_get_bit(address, level);
-	loc_address_set_bit(network_address, level, bit);
-
-	if (bit == 0)
-		node_index = be32toh(node_v1->zero);
-	else
-		node_index = be32toh(node_v1->one);
+	// Follow the path unless there are no more bits left
+	if (level < 128) {
+		int bit = loc_address_get_bit(address, level);
+		loc_address_set_bit(network_address, level, bit);
+
+		if (bit == 0)
+			node_index = be32toh(node_v1->zero);
+		else
+			node_index = be32toh(node_v1->one);
+	} else
+		node_index = 0;
 
 	// If the node index is zero, the tree ends here
 	// and we cannot descend any further
-- 
2.43.0


From 2071c45adfe22306515843d2cb98fd131e1af07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 04/39] fix: database: Fall back to the next larger network on
 lookup

The search ended when there was nothing found further down the path, even
if one of the nodes above holds a network that contains the address.
---
 src/database.c | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/database.c b/src/database.c
index 51ba6ad..9213f74 100644
--- a/src/database.c
+++ b/src/database.c
@@ -877,7 +877,7 @@ static int __loc_database_lookup_handle_leaf(struct loc_database* db, const stru
 
 		loc_network_unref(*network);
 		*network = NULL;
-		return 1;
+		return 0;
 	}
 
 	// A network was found and the IP address matches
@@ -919,23 +919,17 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 	// If the node index is zero, the tree ends here
 	// and we cannot descend any further
 	if (node_index > 0) {
-		// Check boundaries
-		if ((size_t)node_index >= db->network_node_objects.count) {
-			errno = ERANGE;
-			return 1;
-		}
-
 		// Move on to the next node
 		r = __loc_database_lookup(db, address, network, network_address, node_index, level + 1);
 
-		// End here if a result was found
-		if (r == 0)
-			return r;
-
 		// Raise any errors
-		else if (r < 0)
+		if (r)
 			return r;
 
+		// End here if a result was found
+		if (*network)
+			return 0;
+
 		DEBUG(db->ctx, "No match found below level %u\n", level);
 	} else {
 		DEBUG(db->ctx, "Tree ended at level %u\n", level);
@@ -944,7 +938,7 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 	// If this node has a leaf, we will check if it matches
 	if (__loc_database_node_is_leaf(node_v1)) {
 		r = __loc_database_lookup_handle_leaf(db, address, network, network_address, level, node_v1);
-		if (r < 0)
+		if (r)
 			return r;
 	}
 
-- 
2.43.0


From 9c6435f9c99718b2ca13f44405ad333bb4fb5316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 05/39] fix: network: Mask the address before checking for IPv4

The address that is passed by the database may carry bits from nodes
further down which made IPv6 networks look like IPv4 networks.
---
 src/network.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/network.c b/src/network.c
index 69306a9..f5b706d 100644
--- a/src/network.c
+++ b/src/network.c
@@ -663,11 +663,15 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 		struct in6_addr* address, unsigned int prefix, const struct loc_database_network_v1* dbobj) {
 	char country_code[3] = "\0\0";
 
+	// The address might carry some more bits than the prefix has
+	const struct in6_addr bitmask = loc_prefix_to_bitmask(prefix);
+	struct in6_addr first_address = loc_address_and(address, &bitmask);
+
 	// Adjust prefix for IPv4
-	if (IN6_IS_ADDR_V4MAPPED(address))
+	if (IN6_IS_ADDR_V4MAPPED(&first_address))
 		prefix -= 96;
 
-	int r = loc_network_new(ctx, network, address, prefix);
+	int r = loc_network_new(ctx, network, &first_address, prefix);
 	if (r) {
 		ERROR(ctx, "Could not allocate a new network: %m\n");
 		return r;
-- 
2.43.0


From 09a2dcc10d5434a4f0cc3310019ab4c031524c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 06/39] fix: network: Release the network when it could not be
 imported

---
 src/network.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/network.c b/src/network.c
index f5b706d..9648c2e 100644
--- a/src/network.c
+++ b/src/network.c
@@ -683,7 +683,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_country_code(*network, country_code);
 	if (r) {
 		ERROR(ctx, "Could not set country code: %s\n", country_code);
-		return r;
+		goto ERROR;
 	}
 
 	// Import ASN
@@ -691,7 +691,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_asn(*network, asn);
 	if (r) {
 		ERROR(ctx, "Could not set ASN: %d\n", asn);
-		return r;
+		goto ERROR;
 	}
 
 	// Import flags
@@ -699,10 +699,16 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_flag(*network, flags);
 	if (r) {
 		ERROR(ctx, "Could not set flags: %d\n", flags);
-		return r;
+		goto ERROR;
 	}
 
 	return 0;
+
+ERROR:
+	loc_network_unref(*network);
+	*network = NULL;
+
+	return r;
 }
 
 static char* loc_network_reverse_pointer6(struct loc_network* network, const char* suffix) {
-- 
2.43.0


From a1884316a3a2644fa51db603f3dd40af75ae65e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:29 +0000
Subject: [PATCH 07/39] fix: database: Make the enumerator stack large enough
 for any tree

The last element was written beyond the end of the array, trees that
branch on every level could not be enumerated and malformed trees that
are deeper than 128 levels changed memory after the address.
---
 src/database.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/database.c b/src/database.c
index 9213f74..50fc602 100644
--- a/src/database.c
+++ b/src/database.c
@@ -96,7 +96,8 @@ struct loc_database {
 	struct loc_database_objects country_objects;
 };
 
-#define MAX_STACK_DEPTH 256
+// The root node and two nodes for each bit
+#define MAX_STACK_DEPTH 257
 
 struct loc_node_stack {
 	off_t offset;
@@ -128,7 +129,7 @@ struct loc_database_enumerator {
 
 	// Network state
 	struct in6_addr network_address;
-	struct loc_node_stack network_stack[MAX_STACK_DEPTH];
+	struct loc_node_stack network_stack[MAX_STACK_DEPTH + 1];
 	int network_stack_depth;
 	unsigned int* networks_visited;
 
@@ -1280,6 +1281,13 @@ static int loc_database_enumerator_stack_push_node(
 		return 1;
 	}
 
+	// Check if the tree is deeper than an address has bits
+	if (depth > 128) {
+		ERROR(e->ctx, "Network tree is too deep\n");
+		errno = ERANGE;
+		return 1;
+	}
+
 	// Check if the node is in range
 	if (offset >= (off_t)e->db->network_node_objects.count) {
 		ERROR(e->ctx, "Trying to add invalid node with offset %jd/%zu\n",
-- 
2.43.0


From e5eb11acc47aae4cd0f89f501e82cf0ed9011d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:29 +0000
Subject: [PATCH 08/39] fix: database: Do not enumerate an empty network tree

---
 src/database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index 50fc602..268d251 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1127,7 +1127,7 @@ LOC_EXPORT int loc_database_enumerator_new(struct loc_database_enumerator** enum
 	e->flatten = (flags & LOC_DB_ENUMERATOR_FLAGS_FLATTEN);
 
 	// Initialise graph search
-	e->network_stack_depth = 1;
+	e->network_stack_depth = (db->network_node_objects.count > 0) ? 1 : 0;
 	e->networks_visited = calloc(db->network_node_objects.count, sizeof(*e->networks_visited));
 	if (!e->networks_visited) {
 		ERROR(db->ctx, "Could not allocated visited networks: %m\n");
-- 
2.43.0


From 9b9579fc3b26827ad9d7821691f4a44b03c481a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:29 +0000
Subject: [PATCH 09/39] fix: database: Do not crash when the next subnet could
 not be read

---
 src/database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index 268d251..1439014 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1465,7 +1465,8 @@ static int __loc_database_enumerator_next_network_flattened(
 		// Fetch the next network in line
 		r = __loc_database_enumerator_next_network(enumerator, &subnet, 0);
 		if (r) {
-			loc_network_unref(subnet);
+			if (subnet)
+				loc_network_unref(subnet);
 			loc_network_list_clear(enumerator->subnets);
 
 			return r;
-- 
2.43.0


From d421cd50328e2a6d365fcc0a27471d2496b17205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:29 +0000
Subject: [PATCH 10/39] fix: address: Do not call __builtin_ctz() with zero

The result is undefined.
---
 src/libloc/address.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/libloc/address.h b/src/libloc/address.h
index 082c33f..4070011 100644
--- a/src/libloc/address.h
+++ b/src/libloc/address.h
@@ -143,12 +143,8 @@ static inline unsigned int loc_address_bit_length(const struct in6_addr* address
 
 	// Walk backwards until we find the first one
 	foreach_octet_in_address_reverse(octet, address) {
-		// Count all trailing zeroes
-		int trailing_zeroes = __builtin_ctz(address->s6_addr[octet]);
-
-		// We only have one byte
-		if (trailing_zeroes > 8)
-			trailing_zeroes = 8;
+		// Count all trailing zeroes (we only have one byte)
+		int trailing_zeroes = __builtin_ctz(address->s6_addr[octet] | 0x100);
 
 		// Remove any trailing zeroes from the total length
 		bitlength -= trailing_zeroes;
-- 
2.43.0


From 990f99aadf83fd14d7250f5366abd82ad672cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:29 +0000
Subject: [PATCH 11/39] fix: address: An IPv6 address has 16 octets

---
 src/libloc/address.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libloc/address.h b/src/libloc/address.h
index 4070011..04bb676 100644
--- a/src/libloc/address.h
+++ b/src/libloc/address.h
@@ -316,7 +316,7 @@ static inline int loc_address_get_octet(const struct in6_addr* address, const un
 		return (address->s6_addr32[3] >> (i * 8)) & 0xff;
 
 	} else {
-		if (i >= 32)
+		if (i >= 16)
 			return -ERANGE;
 
 		return address->s6_addr[i];
-- 
2.43.0


From 77afedcd308bba7abacd1e0a91d92cfb8c6904c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:29 +0000
Subject: [PATCH 12/39] fix: network-list: Only summarize what is between first
 and last

The networks on the list covered addresses outside of the range and
ranges that consist of only one address have been rejected. The
references to the networks have been leaked.
---
 src/network-list.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/network-list.c b/src/network-list.c
index d35bf56..ea48dd6 100644
--- a/src/network-list.c
+++ b/src/network-list.c
@@ -343,8 +343,8 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 	}
 
 	// Check if the last address is larger than the first address
-	if (loc_address_cmp(first, last) >= 0) {
-		ERROR(ctx, "The first address must be smaller than the last address\n");
+	if (loc_address_cmp(first, last) > 0) {
+		ERROR(ctx, "The first address must not be larger than the last address\n");
 		errno = EINVAL;
 		return 1;
 	}
@@ -353,15 +353,20 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 	struct in6_addr start = *first;
 
 	while (loc_address_cmp(&start, last) <= 0) {
-		// Count how many leading bits the IP addresses have in common
-		bits = loc_address_common_bits(&start, last);
-		if (bits < 0)
-			return bits;
+		// Find the largest network that begins with the start address...
+		bits = loc_address_bit_length(&start);
 
-		// If the start and end address don't have any bits in common, we try
-		// to cut the subnet into halves and try again...
-		else if (bits == 0)
-			bits = 1;
+		// ... but does not go beyond the last address
+		while (1) {
+			const struct in6_addr bitmask = loc_prefix_to_bitmask(
+				(family1 == AF_INET) ? bits + 96 : bits);
+			const struct in6_addr end = loc_address_or(&start, &bitmask);
+
+			if (loc_address_cmp(&end, last) <= 0)
+				break;
+
+			bits++;
+		}
 
 		// Create a network
 		r = loc_network_new(ctx, &network, &start, bits);
@@ -384,6 +389,8 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 		// The next network starts right after this one
 		start = *loc_network_get_last_address(network);
 
+		loc_network_unref(network);
+
 		// If we have reached the end of possible IP addresses, we stop
 		if (loc_address_all_ones(&start))
 			break;
-- 
2.43.0


From 89995d28119f89a797a36bc645ad843e1d5cb957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:29 +0000
Subject: [PATCH 13/39] fix: database: Do not miss or invent any bogons

The search stopped with an error if a network began with the very first
address or if it ended with the very last address, and networks that
consist of only one address have been skipped.
---
 src/database.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/database.c b/src/database.c
index 1439014..c2e8f65 100644
--- a/src/database.c
+++ b/src/database.c
@@ -140,6 +140,10 @@ struct loc_database_enumerator {
 	// For bogons
 	struct in6_addr gap6_start;
 	struct in6_addr gap4_start;
+
+	// Set when the last address of the family has been reached
+	int gap6_end;
+	int gap4_end;
 };
 
 /*
@@ -1570,6 +1574,7 @@ static int __loc_database_enumerator_next_bogon(
 	struct loc_network* network = NULL;
 	struct in6_addr* gap_start = NULL;
 	struct in6_addr gap_end = IN6ADDR_ANY_INIT;
+	int* end = NULL;
 
 	while (1) {
 		r = __loc_database_enumerator_next_network(enumerator, &network, 1);
@@ -1599,10 +1604,12 @@ static int __loc_database_enumerator_next_bogon(
 		switch (family) {
 			case AF_INET6:
 				gap_start = &enumerator->gap6_start;
+				end = &enumerator->gap6_end;
 				break;
 
 			case AF_INET:
 				gap_start = &enumerator->gap4_start;
+				end = &enumerator->gap4_end;
 				break;
 
 			default:
@@ -1615,7 +1622,7 @@ static int __loc_database_enumerator_next_bogon(
 		const struct in6_addr* last_address = loc_network_get_last_address(network);
 
 		// Skip if this network is a subnet of a former one
-		if (loc_address_cmp(gap_start, last_address) >= 0) {
+		if (*end || loc_address_cmp(gap_start, last_address) > 0) {
 			loc_network_unref(network);
 			continue;
 		}
@@ -1625,7 +1632,7 @@ static int __loc_database_enumerator_next_bogon(
 		loc_address_decrement(&gap_end);
 
 		// There is a gap
-		if (loc_address_cmp(gap_start, &gap_end) <= 0) {
+		if (loc_address_cmp(gap_start, first_address) < 0) {
 			r = loc_network_list_summarize(enumerator->ctx,
 				gap_start, &gap_end, &enumerator->stack);
 			if (r) {
@@ -1638,6 +1645,9 @@ static int __loc_database_enumerator_next_bogon(
 		*gap_start = *last_address;
 		loc_address_increment(gap_start);
 
+		// There are no more gaps after the very last address
+		*end = loc_address_all_ones(last_address);
+
 		loc_network_unref(network);
 
 		// Try to return something
@@ -1649,7 +1659,7 @@ static int __loc_database_enumerator_next_bogon(
 	return 0;
 
 FINISH:
-	if (!loc_address_all_zeroes(&enumerator->gap6_start)) {
+	if (!enumerator->gap6_end && !loc_address_all_zeroes(&enumerator->gap6_start)) {
 		r = loc_address_reset_last(&gap_end, AF_INET6);
 		if (r)
 			return r;
@@ -1665,7 +1675,7 @@ FINISH:
 		loc_address_reset(&enumerator->gap6_start, AF_INET6);
 	}
 
-	if (!loc_address_all_zeroes(&enumerator->gap4_start)) {
+	if (!enumerator->gap4_end && !loc_address_all_zeroes(&enumerator->gap4_start)) {
 		r = loc_address_reset_last(&gap_end, AF_INET);
 		if (r)
 			return r;
-- 
2.43.0


From 30d5ec6bdbd4fe643a527df147f716ef2150923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 14/39] fix: address: Refuse to parse strings with an invalid
 prefix

Prefixes that are not a number, that are followed by garbage or that are
too large for an integer have been accepted, and strings that did not fit
into the buffer have been cut off in the middle of the prefix.
---
 src/address.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/address.c b/src/address.c
index d338243..42ac58e 100644
--- a/src/address.c
+++ b/src/address.c
@@ -76,10 +76,16 @@ int loc_address_parse(struct in6_addr* address, unsigned int* prefix, const char
 	}
 
 	// Copy the string into the buffer
-	r = snprintf(buffer, sizeof(buffer) - 1, "%s", string);
+	r = snprintf(buffer, sizeof(buffer), "%s", string);
 	if (r < 0)
 		return 1;
 
+	// Nothing that long can be valid
+	if ((size_t)r >= sizeof(buffer)) {
+		errno = EINVAL;
+		return 1;
+	}
+
 	// Find /
 	char* p = strchr(buffer, '/');
 	if (p) {
@@ -143,14 +149,17 @@ int loc_address_parse(struct in6_addr* address, unsigned int* prefix, const char
 
 		// Parse the actual string
 		if (p) {
-			*prefix = strtol(p, NULL, 10);
+			char* end = NULL;
+			const unsigned long value = strtoul(p, &end, 10);
 
-			// Check if prefix is within bounds
-			if (*prefix > max_prefix) {
+			// Check if prefix is a number and within bounds
+			if (*p < '0' || *p > '9' || *end || value > max_prefix) {
 				errno = EINVAL;
 				return 1;
 			}
 
+			*prefix = value;
+
 		// If the string didn't contain a prefix, we set the maximum
 		} else {
 			*prefix = max_prefix;
-- 
2.43.0


From 2c935cdd66f85440116904008e109c44ecd80e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 15/39] fix: country: Do not keep a reference to the name that
 has been freed

---
 src/country.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/country.c b/src/country.c
index 8152a89..7518817 100644
--- a/src/country.c
+++ b/src/country.c
@@ -132,7 +132,8 @@ LOC_EXPORT int loc_country_set_name(struct loc_country* country, const char* nam
 		// Report error if we could not copy the string
 		if (!country->name)
 			return 1;
-	}
+	} else
+		country->name = NULL;
 
 	return 0;
 }
-- 
2.43.0


From 1186ee168971433a12f140b3fb07c97a428b0df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 16/39] fix: country: Do not write the continent code of
 another country

The caller passes the same buffer for all countries which is why a country
without a continent code ended up on the previous continent.
---
 src/country.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/country.c b/src/country.c
index 7518817..a81ff10 100644
--- a/src/country.c
+++ b/src/country.c
@@ -177,6 +177,9 @@ int loc_country_to_database_v1(struct loc_country* country,
 		struct loc_stringpool* pool, struct loc_database_country_v1* dbobj) {
 	off_t name = 0;
 
+	// Do not write anything that we did not set
+	memset(dbobj, '\0', sizeof(*dbobj));
+
 	// Add country code
 	if (*country->code)
 		loc_country_code_copy(dbobj->code, country->code);
-- 
2.43.0


From 882c18ec01ad7b1ef766d02a87076c7e8c1fbb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 17/39] fix: network: Do not write uninitialized memory to the
 database

---
 src/network.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/network.c b/src/network.c
index 9648c2e..baddfa9 100644
--- a/src/network.c
+++ b/src/network.c
@@ -647,6 +647,9 @@ int loc_network_merge(struct loc_network** n,
 }
 
 int loc_network_to_database_v1(struct loc_network* network, struct loc_database_network_v1* dbobj) {
+	// Do not write anything that we did not set
+	memset(dbobj, '\0', sizeof(*dbobj));
+
 	// Add country code
 	loc_country_code_copy(dbobj->country_code, network->country_code);
 
-- 
2.43.0


From 59b3f525f93c82f3bd7137391d19587ace793d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 18/39] fix: writer: Sort countries

The database performs a binary search when it is looking for a country.
---
 src/writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index ec5f896..ed69cc5 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -526,6 +526,9 @@ static int loc_database_write_countries(struct loc_writer* writer,
 	DEBUG(writer->ctx, "Countries section starts at %jd bytes\n", (intmax_t)*offset);
 	header->countries_offset = htobe32(*offset);
 
+	// Sort the country list first
+	loc_country_list_sort(writer->country_list);
+
 	const size_t countries_count = loc_country_list_size(writer->country_list);
 
 	struct loc_database_country_v1 block;
-- 
2.43.0


From 96d5e09bcb86eb42d2e511b288827922a89083d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 19/39] fix: writer: Release countries after they have been
 written

---
 src/writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index ed69cc5..40ca437 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -543,6 +543,9 @@ static int loc_database_write_countries(struct loc_writer* writer,
 		// Write to disk
 		*offset += fwrite(&block, 1, sizeof(block), f);
 		block_length += sizeof(block);
+
+		// Unref country
+		loc_country_unref(country);
 	}
 
 	DEBUG(writer->ctx, "Countries section has a length of %zu bytes\n", block_length);
-- 
2.43.0


From 31656a64457a8f021551a49a70e7b6a2939acaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 20/39] fix: lists: Do not call qsort() without any elements

---
 src/as-list.c      | 4 ++++
 src/country-list.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/as-list.c b/src/as-list.c
index 50805e7..078bc58 100644
--- a/src/as-list.c
+++ b/src/as-list.c
@@ -169,6 +169,10 @@ static int __loc_as_cmp(const void* as1, const void* as2) {
 }
 
 LOC_EXPORT void loc_as_list_sort(struct loc_as_list* list) {
+	// Nothing to do if the list is empty
+	if (!list->size)
+		return;
+
 	// Sort everything
 	qsort(list->elements, list->size, sizeof(*list->elements), __loc_as_cmp);
 }
diff --git a/src/country-list.c b/src/country-list.c
index 536fd9e..e2e7605 100644
--- a/src/country-list.c
+++ b/src/country-list.c
@@ -172,6 +172,10 @@ static int __loc_country_cmp(const void* country1, const void* country2) {
 }
 
 LOC_EXPORT void loc_country_list_sort(struct loc_country_list* list) {
+	// Nothing to do if the list is empty
+	if (!list->size)
+		return;
+
 	// Sort everything
 	qsort(list->elements, list->size, sizeof(*list->elements), __loc_country_cmp);
 }
-- 
2.43.0


From 3b04a8746a8e6b4b960cd4b5c6094093fe80754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 21/39] fix: stringpool: Allocate enough memory for any string

Strings that are longer than one block have been written beyond the end of
the pool, and running out of memory returned the offset of another string.
---
 src/stringpool.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/stringpool.c b/src/stringpool.c
index 9986a61..ff27da6 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -45,16 +45,18 @@ struct loc_stringpool {
 static int loc_stringpool_grow(struct loc_stringpool* pool, const size_t size) {
 	DEBUG(pool->ctx, "Growing string pool by %zu byte(s)\n", size);
 
-	// Increment size
-	pool->size += size;
-
 	// Reallocate blocks
-	pool->blocks = realloc(pool->blocks, pool->size);
-	if (!pool->blocks) {
+	char* blocks = realloc(pool->blocks, pool->size + size);
+	if (!blocks) {
 		ERROR(pool->ctx, "Could not grow string pool: %m\n");
 		return 1;
 	}
 
+	pool->blocks = blocks;
+
+	// Increment size
+	pool->size += size;
+
 	// Update data pointer
 	pool->data = pool->blocks;
 
@@ -73,10 +75,10 @@ static off_t loc_stringpool_append(struct loc_stringpool* pool, const char* stri
 	const size_t length = strlen(string) + 1;
 
 	// Make sure we have enough space
-	if (pool->length + length > pool->size) {
+	while (pool->length + length > pool->size) {
 		int r = loc_stringpool_grow(pool, LOC_STRINGPOOL_BLOCK_SIZE);
 		if (r)
-			return r;
+			return -1;
 	}
 
 	off_t offset = pool->length;
-- 
2.43.0


From fbca2bc3349bd4e9aeed261ac996c8dd80ae73d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 22/39] fix: network-tree: Do not use networks after they have
 been merged

Removing the network from the tree might drop the last reference to it.
---
 src/network-tree.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/network-tree.c b/src/network-tree.c
index 7096625..921d5a5 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -358,6 +358,9 @@ static int loc_network_tree_merge_step(struct loc_network* network, void* data)
 	if (i == 0)
 		return loc_network_list_push(ctx->networks, network);
 
+	// Keep the network around even if it is being removed from the tree
+	loc_network_ref(network);
+
 	while (i--) {
 		// Fetch the last network of the list
 		n = loc_network_list_get(ctx->networks, i);
@@ -441,6 +444,7 @@ ERROR:
 		loc_network_unref(m);
 	if (n)
 		loc_network_unref(n);
+	loc_network_unref(network);
 
 	return r;
 }
-- 
2.43.0


From 4d9a479b653065ff23bc9383128642f76ced920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 23/39] fix: network-tree: Fail when a node could not be
 allocated

---
 src/network-tree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network-tree.c b/src/network-tree.c
index 921d5a5..4048520 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -105,6 +105,8 @@ static struct loc_network_tree_node* loc_network_tree_get_path(struct loc_networ
 	for (unsigned int i = 0; i < prefix; i++) {
 		// Check if the ith bit is one or zero
 		node = loc_network_tree_get_node(node, loc_address_get_bit(address, i));
+		if (!node)
+			return NULL;
 	}
 
 	return node;
-- 
2.43.0


From 4de75a9939ba001061030017f5ba5ec7e7c8f60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 24/39] fix: network: Do not match an empty country code
 against all flags

---
 src/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index baddfa9..b49bcf2 100644
--- a/src/network.c
+++ b/src/network.c
@@ -223,7 +223,7 @@ LOC_EXPORT int loc_network_matches_country_code(struct loc_network* network, con
 	const int flag = loc_country_special_code_to_flag(country_code);
 
 	// If we found a flag, we will return whether it is set or not
-	if (flag)
+	if (flag > 0)
 		return loc_network_has_flag(network, flag);
 
 	// Check country code
-- 
2.43.0


From 96dd210adeeac702bd712c13c96165aaec272558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 25/39] fix: country: Special country codes must match entirely

---
 src/country.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/country.c b/src/country.c
index a81ff10..e9cafb5 100644
--- a/src/country.c
+++ b/src/country.c
@@ -230,7 +230,7 @@ LOC_EXPORT int loc_country_special_code_to_flag(const char* cc) {
 	// Return flags for any known special country
 	for (const struct loc_special_country* country = loc_special_countries;
 			country->flags; country++) {
-		if (strncmp(country->code, cc, 2) == 0)
+		if (strcmp(country->code, cc) == 0)
 			return country->flags;
 	}
 
-- 
2.43.0


From 047275306e80b80ac3344b41c61658a2df95215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 26/39] fix: as: Do not match any ASes without a name

---
 src/as.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as.c b/src/as.c
index 97c0a56..4a20da0 100644
--- a/src/as.c
+++ b/src/as.c
@@ -147,7 +147,7 @@ int loc_as_match_string(struct loc_as* as, const char* string) {
 
 	// Cannot match anything when name is not set
 	if (!as->name)
-		return 1;
+		return 0;
 
 	// Search if string is in name
 	if (strcasestr(as->name, string) != NULL)
-- 
2.43.0


From da136e6472c3b0e8fc74c89d955921bfa2d0e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 27/39] fix: resolv: Leave space to terminate the string

The string was terminated one byte after the buffer if the response filled
it entirely.
---
 src/resolv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resolv.c b/src/resolv.c
index 1c4cd75..044519f 100644
--- a/src/resolv.c
+++ b/src/resolv.c
@@ -56,13 +56,13 @@ LOC_EXPORT int loc_discover_latest_version(struct loc_ctx* ctx,
     char domain[64];
     snprintf(domain, 63, LOC_DATABASE_DOMAIN, version);
 
-    unsigned char answer[PACKETSZ];
+    unsigned char answer[PACKETSZ + 1];
     int len;
 
     DEBUG(ctx, "Querying %s\n", domain);
 
     // Send a query
-    if ((len = res_query(domain, C_IN, T_TXT, answer, sizeof(answer))) < 0 || len > PACKETSZ) {
+    if ((len = res_query(domain, C_IN, T_TXT, answer, PACKETSZ)) < 0 || len > PACKETSZ) {
         ERROR(ctx, "Could not query %s: \n", domain);
 
         return -1;
-- 
2.43.0


From 055be8ff957f4551a588ddaaad23f3e3da1d879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 28/39] fix: network: Release the first subnet if the second
 one failed

---
 src/network.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index b49bcf2..968ceec 100644
--- a/src/network.c
+++ b/src/network.c
@@ -357,8 +357,11 @@ LOC_EXPORT int loc_network_subnets(struct loc_network* network,
 
 	// Create the second half of the network
 	r = loc_network_new(network->ctx, subnet2, &first_address, prefix);
-	if (r)
+	if (r) {
+		loc_network_unref(*subnet1);
+		*subnet1 = NULL;
 		return r;
+	}
 
 	// Copy country code
 	const char* country_code = loc_network_get_country_code(network);
-- 
2.43.0


From 114b7eded1a12f20002f4b18f4fa14e03b1a4dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:27 +0000
Subject: [PATCH 29/39] fix: network: Do not leak memory when making reverse
 pointers

---
 src/network.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/network.c b/src/network.c
index 968ceec..602972a 100644
--- a/src/network.c
+++ b/src/network.c
@@ -719,6 +719,7 @@ ERROR:
 
 static char* loc_network_reverse_pointer6(struct loc_network* network, const char* suffix) {
 	char* buffer = NULL;
+	char* tail = NULL;
 	int r;
 
 	unsigned int prefix = loc_network_prefix(network);
@@ -735,28 +736,28 @@ static char* loc_network_reverse_pointer6(struct loc_network* network, const cha
 	// Initialize the buffer
 	r = asprintf(&buffer, "%s", suffix);
 	if (r < 0)
-		goto ERROR;
+		return NULL;
 
 	for (unsigned int i = 0; i < (prefix / 4); i++) {
-		r = asprintf(&buffer, "%x.%s", loc_address_get_nibble(&network->first_address, i), buffer);
+		tail = buffer;
+
+		r = asprintf(&buffer, "%x.%s", loc_address_get_nibble(&network->first_address, i), tail);
+		free(tail);
 		if (r < 0)
-			goto ERROR;
+			return NULL;
 	}
 
 	// Add the asterisk
 	if (prefix < 128) {
-		r = asprintf(&buffer, "*.%s", buffer);
+		tail = buffer;
+
+		r = asprintf(&buffer, "*.%s", tail);
+		free(tail);
 		if (r < 0)
-			goto ERROR;
+			return NULL;
 	}
 
 	return buffer;
-
-ERROR:
-	if (buffer)
-		free(buffer);
-
-	return NULL;
 }
 
 static char* loc_network_reverse_pointer4(struct loc_network* network, const char* suffix) {
-- 
2.43.0


From 5f9d642321db264bcd9ca7a4061ba04ce0d1ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:58 +0000
Subject: [PATCH 30/39] fix: writer: Report any errors when writing the
 database

Writing to a full disk was either reported as a success or never ended.
---
 src/writer.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 40ca437..ba701da 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -282,8 +282,13 @@ static void make_magic(struct loc_writer* writer, struct loc_database_magic* mag
 
 static void align_page_boundary(off_t* offset, FILE* f) {
 	// Move to next page boundary
-	while (*offset % LOC_DATABASE_PAGE_SIZE > 0)
-		*offset += fwrite("", 1, 1, f);
+	while (*offset % LOC_DATABASE_PAGE_SIZE > 0) {
+		// Stop if nothing could be written
+		if (!fwrite("", 1, 1, f))
+			break;
+
+		*offset += 1;
+	}
 }
 
 static int loc_database_write_pool(struct loc_writer* writer,
@@ -729,6 +734,12 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	if (r)
 		return r;
 
+	// Check if everything has been written
+	if (ferror(f) || fflush(f)) {
+		ERROR(writer->ctx, "Could not write the database: %m\n");
+		return 1;
+	}
+
 	// Create the signatures
 	if (writer->private_key1) {
 		DEBUG(writer->ctx, "Creating signature with first private key\n");
@@ -777,7 +788,7 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	bytes_written = fwrite(&header, 1, sizeof(header), f);
 	if (bytes_written < sizeof(header)) {
 		ERROR(writer->ctx, "Could not write header: %s\n", strerror(errno));
-		return r;
+		return 1;
 	}
 
 	// Seek back to the end
@@ -786,7 +797,11 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 		return r;
 
 	// Flush everything
-	fflush(f);
+	r = fflush(f);
+	if (r) {
+		ERROR(writer->ctx, "Could not write the database: %m\n");
+		return r;
+	}
 
 	return r;
 }
-- 
2.43.0


From 01b4e3005871d1960cee7c51ff3e5124849fc29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:58 +0000
Subject: [PATCH 31/39] fix: writer: Do not ignore any errors when creating the
 signature

OpenSSL returns zero on errors which was returned as success, and random
memory has been written as signature.
---
 src/writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index ba701da..b17d03e 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -578,6 +578,7 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	int r = EVP_DigestSignInit(mdctx, NULL, NULL, NULL, private_key);
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
@@ -596,6 +597,7 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	r = EVP_DigestSignUpdate(mdctx, &magic, sizeof(magic));
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
@@ -605,6 +607,7 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	r = EVP_DigestSignUpdate(mdctx, header, sizeof(*header));
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
-- 
2.43.0


From 5b91c3286d89b470b9b4b9aebff70d6d8aa579a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:58 +0000
Subject: [PATCH 32/39] fix: database: Do not loop forever if the file cannot
 be read

---
 src/database.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/database.c b/src/database.c
index c2e8f65..2a09ed6 100644
--- a/src/database.c
+++ b/src/database.c
@@ -646,6 +646,13 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 	while (!feof(db->f)) {
 		bytes_read = fread(buffer, 1, sizeof(buffer), db->f);
 
+		if (ferror(db->f)) {
+			ERROR(db->ctx, "Error reading from file: %m\n");
+			r = 1;
+
+			goto CLEANUP;
+		}
+
 		hexdump(db->ctx, buffer, bytes_read);
 
 		r = EVP_DigestVerifyUpdate(mdctx, buffer, bytes_read);
-- 
2.43.0


From 89a66a35dad12cef690c365c3af19ef0b836e9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:58 +0000
Subject: [PATCH 33/39] fix: database: Check the second signature if the first
 one is malformed

A database is valid if either of the signatures is valid.
---
 src/database.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/database.c b/src/database.c
index 2a09ed6..7d1ba76 100644
--- a/src/database.c
+++ b/src/database.c
@@ -682,8 +682,6 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 		} else {
 			ERROR(db->ctx, "Error verifying the first signature: %s\n",
 				ERR_error_string(ERR_get_error(), NULL));
-			r = -1;
-			goto CLEANUP;
 		}
 	}
 
@@ -702,8 +700,6 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 		} else {
 			ERROR(db->ctx, "Error verifying the second signature: %s\n",
 				ERR_error_string(ERR_get_error(), NULL));
-			r = -1;
-			goto CLEANUP;
 		}
 	}
 
-- 
2.43.0


From 35a679c57d07b1495f39a655a1bd1cf75f3d90f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:54 +0000
Subject: [PATCH 34/39] fix: address: Decrement ::ff00:0:0 correctly

The address looked like an IPv4 address after some octets have been
changed and the loop ended too early.
---
 src/libloc/address.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libloc/address.h b/src/libloc/address.h
index 04bb676..4911b30 100644
--- a/src/libloc/address.h
+++ b/src/libloc/address.h
@@ -297,8 +297,10 @@ static inline void loc_address_decrement(struct in6_addr* address) {
 	if (loc_address_all_zeroes(address))
 		return;
 
-	int octet = 0;
-	foreach_octet_in_address_reverse(octet, address) {
+	// The family must not change while we are changing the address
+	const int first = IN6_IS_ADDR_V4MAPPED(address) ? 12 : 0;
+
+	for (int octet = 15; octet >= first; octet--) {
 		if (address->s6_addr[octet] > 0) {
 			address->s6_addr[octet]--;
 			break;
-- 
2.43.0


From d02705d2594daa82e19989a77a5d9edf0f78a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:26 +0000
Subject: [PATCH 35/39] fix: network: Split ::/79 into two halves

The first half ends with ::ffff:255.255.255.255 which is not being
incremented because it is the last IPv4 address.
---
 src/network.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/network.c b/src/network.c
index 602972a..7356a68 100644
--- a/src/network.c
+++ b/src/network.c
@@ -351,9 +351,9 @@ LOC_EXPORT int loc_network_subnets(struct loc_network* network,
 	if (r)
 		return r;
 
-	// The next subnet starts after the first one
-	struct in6_addr first_address = (*subnet1)->last_address;
-	loc_address_increment(&first_address);
+	// The next subnet starts where the first bit after the prefix is set
+	struct in6_addr first_address = network->first_address;
+	loc_address_set_bit(&first_address, network->prefix, 1);
 
 	// Create the second half of the network
 	r = loc_network_new(network->ctx, subnet2, &first_address, prefix);
-- 
2.43.0


From a64607056d7601aa8eba38e19af17dd017a8d2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:30 +0000
Subject: [PATCH 36/39] fix: writer: Fail when the header cannot be skipped for
 the signature

---
 src/writer.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/writer.c b/src/writer.c
index b17d03e..9b08713 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -612,7 +612,11 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	}
 
 	// Skip header
-	fseek(f, sizeof(*header), SEEK_CUR);
+	r = fseek(f, sizeof(*header), SEEK_CUR);
+	if (r) {
+		ERROR(writer->ctx, "Could not skip the header: %m\n");
+		goto END;
+	}
 
 	// Walk through the file in chunks of 64kB
 	char buffer[64 * 1024];
-- 
2.43.0


From 5f828221a16f637e0f31d1513127bd88a395f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:33 +0000
Subject: [PATCH 37/39] fix: writer: Fail when the name of an AS or country
 cannot be stored

---
 src/as.c      |  3 +++
 src/country.c |  5 ++++-
 src/writer.c  | 12 ++++++++++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/as.c b/src/as.c
index 4a20da0..0c1476b 100644
--- a/src/as.c
+++ b/src/as.c
@@ -135,6 +135,9 @@ int loc_as_to_database_v1(struct loc_as* as, struct loc_stringpool* pool,
 
 	// Save the name string in the string pool
 	off_t name = loc_stringpool_add(pool, as->name ? as->name : "");
+	if (name < 0)
+		return 1;
+
 	dbobj->name = htobe32(name);
 
 	return 0;
diff --git a/src/country.c b/src/country.c
index e9cafb5..f9d6e58 100644
--- a/src/country.c
+++ b/src/country.c
@@ -189,8 +189,11 @@ int loc_country_to_database_v1(struct loc_country* country,
 		loc_country_code_copy(dbobj->continent_code, country->continent_code);
 
 	// Save the name string in the string pool
-	if (country->name)
+	if (country->name) {
 		name = loc_stringpool_add(pool, country->name);
+		if (name < 0)
+			return 1;
+	}
 
 	dbobj->name = htobe32(name);
 
diff --git a/src/writer.c b/src/writer.c
index 9b08713..6ddb56d 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -326,7 +326,11 @@ static int loc_database_write_as_section(struct loc_writer* writer,
 			return 1;
 
 		// Convert AS into database format
-		loc_as_to_database_v1(as, writer->pool, &block);
+		int r = loc_as_to_database_v1(as, writer->pool, &block);
+		if (r) {
+			loc_as_unref(as);
+			return r;
+		}
 
 		// Write to disk
 		*offset += fwrite(&block, 1, sizeof(block), f);
@@ -543,7 +547,11 @@ static int loc_database_write_countries(struct loc_writer* writer,
 		struct loc_country* country = loc_country_list_get(writer->country_list, i);
 
 		// Convert country into database format
-		loc_country_to_database_v1(country, writer->pool, &block);
+		int r = loc_country_to_database_v1(country, writer->pool, &block);
+		if (r) {
+			loc_country_unref(country);
+			return r;
+		}
 
 		// Write to disk
 		*offset += fwrite(&block, 1, sizeof(block), f);
-- 
2.43.0


From ace43df078b18a32f82e913e92128b8091600435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:39 +0000
Subject: [PATCH 38/39] fix: writer: Handle failed allocations when writing the
 network tree

---
 src/writer.c | 49 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 6ddb56d..2d756ad 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -433,8 +433,10 @@ static int loc_database_write_networks(struct loc_writer* writer,
 	// Add root
 	struct loc_network_tree_node* root = loc_network_tree_get_root(writer->networks);
 	node = make_node(root);
-	if (!node)
-		return 1;
+	if (!node) {
+		r = 1;
+		goto ERROR;
+	}
 
 	TAILQ_INSERT_TAIL(&nodes, node, nodes);
 
@@ -452,6 +454,11 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			child_node = make_node(node_zero);
 			loc_network_tree_node_unref(node_zero);
+			if (!child_node) {
+				free_node(node);
+				r = 1;
+				goto ERROR;
+			}
 
 			TAILQ_INSERT_TAIL(&nodes, child_node, nodes);
 		}
@@ -462,6 +469,11 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			child_node = make_node(node_one);
 			loc_network_tree_node_unref(node_one);
+			if (!child_node) {
+				free_node(node);
+				r = 1;
+				goto ERROR;
+			}
 
 			TAILQ_INSERT_TAIL(&nodes, child_node, nodes);
 		}
@@ -475,14 +487,15 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			// Append network to be written out later
 			struct network* nw = make_network(network);
+			loc_network_unref(network);
 			if (!nw) {
 				free_node(node);
-				return 1;
+				r = 1;
+				goto ERROR;
 			}
 			TAILQ_INSERT_TAIL(&networks, nw, networks);
 
 			db_node.network = htobe32(network_index++);
-			loc_network_unref(network);
 		} else {
 			db_node.network = htobe32(0xffffffff);
 		}
@@ -497,8 +510,6 @@ static int loc_database_write_networks(struct loc_writer* writer,
 		free_node(node);
 	}
 
-	loc_network_tree_node_unref(root);
-
 	header->network_tree_length = htobe32(network_tree_length);
 
 	align_page_boundary(offset, f);
@@ -514,8 +525,10 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 		// Prepare what we are writing to disk
 		r = loc_network_to_database_v1(nw->network, &db_network);
-		if (r)
-			return r;
+		if (r) {
+			free_network(nw);
+			goto ERROR;
+		}
 
 		*offset += fwrite(&db_network, 1, sizeof(db_network), f);
 		network_data_length += sizeof(db_network);
@@ -527,7 +540,25 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 	align_page_boundary(offset, f);
 
-	return 0;
+ERROR:
+	// Release anything that is left over
+	while (!TAILQ_EMPTY(&nodes)) {
+		node = TAILQ_FIRST(&nodes);
+		TAILQ_REMOVE(&nodes, node, nodes);
+
+		free_node(node);
+	}
+
+	while (!TAILQ_EMPTY(&networks)) {
+		struct network* nw = TAILQ_FIRST(&networks);
+		TAILQ_REMOVE(&networks, nw, networks);
+
+		free_network(nw);
+	}
+
+	loc_network_tree_node_unref(root);
+
+	return r;
 }
 
 static int loc_database_write_countries(struct loc_writer* writer,
-- 
2.43.0


From f93de5080ea87e81bde42ab8258d2cc3760e5778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:16 +0000
Subject: [PATCH 39/39] fix: address: Refuse an invalid prefix when looking up
 addresses, too

---
 src/address.c | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/address.c b/src/address.c
index 42ac58e..eb4cec1 100644
--- a/src/address.c
+++ b/src/address.c
@@ -142,29 +142,25 @@ int loc_address_parse(struct in6_addr* address, unsigned int* prefix, const char
 		return 1;
 	}
 
-	// Did the user request a prefix?
-	if (prefix) {
-		// Set the prefix to the default value
-		const unsigned int max_prefix = loc_address_family_bit_length(family);
-
-		// Parse the actual string
-		if (p) {
-			char* end = NULL;
-			const unsigned long value = strtoul(p, &end, 10);
-
-			// Check if prefix is a number and within bounds
-			if (*p < '0' || *p > '9' || *end || value > max_prefix) {
-				errno = EINVAL;
-				return 1;
-			}
+	// Set the prefix to the default value
+	const unsigned int max_prefix = loc_address_family_bit_length(family);
+	unsigned long value = max_prefix;
 
-			*prefix = value;
+	// Parse the actual string
+	if (p) {
+		char* end = NULL;
+		value = strtoul(p, &end, 10);
 
-		// If the string didn't contain a prefix, we set the maximum
-		} else {
-			*prefix = max_prefix;
+		// Check if prefix is a number and within bounds
+		if (*p < '0' || *p > '9' || *end || value > max_prefix) {
+			errno = EINVAL;
+			return 1;
 		}
 	}
 
+	// Did the user request a prefix?
+	if (prefix)
+		*prefix = value;
+
 	return 0;
 }
-- 
2.43.0

