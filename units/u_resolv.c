//@ unit prop=C23 defs=V_TYPED_CALLOC cost=20
/*
	Parsing a DNS reply of any length with any contents. The loop over the records is cut by
	induction: since the name in the question may have any length here, the first record may be
	anywhere, so that nothing is different for all others: there, the next record is
	within the reply, too, and it is not followed any further.
*/
#define _GNU_SOURCE 1
#include "models.h"
#include <resolv.h>
#include <arpa/nameser.h>
#include <arpa/nameser_compat.h>
#include <time.h>

#ifdef __CPROVER__
static unsigned char* v_answer;
static int v_reply;			/* length of the reply */
static unsigned int v_names;
static int v_parsed, v_complete;
static time_t v_time;

int __res_init(void) { int r; return r; }
static int v_query(const char* domain, int class, int type, unsigned char* answer, int length) {
	__CPROVER_assert(length >= 0 && __CPROVER_w_ok(answer, length), "res_query: buffer");
	CHECK(class == C_IN && type == T_TXT, "loc_discover_latest_version.query");
	int n;
	/* (the buffer has arbitrary contents.) Replies that do not fit are truncated, but return their full length */
	__CPROVER_assume(n >= -1 && n <= 65535);
	v_answer = answer;
	v_reply = n < length ? n : length;
	return n;
}
int res_query(const char* domain, int class, int type, unsigned char* answer, int length) { return v_query(domain, class, type, answer, length); }
static int v_expand(const unsigned char* message, const unsigned char* end, const unsigned char* from, char* to, int length) {
	__CPROVER_assert(message == v_answer && end == v_answer + v_reply, "dn_expand: the reply");
	__CPROVER_assert(__CPROVER_same_object(from, message) && from >= message, "dn_expand: part of the reply");
	__CPROVER_assert(length > 0 && __CPROVER_w_ok(to, length), "dn_expand: buffer");
	if (v_names++ == 3) {
		if (from >= end)
			return -1;
		SHAPE(from > message + sizeof(HEADER), "one record after another");
		__CPROVER_assume(0);
	}
	int n;
	if (n <= 0 || from >= end || n > end - from)
		return -1;
	to[0] = 0;
	return n;
}
int dn_expand(const unsigned char* message, const unsigned char* end, const unsigned char* from, char* to, int length) { return v_expand(message, end, from, to, length); }
char* strptime(const char* s, const char* format, struct tm* tm) {
	__CPROVER_assert(__CPROVER_same_object(s, v_answer), "strptime: in the reply");
	const unsigned char* p = (const unsigned char*)s;
	/* The length comes before the text, and all of it is in the reply */
	CHECK(p > v_answer + sizeof(HEADER) && p <= v_answer + v_reply, "loc_discover_latest_version.text");
	unsigned int length = p[-1];
	CHECK(length > 0 && p + length <= v_answer + v_reply && !p[length], "loc_discover_latest_version.terminated");
	v_parsed++;
	__CPROVER_bool fail;
	if (fail)
		return NULL;
	unsigned int n;
	__CPROVER_assume(n <= length);
	v_complete = !p[n];
	return (char*)p + n;
}
time_t timegm(struct tm* tm) { return v_time; }
#else
/* Replies that are made up */
static unsigned char v_reply_data[1024];
static int v_reply;
static int v_query(const char* domain, int class, int type, unsigned char* answer, int length) {
	if (v_reply >= 0)
		memcpy(answer, v_reply_data, v_reply < length ? v_reply : length);
	return v_reply;
}
#undef res_query
#undef res_init
#define res_query v_query
#define res_init() 0
#endif
#include "resolv.c"

//@ target h_resolv fn=loc_discover_latest_version,parse_timestamp unwind=5,12 assume="res_query() and dn_expand() follow their documentation; strptime() does not read beyond the end of a string"
void h_resolv(void) {
#ifdef __CPROVER__
	time_t now, t = -1;
	v_time = now;
	__CPROVER_assume(now != 0);
	int r = loc_discover_latest_version(v_ctx(), 1, &t);
	CHECK(r != 0 || (v_parsed == 1 && v_complete && t == v_time), "loc_discover_latest_version.result");
	CHECK(!v_parsed || !v_complete || r == 0, "loc_discover_latest_version.succeeds");
	CHECK(V_CTX_BALANCED(), "loc_discover_latest_version.context");
	if (r == 0)
		REACH("parsed");
	REACH("end");
#else
	IN_U64(seed); IN_RANGE(few, 0, 1); IN_RANGE(cnames, 0, 27); IN_RANGE(broken, 0, 7); IN_U32(when); IN_RANGE(pad, 0, 20);
	if (few) cnames &= 3; IN_RANGE(at, 0, 511); IN_U8(byte);
	time_t now = when, t = -1;
	unsigned char* p = v_reply_data + 12;
	memset(v_reply_data, 0, sizeof(v_reply_data));
	v_reply_data[5] = 1; v_reply_data[7] = cnames + 1;
	#define NAME() (memcpy(p, "\x01x\x00", 3), p += 3)
	#define S(x) (*p++ = (x) >> 8, *p++ = (x))
	NAME(); S(T_TXT); S(C_IN);
	for (unsigned int i = 0; i < cnames; i++) {
		NAME(); S(T_CNAME); S(C_IN); S(0); S(60); S(3); NAME();
	}
	char text[64];
	size_t n = strftime(text, sizeof(text), "%a, %d %b %Y %H:%M:%S GMT", gmtime(&now));
	/* Up to the end of the buffer */
	if (few == 0 && cnames == 27 && pad < 20) {
		NAME(); S(T_CNAME); S(C_IN); S(0); S(60);
		int left = 512 - (p + 2 - v_reply_data) - 13 - n - 2 - pad;
		if (left > 0) { S(left); p += left; } else { S(3); NAME(); }
	}
	NAME(); S(T_TXT); S(C_IN); S(0); S(60); S(n + 2);
	*p++ = n;
	memcpy(p, text, n + 1);
	p += n + 1;
	if (broken == 4) {
		/* Something after the time, with a length that is right */
		p[-n - 2]++, p[-n - 3]++, p[-2]++;
		p[-1] = 'x';
		*p++ = 0;
	} else if (broken == 5) {
		/* The text takes all of the record */
		p[-n - 3]--;
		p--;
	} else if (broken == 7) {
		/* The text is longer than the record */
		p[-n - 3] -= 2;
		p--;
	}
	v_reply = p - v_reply_data;
	if (broken == 6)
		/* A reply that does not fit */
		v_reply = 500 + at;
	if (broken == 1 && at < v_reply)
		v_reply_data[at] = byte;
	else if (broken == 2)
		v_reply = at < v_reply ? at : v_reply;
	else if (broken == 3)
		for (int i = 12; i < v_reply; i++) {
			seed = seed * 6364136223846793005ull + 1442695040888963407ull;
			if (!(seed >> 60)) v_reply_data[i] = seed >> 40;
		}
	int r = loc_discover_latest_version(v_ctx(), 1, &t);
	if (broken == 4 || broken == 7)
		CHECK(r != 0, "loc_discover_latest_version.result");
	if ((!broken || broken == 5) && v_reply <= PACKETSZ)
		CHECK(r == 0 && t == now, "loc_discover_latest_version.result");
	REACH("end");
#endif
}
