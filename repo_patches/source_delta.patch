From 21fca2d5dd256718d826d662f4870e807b765ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 01/61] fix: hash inputs longer than 255 bytes without looping
 forever

---
 src/simple_sparsehash.c | 6 ++----
 src/utils.c             | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 47bb96b..8dfb3ad 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -15,12 +15,10 @@ static uint64_t hash_fnv1a(const char *key, const size_t klen) {
 	static const uint64_t fnv_prime = 1099511628211ULL;
 	static const uint64_t fnv_offset_bias = 14695981039346656037ULL;
 
-	const int iterations = klen;
-
-	uint8_t i;
+	size_t i;
 	uint64_t hash = fnv_offset_bias;
 
-	for(i = 0; i < iterations; i++) {
+	for(i = 0; i < klen; i++) {
 		hash = hash ^ key[i];
 		hash = hash * fnv_prime;
 	}
diff --git a/src/utils.c b/src/utils.c
index f1e50eb..26c9c97 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -101,12 +101,10 @@ int hash_string_fnv1a(const unsigned char *key, const size_t siz, char outbuf[st
 	const uint64_t fnv_prime = 1099511628211ULL;
 	const uint64_t fnv_offset_bias = 14695981039346656037ULL;
 
-	const int iterations = siz;
-
-	uint8_t i;
+	size_t i;
 	uint64_t hash = fnv_offset_bias;
 
-	for(i = 0; i < iterations; i++) {
+	for(i = 0; i < siz; i++) {
 		hash = hash ^ key[i];
 		hash = hash * fnv_prime;
 	}
-- 
2.43.0


From 73990534614bab4c2be95e7ca2f076b887fec1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 02/61] fix: strnstr finds a match at the end of the searched
 bytes

---
 src/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 26c9c97..006adb6 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -62,7 +62,7 @@ int endswith(const char *string, const char *suffix) {
 
 /* Pulled from here: http://stackoverflow.com/a/25705264 */
 char *strnstr(const char *haystack, const char *needle, size_t len) {
-	int i;
+	size_t i;
 	size_t needle_len;
 
 	/* segfault here if needle is not NULL terminated */
@@ -72,7 +72,7 @@ char *strnstr(const char *haystack, const char *needle, size_t len) {
 	/* Limit the search if haystack is shorter than 'len' */
 	len = strnlen(haystack, len);
 
-	for (i=0; i<(int)(len-needle_len); i++)
+	for (i=0; i + needle_len <= len; i++)
 	{
 		if ((haystack[0] == needle[0]) && (0 == strncmp(haystack, needle, needle_len)))
 			return (char *)haystack;
-- 
2.43.0


From e0841ea28338f647872f1f7f656d89fa53bbc63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 03/61] fix: sparse arrays refuse the index equal to their
 maximum

---
 src/simple_sparsehash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 8dfb3ad..798d458 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -211,7 +211,7 @@ struct sparse_array *sparse_array_init(const size_t element_size, const uint32_t
 int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 						   const void *val, const size_t vlen) {
 	/* Don't let users set outside the bounds of the array. */
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return 0;
 	/* Since our hashtable is divided into many arrays, we need to pick the one
 	 * relevant to `i` in this case:
@@ -222,7 +222,7 @@ int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 }
 
 const void *sparse_array_get(struct sparse_array *arr, const uint32_t i, size_t *outsize) {
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return NULL;
 	struct sparse_array_group *operating_group = &arr->groups[i / GROUP_SIZE];
 	const int position = i % GROUP_SIZE;
-- 
2.43.0


From b7b9479cb5eb46658c4a1b2e630952787ae327b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 04/61] fix: probe every slot of a sparse dictionary before
 giving up

---
 src/simple_sparsehash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 798d458..49e1f40 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -6,7 +6,8 @@
 
 #define FULL_ELEM_SIZE (arr->elem_size + sizeof(size_t))
 #define MAX_ARR_SIZE ((arr->maximum - 1)/GROUP_SIZE + 1)
-#define QUADRATIC_PROBE(maximum) (key_hash + num_probes * num_probes) & (maximum - 1)
+/* Triangular numbers visit every slot of a power-of-two sized table. */
+#define QUADRATIC_PROBE(maximum) (key_hash + (uint64_t)num_probes * (num_probes + 1) / 2) & (maximum - 1)
 
 /* One of the simplest hashing functions, FNV-1a. See the wikipedia article for more info:
  * http://en.wikipedia.org/wiki/Fowler%E2%80%93Noll%E2%80%93Vo_hash_function
-- 
2.43.0


From 6ad9a0ce7b86a0c232f0eacea5351f13440fa797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 05/61] fix: compare and copy sparse dictionary keys as bytes
 of their given length

---
 src/simple_sparsehash.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 49e1f40..151c5cf 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -275,7 +275,7 @@ static int _create_and_insert_new_bucket(
 	memcpy(copied_value, value, vlen);
 
 	copied_key = copied_value + vlen;
-	strncpy(copied_key, key, klen);
+	memcpy(copied_key, key, klen);
 
 	struct sparse_bucket bct = {
 		.key = copied_key,
@@ -383,8 +383,8 @@ int sparse_dict_set(struct sparse_dict *dict,
 		} else {
 			/* We found a bucket. Check to see if it has the same key as we do. */
 			struct sparse_bucket *existing_bucket = (struct sparse_bucket *)current_value;
-			const size_t lrgr_key = existing_bucket->klen > klen ? existing_bucket->klen : klen;
-			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
+			if (existing_bucket->hash == key_hash && existing_bucket->klen == klen &&
+					memcmp(existing_bucket->key, key, klen) == 0) {
 				/* Great, we probed along the hashtable and found a bucket with the same key as
 				 * the key we want to insert. Replace it. */
 				char *existing_key = existing_bucket->key;
@@ -441,8 +441,8 @@ void *sparse_dict_get(struct sparse_dict *dict, const char *key,
 			 * The value we pulled from the underlying array could be anything.
 			 */
 			struct sparse_bucket *existing_bucket = (struct sparse_bucket *)current_value;
-			const size_t lrgr_key = existing_bucket->klen > klen ? existing_bucket->klen : klen;
-			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
+			if (existing_bucket->hash == key_hash && existing_bucket->klen == klen &&
+					memcmp(existing_bucket->key, key, klen) == 0) {
 				if (outsize)
 					memcpy(outsize, &existing_bucket->vlen, sizeof(existing_bucket->vlen));
 
-- 
2.43.0


From 7c81b16c11ce49bd33d98288b030b1a1715d903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 06/61] fix: overwriting a sparse dictionary entry frees its
 block once

---
 src/simple_sparsehash.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 151c5cf..5e7b02f 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -387,14 +387,13 @@ int sparse_dict_set(struct sparse_dict *dict,
 					memcmp(existing_bucket->key, key, klen) == 0) {
 				/* Great, we probed along the hashtable and found a bucket with the same key as
 				 * the key we want to insert. Replace it. */
-				char *existing_key = existing_bucket->key;
 				void *existing_val = existing_bucket->val;
 				if (_create_and_insert_new_bucket(dict->buckets, probed_val, key, klen, value, vlen, key_hash)) {
 					/* We return here because we don't want to execute the 'resize the table'
 					 * logic. We overwrote a bucket instead of adding a new one, so we know
 					 * we don't need to resize anything.
 					 */
-					free(existing_key);
+					/* The key lives in the same block as the value. */
 					free(existing_val);
 					return 1;
 				} else {
-- 
2.43.0


From ba5708090de0a560c563ab7471014bb1198de19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 07/61] fix: vectors grow from capacity zero, keep their spare
 byte and survive a failed growth

---
 src/vector.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 6153dda..093a618 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -27,11 +27,12 @@ inline int vector_append(vector *vec, const void *item, const size_t item_size)
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, vec->max_size * vec->item_size + 1);
+		const size_t new_max_size = vec->max_size ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max_size * vec->item_size + 1);
 		if (!array)
 			return 0;
 		vec->items = array;
+		vec->max_size = new_max_size;
 	}
 
 	if (item_size != 0 && item != NULL) {
@@ -53,11 +54,12 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, (vec->max_size * vec->item_size));
+		const size_t new_max_size = vec->max_size ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max_size * vec->item_size + 1);
 		if (!array)
 			return 0;
 		vec->items = array;
+		vec->max_size = new_max_size;
 	}
 
 	memcpy(nth(vec->count), &pointer, sizeof(void *));
-- 
2.43.0


From 5407a626f6f17b43eae987350fb8260fae035afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 08/61] fix: vector_get returns nothing for indices from the
 count on

---
 src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.c b/src/vector.c
index 093a618..2777289 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -70,7 +70,7 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 inline const void *vector_get(const vector *vec, const unsigned int i) {
 	if (vec == NULL)
 		return NULL;
-	if (i > vec->max_size)
+	if (i >= vec->count)
 		return NULL;
 	return nth(i);
 }
-- 
2.43.0


From 5a1738752f27d6c7634e95c412cd992ce2267ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:41 +0000
Subject: [PATCH 09/61] fix: header lookup matches whole header names at the
 start of a line

The name was searched anywhere in the request, so it was also found inside
other names, values and the path, and an empty value made the size underflow.
---
 src/parse.c | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 8bf79b8..7d836f2 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -99,23 +99,25 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 }
 
 char *m38_get_header_value_raw(const char *request, const size_t request_siz, const char header[static 1]) {
-	/* TODO: Make sure this function handles bad input. */
-	char *data = NULL;
-	const char *header_loc = strnstr(request, header, request_siz);
-	if (!header_loc)
-		return NULL;
-
-	const char *header_value_start = header_loc + strnlen(header, request_siz) + strlen(": ");
-	const char *header_value_end = strnstr(header_loc, "\r\n", request_siz);
-	if (!header_value_end)
-		return NULL;
-
-	const size_t header_value_size = header_value_end - header_value_start;
-	data = calloc(sizeof(char), header_value_size + 1);
-	data[header_value_size] = '\0';
-	strncpy(data, header_value_start, header_value_size);
-
-	return data;
+	const size_t header_siz = strlen(header);
+	const char *request_end = request + request_siz;
+	const char *line = request;
+	const char *line_end = NULL;
+
+	/* A header starts its line, and only complete lines count: */
+	while ((line_end = strnstr(line, "\r\n", request_end - line)) != NULL) {
+		if ((size_t)(line_end - line) > header_siz &&
+				strncmp(line, header, header_siz) == 0 && line[header_siz] == ':') {
+			const char *value = line + header_siz + strlen(":");
+			while (value < line_end && (*value == ' ' || *value == '\t'))
+				value++;
+
+			return strndup(value, line_end - value);
+		}
+		line = line_end + strlen("\r\n");
+	}
+
+	return NULL;
 }
 
 char *m38_get_header_value_request(const m38_http_request *req, const char header[static 1]) {
-- 
2.43.0


From 87997a30765d3ef18bdfa8094e2195a45785def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 10/61] fix: the request line and header block are searched
 inside the received bytes only

---
 src/parse.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 7d836f2..d17c809 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -126,7 +126,7 @@ char *m38_get_header_value_request(const m38_http_request *req, const char heade
 
 int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_http_request *out) {
 	/* Find the verb */
-	const char *verb_end = strnstr((char *)to_read, " ", MAX_READ_LEN);
+	const char *verb_end = strnstr((char *)to_read, " ", num_read);
 	if (verb_end == NULL)
 		goto error;
 
@@ -135,7 +135,9 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 	strncpy(out->verb, (char *)to_read, verb_size);
 
 	const char *res_offset = verb_end + strlen(" ");
-	const char *resource_end = strnstr(res_offset, " ", sizeof(out->resource));
+	const size_t remaining = num_read - (res_offset - (char *)to_read);
+	const char *resource_end = strnstr(res_offset, " ",
+			remaining < sizeof(out->resource) ? remaining : sizeof(out->resource));
 	if (resource_end == NULL)
 		goto error;
 
@@ -146,7 +148,7 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 	/* Parse full header here. */
 	size_t header_length = 0;
 	int found_end = 0;
-	while (header_length + 3 <= num_read) {
+	while (header_length + 3 < num_read) {
 		if (to_read[header_length] == '\r' &&
 		    to_read[header_length + 1] == '\n' &&
 		    to_read[header_length + 2] == '\r' &&
-- 
2.43.0


From a8f730451a9858d034aca9ee6c30dd09d22a4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 11/61] fix: NUL bytes do not cut the header block or the body
 short

The copies ended at the first NUL while the reported lengths did not, so
readers of the body ran past the end of the copy.
---
 src/parse.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index d17c809..74a16be 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -124,6 +124,16 @@ char *m38_get_header_value_request(const m38_http_request *req, const char heade
 	return m38_get_header_value_raw(req->full_header, req->header_len, header);
 }
 
+/* Copies bytes that can have any value, including NUL, and terminates the copy. */
+static unsigned char *_copy_bytes(const void *bytes, const size_t siz) {
+	unsigned char *copy = malloc(siz + 1);
+	if (copy) {
+		memcpy(copy, bytes, siz);
+		copy[siz] = '\0';
+	}
+	return copy;
+}
+
 int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_http_request *out) {
 	/* Find the verb */
 	const char *verb_end = strnstr((char *)to_read, " ", num_read);
@@ -165,7 +175,7 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 		goto error;
 	}
 
-	out->full_header = strndup((char *)to_read, header_length);
+	out->full_header = (char *)_copy_bytes(to_read, header_length);
 	out->header_len = header_length;
 
 	return 0;
@@ -183,15 +193,15 @@ int m38_parse_body(const size_t received_body_len,
 	/* We want to read the least amount. Read whatever is smallest. DO IT BECAUSE I SAY SO. */
 	if (content_length_num == received_body_len) {
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, content_length_num);
+		request->full_body = _copy_bytes(body_start, request->body_len);
 	} else if (received_body_len < content_length_num) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Received body length is less than clength for full_body.");
 		request->body_len = received_body_len;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = _copy_bytes(body_start, request->body_len);
 	} else if (content_length_num > 0 && content_length_num < received_body_len) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Content length is less than total received body length.");
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = _copy_bytes(body_start, request->body_len);
 	} else {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Discrepancy between content-length and body length.");
 		request->full_body = NULL;
-- 
2.43.0


From 5284a7246dd5a44d433d9cef2b9be1864d74b093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:50 +0000
Subject: [PATCH 12/61] fix: parsing a form leaves the request's body alone

strsep() ran over the body itself: it was cut into pieces, its pointer became
NULL and the memory leaked.
---
 src/parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 74a16be..8725139 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -218,6 +218,7 @@ int m38_parse_body(const size_t received_body_len,
 int m38_parse_form_encoded_body(m38_http_request *request) {
 	struct sparse_dict *new_dict = NULL;
 	char *potential_kv_pair = NULL;
+	char *cursor = NULL;
 	char *duplicated_body = strndup((char *)request->full_body, request->body_len);
 	if (!duplicated_body) {
 		goto err;
@@ -225,7 +226,8 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 
 	new_dict = sparse_dict_init();
 
-	while ((potential_kv_pair = strsep((char **)&request->full_body, "&")) != NULL) {
+	cursor = duplicated_body;
+	while ((potential_kv_pair = strsep(&cursor, "&")) != NULL) {
 		char *key = NULL;
 		char *value = NULL;
 		key = strsep(&potential_kv_pair, "=");
-- 
2.43.0


From 79ab5d2eb1ca017eb78493632f7613425f5269c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:53 +0000
Subject: [PATCH 13/61] fix: make room for the terminator of a decoded form
 value

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 8725139..5912ef9 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -237,7 +237,7 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 			continue;
 		}
 
-		char *decoded_buffer = calloc(1, strlen(value));
+		char *decoded_buffer = calloc(1, strlen(value) + 1);
 		if (m38_url_decode(value, decoded_buffer) > 0) {
 			sparse_dict_set(new_dict, key, strlen(key), decoded_buffer, strlen(decoded_buffer));
 		} else {
-- 
2.43.0


From 26149268552faf838e116f2c71d87853c12abf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 14/61] fix: form values keep everything behind the first '='

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 5912ef9..11b1171 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -231,7 +231,7 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 		char *key = NULL;
 		char *value = NULL;
 		key = strsep(&potential_kv_pair, "=");
-		value = strsep(&potential_kv_pair, "=");
+		value = potential_kv_pair;
 
 		if (!key || !value) {
 			continue;
-- 
2.43.0


From 9fab7fabfbd99709ba4191f62206d509e6e67834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 15/61] fix: an earlier range error does not spoil parsing a
 range of LONG_MAX

---
 src/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 11b1171..3880644 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -48,6 +48,8 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 		return rng;
 	}
 
+	/* strtol() only sets errno on failure, an older error must not be taken for one. */
+	errno = 0;
 	long int _fn = strtol(actual_value, NULL, 10);
 	if ((_fn == LONG_MIN || _fn == LONG_MAX) && errno == ERANGE) {
 		m38_log_msg(LOG_WARN, "Malformed range query, could not parse first_num: %s", range_query);
-- 
2.43.0


From 6982351b04545c8f8289209341c0fe016511a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 16/61] fix: cookie lookup matches whole cookie names and
 returns the bare value

The name was searched anywhere in the cookies, values kept the next item's
';' and the search for the end ran past the given size.
---
 src/utils.c | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 006adb6..a0ef99a 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -119,29 +119,29 @@ char *m38_get_cookie_value(const char *cookie_string, const size_t cookie_string
 	if (!cookie_string)
 			return NULL;
 
-	const char *cookie_loc = strnstr(cookie_string, needle, cookie_string_siz);
-	if (!cookie_loc)
-			return NULL;
+	const size_t needle_siz = strlen(needle);
+	const char *item = cookie_string;
+	const char *cookie_string_end = cookie_string + strnlen(cookie_string, cookie_string_siz);
+
+	/* Cookies are 'name=value' items with a ';' and blanks between them: */
+	while (item < cookie_string_end) {
+		if (*item == ' ' || *item == '\t') {
+			item++;
+			continue;
+		}
 
-	const char *cookie_string_start = cookie_loc;
-	const char *cookie_string_end = strnstr(cookie_loc, ";", cookie_string_siz - (cookie_loc - cookie_string));
-	if (!cookie_string_end) {
-			/* This is okay, it might be at the end of the cookie. */
-			cookie_string_end = strnstr(cookie_loc, " ", cookie_string_siz - (cookie_loc - cookie_string));
-			if (!cookie_string_end)
-					cookie_string_end = cookie_loc + cookie_string_siz;
-	}
+		const char *item_end = strnstr(item, ";", cookie_string_end - item);
+		if (!item_end)
+			item_end = cookie_string_end;
 
-	const size_t cookie_string_size = cookie_string_end - cookie_string_start;
-	const char *cookie_string_value = strnstr(cookie_loc, "=", cookie_string_size);
-	if (!cookie_string_value)
-			return NULL;
+		if ((size_t)(item_end - item) > needle_siz &&
+				strncmp(item, needle, needle_siz) == 0 && item[needle_siz] == '=') {
+			const char *value = item + needle_siz + strlen("=");
+			return strndup(value, item_end - value);
+		}
 
-	/* -1 here is for the '=': */
-	const size_t cookie_string_value_size = cookie_string_end - cookie_string_value;
-	char *data = calloc(sizeof(char), cookie_string_value_size + 2); /* Plus two here: One for =, one for NULL */
-	data[cookie_string_value_size] = '\0';
-	strncpy(data, cookie_string_value + 1, cookie_string_value_size);
+		item = item_end + strlen(";");
+	}
 
-	return data;
+	return NULL;
 }
-- 
2.43.0


From 12b96ca576417d419fe748c30fd926bb5f88c4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 17/61] fix: a failing recv() refuses the request

Its -1 was added to the number of bytes read.
---
 src/grengine.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 9acb18b..597d5a7 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -315,10 +315,14 @@ static void log_request(const m38_http_request *request, const m38_http_response
 }
 
 static int read_max_bytes_from_socket(const int accept_fd, unsigned char **to_read, size_t *num_read) {
-	size_t read_this_time = 0;
+	ssize_t read_this_time = 0;
 	while ((read_this_time = recv(accept_fd, *to_read + *num_read, MAX_READ_LEN, 0))) {
+		if (read_this_time < 0) {
+			m38_log_msg(LOG_ERR, "Could not read request.");
+			goto error;
+		}
 		*num_read += read_this_time;
-		if (read_this_time == 0 || read_this_time < MAX_READ_LEN)
+		if (read_this_time < MAX_READ_LEN)
 			break;
 		read_this_time = 0;
 
-- 
2.43.0


From 744a9650a2d51ea71debce00849709f524b48b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 18/61] fix: refusing a request that could not be read frees no
 uninitialised pointers

---
 src/grengine.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 597d5a7..230e935 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -390,10 +390,6 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	size_t num_read = 0;
 	int rc = 0;
 
-	rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
-	if (rc != 0)
-		goto error;
-
 	m38_http_request request = {
 		.verb = {0},
 		.resource = {0},
@@ -404,6 +400,10 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		.full_body = NULL
 	};
 
+	rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
+	if (rc != 0)
+		goto error;
+
 	rc = m38_parse_request(to_read, num_read, &request);
 	if (rc != 0) {
 		m38_log_msg(LOG_ERR, "Could not parse request.");
-- 
2.43.0


From 18aaffb8e4cad3a8da019a917e067355e1bb67f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:57 +0000
Subject: [PATCH 19/61] fix: a body read separately is cut to its
 Content-Length

---
 src/grengine.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/grengine.c b/src/grengine.c
index 230e935..340e11e 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -365,6 +365,12 @@ static int attempt_reread_from_socket(
 		int rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
 		if (rc != 0)
 			goto error;
+
+		/* The body ends where its Content-Length says. */
+		if (num_read > clength_num) {
+			num_read = clength_num;
+			to_read[num_read] = '\0';
+		}
 	}
 
 	out->full_body = to_read;
-- 
2.43.0


From 35e30dcf17fd3a8e252b9378876d570f86e519fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 20/61] fix: running out of memory while reading a request does
 not leak what was read

---
 src/grengine.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 340e11e..7260294 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -326,11 +326,12 @@ static int read_max_bytes_from_socket(const int accept_fd, unsigned char **to_re
 			break;
 		read_this_time = 0;
 
-		*to_read = realloc(*to_read, *num_read + MAX_READ_LEN);
-		if (!(*to_read)) {
+		unsigned char *grown = realloc(*to_read, *num_read + MAX_READ_LEN);
+		if (!grown) {
 			m38_log_msg(LOG_ERR, "Ran out of memory reading request.");
 			goto error;
 		}
+		*to_read = grown;
 		memset(*to_read + *num_read, '\0', MAX_READ_LEN);
 		if (*num_read >= MAX_REQUEST_SIZE)
 			break;
-- 
2.43.0


From d60410ebe0014f0326aa5f010ec8ecb5ad342ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 21/61] fix: free everything a request allocated

The content type, an unused range, the form's entries and, for refused
requests, the response's header vector were leaked.
---
 src/grengine.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 7260294..9a8e122 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -18,6 +18,7 @@
 #include "greshunkel.h"
 #include "utils.h"
 #include "logging.h"
+#include "simple_sparsehash.h"
 #include "vector.h"
 #include "types.h"
 
@@ -383,9 +384,12 @@ error:
 	return -1;
 }
 
+static void _clean_up_extra_headers(m38_http_response *response);
+
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
 	unsigned char *to_read = calloc(1, MAX_READ_LEN);
 	char *actual_response = NULL;
+	char *content_type = NULL;
 	m38_http_response response = {
 		.mimetype = {0},
 		0
@@ -446,7 +450,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	/* Parses form encoding, if applicable: */
 	const char form_encoding[] = "application/x-www-form-urlencoded";
 	const size_t form_encoding_siz = strlen(form_encoding);
-	char *content_type = m38_get_header_value_request(&request, "Content-Type");
+	content_type = m38_get_header_value_request(&request, "Content-Type");
 
 	if (content_type &&
 			strlen(content_type) >= form_encoding_siz &&
@@ -594,7 +598,6 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		/* TODO: Add the custom header stuff here (for 206), too. */
 
 		m38_log_msg(LOG_INFO, "Range header parsed: Raw: %s Limit: %zu Offset: %zu", range_header_value, byte_range.limit, byte_range.offset);
-		free(range_header_value);
 
 		size_t end_byte = 0;
 		if (byte_range.limit == 0) {
@@ -643,20 +646,26 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	hreq->matching_route = matching_route;
 	memcpy(&hreq->response, &response, sizeof(response));
 
+	free(content_type);
+	free(range_header_value);
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements)
+		sparse_dict_free(request.form_elements);
 	return hreq;
 
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
 		matching_route->cleanup(500, &response);
+	_clean_up_extra_headers(&response);
 	free(actual_response);
+	free(content_type);
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements)
+		sparse_dict_free(request.form_elements);
 	return NULL;
 }
 
-- 
2.43.0


From df617887e5626a6fee03ab0af791765b06e8ec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 22/61] fix: only a 200 with content is turned into a partial
 response

Redirects lost their status and an empty response became a range whose last
byte lies in front of its first.
---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 9a8e122..c9ad7b6 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -537,7 +537,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 
 	/* Figure out if this thing needs to be partial */
 	char *range_header_value = m38_get_header_value_raw(request.full_header, request.header_len, "Range");
-	if (range_header_value && RESPONSE_OK(response_code)) {
+	if (range_header_value && response_code == 200 && response.outsize > 0) {
 		response_code = 206;
 	}
 
-- 
2.43.0


From 7cff75ee953fba4bdf4fcfcf112d45c34d75a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 23/61] fix: partial responses carry exactly the requested
 bytes

The last byte was computed from the wrong end and not sent, and the response
was as long as the whole content, the rest of it uninitialised memory.
---
 src/grengine.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index c9ad7b6..4844fe3 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -599,40 +599,39 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 
 		m38_log_msg(LOG_INFO, "Range header parsed: Raw: %s Limit: %zu Offset: %zu", range_header_value, byte_range.limit, byte_range.offset);
 
-		size_t end_byte = 0;
-		if (byte_range.limit == 0) {
-			end_byte = response.outsize - 1;
-		} else {
-			end_byte = (response.outsize - byte_range.limit) - 1;
-		}
-
-		if (end_byte >= response.outsize)
-			end_byte = response.outsize - 1;
+		/* The limit is the last byte the client wants, zero if it wants the rest. */
+		size_t end_byte = response.outsize - 1;
+		if (byte_range.limit != 0 && byte_range.limit < response.outsize)
+			end_byte = byte_range.limit;
 		const size_t start_byte = byte_range.offset < response.outsize ? byte_range.offset : 0;
 		const size_t max_size = response.outsize; /* Should be the same as file size. */
+		const size_t body_size = end_byte - start_byte + 1;
 		const size_t integer_length = UINT_LEN(max_size);
+		const size_t body_size_length = UINT_LEN(body_size);
+		if (response.mimetype[0] == '\0')
+			memcpy(response.mimetype, "text/html", strlen("text/html"));
 
 		const size_t minb_len = start_byte == 0 ? 1 : UINT_LEN(start_byte);
 		const size_t maxb_len = end_byte == 0 ? 1 : UINT_LEN(end_byte);
 		/* Compute the size of the header */
 		header_size = strlen(response.mimetype) + strlen(matched_response->message) + strlen(r_final)
-			+ integer_length + minb_len + maxb_len + integer_length
+			+ body_size_length + minb_len + maxb_len + integer_length
 			- strlen("%s") - (strlen("%zu") * 4);
-		actual_response_siz = max_size + header_size;
+		actual_response_siz = body_size + header_size;
 		/* malloc the full response */
 		actual_response = malloc(actual_response_siz + 1);
 		actual_response[actual_response_siz] = '\0';
 
 		/* snprintf the header because it's just a string: */
 		snprintf(actual_response, actual_response_siz, matched_response->message,
-			response.mimetype, max_size,
+			response.mimetype, body_size,
 			start_byte, end_byte, max_size);
 		m38_log_msg(LOG_INFO, "Sending back: Content-Range: %zu-%zu/%zu", start_byte, end_byte, max_size);
 
 		strcat(actual_response, r_final);
 
 		/* memcpy the rest because it could be anything: */
-		memcpy(actual_response + header_size, response.out + start_byte, end_byte - start_byte);
+		memcpy(actual_response + header_size, response.out + start_byte, body_size);
 	}
 
 	log_request(&request, &response, response_code);
-- 
2.43.0


From 950c6a8888a68b0f32d20fb169c517e41dcedf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 24/61] fix: a custom header's terminator stays inside its
 buffer

---
 src/grengine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 4844fe3..a0030d7 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -584,8 +584,8 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 			const size_t siz = (*pair)->header_len + strlen(": ") + (*pair)->value_len
 								    + strlen("\r\n") + 1;
 			char buf[siz];
-			buf[siz] = '\0';
-			snprintf(buf, actual_response_siz, "%s: %s\r\n", (*pair)->header, (*pair)->value);
+			buf[siz - 1] = '\0';
+			snprintf(buf, siz, "%s: %s\r\n", (*pair)->header, (*pair)->value);
 			strncat(actual_response, buf, siz);
 		}
 		strcat(actual_response, r_final);
-- 
2.43.0


From e348ddb29e60bedd00b940392139eeb0ff16f264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 25/61] fix: adding a custom header reports success, and
 failure without leaking

---
 src/grengine.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index a0030d7..1383631 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -283,6 +283,8 @@ int m38_insert_custom_header(m38_http_response *response, const char *header, co
 	const char *copied_value = strndup(value, value_len);
 	if (!copied_header || !copied_value) {
 		m38_log_msg(LOG_ERR, "Could not create copied values for http_response extra headers!");
+		free((char *)copied_header);
+		free((char *)copied_value);
 		free(new_pair);
 		return 0;
 	}
@@ -294,9 +296,15 @@ int m38_insert_custom_header(m38_http_response *response, const char *header, co
 		.value_len = value_len,
 	};
 	memcpy(new_pair, &_stack_pair, sizeof(m38_header_pair));
-	vector_append_ptr(response->extra_headers, new_pair);
+	if (!vector_append_ptr(response->extra_headers, new_pair)) {
+		m38_log_msg(LOG_ERR, "Could not add header_pair to http_response extra headers!");
+		free((char *)copied_header);
+		free((char *)copied_value);
+		free(new_pair);
+		return 0;
+	}
 
-	return 0;
+	return 1;
 }
 
 static void log_request(const m38_http_request *request, const m38_http_response *response, const int response_code) {
-- 
2.43.0


From caf92f19bbd136fe263c42aeea10e2046bc40416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 26/61] fix: continue after a short send where it stopped

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 1383631..ec5ecc4 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -699,7 +699,7 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 		goto error;
 	}
 
-	hreq->sent += to_send;
+	hreq->sent += rc;
 
 	if (hreq->response_len - hreq->sent <= 0) {
 		if (matching_route->cleanup != NULL) {
-- 
2.43.0


From 7edd04b952fd1ef2b6c8c19b6221179e11ae030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:49 +0000
Subject: [PATCH 27/61] fix: cleanup after a failed send gets the status the
 handler returned

It got 500, for which the heap and mmap cleanups release nothing: every client
that went away early leaked its response.
---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index ec5ecc4..036da6a 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -718,7 +718,7 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
-		matching_route->cleanup(500, &hreq->response);
+		matching_route->cleanup(hreq->response_code, &hreq->response);
 	_clean_up_extra_headers(&hreq->response);
 	close(hreq->accept_fd);
 	free(hreq->response_bytes);
-- 
2.43.0


From a55bed2acb79d5f783b4c74127bd894782c296c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 28/61] fix: find the extension of short and long file names

The scan did not run for paths shorter than 16 bytes, missed longer extensions
and took a dot in a directory for one in the name.
---
 src/grengine.c | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 036da6a..bf80957 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -224,20 +224,11 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 	madvise(response->out, c_limit, MADV_SEQUENTIAL | MADV_WILLNEED);
 
 	/* Figure out the mimetype for this resource: */
-	char ending[16] = {0};
-	unsigned int i = sizeof(ending);
-	int found_dot = 0;
-	const size_t res_len = strlen(file_path);
-	for (i = res_len; i > (res_len - sizeof(ending)); i--) {
-		if (file_path[i] == '.') {
-			found_dot = 1;
-			break;
-		}
-	}
+	const char *file_name = strrchr(file_path, '/');
+	const char *ending = strrchr(file_name ? file_name : file_path, '.');
 	if (strlen(response->mimetype) == 0) {
-		if (found_dot) {
-			strncpy(ending, file_path + i, sizeof(ending) - 1);
-			guess_mimetype(ending, sizeof(ending), response);
+		if (ending) {
+			guess_mimetype(ending, strlen(ending) + 1, response);
 		} else {
 			/* Fuck it, do something smart later with render_file. */
 			strncpy(response->mimetype, "text/html", sizeof(response->mimetype));
-- 
2.43.0


From 428d3ddc899dc0fd7dd349c278476a83734bbfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:18 +0000
Subject: [PATCH 29/61] fix: rendering a file that cannot be served frees its
 context

---
 src/grengine.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index bf80957..cd88a58 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -154,8 +154,10 @@ int m38_return_raw_buffer(const char *buf, const size_t buf_size, m38_http_respo
 
 int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path, m38_http_response *response) {
 	int rc = m38_mmap_file(file_path, response);
-	if (!RESPONSE_OK(rc))
+	if (!RESPONSE_OK(rc)) {
+		gshkl_free_context((greshunkel_ctext *)ctext);
 		return rc;
+	}
 
 	/* Render the mmap()'d file with greshunkel */
 	const char *mmapd_region = (char *)response->out;
-- 
2.43.0


From 778d13ed1ac9463c3d0d6f7e8dffa41edcd7d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:21 +0000
Subject: [PATCH 30/61] fix: render files from a terminated copy

The mapping of a file whose size is a multiple of the page size has no NUL
behind it.
---
 src/grengine.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index cd88a58..724bbda 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -159,13 +159,15 @@ int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path,
 		return rc;
 	}
 
-	/* Render the mmap()'d file with greshunkel */
-	const char *mmapd_region = (char *)response->out;
+	/* Render the mmap()'d file with greshunkel. Greshunkel needs a terminated
+	 * string, which the mapping of a file that fills its last page is not. */
 	const size_t original_size = response->outsize;
+	char *template = strndup((char *)response->out, original_size);
 
 	size_t new_size = 0;
-	char *rendered = gshkl_render(ctext, mmapd_region, original_size, &new_size);
+	char *rendered = gshkl_render(ctext, template, strlen(template), &new_size);
 	gshkl_free_context((greshunkel_ctext *)ctext);
+	free(template);
 
 	/* Clean up the stuff we're no longer using. */
 	munmap(response->out, original_size);
-- 
2.43.0


From ba8a7eeca892b50534e7b6bb9d9f09133c08eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 31/61] fix: an application with only a 404 cleanup gets the
 built-in 404 page

---
 src/grengine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 724bbda..c8b8916 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -500,7 +500,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	if (matching_route == NULL) {
 		matching_route = &r_404_route;
 		response_code = 404;
-		if (app->r_404_route) {
+		if (app->r_404_route && app->r_404_route->handler) {
 			m38_log_msg(LOG_INFO, "Setting custom 404 handler for %s.", matching_route->name);
 			matching_route = app->r_404_route;
 		} else {
@@ -520,7 +520,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		m38_log_msg(LOG_INFO, "No response gen: Calling 404 handler for %s.", matching_route->name);
 		matching_route = &r_404_route;
 
-		if (app->r_404_route) {
+		if (app->r_404_route && app->r_404_route->handler) {
 			m38_log_msg(LOG_INFO, "Setting custom 404 handler for %s.", matching_route->name);
 			matching_route = app->r_404_route;
 		} else {
-- 
2.43.0


From 82dff8788b827546a9fb2ae4981ce2093d42c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 32/61] fix: close the connection of a request that was refused

---
 src/server.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/server.c b/src/server.c
index 063c4d9..567a4ee 100644
--- a/src/server.c
+++ b/src/server.c
@@ -162,9 +162,14 @@ static void *handler(void *arg) {
 			m38_log_msg(LOG_FUN, "Worker %i: Handling response.", worker_ident);
 			m38_handled_request *req = m38_generate_response(new_fd, app);
 
-			ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
-			if (msg_size == -1)
-				m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
+			if (req == NULL) {
+				m38_log_msg(LOG_ERR, "Worker %i: Refusing request.", worker_ident);
+				close(new_fd);
+			} else {
+				ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
+				if (msg_size == -1)
+					m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
+			}
 		}
 
 		struct mq_attr attr = {0};
-- 
2.43.0


From 7cb86556afcf7fac0da0ba9971df27032e1099f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 33/61] fix: a response that cannot be enqueued is sent by its
 worker instead of being lost

---
 src/server.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 567a4ee..50f19c9 100644
--- a/src/server.c
+++ b/src/server.c
@@ -167,8 +167,12 @@ static void *handler(void *arg) {
 				close(new_fd);
 			} else {
 				ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
-				if (msg_size == -1)
+				if (msg_size == -1) {
 					m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
+					/* Nobody else knows about this response: send it from here. */
+					while (req != NULL)
+						req = m38_send_response(req);
+				}
 			}
 		}
 
-- 
2.43.0


From 669075673e4ebdbdf11a406125d58eb1e4f3d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 34/61] fix: the responder never waits for room in the queue it
 drains

With the queue full of new responses it blocked for ever in mq_send(), and a
failing mq_send() lost the response.
---
 src/server.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/server.c b/src/server.c
index 50f19c9..b69b8df 100644
--- a/src/server.c
+++ b/src/server.c
@@ -112,13 +112,15 @@ static void *responder(void *arg) {
 			m38_log_msg(LOG_ERR, "Responder: Got bogus request from queue.");
 		} else {
 			m38_handled_request *new_req = m38_send_response(req);
-			if (new_req != NULL) {
-				ssize_t msg_size = mq_send(handled_queue, (char *)&new_req, sizeof(m38_handled_request *), 0);
-				if (msg_size == -1)
-					m38_log_msg(LOG_ERR, "Responder: Could not enqueue handled response.");
-			} else {
+			/* Only this thread takes responses from the queue, so never wait for room
+			 * in it. If it is full keep sending this response instead. */
+			const struct timespec no_wait = {0};
+			while (new_req != NULL && mq_timedsend(handled_queue, (char *)&new_req,
+						sizeof(m38_handled_request *), 0, &no_wait) == -1)
+				new_req = m38_send_response(new_req);
+
+			if (new_req == NULL)
 				m38_log_msg(LOG_FUN, "Responder: Response sent.");
-			}
 		}
 	}
 
-- 
2.43.0


From a6ea89e61509bb138efba6b7947ca2f60e08eb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:07 +0000
Subject: [PATCH 35/61] fix: notice when the handled queue cannot be opened

---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index b69b8df..7b937ad 100644
--- a/src/server.c
+++ b/src/server.c
@@ -263,7 +263,7 @@ int m38_http_serve(m38_app *app) {
 	}
 
 	po_handled_queue = _open_queue(HANDLED_CONNECTION_QUEUE_NAME, O_RDWR | O_CREAT, sizeof(m38_handled_request *));
-	if (po_accepted_queue == -1) {
+	if (po_handled_queue == -1) {
 		m38_log_msg(LOG_ERR, "Could not preopen handled socket queue..");
 		perror("Main Thread");
 		goto error;
-- 
2.43.0


From 1bc145a2288d0506db8d8c558f5c5a355c08f40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 36/61] fix: give every worker its own arguments

All workers were passed the address of the same loop variable, so a worker
that started late saw another's index or freed stack.
---
 src/server.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/server.c b/src/server.c
index 7b937ad..e17a117 100644
--- a/src/server.c
+++ b/src/server.c
@@ -132,9 +132,10 @@ static void *responder(void *arg) {
 static void *handler(void *arg) {
 	mqd_t accepted_socket_queue = -1;
 	mqd_t handled_queue = -1;
-	const handler_arg *args = arg;
+	handler_arg *args = arg;
 	const m38_app *app = args->app;
 	const int worker_ident = args->worker_ident;
+	free(args);
 
 	accepted_socket_queue = mq_open(ACCEPTED_SOCKET_QUEUE_NAME, O_RDONLY);
 	if (accepted_socket_queue == -1) {
@@ -289,11 +290,18 @@ int m38_http_serve(m38_app *app) {
 
 	int i;
 	for (i = 0; i < app->num_threads; i++) {
-		handler_arg args = {
+		/* Every worker owns its arguments, it might start running late. */
+		handler_arg *worker_args = malloc(sizeof(handler_arg));
+		if (!worker_args)
+			goto error;
+		const handler_arg _stack_args = {
 			.app = app,
 			.worker_ident = i
 		};
-		if (pthread_create(&handlers[i], NULL, handler, &args) != 0) {
+		memcpy(worker_args, &_stack_args, sizeof(handler_arg));
+		if (pthread_create(&handlers[i], NULL, handler, worker_args) != 0) {
+			m38_log_msg(LOG_ERR, "Could not start worker thread.");
+			free(worker_args);
 			goto error;
 		}
 		m38_log_msg(LOG_INFO, "Worker thread %i started.", i);
-- 
2.43.0


From b840058f764bfb558930e6ba55ad9012483acb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 37/61] fix: the acceptor owns its arguments

When starting another thread fails right afterwards the acceptor read the
stack of a function that had returned.
---
 src/server.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/server.c b/src/server.c
index e17a117..e1d3aa5 100644
--- a/src/server.c
+++ b/src/server.c
@@ -57,8 +57,9 @@ static inline mqd_t _open_queue(const char *queue_name, int flags, const size_t
 }
 static void *acceptor(void *arg) {
 	mqd_t accepted_socket_queue = 0;
-	const acceptor_arg *args = arg;
+	acceptor_arg *args = arg;
 	const int main_sock_fd = args->main_sock_fd;
+	free(args);
 
 	accepted_socket_queue = _open_queue(ACCEPTED_SOCKET_QUEUE_NAME, O_WRONLY, sizeof(int));
 	if (accepted_socket_queue == -1) {
@@ -270,12 +271,17 @@ int m38_http_serve(m38_app *app) {
 		goto error;
 	}
 
-	acceptor_arg args = {
+	acceptor_arg *acceptor_args = malloc(sizeof(acceptor_arg));
+	if (!acceptor_args)
+		goto error;
+	const acceptor_arg _stack_acceptor_args = {
 		.main_sock_fd = *main_sock_fd,
 	};
+	memcpy(acceptor_args, &_stack_acceptor_args, sizeof(acceptor_arg));
 
-	if (pthread_create(&acceptor_enqueuer, NULL, acceptor, &args) != 0) {
+	if (pthread_create(&acceptor_enqueuer, NULL, acceptor, acceptor_args) != 0) {
 		m38_log_msg(LOG_ERR, "Could not start acceptor thread.");
+		free(acceptor_args);
 		goto error;
 	}
 
-- 
2.43.0


From a87187b356260e7bc2b9e7446b2350ea029981c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:10 +0000
Subject: [PATCH 38/61] fix: long names of arrays and sub-contexts stay
 terminated

---
 src/greshunkel.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 8757f7d..a01101c 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -90,8 +90,7 @@ int gshkl_add_sub_context(greshunkel_ctext *parent, const char name[const], cons
 			.sub_ctext = child
 		}
 	};
-	const size_t name_len = strnlen(name, WISDOM_OF_WORDS) < WISDOM_OF_WORDS ? strnlen(name, WISDOM_OF_WORDS) : WISDOM_OF_WORDS;
-	strncpy(_stack_tuple.name, name, name_len);
+	strncpy(_stack_tuple.name, name, WISDOM_OF_WORDS - 1);
 
 	return _gshkl_add_var_to_context(parent, &_stack_tuple);
 }
@@ -169,8 +168,7 @@ greshunkel_var gshkl_add_array(greshunkel_ctext *ctext, const char name[]) {
 			.arr = vector_new(sizeof(greshunkel_tuple), 16)
 		}
 	};
-	const size_t name_len = strnlen(name, WISDOM_OF_WORDS) < WISDOM_OF_WORDS ? strnlen(name, WISDOM_OF_WORDS) : WISDOM_OF_WORDS;
-	strncpy(_stack_tuple.name, name, name_len);
+	strncpy(_stack_tuple.name, name, WISDOM_OF_WORDS - 1);
 
 	_gshkl_add_var_to_context(ctext, &_stack_tuple);
 	return _stack_tuple.value;
-- 
2.43.0


From b8d4d74bd080980e21064fb7d05db8c98019b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 39/61] fix: sub-contexts in an array live as long as the array

Rendering a loop freed them, so a second loop or a second rendering used freed
memory, and without any rendering they leaked.
---
 src/greshunkel.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index a01101c..7846b7f 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -227,6 +227,12 @@ int gshkl_add_string_to_loop(greshunkel_var *loop, const char *value) {
 
 static inline void _gshkl_free_arr(greshunkel_tuple *to_free) {
 	assert(to_free->type == GSHKL_ARR);
+	unsigned int i;
+	for (i = 0; i < to_free->value.arr->count; i++) {
+		greshunkel_tuple *next = (greshunkel_tuple *)vector_get(to_free->value.arr, i);
+		if (next->type == GSHKL_SUBCTEXT)
+			gshkl_free_context((struct greshunkel_ctext *)next->value.sub_ctext);
+	}
 	vector_free((vector *)to_free->value.arr);
 }
 
@@ -236,7 +242,8 @@ void gshkl_free_context(greshunkel_ctext *ctext) {
 		greshunkel_tuple *next = (greshunkel_tuple *)vector_get(ctext->values, i);
 		if (next->type == GSHKL_ARR) {
 			_gshkl_free_arr(next);
-		} else if (next->type == GSHKL_SUBCTEXT) {
+		} else if (next->type == GSHKL_SUBCTEXT && ctext->parent == NULL) {
+			/* Child contexts only borrow the sub-context of a loop item. */
 			gshkl_free_context((struct greshunkel_ctext *)next->value.sub_ctext);
 		}
 	}
-- 
2.43.0


From 65c13355cd10ae6e0bae9279c674922746afe675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:16 +0000
Subject: [PATCH 40/61] fix: leave room for the terminator of a long included
 file

---
 src/greshunkel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 7846b7f..c315b3f 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -526,7 +526,7 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 			assert(1 == 0);
 		}
 
-		template_file_siz = fread(template_file, 1, sizeof(template_file), include_file);
+		template_file_siz = fread(template_file, 1, sizeof(template_file) - 1, include_file);
 		fclose(include_file);
 		template_file[template_file_siz] = '\0';
 
-- 
2.43.0


From 1c911f8a86f8408adc8947841f9cf20dc690fb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 41/61] fix: empty strings are false, strings that only start
 with FALSE are true

---
 src/greshunkel.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index c315b3f..6288ca3 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -700,7 +700,7 @@ static inline int _is_falsey(const greshunkel_tuple *tuple) {
 	}
 	if (!is_null) {
 		if (is_string) {
-			const int says_false = strncmp(tuple->value.str, "FALSE", strlen("FALSE")) == 0 ? 1 : 0;
+			const int says_false = strcmp(tuple->value.str, "FALSE") == 0 ? 1 : 0;
 			m38_log_msg(LOG_DEBUG, "_is_falsey: is_string SF: %i", says_false);
 			return says_false;
 		} else if (is_loop) {
@@ -712,8 +712,8 @@ static inline int _is_falsey(const greshunkel_tuple *tuple) {
 		return !is_subcontext;
 	}
 
-	m38_log_msg(LOG_DEBUG, "_is_falsey: return 0");
-	return 0;
+	m38_log_msg(LOG_DEBUG, "_is_falsey: return 1");
+	return 1;
 }
 
 static inline int _is_truthy(const greshunkel_tuple *tuple) {
@@ -731,7 +731,7 @@ static inline int _is_truthy(const greshunkel_tuple *tuple) {
 
 	if (!is_null) {
 		if (is_string) {
-			const int says_false = strncmp(tuple->value.str, "FALSE", strlen("FALSE")) == 0 ? 1 : 0;
+			const int says_false = strcmp(tuple->value.str, "FALSE") == 0 ? 1 : 0;
 			m38_log_msg(LOG_DEBUG, "_is_truthy: !is_null is_string SF: %i", !says_false);
 			return !says_false;
 		} else if (is_loop) {
-- 
2.43.0


From a3bc781614e31a4e0ccd38345f20a7ff826513b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:22 +0000
Subject: [PATCH 42/61] fix: an empty block ends at its own end marker, not at
 the last one of the template

---
 src/greshunkel.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 6288ca3..ac4faff 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -621,10 +621,8 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 		const char *closest_BBL = NULL;
 		closest_BBL = strstr(loop_meat.start, "xXx BBL xXx");
 		possible_dif = closest_BBL - buf;
-		if (possible_dif != (unsigned int)loop_meat.rm_so) {
-			loop_meat.rm_eo = possible_dif;
-			loop_meat.len = loop_meat.rm_eo - loop_meat.rm_so;
-		}
+		loop_meat.rm_eo = possible_dif;
+		loop_meat.len = loop_meat.rm_eo - loop_meat.rm_so;
 
 		/* We found a fucking loop, holy shit */
 		*num_read = loop_meat.rm_eo + strlen("xXx BBL xXx");
@@ -765,10 +763,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		const char *closest_endif = NULL;
 		closest_endif = strstr(conditional_meat.start, "xXx ENDLESS xXx");
 		possible_dif = closest_endif - buf;
-		if (possible_dif != (unsigned int)conditional_meat.rm_so) {
-			conditional_meat.rm_eo = possible_dif;
-			conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
-		}
+		conditional_meat.rm_eo = possible_dif;
+		conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
 
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
@@ -845,10 +841,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		const char *closest_endif = NULL;
 		closest_endif = strstr(conditional_meat.start, "xXx ENDLESS xXx");
 		possible_dif = closest_endif - buf;
-		if (possible_dif != (unsigned int)conditional_meat.rm_so) {
-			conditional_meat.rm_eo = possible_dif;
-			conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
-		}
+		conditional_meat.rm_eo = possible_dif;
+		conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
 
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
-- 
2.43.0


From a4f5335b2e4dd0891d3e56d450483f13b7b9f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 43/61] fix: a filter without argument in front of another
 filter gets no argument

It got the rest of the line.
---
 src/greshunkel.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index ac4faff..1c6472e 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -354,10 +354,12 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 
 		if ((filter = find_needle(ctext, just_match_str, 0))) {
 
-			const size_t new_len = start_of_first_XxX - argument.start;
-
-			/* Render the argument out so we can pass it to the filter function. */
-			char *rendered_argument = strndup(argument.start, new_len);
+			/* Render the argument out so we can pass it to the filter function.
+			 * A call that ends right behind its name has none, the match is only
+			 * there because of a later call. */
+			char *rendered_argument = NULL;
+			if (start_of_first_XxX >= argument.start)
+				rendered_argument = strndup(argument.start, start_of_first_XxX - argument.start);
 
 			/* Pass it to the filter function. */
 			char *filter_result = filter->filter_func(rendered_argument);
-- 
2.43.0


From f4cd75da04be0393fd2f71780dbd0666f912e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:33 +0000
Subject: [PATCH 44/61] fix: free every intermediate line of an interpolation
 exactly once

---
 src/greshunkel.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 1c6472e..369f125 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -547,6 +547,13 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 	return *operating_line;
 }
 
+/* Frees a line that was only an intermediate step: neither what it became
+ * nor the line the caller still owns. */
+static inline void _release_line(const line *used, const line *next, const line *callers) {
+	if (used->data != next->data && used->data != callers->data)
+		free(used->data);
+}
+
 static line
 _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const struct compiled_regex *all_regex) {
 	line interpolated_line = {0};
@@ -589,14 +596,14 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 		memset(match, 0, sizeof(match));
 	}
 
+	_release_line(&_operating_line, operating_line, &current_line);
+
 	/* SCREAM includes */
 	line included_line = _include_line(ctext, operating_line, all_regex);
-	if (included_line.data != interpolated_line.data && interpolated_line.data != NULL)
-		free(operating_line->data);
+	_release_line(operating_line, &included_line, &current_line);
 
 	line filtered_line = _filter_line(ctext, &included_line, all_regex);
-	if (filtered_line.data != interpolated_line.data && interpolated_line.data != NULL)
-		free(operating_line->data);
+	_release_line(&included_line, &filtered_line, &current_line);
 
 	return filtered_line;
 }
-- 
2.43.0


From 664d338fabc7f18b8e8036ec7136341697b682ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:36 +0000
Subject: [PATCH 45/61] fix: splitting a dotted name stays inside the name and
 its buffers

---
 src/greshunkel.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 369f125..077c560 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -755,6 +755,15 @@ static inline int _is_truthy(const greshunkel_tuple *tuple) {
 	return rc;
 }
 
+/* Splits 'context.item' at its first dot. Both buffers hold MAX_GSHKL_STR_SIZE
+ * bytes and were zeroed by the caller, longer halves are cut. */
+static inline void _split_dotted_name(const char *dotted, char *context_name, char *item_name) {
+	const char *dot = strchr(dotted, '.');
+	const size_t context_len = dot - dotted;
+	strncpy(context_name, dotted, context_len < MAX_GSHKL_STR_SIZE ? context_len : MAX_GSHKL_STR_SIZE - 1);
+	strncpy(item_name, dot + strlen("."), MAX_GSHKL_STR_SIZE - 1);
+}
+
 static line
 _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t *num_read, const struct compiled_regex *all_regex) {
 	line to_return = {0};
@@ -795,8 +804,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			/* TODO: Check sub-context. */
 			char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 			char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-			memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-			memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+			_split_dotted_name(just_match_str, sub_context_name, sub_item_name);
 
 			if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 				const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
@@ -870,8 +878,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 				/* TODO: Check sub-context. */
 				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+				_split_dotted_name(just_match_str, sub_context_name, sub_item_name);
 
 				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
@@ -899,8 +906,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 				/* TODO: Check sub-context. */
 				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+				_split_dotted_name(just_match_str, sub_context_name, sub_item_name);
 
 				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
-- 
2.43.0


From 5fd312dfa561d3ed1985370122214e27df1fe7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:39 +0000
Subject: [PATCH 46/61] fix: the reported size of a rendering counts all of its
 text but the last line end

---
 src/greshunkel.c | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 077c560..a38c678 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -253,14 +253,15 @@ void gshkl_free_context(greshunkel_ctext *ctext) {
 	free(ctext);
 }
 
-static line read_line(const char *buf) {
-	char c = '\0';
+static inline int _ends_line(const char c) {
+	return c == '\0' || c == '\n' || c == '\r';
+}
 
+/* Reads a line and the character that ends it, if there is one in what is left. */
+static line read_line(const char *buf, const size_t left) {
 	size_t num_read = 0;
-	while (1) {
-		c = buf[num_read];
-		num_read++;
-		if (c == '\0' || c == '\n' || c == '\r')
+	while (num_read < left) {
+		if (_ends_line(buf[num_read++]))
 			break;
 	}
 
@@ -555,7 +556,7 @@ static inline void _release_line(const line *used, const line *next, const line
 }
 
 static line
-_interpolate_line(const greshunkel_ctext *ctext, const line current_line, const struct compiled_regex *all_regex) {
+_interpolate_line(const greshunkel_ctext *ctext, const line current_line, const struct compiled_regex *all_regex, int *included) {
 	line interpolated_line = {0};
 	line new_line_to_add = {0};
 
@@ -600,6 +601,8 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 
 	/* SCREAM includes */
 	line included_line = _include_line(ctext, operating_line, all_regex);
+	if (included != NULL)
+		*included = included_line.data != operating_line->data;
 	_release_line(operating_line, &included_line, &current_line);
 
 	line filtered_line = _filter_line(ctext, &included_line, all_regex);
@@ -681,7 +684,8 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 			const size_t old_size = to_return.size;
 			to_return.size += rendered_piece.size;
 			to_return.data = realloc(to_return.data, to_return.size);
-			memcpy(to_return.data + old_size, rendered_piece.data, rendered_piece.size);
+			if (rendered_piece.size > 0)
+				memcpy(to_return.data + old_size, rendered_piece.data, rendered_piece.size);
 			free(rendered_piece.data);
 		}
 
@@ -933,7 +937,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			to_render_line.size = conditional_meat.len;
 
 			/* TODO: This should use gshkl_render. See _interpolate_loop */
-			line rendered_piece = _interpolate_line(ctext, to_render_line, all_regex);
+			line rendered_piece = _interpolate_line(ctext, to_render_line, all_regex, NULL);
 
 			const size_t old_size = to_return.size;
 			to_return.size += rendered_piece.size;
@@ -996,15 +1000,20 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	assert(ctext != NULL);
 
 	/* We start up a new buffer and copy the old one into it: */
-	char *rendered = NULL;
+	char *rendered = calloc(1, 1);
 	size_t intermediate_outsize = 0;
+	/* Is the last thing in the buffer a line of the template with its line end? */
+	int has_line_end = 0;
+
+	if (rendered == NULL)
+		return NULL;
 
 	struct compiled_regex all_regex;
 	_compile_regex(&all_regex);
 
 	size_t num_read = 0;
 	while (num_read < original_size) {
-		line current_line = read_line(to_render + num_read);
+		line current_line = read_line(to_render + num_read, original_size - num_read);
 
 		line to_append = {0};
 		size_t loop_readahead = 0;
@@ -1021,13 +1030,17 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 			to_append = _interpolate_conditionals(ctext, to_render + num_read, &conditional_readahead, &all_regex);
 
 			if (conditional_readahead == 0) {
-				to_append = _interpolate_line(ctext, current_line, &all_regex);
+				int included = 0;
+				to_append = _interpolate_line(ctext, current_line, &all_regex, &included);
 				num_read += current_line.size;
+				has_line_end = !included && _ends_line(to_render[num_read - 1]);
 			} else {
 				num_read += conditional_readahead;
+				has_line_end = 0;
 			}
 		} else {
 			num_read += loop_readahead;
+			has_line_end = 0;
 		}
 
 		/* Fuck this */
@@ -1040,7 +1053,8 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 			med_buf[intermediate_outsize] = '\0';
 			rendered = med_buf;
 		}
-		memcpy(rendered + old_outsize, to_append.data, to_append.size);
+		if (to_append.size > 0)
+			memcpy(rendered + old_outsize, to_append.data, to_append.size);
 		if (to_append.data != current_line.data)
 			free(current_line.data);
 		free(to_append.data);
@@ -1049,7 +1063,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	/* rendered[intermediate_outsize - 1] = '\0'; */
 
 	if (outsize)
-		*outsize = intermediate_outsize - 1;
+		*outsize = intermediate_outsize - (has_line_end ? 1 : 0);
 	return rendered;
 
 error:
-- 
2.43.0


From d259b8fe6663648a8c3fd0b2daac563d3af6b9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:42 +0000
Subject: [PATCH 47/61] fix: render the body of UNLESS as a template, like that
 of UNLESS NOT

---
 src/greshunkel.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index a38c678..b453a19 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -601,8 +601,7 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 
 	/* SCREAM includes */
 	line included_line = _include_line(ctext, operating_line, all_regex);
-	if (included != NULL)
-		*included = included_line.data != operating_line->data;
+	*included = included_line.data != operating_line->data;
 	_release_line(operating_line, &included_line, &current_line);
 
 	line filtered_line = _filter_line(ctext, &included_line, all_regex);
@@ -936,8 +935,13 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			to_render_line.data = strndup(conditional_meat.start, conditional_meat.len);
 			to_render_line.size = conditional_meat.len;
 
-			/* TODO: This should use gshkl_render. See _interpolate_loop */
-			line rendered_piece = _interpolate_line(ctext, to_render_line, all_regex, NULL);
+			line rendered_piece = {0};
+
+			/* The body is a template like any other. Its last newline stays. */
+			greshunkel_ctext *_temp_ctext = _gshkl_init_child_context(ctext);
+			rendered_piece.data = gshkl_render(_temp_ctext, to_render_line.data, to_render_line.size, NULL);
+			rendered_piece.size = strlen(rendered_piece.data);
+			gshkl_free_context(_temp_ctext);
 
 			const size_t old_size = to_return.size;
 			to_return.size += rendered_piece.size;
@@ -948,8 +952,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			}
 
 			memcpy(to_return.data + old_size, rendered_piece.data, rendered_piece.size);
-			if (rendered_piece.data != to_render_line.data)
-				free(rendered_piece.data);
+			free(rendered_piece.data);
 			free(to_render_line.data);
 		}
 	}
-- 
2.43.0


From 4189780abd2ba88772948108d7f2d73eaaa15c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 48/61] fix: the Python binding passes the size of the encoded
 template

---
 python/greshunkel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index e8f1a3c..19dbf16 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -65,6 +65,6 @@ class Template(object):
         self.template = template
 
     def render(self, context):
-        template_c_string = c_char_p(self.template.encode())
-        ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, template_c_string, len(self.template), None)
+        template_bytes = self.template.encode()
+        ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, c_char_p(template_bytes), len(template_bytes), None)
         return ret_c_str.decode()
-- 
2.43.0


From 1dd3b6cafbcdf82a8d1ae2a988307f5e6b55d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 49/61] fix: declare the pointer arguments of the Python
 binding

---
 python/greshunkel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index 19dbf16..01f20d8 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -14,11 +14,16 @@ GshklFilterFunc = CFUNCTYPE(c_char_p, c_char_p)
 lib38moths = cdll.LoadLibrary("lib38moths.so")
 
 lib38moths.gshkl_init_context.restype = c_void_p
+lib38moths.gshkl_add_string.argtypes = [c_void_p, c_char_p, c_char_p]
+lib38moths.gshkl_add_int.argtypes = [c_void_p, c_char_p, c_int]
+lib38moths.gshkl_add_sub_context.argtypes = [c_void_p, c_char_p, c_void_p]
+lib38moths.gshkl_add_sub_context_to_loop.argtypes = [POINTER(greshunkel_var), c_void_p]
 lib38moths.gshkl_add_array.argtypes = [c_void_p, c_char_p]
 lib38moths.gshkl_add_array.restype = greshunkel_var
 lib38moths.gshkl_add_string_to_loop.argtypes = [POINTER(greshunkel_var), c_char_p]
 lib38moths.gshkl_add_int_to_loop.argtypes = [POINTER(greshunkel_var), c_int]
 lib38moths.gshkl_add_filter.argtypes = [c_void_p, c_char_p, GshklFilterFunc, c_void_p]
+lib38moths.gshkl_render.argtypes = [c_void_p, c_char_p, c_size_t, POINTER(c_size_t)]
 lib38moths.gshkl_render.restype = c_char_p
 
 def _add_item_to_greshunkel_loop(ctext, loop, value):
@@ -40,7 +45,7 @@ def _add_item_to_greshunkel_context(ctext, key, value):
     if isinstance(value, str):
         lib38moths.gshkl_add_string(ctext, c_char_p(key.encode()), c_char_p(value.encode()))
     elif isinstance(value, int):
-        lib38moths.gshkl_add_int(ctext, c_char_p(key.encode()), c_size_t(value))
+        lib38moths.gshkl_add_int(ctext, c_char_p(key.encode()), value)
     elif isinstance(value, list):
         converted_key = c_char_p(key.encode())
         new_loop = lib38moths.gshkl_add_array(ctext, converted_key)
-- 
2.43.0


From 6cba5f1b24ac3f1eda8ef8fe0e1dda008b601803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:14 +0000
Subject: [PATCH 50/61] fix: a negative Content-Length is no length and a large
 one is not truncated

---
 src/grengine.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index c8b8916..3d04ff0 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -429,7 +429,9 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	if (clength == NULL) {
 		m38_log_msg(LOG_WARN, "Could not parse content length.");
 	} else {
-		clength_num = atoi(clength);
+		/* Nothing but a positive number is the length of a body. */
+		const long parsed_clength = strtol(clength, NULL, 10);
+		clength_num = parsed_clength > 0 ? (size_t)parsed_clength : 0;
 		free(clength);
 	}
 
-- 
2.43.0


From 81a35373bd05f9b555d2380d052a0e9cfeeafb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 51/61] fix: break the time down with localtime_r, every thread
 logs

---
 src/logging.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index f73c16c..3580fd9 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -31,8 +31,10 @@ void m38_log_msg(log_level level, const char *fmsg, ...) {
 	/* Time stuff */
 	struct timeval timest;
 	gettimeofday(&timest, NULL);
-	strftime(buffer, sizeof(buffer), "%b %d %H:%M:%S",
-			localtime(&timest.tv_sec));
+	/* Every thread logs, and localtime() hands the same struct to all of them. */
+	struct tm broken_down = {0};
+	localtime_r(&timest.tv_sec, &broken_down);
+	strftime(buffer, sizeof(buffer), "%b %d %H:%M:%S", &broken_down);
 
 	switch (level) {
 		case LOG_INFO:
-- 
2.43.0


From a0d7a0a7c0d0c18da142b5417094a3bc14c1415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 52/61] fix: a passing failure of accept or of a queue wait
 does not stop the server

---
 src/server.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/server.c b/src/server.c
index e1d3aa5..f0d1584 100644
--- a/src/server.c
+++ b/src/server.c
@@ -5,6 +5,7 @@
 #include <arpa/inet.h>
 #include <assert.h>
 #include <dirent.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <mqueue.h>
 #include <netdb.h>
@@ -75,7 +76,13 @@ static void *acceptor(void *arg) {
 		int new_fd = accept(main_sock_fd, (struct sockaddr *)&their_addr, &sin_size);
 
 		if (new_fd == -1) {
+			/* A client that went away, a signal or a momentary lack of resources
+			 * are no reason to turn everybody else away from now on. */
+			const int try_again = errno == EINTR || errno == ECONNABORTED || errno == EPROTO ||
+				errno == EMFILE || errno == ENFILE || errno == ENOBUFS || errno == ENOMEM;
 			m38_log_msg(LOG_ERR, "Acceptor: Could not accept new connection.");
+			if (try_again)
+				continue;
 			return NULL;
 		}
 
@@ -105,7 +112,9 @@ static void *responder(void *arg) {
 		m38_handled_request *req = NULL;
 		ssize_t msg_size = mq_receive(handled_queue, (char *)&req, sizeof(m38_handled_request *), NULL);
 
-		if (msg_size == -1) {
+		if (msg_size == -1 && errno == EINTR) {
+			continue;
+		} else if (msg_size == -1) {
 			m38_log_msg(LOG_ERR, "Responder: Could not read from handled_queue.");
 			perror("Responder: ");
 			break;
@@ -156,7 +165,9 @@ static void *handler(void *arg) {
 		int new_fd = 0;
 		ssize_t msg_size = mq_receive(accepted_socket_queue, (char *)&new_fd, sizeof(int), NULL);
 
-		if (msg_size == -1) {
+		if (msg_size == -1 && errno == EINTR) {
+			continue;
+		} else if (msg_size == -1) {
 			m38_log_msg(LOG_ERR, "Worker %i: Could not read from accepted_socket_queue.", worker_ident);
 			break;
 		} else if (new_fd == -1) {
-- 
2.43.0


From 539a331bb9518e3410f30d0ec51f46969543d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 53/61] fix: a client that has sent a whole request is not
 waited for

---
 src/grengine.c | 49 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 3d04ff0..e3c6e13 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -318,8 +318,37 @@ static void log_request(const m38_http_request *request, const m38_http_response
 	free(user_agent);
 }
 
-static int read_max_bytes_from_socket(const int accept_fd, unsigned char **to_read, size_t *num_read) {
+static size_t get_content_length(const char *header, const size_t header_len) {
+	char *clength = m38_get_header_value_raw(header, header_len, "Content-Length");
+	if (clength == NULL)
+		return 0;
+
+	/* Nothing but a positive number is the length of a body. */
+	const long parsed_clength = strtol(clength, NULL, 10);
+	free(clength);
+	return parsed_clength > 0 ? (size_t)parsed_clength : 0;
+}
+
+/* Do these bytes hold a whole request? The search for the end of the header goes on at
+ * searched, where the last one gave up. */
+static int is_whole_request(const unsigned char *to_read, const size_t num_read, size_t *searched) {
+	const char blank_line[] = "\r\n\r\n";
+	const size_t blank_line_siz = strlen(blank_line);
+
+	for (; *searched + blank_line_siz <= num_read; (*searched)++) {
+		if (memcmp(to_read + *searched, blank_line, blank_line_siz) == 0) {
+			const size_t header_len = *searched + blank_line_siz;
+			return num_read - header_len >= get_content_length((const char *)to_read, header_len);
+		}
+	}
+
+	return 0;
+}
+
+/* Reads the request, or its body_len bytes of body if those were not sent along. */
+static int read_max_bytes_from_socket(const int accept_fd, const size_t body_len, unsigned char **to_read, size_t *num_read) {
 	ssize_t read_this_time = 0;
+	size_t searched = 0;
 	while ((read_this_time = recv(accept_fd, *to_read + *num_read, MAX_READ_LEN, 0))) {
 		if (read_this_time < 0) {
 			m38_log_msg(LOG_ERR, "Could not read request.");
@@ -339,6 +368,9 @@ static int read_max_bytes_from_socket(const int accept_fd, unsigned char **to_re
 		memset(*to_read + *num_read, '\0', MAX_READ_LEN);
 		if (*num_read >= MAX_REQUEST_SIZE)
 			break;
+		/* A client that has sent everything waits for its answer now, so don't wait for more. */
+		if (body_len > 0 ? *num_read >= body_len : is_whole_request(*to_read, *num_read, &searched))
+			break;
 	}
 
 	return 0;
@@ -367,7 +399,7 @@ static int attempt_reread_from_socket(
 		/* ------------------------------------- */
 		/* XXX: Do a select here with a timeout. */
 		/* ------------------------------------- */
-		int rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
+		int rc = read_max_bytes_from_socket(accept_fd, clength_num, &to_read, &num_read);
 		if (rc != 0)
 			goto error;
 
@@ -414,7 +446,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		.full_body = NULL
 	};
 
-	rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
+	rc = read_max_bytes_from_socket(accept_fd, 0, &to_read, &num_read);
 	if (rc != 0)
 		goto error;
 
@@ -424,16 +456,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		goto error;
 	}
 
-	char *clength = m38_get_header_value_raw(request.full_header, request.header_len, "Content-Length");
-	size_t clength_num = 0;
-	if (clength == NULL) {
-		m38_log_msg(LOG_WARN, "Could not parse content length.");
-	} else {
-		/* Nothing but a positive number is the length of a body. */
-		const long parsed_clength = strtol(clength, NULL, 10);
-		clength_num = parsed_clength > 0 ? (size_t)parsed_clength : 0;
-		free(clength);
-	}
+	const size_t clength_num = get_content_length(request.full_header, request.header_len);
 
 	/* Do we have a POST body or something? */
 	const size_t post_body_len = num_read - request.header_len;
-- 
2.43.0


From a276cd6dde2547330b433efae32d1c4dadcf5cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 54/61] fix: clients cannot break or colour the lines of the
 access log

---
 src/grengine.c | 29 ++++++++++++++++++++++++-----
 src/parse.c    |  6 +++---
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index e3c6e13..43a5120 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -302,14 +302,33 @@ int m38_insert_custom_header(m38_http_response *response, const char *header, co
 	return 1;
 }
 
+/* Clients don't get to break a line of the log, or to steer the terminal it is read on. */
+static void make_printable(char *text) {
+	for (; *text != '\0'; text++) {
+		if ((unsigned char)*text < ' ' || *text == 0x7F)
+			*text = '?';
+	}
+}
+
 static void log_request(const m38_http_request *request, const m38_http_response *response, const int response_code) {
 	char *visitor_ip_addr = m38_get_header_value_raw(request->full_header, request->header_len, "X-Real-IP");
 	char *user_agent = m38_get_header_value_raw(request->full_header, request->header_len, "User-Agent");
-
-	m38_log_msg(LOG_FUN, "%s \"%s %s\" %i %i \"%s\"",
+	char verb[sizeof(request->verb)];
+	char resource[sizeof(request->resource)];
+
+	memcpy(verb, request->verb, sizeof(verb));
+	memcpy(resource, request->resource, sizeof(resource));
+	make_printable(verb);
+	make_printable(resource);
+	if (visitor_ip_addr != NULL)
+		make_printable(visitor_ip_addr);
+	if (user_agent != NULL)
+		make_printable(user_agent);
+
+	m38_log_msg(LOG_FUN, "%s \"%s %s\" %i %zu \"%s\"",
 		visitor_ip_addr == NULL ? "NOIP" : visitor_ip_addr,
-		request->verb,
-		request->resource,
+		verb,
+		resource,
 		response_code,
 		response->outsize,
 		user_agent == NULL ? "NOUSERAGENT" : user_agent);
@@ -625,7 +644,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		m38_range_header byte_range = m38_parse_range_header(range_header_value);
 		/* TODO: Add the custom header stuff here (for 206), too. */
 
-		m38_log_msg(LOG_INFO, "Range header parsed: Raw: %s Limit: %zu Offset: %zu", range_header_value, byte_range.limit, byte_range.offset);
+		m38_log_msg(LOG_INFO, "Range header parsed: Limit: %zu Offset: %zu", byte_range.limit, byte_range.offset);
 
 		/* The limit is the last byte the client wants, zero if it wants the rest. */
 		size_t end_byte = response.outsize - 1;
diff --git a/src/parse.c b/src/parse.c
index 3880644..cd0ac98 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -21,7 +21,7 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 	/* bytes=12345-55555 */
 
 	if (strncmp(range_query, "bytes=", strlen("bytes=")) != 0) {
-		m38_log_msg(LOG_WARN, "Malformed range query: %s", range_query);
+		m38_log_msg(LOG_WARN, "Malformed range query.");
 		m38_range_header rng = {
 			.limit = 0,
 			.offset = 0
@@ -40,7 +40,7 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 	}
 
 	if (!found) {
-		m38_log_msg(LOG_WARN, "Malformed range query: %s", range_query);
+		m38_log_msg(LOG_WARN, "Malformed range query.");
 		m38_range_header rng = {
 			.limit = 0,
 			.offset = 0
@@ -52,7 +52,7 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 	errno = 0;
 	long int _fn = strtol(actual_value, NULL, 10);
 	if ((_fn == LONG_MIN || _fn == LONG_MAX) && errno == ERANGE) {
-		m38_log_msg(LOG_WARN, "Malformed range query, could not parse first_num: %s", range_query);
+		m38_log_msg(LOG_WARN, "Malformed range query, could not parse first_num.");
 		m38_range_header rng = {
 			.limit = 0,
 			.offset = 0
-- 
2.43.0


From ccf86264eb67fc9dc983d9a2b1a5f2c7b11c5586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 55/61] fix: creating a vector without memory fails instead of
 crashing

---
 src/vector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index 2777289..ab6587a 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -14,6 +14,11 @@ vector *vector_new(const size_t item_size, const size_t initial_element_count) {
 	};
 
 	vector *to_return = calloc(1, sizeof(vector));
+	if (!_vec.items || !to_return) {
+		free(_vec.items);
+		free(to_return);
+		return NULL;
+	}
 	memcpy(to_return, &_vec, sizeof(vector));
 
 	return to_return;
-- 
2.43.0


From 548439c70eea7fa5e5f2793a8b1a62c5df32b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 56/61] fix: registering a 404 page without memory reports
 failure

---
 src/server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server.c b/src/server.c
index f0d1584..b96e863 100644
--- a/src/server.c
+++ b/src/server.c
@@ -356,6 +356,8 @@ int m38_set_404_handler(m38_app *app,
 		app->r_404_route->handler = handler;
 	} else {
 		m38_route *new_route = calloc(1, sizeof(m38_route));
+		if (!new_route)
+			return -1;
 		new_route->handler = handler;
 		new_route->cleanup = NULL;
 		strncpy(new_route->name, "Custom 404 Handler", sizeof(new_route->name));
@@ -374,6 +376,8 @@ int m38_set_404_cleanup(m38_app *app,
 		app->r_404_route->cleanup = cleanup;
 	} else {
 		m38_route *new_route = calloc(1, sizeof(m38_route));
+		if (!new_route)
+			return -1;
 		new_route->handler = NULL;
 		new_route->cleanup = cleanup;
 		strncpy(new_route->name, "Custom 404 Handler", sizeof(new_route->name));
-- 
2.43.0


From 9050dae9d8e47ac5f856dcc139a999534b90afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 57/61] fix: arrays and filters that do not fit into a context
 report it

---
 src/greshunkel.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index b453a19..81fe9fb 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -109,7 +109,8 @@ int gshkl_add_filter(greshunkel_ctext *ctext,
 	};
 	strncpy(new_filter.name, name, sizeof(new_filter.name) - 1);
 
-	vector_append(ctext->filter_functions, &new_filter, sizeof(struct greshunkel_filter));
+	if (!vector_append(ctext->filter_functions, &new_filter, sizeof(struct greshunkel_filter)))
+		return 1;
 	return 0;
 }
 
@@ -170,7 +171,11 @@ greshunkel_var gshkl_add_array(greshunkel_ctext *ctext, const char name[]) {
 	};
 	strncpy(_stack_tuple.name, name, WISDOM_OF_WORDS - 1);
 
-	_gshkl_add_var_to_context(ctext, &_stack_tuple);
+	/* An array that is not in the context takes no items. */
+	if (_stack_tuple.value.arr != NULL && _gshkl_add_var_to_context(ctext, &_stack_tuple) != 0) {
+		vector_free((vector *)_stack_tuple.value.arr);
+		_stack_tuple.value.arr = NULL;
+	}
 	return _stack_tuple.value;
 }
 
-- 
2.43.0


From 9438ec9b859dc76fb7f82e111eb34274cee522ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 58/61] fix: running out of memory during a request refuses
 that request only

---
 src/grengine.c | 28 +++++++++++++++++++++++-----
 src/parse.c    |  9 ++++++++-
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 43a5120..df359ef 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -184,7 +184,7 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 				 const size_t *offset, const size_t *limit) {
 	response->extra_data = calloc(1, sizeof(struct stat));
 
-	if (stat(file_path, response->extra_data) == -1) {
+	if (!response->extra_data || stat(file_path, response->extra_data) == -1) {
 		response->out = (unsigned char *)"<html><body><p>No such file.</p></body></html>";
 		response->outsize= strlen("<html><body><p>No such file.</p></body></html>");
 		free(response->extra_data);
@@ -412,6 +412,8 @@ static int attempt_reread_from_socket(
 		(post_body_len > 0 && post_body_len < clength_num)) {
 
 		to_read = calloc(1, MAX_READ_LEN);
+		if (!to_read)
+			goto error;
 
 		m38_log_msg(LOG_WARN, "Content-Length is %i but we got a post_body_len of %i.", clength_num, post_body_len);
 		m38_log_msg(LOG_WARN, "Attempting to re-read from stream.", clength_num, post_body_len);
@@ -444,6 +446,8 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	unsigned char *to_read = calloc(1, MAX_READ_LEN);
 	char *actual_response = NULL;
 	char *content_type = NULL;
+	char *range_header_value = NULL;
+	int64_t response_code = 0;
 	m38_http_response response = {
 		.mimetype = {0},
 		0
@@ -465,6 +469,9 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		.full_body = NULL
 	};
 
+	if (!to_read || !response.extra_headers)
+		goto error;
+
 	rc = read_max_bytes_from_socket(accept_fd, 0, &to_read, &num_read);
 	if (rc != 0)
 		goto error;
@@ -521,6 +528,8 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		assert(cur_route->expected_matches < MAX_MATCHES);
 		regex_t regex;
 		int reti = regcomp(&regex, cur_route->route_match, REG_EXTENDED);
+		if (reti == REG_ESPACE)
+			goto error;
 		if (reti != 0) {
 			char errbuf[128];
 			regerror(reti, &regex, errbuf, sizeof(errbuf));
@@ -540,7 +549,6 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	}
 
 	/* If we didn't find one just use the 404 route: */
-	int64_t response_code = 0;
 	if (matching_route == NULL) {
 		matching_route = &r_404_route;
 		response_code = 404;
@@ -583,7 +591,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	size_t actual_response_siz = 0;
 
 	/* Figure out if this thing needs to be partial */
-	char *range_header_value = m38_get_header_value_raw(request.full_header, request.header_len, "Range");
+	range_header_value = m38_get_header_value_raw(request.full_header, request.header_len, "Range");
 	if (range_header_value && response_code == 200 && response.outsize > 0) {
 		response_code = 206;
 	}
@@ -621,6 +629,8 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		}
 		actual_response_siz = response.outsize + header_size;
 		actual_response = malloc(actual_response_siz + 1);
+		if (!actual_response)
+			goto error;
 		memset(actual_response, '\0', actual_response_siz);
 		actual_response[actual_response_siz] = '\0';
 
@@ -667,6 +677,8 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		actual_response_siz = body_size + header_size;
 		/* malloc the full response */
 		actual_response = malloc(actual_response_siz + 1);
+		if (!actual_response)
+			goto error;
 		actual_response[actual_response_siz] = '\0';
 
 		/* snprintf the header because it's just a string: */
@@ -681,9 +693,12 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		memcpy(actual_response + header_size, response.out + start_byte, body_size);
 	}
 
+	hreq = malloc(sizeof(m38_handled_request));
+	if (!hreq)
+		goto error;
+
 	log_request(&request, &response, response_code);
 
-	hreq = malloc(sizeof(m38_handled_request));
 	hreq->response_bytes = actual_response;
 	hreq->response_len = actual_response_siz;
 	hreq->response_code = response_code;
@@ -703,10 +718,11 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
-		matching_route->cleanup(500, &response);
+		matching_route->cleanup(response_code, &response);
 	_clean_up_extra_headers(&response);
 	free(actual_response);
 	free(content_type);
+	free(range_header_value);
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
@@ -717,6 +733,8 @@ error:
 
 static void _clean_up_extra_headers(m38_http_response *response) {
 	size_t i = 0;
+	if (!response->extra_headers)
+		return;
 	for (i = 0; i < response->extra_headers->count; i++) {
 		m38_header_pair **pair = (m38_header_pair **)vector_get(response->extra_headers, i);
 		free((char *)(*pair)->header);
diff --git a/src/parse.c b/src/parse.c
index cd0ac98..d54ecc6 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -178,6 +178,8 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 	}
 
 	out->full_header = (char *)_copy_bytes(to_read, header_length);
+	if (!out->full_header)
+		goto error;
 	out->header_len = header_length;
 
 	return 0;
@@ -227,6 +229,8 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 	}
 
 	new_dict = sparse_dict_init();
+	if (!new_dict)
+		goto err;
 
 	cursor = duplicated_body;
 	while ((potential_kv_pair = strsep(&cursor, "&")) != NULL) {
@@ -240,6 +244,8 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 		}
 
 		char *decoded_buffer = calloc(1, strlen(value) + 1);
+		if (!decoded_buffer)
+			goto err;
 		if (m38_url_decode(value, decoded_buffer) > 0) {
 			sparse_dict_set(new_dict, key, strlen(key), decoded_buffer, strlen(decoded_buffer));
 		} else {
@@ -254,6 +260,7 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 
 err:
 	free(duplicated_body);
-	free(new_dict);
+	if (new_dict)
+		sparse_dict_free(new_dict);
 	return -1;
 }
-- 
2.43.0


From e52071eb8bc771cf6dd87c7b77d8de2c6008d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:01 +0000
Subject: [PATCH 59/61] fix: LOOP, UNLESS and SCREAM accept the digits that
 variable and filter names may have

---
 src/greshunkel.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 81fe9fb..aedd213 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -39,12 +39,12 @@ typedef struct _match {
 
 static const char variable_regex[] = "xXx @([a-zA-Z_0-9]+) xXx";
 static const char ctext_variable_regex[] = "xXx @([a-zA-Z_0-9]+)\\.([a-zA-Z_0-9]+) xXx";
-static const char loop_regex[] = "^\\s*xXx LOOP ([a-zA-Z_]+) ([a-zA-Z_]+) xXx(.*)xXx BBL xXx";
+static const char loop_regex[] = "^\\s*xXx LOOP ([a-zA-Z_0-9]+) ([a-zA-Z_0-9]+) xXx(.*)xXx BBL xXx";
 static const char filter_regex[] = "XxX ([a-zA-Z_0-9]+)\\s+(.*) XxX";
 static const char filter_regex_no_args[] = "XxX ([a-zA-Z_0-9]+) XxX";
-static const char include_regex[] = "^\\s*xXx SCREAM ([a-zA-Z_./]+) xXx";
-static const char conditional_regex[] = "^\\s*xXx UNLESS @([a-zA-Z_.]+) xXx(.*)xXx ENDLESS xXx";
-static const char conditional_inverse_regex[] = "^\\s*xXx UNLESS NOT @([a-zA-Z_.]+) xXx(.*)xXx ENDLESS xXx";
+static const char include_regex[] = "^\\s*xXx SCREAM ([a-zA-Z_0-9./]+) xXx";
+static const char conditional_regex[] = "^\\s*xXx UNLESS @([a-zA-Z_0-9.]+) xXx(.*)xXx ENDLESS xXx";
+static const char conditional_inverse_regex[] = "^\\s*xXx UNLESS NOT @([a-zA-Z_0-9.]+) xXx(.*)xXx ENDLESS xXx";
 
 greshunkel_ctext *gshkl_init_context() {
 	greshunkel_ctext *ctext = calloc(1, sizeof(struct greshunkel_ctext));
-- 
2.43.0


From b17634348509462b98d0a44fcc8b0fbf35b44c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:49 +0000
Subject: [PATCH 60/61] fix: serve a file whose descriptor is 0

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index df359ef..cfc62ea 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -192,7 +192,7 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 		return 404;
 	}
 	int fd = open(file_path, O_RDONLY);
-	if (fd <= 0) {
+	if (fd < 0) {
 		response->out = (unsigned char *)"<html><body><p>Could not open file.</p></body></html>";
 		response->outsize= strlen("<html><body><p>could not open file.</p></body></html>");
 		perror("mmap_file_ol: could not open file");
-- 
2.43.0


From c829253db3c3f687b7fab09bf501404d5a16d5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:52 +0000
Subject: [PATCH 61/61] fix: start when the listening socket's descriptor is 0

---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index b96e863..a8bc9ea 100644
--- a/src/server.c
+++ b/src/server.c
@@ -208,7 +208,7 @@ static void *handler(void *arg) {
 static inline int create_socket(const int port) {
 	int rc = -1;
 	int sock_fd = socket(PF_INET, SOCK_STREAM, 0);
-	if (sock_fd <= 0) {
+	if (sock_fd < 0) {
 		m38_log_msg(LOG_ERR, "Could not create main socket.");
 		goto error;
 	}
-- 
2.43.0

