// Requests and responses on top of srv.h.
#pragma once
#include "srv.h"
#include "simple_sparsehash.h"
static int main_fd;
static m38_app *mkapp(const m38_route *routes, int n, m38_route *r404) { m38_app a = {.main_sock_fd = &main_fd, .port = 8080, .num_threads = 1, .routes = routes, .num_routes = n, .r_404_route = r404}; m38_app *p = malloc(sizeof a); memcpy(p, &a, sizeof a); return p; }
static void mkroute(m38_route *r, const char *verb, const char *match, size_t em, int (*h)(const m38_http_request *, m38_http_response *), void (*c)(const int, m38_http_response *)) { memset(r, 0, sizeof *r); strncpy(r->verb, verb, sizeof r->verb - 1); strncpy(r->name, "route", sizeof r->name - 1); strncpy(r->route_match, match, sizeof r->route_match - 1); r->expected_matches = em; r->handler = h; r->cleanup = c; }
static m38_handled_request *req1(const m38_app *app, const void *p, size_t n) { int i = conn_add(); conn_seg(i, p, n); return m38_generate_response(CONN0 + i, app); }
static void finish(m38_handled_request *h) { int k = 0; while (h) { CHECK(++k < 1200, "sending ends"); h = m38_send_response(h); } }
static size_t put(char *b, const char *s) { size_t n = strlen(s); memcpy(b, s, n); return n; }
static size_t putn(char *b, uint64_t v) { char t[24]; int k = 0; do t[k++] = (char)('0' + v % 10); while (v /= 10); for (int i = 0; i < k; i++) b[i] = t[k - 1 - i]; return (size_t)k; }
