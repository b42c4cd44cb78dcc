/* Contract model of the MPI subset OpenVSIP uses.  Ranks are cooperative threads of one process
   (vsx_spawn); the rank of a thread is its thread number.  Isend is synchronous: the data leave the
   sender's buffer only when the matching receive runs, MPI_Wait returns after that (the least
   accommodating behaviour the standard allows).  Built as bitcode for the executor and natively for replays. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "vsx.h"
#define MAXP 8
typedef struct { int magic, n, ctx, me_unused; int w[MAXP]; int seq[MAXP]; } comm_t;
typedef struct { int magic, n; int w[MAXP]; } group_t;
typedef struct { int magic, prim, nb; long ext; long size; long *off; long *len; } type_t;
typedef struct msg { struct msg *next; int src, dst, ctx, tag; char *data; long size; int nb; long *off, *len; int eager, done; } msg_t;
typedef struct { int magic; msg_t *m; } req_t;
int mpi_model_np = 1;
static int inited, finalized; int mpi_model_attached = 0;
static msg_t *queue, *queue_end; 
/* predefined handles (addresses only; contents below) */
#define STORE(n) long n[64] __attribute__((aligned(16)));
STORE(ompi_mpi_comm_world) STORE(ompi_mpi_comm_null) STORE(ompi_mpi_comm_self) STORE(ompi_mpi_group_empty) STORE(ompi_mpi_group_null)
STORE(ompi_mpi_errors_return) STORE(ompi_request_null) STORE(ompi_mpi_datatype_null)
STORE(ompi_mpi_op_land) STORE(ompi_mpi_op_band) STORE(ompi_mpi_op_lor) STORE(ompi_mpi_op_bor) STORE(ompi_mpi_op_sum) STORE(ompi_mpi_op_min) STORE(ompi_mpi_op_max)
STORE(ompi_mpi_char) STORE(ompi_mpi_byte) STORE(ompi_mpi_short) STORE(ompi_mpi_int) STORE(ompi_mpi_long) STORE(ompi_mpi_unsigned_char) STORE(ompi_mpi_unsigned_short) STORE(ompi_mpi_unsigned) STORE(ompi_mpi_unsigned_long) STORE(ompi_mpi_float) STORE(ompi_mpi_double) STORE(ompi_mpi_long_double) STORE(ompi_mpi_signed_char)
enum { P_CHAR = 1, P_SHORT, P_INT, P_LONG, P_UCHAR, P_USHORT, P_UINT, P_ULONG, P_FLOAT, P_DOUBLE, P_LDOUBLE };
static int psize[] = {0, 1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 16};
static int primOf(void *t) {
  if (t == ompi_mpi_char || t == ompi_mpi_byte || t == ompi_mpi_signed_char) return P_CHAR; if (t == ompi_mpi_short) return P_SHORT; if (t == ompi_mpi_int) return P_INT; if (t == ompi_mpi_long) return P_LONG;
  if (t == ompi_mpi_unsigned_char) return P_UCHAR; if (t == ompi_mpi_unsigned_short) return P_USHORT; if (t == ompi_mpi_unsigned) return P_UINT; if (t == ompi_mpi_unsigned_long) return P_ULONG;
  if (t == ompi_mpi_float) return P_FLOAT; if (t == ompi_mpi_double) return P_DOUBLE; if (t == ompi_mpi_long_double) return P_LDOUBLE; return 0; }
static void tget(void *t, int *nb, long **off, long **len, long *ext, long *size, long tmp[2]) {
  int p = primOf(t);
  if (p) { tmp[0] = 0; tmp[1] = psize[p]; *nb = 1; *off = tmp; *len = tmp + 1; *ext = psize[p]; *size = psize[p]; return; }
  type_t *x = (type_t *)t; vsx_assert(x->magic == 77, "MPI datatype handle is valid"); *nb = x->nb; *off = x->off; *len = x->len; *ext = x->ext; *size = x->size; }
static type_t *tnew(int nb) { type_t *t = (type_t *)malloc(sizeof *t); t->magic = 77; t->prim = 0; t->nb = nb; t->off = (long *)malloc(sizeof(long) * (nb + 1)); t->len = (long *)malloc(sizeof(long) * (nb + 1)); t->ext = t->size = 0; return t; }
int MPI_Type_vector(int count, int bl, int stride, void *old, void **out) {
  int nb, i, j, k, q = 0; long *o, *l, ext, size, tmp[2]; tget(old, &nb, &o, &l, &ext, &size, tmp);
  if (count < 0 || bl < 0) return 2;
  type_t *t = tnew(count * bl * nb); long hi = 0;
  for (i = 0; i < count; ++i) for (j = 0; j < bl; ++j) for (k = 0; k < nb; ++k) { t->off[q] = ((long)i * stride + j) * ext + o[k]; t->len[q] = l[k]; if (t->off[q] + l[k] > hi) hi = t->off[q] + l[k]; ++q; }
  t->ext = hi; t->size = size * count * bl; *out = t; return 0; }
int MPI_Type_contiguous(int count, void *old, void **out) { return MPI_Type_vector(count, 1, 1, old, out); }
int MPI_Type_create_struct(int n, int const *lens, long const *offs, void *const *types, void **out) {
  int tot = 0, i, j, k, q = 0; long *o, *l, ext, size, tmp[2]; int nb;
  for (i = 0; i < n; ++i) { tget(types[i], &nb, &o, &l, &ext, &size, tmp); tot += nb * lens[i]; }
  type_t *t = tnew(tot);
  for (i = 0; i < n; ++i) { tget(types[i], &nb, &o, &l, &ext, &size, tmp); for (j = 0; j < lens[i]; ++j) for (k = 0; k < nb; ++k) { t->off[q] = offs[i] + j * ext + o[k]; t->len[q] = l[k]; ++q; } t->size += size * lens[i]; }
  *out = t; return 0; }
int MPI_Type_commit(void **t) { return 0; }
int MPI_Type_free(void **pt) { type_t *t = (type_t *)*pt; vsx_assert(t->magic == 77, "MPI_Type_free of a valid datatype"); t->magic = 0; free(t->off); free(t->len); free(t); *pt = ompi_mpi_datatype_null; return 0; }
int MPI_Get_address(void const *p, long *a) { *a = (long)(intptr_t)p; return 0; }

static comm_t *cm(void *c) { comm_t *x = (comm_t *)c; if (c == ompi_mpi_comm_world && x->magic != 5) { int i; x->magic = 5; x->n = mpi_model_np; x->ctx = 1; for (i = 0; i < MAXP; ++i) { x->w[i] = i; x->seq[i] = 0; } } vsx_assert(x->magic == 5, "MPI communicator handle is valid"); return x; }
static int rk(comm_t *c) { int me = vsx_self(), i; for (i = 0; i < c->n; ++i) if (c->w[i] == me) return i; return -1; }
int MPI_Initialized(int *f) { *f = inited; return 0; }
int MPI_Finalized(int *f) { *f = finalized; return 0; }
int MPI_Init(int *a, char ***b) { vsx_assert(!inited, "MPI_Init is called once"); inited = 1; return 0; }
int MPI_Finalize(void) { vsx_assert(inited && !finalized, "MPI_Finalize is called once"); finalized = 1; return 0; }
int MPI_Buffer_attach(void *b, int n) { mpi_model_attached = 1; return 0; }
int MPI_Comm_set_errhandler(void *c, void *e) { return 0; }
int MPI_Errhandler_set(void *c, void *e) { return 0; }
int MPI_Comm_rank(void *c, int *r) { *r = rk(cm(c)); return 0; }
int MPI_Comm_size(void *c, int *n) { *n = cm(c)->n; return 0; }
int MPI_Comm_compare(void *a, void *b, int *r) { *r = a == b ? 0 : (a != ompi_mpi_comm_null && b != ompi_mpi_comm_null && cm(a)->ctx == cm(b)->ctx) ? 0 : 3; return 0; }
int MPI_Error_class(int c, int *k) { *k = c; return 0; }
int MPI_Error_string(int c, char *s, int *n) { s[0] = 'E'; s[1] = 0; *n = 1; return 0; }
static comm_t *cnew(int ctx, int n) { comm_t *c = (comm_t *)malloc(sizeof *c); c->magic = 5; c->n = n; c->ctx = ctx; for (int i = 0; i < MAXP; ++i) { c->seq[i] = 0; c->w[i] = -1; } return c; }
int MPI_Comm_dup(void *cc, void **out) { comm_t *c = cm(cc); int r = rk(c); comm_t *d = cnew(c->ctx * 31 + ++c->seq[r], c->n); for (int i = 0; i < c->n; ++i) d->w[i] = c->w[i]; *out = d; return 0; }
int MPI_Comm_free(void **c) { comm_t *x = cm(*c); vsx_assert(*c != (void *)ompi_mpi_comm_world, "MPI_Comm_free of the world communicator"); x->magic = 0; free(x); *c = ompi_mpi_comm_null; return 0; }
int MPI_Comm_group(void *cc, void **out) { comm_t *c = cm(cc); group_t *g = (group_t *)malloc(sizeof *g); g->magic = 9; g->n = c->n; for (int i = 0; i < c->n; ++i) g->w[i] = c->w[i]; *out = g; return 0; }
static group_t *gr(void *g) { static group_t empty; if (g == ompi_mpi_group_empty) { empty.magic = 9; empty.n = 0; return &empty; } group_t *x = (group_t *)g; vsx_assert(x->magic == 9, "MPI group handle is valid"); return x; }
int MPI_Group_free(void **g) { if (*g == (void *)ompi_mpi_group_empty) return 0; group_t *x = gr(*g); x->magic = 0; free(x); return 0; }
int MPI_Group_size(void *g, int *n) { *n = gr(g)->n; return 0; }
int MPI_Group_rank(void *g, int *r) { group_t *x = gr(g); *r = -32766; for (int i = 0; i < x->n; ++i) if (x->w[i] == vsx_self()) *r = i; return 0; }
int MPI_Group_incl(void *gg, int n, int const *r, void **out) { group_t *g = gr(gg); group_t *h = (group_t *)malloc(sizeof *h); h->magic = 9; h->n = n; for (int i = 0; i < n; ++i) { if (r[i] < 0 || r[i] >= g->n) return 6; h->w[i] = g->w[r[i]]; } *out = h; return 0; }
int MPI_Group_excl(void *gg, int n, int const *r, void **out) { group_t *g = gr(gg); group_t *h = (group_t *)malloc(sizeof *h); h->magic = 9; h->n = 0; for (int i = 0; i < g->n; ++i) { int ex = 0; for (int j = 0; j < n; ++j) if (r[j] == i) ex = 1; if (!ex) h->w[h->n++] = g->w[i]; } *out = h; return 0; }
int MPI_Group_translate_ranks(void *a, int n, int const *r, void *b, int *out) { group_t *g = gr(a), *h = gr(b); for (int i = 0; i < n; ++i) { out[i] = -32766; for (int j = 0; j < h->n; ++j) if (h->w[j] == g->w[r[i]]) out[i] = j; } return 0; }
int MPI_Group_union(void *a, void *b, void **out) { group_t *g = gr(a), *k = gr(b), *h = (group_t *)malloc(sizeof *h); h->magic = 9; h->n = 0; for (int i = 0; i < g->n; ++i) h->w[h->n++] = g->w[i]; for (int i = 0; i < k->n; ++i) { int in = 0; for (int j = 0; j < g->n; ++j) if (g->w[j] == k->w[i]) in = 1; if (!in) h->w[h->n++] = k->w[i]; } *out = h; return 0; }
int MPI_Group_intersection(void *a, void *b, void **out) { group_t *g = gr(a), *k = gr(b), *h = (group_t *)malloc(sizeof *h); h->magic = 9; h->n = 0; for (int i = 0; i < g->n; ++i) for (int j = 0; j < k->n; ++j) if (g->w[i] == k->w[j]) h->w[h->n++] = g->w[i]; *out = h; return 0; }
int MPI_Group_difference(void *a, void *b, void **out) { group_t *g = gr(a), *k = gr(b), *h = (group_t *)malloc(sizeof *h); h->magic = 9; h->n = 0; for (int i = 0; i < g->n; ++i) { int in = 0; for (int j = 0; j < k->n; ++j) if (g->w[i] == k->w[j]) in = 1; if (!in) h->w[h->n++] = g->w[i]; } *out = h; return 0; }
int MPI_Comm_create(void *cc, void *gg, void **out) { comm_t *c = cm(cc); group_t *g = gr(gg); int r = rk(c), in = 0; ++c->seq[r]; for (int i = 0; i < g->n; ++i) if (g->w[i] == vsx_self()) in = 1; if (!in) { *out = ompi_mpi_comm_null; return 0; } comm_t *d = cnew(c->ctx * 31 + c->seq[r], g->n); for (int i = 0; i < g->n; ++i) d->w[i] = g->w[i]; *out = d; return 0; }

static void enqueue(msg_t *m) { m->next = 0; if (queue_end) queue_end->next = m; else queue = m; queue_end = m; }
static msg_t *post(int src, int dst, int ctx, int tag, void *buf, int count, void *type, int eager) {
  int nb, i, k, q = 0; long *o, *l, ext, size, tmp[2]; tget(type, &nb, &o, &l, &ext, &size, tmp);
  msg_t *m = (msg_t *)malloc(sizeof *m); m->src = src; m->dst = dst; m->ctx = ctx; m->tag = tag; m->size = size * count; m->eager = eager; m->done = 0; m->nb = nb * count;
  m->off = (long *)malloc(sizeof(long) * (m->nb + 1)); m->len = (long *)malloc(sizeof(long) * (m->nb + 1));
  for (i = 0; i < count; ++i) for (k = 0; k < nb; ++k) { m->off[q] = (long)(intptr_t)buf + i * ext + o[k]; m->len[q] = l[k]; ++q; }
  m->data = 0;
  if (eager) { long p = 0; m->data = (char *)malloc(m->size + 1); for (q = 0; q < m->nb; ++q) { memcpy(m->data + p, (void *)(intptr_t)m->off[q], m->len[q]); p += m->len[q]; } }
  enqueue(m); return m; }
static void rel(msg_t *m) { free(m->off); free(m->len); if (m->data) free(m->data); free(m); }
static void unlink_(msg_t *m) { msg_t *p = queue, *prev = 0; while (p != m) { prev = p; p = p->next; } if (prev) prev->next = m->next; else queue = m->next; if (queue_end == m) queue_end = prev; }
static int recvw(int src, int dst, int ctx, int tag, void *buf, int count, void *type) {
  msg_t *m; for (;;) { for (m = queue; m; m = m->next) if (m->src == src && m->dst == dst && m->ctx == ctx && m->tag == tag) break; if (m) break; vsx_yield(); }
  int nb, i, k; long *o, *l, ext, size, tmp[2], p = 0; tget(type, &nb, &o, &l, &ext, &size, tmp);
  vsx_assert(m->size <= size * count, "MPI message fits the receive buffer");
  char *data = m->data;
  if (!m->eager) { data = (char *)malloc(m->size + 1); for (i = 0; i < m->nb; ++i) { memcpy(data + p, (void *)(intptr_t)m->off[i], m->len[i]); p += m->len[i]; } p = 0; }
  for (i = 0; i < count && p < m->size; ++i) for (k = 0; k < nb && p < m->size; ++k) { memcpy((char *)(intptr_t)((long)(intptr_t)buf + i * ext + o[k]), data + p, l[k]); p += l[k]; }
  unlink_(m); if (m->eager) rel(m); else { free(data); m->done = 1; }
  return 0; }
int MPI_Isend(void *buf, int count, void *type, int dst, int tag, void *cc, void **req) {
  comm_t *c = cm(cc); if (dst < 0 || dst >= c->n) return 6; req_t *r = (req_t *)malloc(sizeof *r); r->magic = 3; r->m = post(vsx_self(), c->w[dst], c->ctx, tag, buf, count, type, 0); *req = r; return 0; }
int MPI_Bsend(void *buf, int count, void *type, int dst, int tag, void *cc) { comm_t *c = cm(cc); if (dst < 0 || dst >= c->n) return 6; post(vsx_self(), c->w[dst], c->ctx, tag, buf, count, type, 1); return 0; }
int MPI_Wait(void **req, void *st) { if (*req == (void *)ompi_request_null) return 0; req_t *r = (req_t *)*req; vsx_assert(r->magic == 3, "MPI_Wait on a valid request"); while (!r->m->done) vsx_yield(); rel(r->m); r->magic = 0; free(r); *req = ompi_request_null; return 0; }
int MPI_Recv(void *buf, int count, void *type, int src, int tag, void *cc, void *st) { comm_t *c = cm(cc); if (src < 0 || src >= c->n) return 6; return recvw(c->w[src], vsx_self(), c->ctx, tag, buf, count, type); }
int MPI_Bcast(void *buf, int count, void *type, int root, void *cc) {
  comm_t *c = cm(cc); if (root < 0 || root >= c->n) return 8; int me = rk(c);
  if (me == root) { for (int i = 0; i < c->n; ++i) if (i != root) post(c->w[root], c->w[i], c->ctx, -7, buf, count, type, 1); return 0; }
  return recvw(c->w[root], vsx_self(), c->ctx, -7, buf, count, type); }
int MPI_Barrier(void *cc) { comm_t *c = cm(cc); int me = rk(c); char z = 0, y;
  if (me == 0) { for (int i = 1; i < c->n; ++i) recvw(c->w[i], vsx_self(), c->ctx, -8, &y, 1, ompi_mpi_char); for (int i = 1; i < c->n; ++i) post(c->w[0], c->w[i], c->ctx, -9, &z, 1, ompi_mpi_char, 1); }
  else { post(vsx_self(), c->w[0], c->ctx, -8, &z, 1, ompi_mpi_char, 1); recvw(c->w[0], vsx_self(), c->ctx, -9, &y, 1, ompi_mpi_char); } return 0; }
#define RED(T) { T *x = (T *)acc, *y = (T *)in; for (int i = 0; i < n; ++i) { if (op == ompi_mpi_op_sum) x[i] = x[i] + y[i]; else if (op == ompi_mpi_op_min) x[i] = y[i] < x[i] ? y[i] : x[i]; else if (op == ompi_mpi_op_max) x[i] = x[i] < y[i] ? y[i] : x[i]; else if (op == ompi_mpi_op_land) x[i] = x[i] && y[i]; else if (op == ompi_mpi_op_lor) x[i] = x[i] || y[i]; else return 9; } return 0; }
#define REDI(T) { T *x = (T *)acc, *y = (T *)in; if (op == ompi_mpi_op_band) { for (int i = 0; i < n; ++i) x[i] &= y[i]; return 0; } if (op == ompi_mpi_op_bor) { for (int i = 0; i < n; ++i) x[i] |= y[i]; return 0; } RED(T) }
static int red(void *acc, void *in, int n, int p, void *op) {
  switch (p) { case P_CHAR: REDI(signed char) case P_SHORT: REDI(short) case P_INT: REDI(int) case P_LONG: REDI(long) case P_UCHAR: REDI(unsigned char) case P_USHORT: REDI(unsigned short) case P_UINT: REDI(unsigned) case P_ULONG: REDI(unsigned long) case P_FLOAT: RED(float) case P_DOUBLE: RED(double) }
  return 3; }
int MPI_Allreduce(void const *in, void *out, int n, void *type, void *op, void *cc) {
  comm_t *c = cm(cc); int me = rk(c); int nb; long *o, *l, ext, size, tmp[2]; tget(type, &nb, &o, &l, &ext, &size, tmp);
  memcpy(out, in, size * n); int p = primOf(type);
  if (me == 0) { char *t = (char *)malloc(size * n + 1); int rc = 0; for (int i = 1; i < c->n; ++i) { recvw(c->w[i], vsx_self(), c->ctx, -10, t, n, type); rc |= red(out, t, n, p, op); } free(t); for (int i = 1; i < c->n; ++i) post(c->w[0], c->w[i], c->ctx, -11, out, n, type, 1); return rc; }
  post(vsx_self(), c->w[0], c->ctx, -10, out, n, type, 1); return recvw(c->w[0], vsx_self(), c->ctx, -11, out, n, type); }
int MPI_Comm_split(void *cc, int color, int key, void **out) { comm_t *c = cm(cc); int v[2] = {color, key}, all[2 * MAXP], me = rk(c);
  for (int i = 0; i < c->n; ++i) { all[2 * i] = v[0]; all[2 * i + 1] = v[1]; }
  for (int i = 0; i < c->n; ++i) { int b[2] = {v[0], v[1]}; MPI_Bcast(b, 2, ompi_mpi_int, i, cc); all[2 * i] = b[0]; all[2 * i + 1] = b[1]; }
  int idx[MAXP], n = 0; for (int i = 0; i < c->n; ++i) if (all[2 * i] == color) idx[n++] = i;
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (all[2 * idx[j] + 1] < all[2 * idx[i] + 1]) { int t = idx[i]; idx[i] = idx[j]; idx[j] = t; }
  comm_t *d = cnew(c->ctx * 31 + ++c->seq[me], n); d->ctx = d->ctx * 17 + color; for (int i = 0; i < n; ++i) d->w[i] = c->w[idx[i]]; *out = d; return 0; }
