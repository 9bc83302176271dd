#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#define Z 4096
#define PAT 0x5b
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static long live, count, fail_at, bad;
void *vg_malloc(size_t n) {
  pthread_mutex_lock(&mu);
  count++;
  int f = (fail_at && count == fail_at);
  if (!f) live++;
  pthread_mutex_unlock(&mu);
  if (f) return NULL;
  unsigned char *p = malloc(n + 2 * Z + 16);
  memset(p, PAT, n + 2 * Z + 16);
  *(size_t *)p = n;
  memset(p + 16 + Z, 0xc5, n); /* recognisable garbage */
  return p + 16 + Z;
}
void *vg_calloc(size_t a, size_t b) {
  void *p = vg_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void vg_free(void *q) {
  if (!q) return;
  unsigned char *p = (unsigned char *)q - Z - 16;
  size_t n = *(size_t *)p, i;
  int b = 0;
  for (i = 16; i < 16 + Z; i++) b |= p[i] != PAT;
  for (i = 16 + Z + n; i < 16 + 2 * Z + n; i++) b |= p[i] != PAT;
  pthread_mutex_lock(&mu);
  live--;
  if (b) bad++;
  pthread_mutex_unlock(&mu);
  free(p);
}
void vg_reset(long f) { live = count = bad = 0; fail_at = f; }
long vg_live(void) { return live; }
long vg_count(void) { return count; }
long vg_bad(void) { return bad; }
