/* shared by both stub libraries: the call log and the values the stubs hand back */
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
static char *buf; static size_t len, cap; static unsigned long long seed; static long handles; int vp_len;
void vp_reset(unsigned long long s) { len = 0; if (buf) buf[0] = 0; seed = s * 2654435761u + 12345; }
const char *vp_get(void) { return buf ? buf : ""; }
void vp_clear(void) { len = 0; if (buf) buf[0] = 0; }
void vp_log(const char *f, ...)
{
  char t[2048]; va_list a; va_start(a, f); int n = vsnprintf(t, sizeof t, f, a); va_end(a);
  if (len + n + 2 > cap) { cap = 2 * (len + n + 2) + 4096; buf = realloc(buf, cap); }
  memcpy(buf + len, t, n); len += n; buf[len++] = '\n'; buf[len] = 0;
}
unsigned vp_rand(void) { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return (unsigned) (seed >> 20); }
void *vp_handle(void) { return (void *) (0x7f0000001000L + 16 * ++handles); }
