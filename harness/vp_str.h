/* Formatting and scanning. For the solver: small exact models of the subset of printf/scanf/strtol
 * the library uses; in a replay: the real libc. */
#ifdef VP_CBMC
static int vp_vsnprintf(char *out, size_t cap, const char *fmt, va_list ap) {
#ifdef VP_SHORT_STRINGS
  (void)fmt; (void)ap;
  out[0] = 's'; out[1] = '\0';
  return 1;
#else
  size_t i, n = 0;
#define VP_PUT(ch) do { if (n + 1 < cap) out[n] = (ch); n++; } while (0)
  for (i = 0; fmt[i] != '\0'; i++) {
    int lng = 0, zero = 0, width = 0, prec = -1, dot = 0;
    if (fmt[i] != '%') { VP_PUT(fmt[i]); continue; }
    i++;
    for (;;) {
      char c = fmt[i];
      if (c == '*') { int a = va_arg(ap, int); if (dot) prec = a; else width = a; i++; }
      else if (c == '.') { dot = 1; prec = 0; i++; }
      else if (c == '0' && !dot && width == 0) { zero = 1; i++; }
      else if (c >= '0' && c <= '9') { if (dot) prec = prec * 10 + (c - '0'); else width = width * 10 + (c - '0'); i++; }
      else if (c == '+' || c == '-' || c == ' ' || c == '#') i++;
      else if (c == 'l' || c == 'z') { lng = 1; i++; }
      else break;
    }
    if (fmt[i] == '%') { VP_PUT('%'); }
    else if (fmt[i] == 's') { const char *s = va_arg(ap, const char *); size_t k; for (k = 0; s[k] != '\0'; k++) VP_PUT(s[k]); }
    else if (fmt[i] == 'c') { int ch = va_arg(ap, int); VP_PUT((char)ch); }
    else if (fmt[i] == 'd' || fmt[i] == 'i' || fmt[i] == 'u') {
      unsigned long v; char digits[20]; int nd = 0, neg = 0, w;
      if (fmt[i] == 'u') v = lng ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned int);
      else { long sv = lng ? va_arg(ap, long) : (long)va_arg(ap, int); neg = sv < 0; v = neg ? 0UL - (unsigned long)sv : (unsigned long)sv; }
      do { digits[nd++] = (char)('0' + (int)(v % 10)); v /= 10; } while (v != 0);
      w = width - nd - neg;
      if (!zero) { while (w-- > 0) VP_PUT(' '); }
      if (neg) VP_PUT('-');
      if (zero) { while (w-- > 0) VP_PUT('0'); }
      while (nd > 0) VP_PUT(digits[--nd]);
    }
    else { (void)va_arg(ap, double); VP_PUT('F'); }
  }
#undef VP_PUT
  if (cap > 0) out[n < cap ? n : cap - 1] = '\0';
  return (int)n;
#endif
}
static int vp_vsprintf(char *out, const char *fmt, va_list ap) { return vp_vsnprintf(out, (size_t)1 << 30, fmt, ap); }
static int vp_sprintf(char *out, const char *fmt, ...) {
  va_list ap; int r; va_start(ap, fmt); r = vp_vsprintf(out, fmt, ap); va_end(ap); return r;
}
static int vp_snprintf(char *out, size_t cap, const char *fmt, ...) {
  va_list ap; int r; va_start(ap, fmt); r = vp_vsnprintf(out, cap, fmt, ap); va_end(ap); return r;
}
#define vsprintf vp_vsprintf
#define vsnprintf vp_vsnprintf
#define sprintf vp_sprintf
#define snprintf vp_snprintf

static char *vp_strstr(const char *hay, const char *needle) {
  size_t i, j;
  for (i = 0;; i++) {
    for (j = 0; needle[j] != '\0' && hay[i + j] == needle[j]; j++) { }
    if (needle[j] == '\0') return (char *)hay + i;
    if (hay[i] == '\0') return NULL;
  }
}
#define strstr vp_strstr
/* qsort: an insertion sort over elements made of 8-byte words */
static void vp_qsort(void *base, size_t n, size_t size, int (*cmp)(const void *, const void *)) {
  uint64_t *b = (uint64_t *)base, t;
  size_t i, j, k, w = size / 8;
  for (i = 1; i < n; i++)
    for (j = i; j > 0 && cmp(b + (j - 1) * w, b + j * w) > 0; j--)
      for (k = 0; k < w; k++) { t = b[(j - 1) * w + k]; b[(j - 1) * w + k] = b[j * w + k]; b[j * w + k] = t; }
}
#define qsort vp_qsort
static int vp_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int vp_isdigit(int c) { return c >= '0' && c <= '9'; }
static int vp_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int vp_tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
#undef isspace
#undef isalpha
#undef tolower
#define isalpha vp_isalpha
#define tolower vp_tolower
#undef isdigit
#define isspace vp_isspace
#define isdigit vp_isdigit
static unsigned long vp_digits(const char *s, const char **end) {
  unsigned long v = 0;
  while (vp_isdigit((unsigned char)*s)) {
    unsigned long d = (unsigned long)(*s - '0');
    v = (v > (ULONG_MAX - d) / 10) ? ULONG_MAX : v * 10 + d;
    s++;
  }
  *end = s;
  return v;
}
#ifdef VP_SYMBOLIC_NUMBERS
static unsigned long vp_numbers[10]; /* the digit d in a format string stands for the (symbolic) number vp_numbers[d] */
#endif
static long vp_strtol(const char *s, char **end, int base) {
  const char *start = s, *e; int neg = 0; unsigned long v;
  (void)base;
  while (vp_isspace((unsigned char)*s)) s++;
  if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
  if (!vp_isdigit((unsigned char)*s)) { if (end) *end = (char *)start; return 0; }
#ifdef VP_SYMBOLIC_NUMBERS
  v = vp_numbers[*s - '0'];
  vp_digits(s, &e);
#else
  v = vp_digits(s, &e);
#endif
  if (end) *end = (char *)e;
  if (neg) return v > (unsigned long)LONG_MAX ? LONG_MIN : -(long)v;
  return v > (unsigned long)LONG_MAX ? LONG_MAX : (long)v;
}
static unsigned long vp_strtoul(const char *s, char **end, int base) { return (unsigned long)vp_strtol(s, end, base); }
#define strtol vp_strtol
#define strtoul vp_strtoul
static int vp_atoi(const char *s) { return (int)vp_strtol(s, NULL, 10); }
static long vp_atol(const char *s) { return vp_strtol(s, NULL, 10); }
#define atoi vp_atoi
#define atol vp_atol

/* sscanf: %d %i %lu %u %s %[^"] and literal/blank characters; %lf is an arbitrary value with the right matching */
static int vp_sscanf(const char *in, const char *fmt, ...) {
  va_list ap; int done = 0; size_t i;
  va_start(ap, fmt);
  for (i = 0; fmt[i] != '\0'; i++) {
    int lng = 0;
    if (vp_isspace((unsigned char)fmt[i])) { while (vp_isspace((unsigned char)*in)) in++; continue; }
    if (fmt[i] != '%') { if (*in == '\0') { va_end(ap); return done == 0 ? -1 : done; } if (*in != fmt[i]) break; in++; continue; }
    i++;
    while (fmt[i] == 'l' || fmt[i] == 'z') { lng = 1; i++; }
    if (fmt[i] == '[') { /* only %[^c] */
      char stop = fmt[i + 2]; char *out = va_arg(ap, char *); size_t n = 0;
      i += 3;
      if (*in == '\0') { va_end(ap); return done == 0 ? -1 : done; }
      while (*in != '\0' && *in != stop) out[n++] = *in++;
      if (n == 0) break;
      out[n] = '\0'; done++;
      continue;
    }
    while (vp_isspace((unsigned char)*in)) in++;
    if (*in == '\0') { va_end(ap); return done == 0 ? -1 : done; }
    if (fmt[i] == 's') {
      char *out = va_arg(ap, char *); size_t n = 0;
      while (*in != '\0' && !vp_isspace((unsigned char)*in)) out[n++] = *in++;
      out[n] = '\0'; done++;
    } else {
      const char *p = in, *e; int neg = 0; unsigned long v;
      if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
      if (!vp_isdigit((unsigned char)*p)) break;
      v = vp_digits(p, &e); in = e;
#ifdef VP_SYMBOLIC_NUMBERS
      v = vp_numbers[*p - '0'];
#endif
      if (neg) v = 0UL - v;
      if (fmt[i] == 'f' || fmt[i] == 'e' || fmt[i] == 'g') { double d = neg ? -(double)(0UL - v) : (double)v; if (lng) *va_arg(ap, double *) = d; else *va_arg(ap, float *) = (float)d; }
      else if (lng) *va_arg(ap, unsigned long *) = v;
      else *va_arg(ap, unsigned int *) = (unsigned int)v;
      done++;
    }
  }
  va_end(ap);
  return done;
}
#define sscanf vp_sscanf

/* strtok (single delimiter string), as in C89 */
static char *vp_strtok_pos;
static char *vp_strtok(char *s, const char *delim) {
  char *t;
  if (s != NULL) vp_strtok_pos = s;
  if (vp_strtok_pos == NULL) return NULL;
  while (*vp_strtok_pos != '\0' && *vp_strtok_pos == delim[0]) vp_strtok_pos++;
  if (*vp_strtok_pos == '\0') { vp_strtok_pos = NULL; return NULL; }
  t = vp_strtok_pos;
  while (*vp_strtok_pos != '\0' && *vp_strtok_pos != delim[0]) vp_strtok_pos++;
  if (*vp_strtok_pos != '\0') *vp_strtok_pos++ = '\0'; else vp_strtok_pos = NULL;
  return t;
}
#define strtok vp_strtok
#endif

#ifdef VP_SYMBOLIC_NUMBERS
/* the text in which every digit of the template is replaced by the decimal number it stands for (replay),
 * or the template itself (solver: the number models above give the digits their values) */
#ifdef VP_CBMC
static char *vp_render(const char *tmpl) {
  size_t i; char *r = (char *)malloc(strlen(tmpl) + 1);
  for (i = 0; tmpl[i] != '\0'; i++) r[i] = tmpl[i];
  r[i] = '\0';
  return r;
}
#else
static unsigned long vp_numbers[10];
static char *vp_render(const char *tmpl) {
  char *r = (char *)malloc(strlen(tmpl) * 24 + 1), *o = r;
  for (; *tmpl; tmpl++) if (*tmpl >= '0' && *tmpl <= '9') o += (sprintf)(o, "%lu", vp_numbers[*tmpl - '0']); else *o++ = *tmpl;
  *o = '\0';
  return r;
}
#endif
#endif
