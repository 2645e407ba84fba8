/* stdio and the file system. VP_RECORD_FILES: files and folders exist in memory only (both for the solver and in a
 * replay; nothing touches the disk). Every number, string and line end the library prints is passed to the hooks
 * vp_on_value()/vp_on_line() of the harness, together with the file it goes to. */
#ifdef VP_RECORD_FILES
#ifndef VP_MAX_FILES
#define VP_MAX_FILES 12
#endif
#ifndef VP_NAME_MAX
#define VP_NAME_MAX 120
#endif
/* the runtime double prints nothing, so for the solver every stream is a recorded file */
#ifdef VP_CBMC
#define VP_STD(fp) 0
#else
#define VP_STD(fp) ((fp) == stdout || (fp) == stderr)
#endif
typedef struct { int open; int header; size_t line, col; char kind; char name[VP_NAME_MAX]; } vp_file_t;
static vp_file_t vp_files[VP_MAX_FILES];
static size_t vp_nfiles, vp_open_files;
static char vp_dirs[VP_MAX_FILES][VP_NAME_MAX];
static size_t vp_ndirs;
/* kind of a file: 'i' .info, 'd' .dat, 't' .tdat, 'r' .rdat, 'm' .mdat, 'a' .adat, 'x' anything else */
static char vp_kind_of(const char *name) {
  size_t n = 0, k;
  while (name[n] != '\0') n++;
  for (k = n; k > 0 && name[k - 1] != '.'; k--) { }
  if (k == 0) return 'x';
  if (name[k] == 'i' && name[k + 1] == 'n') return 'i';
  if (name[k] == 'd' && name[k + 1] == 'a') return 'd';
  if (name[k] != '\0' && name[k + 1] == 'd' && name[k + 2] == 'a') return name[k];
  return 'x';
}
static void vp_on_value(vp_file_t *f, char kind, double d, uint64_t u, const char *s);
static void vp_on_line(vp_file_t *f);
static int vp_same_name(const char *a, const char *b) {
  size_t i;
  for (i = 0; a[i] == b[i]; i++) if (a[i] == '\0') return 1;
  return 0;
}
static vp_file_t *vp_find_file(const char *name) {
  size_t i;
  for (i = 0; i < vp_nfiles; i++) if (vp_same_name(vp_files[i].name, name)) return &vp_files[i];
  return NULL;
}
static FILE *vp_fopen(const char *name, const char *mode) {
  vp_file_t *f = vp_find_file(name);
  size_t i;
  if (f == NULL && mode[0] == 'r') return NULL;
  if (f == NULL) {
    VP_CHECK(vp_nfiles < VP_MAX_FILES, "too many files for the model");
    f = &vp_files[vp_nfiles++];
    for (i = 0; name[i] != '\0'; i++) f->name[i] = name[i];
    f->name[i] = '\0';
    f->kind = vp_kind_of(name);
  }
  if (mode[0] == 'w') { f->line = 0; f->col = 0; }
  VP_CHECK(!f->open, "a file is opened twice");
  f->open = 1; vp_open_files++;
  return (FILE *)(void *)f;
}
static int vp_fclose(FILE *fp) {
  vp_file_t *f = (vp_file_t *)(void *)fp;
  if (VP_STD(fp)) return 0;
  VP_CHECK(f->open, "a file is closed twice");
  f->open = 0; vp_open_files--;
  return 0;
}
static int vp_fflush(FILE *f) { (void)f; return 0; }
static void vp_value(vp_file_t *f, char kind, double d, uint64_t u, const char *s) {
  if (!f->header) vp_on_value(f, kind, d, u, s);
  f->col++;
}
static void vp_newline(vp_file_t *f) {
  if (!f->header) vp_on_line(f);
  f->line++; f->col = 0; f->header = 0;
}
static int vp_vfprintf(FILE *fp, const char *fmt, va_list ap) {
  vp_file_t *f = (vp_file_t *)(void *)fp;
  size_t i;
  if (VP_STD(fp)) return 1;
  VP_CHECK(f->open, "write to a closed file");
  for (i = 0; fmt[i] != '\0'; i++) {
    int lng = 0;
    if (fmt[i] == '\n') { vp_newline(f); continue; }
    if (fmt[i] != '%') continue;
    i++;
    for (;;) {
      char c = fmt[i];
      if (c == '*') { (void)va_arg(ap, int); i++; }
      else if (c == '.' || (c >= '0' && c <= '9') || c == '+' || c == '-' || c == ' ' || c == '#') i++;
      else if (c == 'l' || c == 'z') { lng = 1; i++; }
      else break;
    }
    if (fmt[i] == '%') { if (f->col == 0) f->header = 1; continue; }
    if (fmt[i] == 'e' || fmt[i] == 'f' || fmt[i] == 'g') vp_value(f, 'd', va_arg(ap, double), 0, NULL);
    else if (fmt[i] == 's') vp_value(f, 's', 0, 0, va_arg(ap, const char *));
    else if (lng) vp_value(f, 'u', 0, va_arg(ap, unsigned long), NULL);
    else vp_value(f, 'u', 0, (uint64_t)(int64_t)va_arg(ap, int), NULL);
  }
  return 1;
}
static int vp_fprintf(FILE *f, const char *fmt, ...) {
  va_list ap; int r;
  va_start(ap, fmt); r = vp_vfprintf(f, fmt, ap); va_end(ap);
  return r;
}
static int vp_fputs(const char *s, FILE *fp) {
  size_t i;
  if (VP_STD(fp)) return 1;
  for (i = 0; s[i] != '\0'; i++) { if (s[i] == '\n') vp_newline((vp_file_t *)(void *)fp); else if (s[i] == '%' && ((vp_file_t *)(void *)fp)->col == 0) ((vp_file_t *)(void *)fp)->header = 1; }
  return 1;
}
static int vp_mkdir(const char *name, unsigned mode) {
  size_t i;
  (void)mode;
  for (i = 0; i < vp_ndirs; i++) if (vp_same_name(vp_dirs[i], name)) { errno = EEXIST; return -1; }
  VP_CHECK(vp_ndirs < VP_MAX_FILES, "too many folders for the model");
  for (i = 0; name[i] != '\0'; i++) vp_dirs[vp_ndirs][i] = name[i];
  vp_dirs[vp_ndirs][i] = '\0';
  vp_ndirs++;
  return 0;
}
static int vp_stat(const char *name, struct stat *buf) {
  size_t i;
  if (vp_find_file(name) != NULL) { buf->st_mode = S_IFREG; return 0; }
  for (i = 0; i < vp_ndirs; i++) if (vp_same_name(vp_dirs[i], name)) { buf->st_mode = S_IFDIR; return 0; }
  return -1;
}
#define fopen vp_fopen
#define fclose vp_fclose
#define fflush vp_fflush
#define fprintf vp_fprintf
#define fputs vp_fputs
#define mkdir vp_mkdir
#define stat(name, buf) vp_stat(name, buf)
#elif defined(VP_CBMC)
static int vp_fprintf(FILE *f, const char *fmt, ...) { (void)f; (void)fmt; return 1; }
#define fprintf vp_fprintf
#endif
