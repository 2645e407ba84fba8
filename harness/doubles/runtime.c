/* Test double of coco_runtime_c.c (the file every language binding replaces by its own). */
static int vp_first_error_fatal;
void coco_error(const char *message, ...) {
  (void)message;
  vp_errors++;
#ifdef VP_REPLAY
  { va_list args; va_start(args, message); fputs("COCO FATAL ERROR: ", stderr); vfprintf(stderr, message, args); va_end(args); }
#endif
  VP_CHECK(vp_error_allowed, "the library aborted (coco_error) on a valid input");
  vp_stop();
}
void coco_warning(const char *message, ...) { (void)message; vp_warnings++; }
void coco_info(const char *message, ...) { (void)message; }
void coco_info_partial(const char *message, ...) { (void)message; }
void coco_debug(const char *message, ...) { (void)message; }
#ifdef VP_CBMC
void *coco_allocate_memory(const size_t size) {
  void *data;
  if (size == 0) coco_error("coco_allocate_memory() called with 0 size.");
  data = malloc(size);
  vp_live_blocks++;
  return data;
}
#else
void *coco_allocate_memory(const size_t size) {
  void *data;
  if (size == 0) coco_error("coco_allocate_memory() called with 0 size.");
  data = malloc(size);
  memset(data, (getenv)("VP_FILL") ? (atoi)((getenv)("VP_FILL")) : 0xA5, size);
  vp_live_blocks++;
  return data;
}
#endif
void coco_free_memory(void *data) {
  if (data != NULL) vp_live_blocks--;
  free(data);
}
