/* depends on c27_a */
extern void c27_event(int lib, int delta) __attribute__((weak));
extern int c27_only_a(int);
__attribute__((constructor)) static void up(void) { if (c27_event) c27_event(2, 1); }
__attribute__((destructor)) static void down(void) { if (c27_event) c27_event(2, -1); }
int c27_only_c(int x) { return c27_only_a(x) + 10; }
