extern void c27_event(int lib, int delta) __attribute__((weak));
__attribute__((constructor)) static void up(void) { if (c27_event) c27_event(1, 1); }
__attribute__((destructor)) static void down(void) { if (c27_event) c27_event(1, -1); }
int c27_value(void) { return 200; }
int c27_data = 22;
int c27_only_b(int x) { return x + 2; }
