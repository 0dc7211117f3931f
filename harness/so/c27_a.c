extern void c27_event(int lib, int delta) __attribute__((weak));
__attribute__((constructor)) static void up(void) { if (c27_event) c27_event(0, 1); }
__attribute__((destructor)) static void down(void) { if (c27_event) c27_event(0, -1); }
int c27_value(void) { return 100; }
int c27_data = 11;
int c27_only_a(int x) { return x + 1; }
int c27_counter(void) { static int n; return ++n; }
asm(".globl c27_null\n.set c27_null, 0\n.type c27_null, @object\n");
