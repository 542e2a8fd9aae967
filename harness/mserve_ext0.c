#include <stddef.h>
int mserve_ext(char mode, char *p, size_t n) { (void)mode; (void)p; (void)n; return 99; }
