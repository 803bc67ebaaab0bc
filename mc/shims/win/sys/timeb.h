#include <stdint.h>
struct _timeb { int64_t time; unsigned short millitm; };
static inline void _ftime_s(struct _timeb *t) { t->time = 1600000000; t->millitm = 7; }
