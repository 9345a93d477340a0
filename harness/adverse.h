/* memcpy as the C standard allows it to be: on overlapping areas the copy runs in the direction that loses data */
#ifndef VF_ADVERSE_H
#define VF_ADVERSE_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
static inline void *vf_memcpy(void *d, const void *s, size_t n)
{
	uintptr_t a = (uintptr_t)d, b = (uintptr_t)s;
	volatile unsigned char *p = d;
	const unsigned char *q = s;
	size_t i;
	if (a == b || a + n <= b || b + n <= a)
		return __builtin_memcpy(d, s, n);
	if (a < b)
		for (i = n; i-- > 0;)
			p[i] = q[i];
	else
		for (i = 0; i < n; i++)
			p[i] = q[i];
	return d;
}
#undef memcpy
#define memcpy(d, s, n) vf_memcpy((d), (s), (n))
#endif
