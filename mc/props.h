#ifndef PROPS_H
#define PROPS_H
#include "eng.h"
void run_un(W *, const struct space *, uint64_t, uint64_t);
void c01(void), c02(void), c03(void), c04(void), c05(void), c06(void), c07(void), c08(void), c09(void), c10(void), c11(void), c12(void),
	c13(void), c14(void), c15(void), c16(void), c17(void), c18(void), c19(void), c20(void), c21(void), c22(void), c23(void), c24(void), c25(void);
struct pdef { const char *id; void (*init)(void); const char *rule; const char *assume; };
#endif
