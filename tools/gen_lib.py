#!/usr/bin/env python3
"""Writes mc/lib.c, the tables over the public API (committed; rerun only when the API grows)."""
import os
NAMES="NAR POSITIVE_MINIMUM POSITIVE_MAXIMUM 2_PI 2_PI_OVER_3 2_PI_OVER_5 3_PI 3_PI_OVER_2 3_PI_OVER_4 3_PI_OVER_5 4_PI 4_PI_OVER_3 4_PI_OVER_5 5_PI 5_PI_OVER_2 5_PI_OVER_3 5_PI_OVER_4 5_PI_OVER_6 6_PI 6_PI_OVER_5 GAMMA LB_10 LB_E LG_2 LG_E LN_10 LN_2 ONE PHI PI PI_OVER_2 PI_OVER_3 PI_OVER_4 PI_OVER_5 PI_OVER_6 SQUARE_ROOT_2 SQUARE_ROOT_3 SQUARE_ROOT_5 SQUARE_ROOT_6".split()
T=['takum8','takum16','takum32','takum64','takum_linear8','takum_linear16','takum_linear32','takum_linear64']
o=['/* written by tools/gen_lib.py */','#include "lib.h"','#include "takum.h"','']
A=o.append
A('#define W1(F)'+''.join(' static int64_t u%d_##F(int64_t a) { return %s_##F((%s)a); }'%(i,t,t) for i,t in enumerate(T)))
A('#define W2(F)'+''.join(' static int64_t b%d_##F(int64_t a, int64_t b) { return %s_##F((%s)a, (%s)b); }'%(i,t,t,t) for i,t in enumerate(T)))
A('#define W3(F)'+''.join(' static int64_t i%d_##F(int64_t a, int64_t b) { return %s_##F((%s)a, b); }'%(i,t,t) for i,t in enumerate(T)))
A('UNARY(W1)\nBINARY(W2)\nINTARG(W3)')
for nm,mac,p,ty in (('U','UNARY','u','fun1'),('B','BINARY','b','fun2'),('I','INTARG','i','fun2')):
    A('#define E%s_(F) { #F, { %s } },'%(nm,', '.join('%s%d_##F'%(p,i) for i in range(8))))
    A('const struct %s %s[] = { %s(E%s_) };'%(ty,nm,mac,nm))
for i,t in enumerate(T):
    A('static int64_t f32_%d(float f) { return %s_from_float32(f); }'%(i,t))
    A('static int64_t f64_%d(double f) { return %s_from_float64(f); }'%(i,t))
    A('static int64_t fx_%d(long double f) { return %s_from_extended_float(f); }'%(i,t))
    A('static float t32_%d(int64_t a) { return %s_to_float32((%s)a); }'%(i,t,t))
    A('static double t64_%d(int64_t a) { return %s_to_float64((%s)a); }'%(i,t,t))
    A('static long double tx_%d(int64_t a) { return %s_to_extended_float((%s)a); }'%(i,t,t))
    A('static int pr_%d(int64_t a) { return %s_precision((%s)a); }'%(i,t,t))
    for j,s in enumerate(T):
        if i!=j: A('static int64_t x_%d_%d(int64_t a) { return %s_from_%s((%s)a); }'%(i,j,t,s,s))
A('const struct conv V[NT] = {'+','.join('{ f32_%d, f64_%d, fx_%d, t32_%d, t64_%d, tx_%d, pr_%d }'%((i,)*7) for i in range(8))+'};')
A('const f1 X[NT][NT] = {'+',\n'.join('{'+','.join('x_%d_%d'%(i,j) if i!=j else '0' for j in range(8))+'}' for i in range(8))+'};')
A('const struct cst K[] = {')
for n in NAMES:
    A('\t{ "%s", { %s } },'%(n,', '.join('%s_%s'%(t.upper(),n) for t in T)))
A('};\nconst int NK = sizeof(K) / sizeof(*K);')
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(d,'mc/lib.c'),'w').write('\n'.join(o)+'\n')
