"""common helpers of the C++ demonstrations"""
HEAD='''#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <valarray>
#include <omp.h>
#include "ccd.hpp"
#include "cti.hpp"
#include "roe.hpp"
#include "traps.hpp"
#include "trap_managers.hpp"
#include "util.hpp"
typedef std::valarray<std::valarray<double> > Im;
static Im zeros(int r, int c) { return Im(std::valarray<double>(0.0, c), r); }
static unsigned sd = 12345;
static double rnd() { sd = sd * 1103515245u + 12345u; return ((sd >> 8) & 0xffff) / 65536.0; }
static double diff(const Im& a, const Im& b) {
    double m = 0; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) {
        double d = fabs(a[i][j] - b[i][j]); if (!(d <= m)) m = d; } return m; }
'''
C = "src/cti.cpp"
T = "src/trap_managers.cpp"
I = "python/arcticpy/src/interface.cpp"
P = "python/arcticpy/cti.py"
X = "python/arcticpy/wrapper.pyx"
