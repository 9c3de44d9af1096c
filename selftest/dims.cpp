// Positive example for the dimension analysis: each marked line must be reported.
#include <cmath>
struct TrapInstantCapture { double density; double release_timescale; double release_rate; };
struct CCDPhase { double full_well_depth; };
double bad_time(TrapInstantCapture* t, double x) { return exp(-t->release_timescale * t->release_timescale); }  // T
double bad_time2(TrapInstantCapture* t) { return log(t->release_timescale) > 3.0 ? 1.0 : 2.0; }  // T
double bad_charge(TrapInstantCapture* t, CCDPhase* p) { return t->density / p->full_well_depth + t->density; }  // E
double good(TrapInstantCapture* t, double dwell) { t->release_rate = 1.0 / t->release_timescale; return exp(-t->release_rate * t->release_timescale) * t->density; }
