// Harness API. In the symbolic run these are engine intrinsics; in the native replay they are
// implemented by native_rt.cpp (values come from the counterexample file).
#pragma once
extern "C" {
int    sx_int(const char* name, int lo, int hi);            // symbolic integer in [lo,hi]
unsigned char sx_u8(const char* name);                       // symbolic byte
double sx_real(const char* name, double lo, double hi);      // symbolic real number in [lo,hi]
void   sx_assume(bool c);
void   sx_assert(bool c, const char* msg);                   // property
void   sx_close(double a, double b, double tol, const char* msg); // property |a-b|<=tol
int    sx_param(const char* name, int def);                  // concrete configuration parameter
void   sx_reach(const char* label);                          // vacuity witness
int    sx_concretize(int v);                                 // fork over every feasible value
void   sx_observe(const char* name, double v);               // value cross-checked engine vs native
bool   sx_native();                                          // true in the native replay
}
