// refuses every problem: enough to link the linear controller
#include <osqp/osqp.h>
#include <cstdlib>
extern "C" {
void osqp_set_default_settings(OSQPSettings *) {}
c_int osqp_setup(OSQPWorkspace **w, const OSQPData *, const OSQPSettings *) { *w = nullptr; return 1; }
c_int osqp_solve(OSQPWorkspace *) { return 1; }
c_int osqp_cleanup(OSQPWorkspace *) { return 0; }
c_int osqp_warm_start(OSQPWorkspace *, const c_float *, const c_float *) { return 0; }
c_int osqp_warm_start_x(OSQPWorkspace *, const c_float *) { return 0; }
c_int osqp_warm_start_y(OSQPWorkspace *, const c_float *) { return 0; }
c_int osqp_update_warm_start(OSQPWorkspace *, c_int) { return 0; }
c_int osqp_update_verbose(OSQPWorkspace *, c_int) { return 0; }
csc *csc_spalloc(c_int, c_int, c_int, c_int, c_int) { return (csc *)std::calloc(1, sizeof(csc)); }
void csc_spfree(csc *a) { std::free(a); }
csc *csc_matrix(c_int, c_int, c_int, c_float *, c_int *, c_int *) { return (csc *)std::calloc(1, sizeof(csc)); }
void *osqp_fake_malloc(unsigned long n) { return std::malloc(n); }
void *osqp_fake_calloc(unsigned long a, unsigned long b) { return std::calloc(a, b); }
void osqp_fake_free(void *p) { std::free(p); }
}
