// Recording stand-in for the C interface of OSQP 0.6 (the part a client can use).  The real solver is not installed
// here; the driver plays its answers.  Behaviour mirrored: a refused setup leaves *work untouched or half built,
// endings without a solution fill the vectors with NaN, cleanup releases the workspace once.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef long long c_int;
typedef double c_float;
#define OSQP_INFTY ((c_float)1e30)
#define OSQP_NAN ((c_float)0x7fc00000UL)
#define OSQP_SOLVED (1)
#define OSQP_SOLVED_INACCURATE (2)
#define OSQP_PRIMAL_INFEASIBLE_INACCURATE (3)
#define OSQP_DUAL_INFEASIBLE_INACCURATE (4)
#define OSQP_MAX_ITER_REACHED (-2)
#define OSQP_PRIMAL_INFEASIBLE (-3)
#define OSQP_DUAL_INFEASIBLE (-4)
#define OSQP_SIGINT (-5)
#define OSQP_TIME_LIMIT_REACHED (-6)
#define OSQP_NON_CVX (-7)
#define OSQP_UNSOLVED (-10)
#define OSQP_NULL 0
enum osqp_error_type { OSQP_DATA_VALIDATION_ERROR = 1, OSQP_SETTINGS_VALIDATION_ERROR, OSQP_LINSYS_SOLVER_LOAD_ERROR, OSQP_LINSYS_SOLVER_INIT_ERROR,
                       OSQP_NONCVX_ERROR, OSQP_MEM_ALLOC_ERROR, OSQP_WORKSPACE_NOT_INIT_ERROR };
enum linsys_solver_type { QDLDL_SOLVER, MKL_PARDISO_SOLVER };
typedef struct { c_int nzmax; c_int m; c_int n; c_int *p; c_int *i; c_float *x; c_int nz; } csc;
typedef struct { c_float *x; c_float *y; } OSQPSolution;
typedef struct
{
    c_int iter; char status[32]; c_int status_val; c_int status_polish;
    c_float obj_val; c_float pri_res; c_float dua_res;
    c_float setup_time; c_float solve_time; c_float update_time; c_float polish_time; c_float run_time;
    c_int rho_updates; c_float rho_estimate;
} OSQPInfo;
typedef struct { c_int n; c_int m; csc *P; csc *A; c_float *q; c_float *l; c_float *u; } OSQPData;
typedef struct
{
    c_float rho; c_float sigma; c_int scaling;
    c_int adaptive_rho; c_int adaptive_rho_interval; c_float adaptive_rho_tolerance; c_float adaptive_rho_fraction;
    c_int max_iter; c_float eps_abs; c_float eps_rel; c_float eps_prim_inf; c_float eps_dual_inf; c_float alpha;
    enum linsys_solver_type linsys_solver;
    c_float delta; c_int polish; c_int polish_refine_iter; c_int verbose;
    c_int scaled_termination; c_int check_termination; c_int warm_start; c_float time_limit;
} OSQPSettings;
typedef struct
{
    OSQPData *data; OSQPSettings *settings; OSQPSolution *solution; OSQPInfo *info;
    c_float *wx, *wy;
} OSQPWorkspace;
void osqp_set_default_settings(OSQPSettings *settings);
c_int osqp_setup(OSQPWorkspace **workp, const OSQPData *data, const OSQPSettings *settings);
c_int osqp_solve(OSQPWorkspace *work);
c_int osqp_cleanup(OSQPWorkspace *work);
c_int osqp_warm_start(OSQPWorkspace *work, const c_float *x, const c_float *y);
c_int osqp_warm_start_x(OSQPWorkspace *work, const c_float *x);
c_int osqp_warm_start_y(OSQPWorkspace *work, const c_float *y);
c_int osqp_update_warm_start(OSQPWorkspace *work, c_int warm_start_new);
c_int osqp_update_verbose(OSQPWorkspace *work, c_int v);
csc *csc_spalloc(c_int m, c_int n, c_int nzmax, c_int values, c_int triplet);
void csc_spfree(csc *A);
csc *csc_matrix(c_int m, c_int n, c_int nzmax, c_float *x, c_int *i, c_int *p);
void *osqp_fake_malloc(unsigned long n);
void *osqp_fake_calloc(unsigned long a, unsigned long b);
void osqp_fake_free(void *p);
#define c_malloc(n) osqp_fake_malloc(n)
#define c_calloc(a, b) osqp_fake_calloc(a, b)
#define c_free(p) osqp_fake_free(p)
#ifdef __cplusplus
}
#endif
