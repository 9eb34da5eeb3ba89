import os
RK = 'include/adevs/solvers/rk_45.h'
CE = 'include/adevs/solvers/corrected_euler.h'
TR = 'include/adevs/solvers/trap.h'
SP = 'include/adevs/solvers/spline.h'
EL = 'include/adevs/solvers/event_locators.h'
HY = 'include/adevs/solvers/hybrid.h'
CV = 'include/adevs/solvers/cvode.h'
FM = 'include/adevs/solvers/fmi.h'
PRELUDE = r'''#include "adevs/adevs.h"
#include "adevs/solvers/hybrid.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/event_locators.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <vector>
using PV = adevs::PinValue<int>;
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
static const double INF = adevs_inf<double>();

// A system of equations put together from functions, that notes its handlers
struct Sys : public adevs::ode_system<int> {
    std::vector<double> q0;
    std::function<void(double const *, double *)> f, z;
    std::function<double(double const *)> te = [](double const *) { return INF; };
    std::function<void(double *)> act = [](double *) {};
    std::string log;
    std::vector<double> es, posted, handled;
    std::vector<std::vector<bool>> flags;
    adevs::pin_t out;
    Sys(std::vector<double> q0, std::function<void(double const *, double *)> f, int nz = 0,
        std::function<void(double const *, double *)> z = nullptr)
        : adevs::ode_system<int>(q0.size(), nz), q0(q0), f(f), z(z) {}
    void init(double *q) { for (size_t i = 0; i < q0.size(); i++) q[i] = q0[i]; }
    void der_func(double const *q, double *dq) { f(q, dq); }
    void state_event_func(double const *q, double *zz) { if (z) z(q, zz); }
    double time_event_func(double const *q) { return te(q); }
    void postStep(double *q) { posted.push_back(q[0]); }
    void note(char c, double *q, bool const *ev) {
        log += c; handled.push_back(q[0]);
        if (ev) flags.push_back(std::vector<bool>(ev, ev + numEvents() + 1));
        act(q);
    }
    void internal_event(double *q, bool const *ev) { note('i', q, ev); }
    void external_event(double *q, double e, std::list<PV> const &) { es.push_back(e); note('e', q, nullptr); }
    void confluent_event(double *q, bool const *ev, std::list<PV> const &) { note('c', q, ev); }
    void output_func(double const *, bool const *, std::list<PV> &yb) { log += 'o'; yb.push_back(PV(out, 1)); }
};
static void decay(double const *q, double *dq) { dq[0] = -q[0]; }
static void drift(double const *, double *dq) { dq[0] = 1.0; }
'''
TRAP = PRELUDE + r'''#include "adevs/solvers/trap.h"
#include <malloc.h>
'''
SUN = '-lsundials_kinsol -lsundials_nvecserial -lsundials_sunmatrixdense -lsundials_sunlinsoldense -lsundials_generic -lm src/adevs.cpp'
CVP = r'''#include "adevs/adevs.h"
#include <nvector/nvector_serial.h>
#include "adevs/solvers/cvode.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
using PV = adevs::PinValue<int>;
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
// Integrates dy/dt = 1 exactly, in steps of one, signalling the events it is told to
struct Unit : public adevs::CVODE<int> {
    SUNContext ctx;
    N_Vector y;
    double now = 0.0, next_event = 1e9;
    std::string log;
    std::vector<double> at, restarted;
    Unit() { SUNContext_Create(nullptr, &ctx); y = N_VNew_Serial(1, ctx); v() = 0.0; }
    ~Unit() { N_VDestroy(y); SUNContext_Free(&ctx); }
    double &v() { return N_VGetArrayPointer(y)[0]; }
    void cvode_delta_int() { log += 'i'; v() += 100.0; }
    void cvode_delta_ext(double t, std::list<PV> const &) { log += 'e'; at.push_back(t); }
    void cvode_delta_conf(std::list<PV> const &) { log += 'c'; v() += 1000.0; }
    void cvode_output_func(std::list<PV> &) { log += 'o'; }
    N_Vector cvode_get_state() { return y; }
    void cvode_integrate(double &tf, bool &event) {
        tf = now + 1.0;
        if (tf > next_event) tf = next_event;
        cvode_integrate_until(tf, event);
    }
    void cvode_integrate_until(double tf, bool &event) { v() += tf - now; now = tf; event = tf == next_event; }
    void cvode_reinit(N_Vector s, double t) { v() = N_VGetArrayPointer(s)[0]; now = t; restarted.push_back(t); }
};
'''
FMP = r'''#include "adevs/adevs.h"
#include "adevs/solvers/fmi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
// A functional mock-up unit that only notes how it is called
static std::string calls;
static int needed = 0, nstates = 2, nind = 1;
static bool defined = false, wants_event = false;
static double next_at = 0.0, unit_time = 0.0, unit_x[8];
struct fmi_xml_context_t {}; struct fmi2_import_t {}; struct fmi2_import_variable_list_t {};
struct fmi2_import_variable_t { int i; };
static fmi_xml_context_t ctx; static fmi2_import_t unit; static fmi2_import_variable_list_t vars;
static fmi2_import_variable_t var[3] = {{0}, {1}, {2}};
extern "C" {
void jm_default_logger(jm_callbacks *, jm_string, jm_log_level_enu_t, jm_string) {}
char *fmi_import_mk_temp_dir(jm_callbacks *, const char *, const char *) { return strdup("none"); }
jm_status_enu_t fmi_import_rmdir(jm_callbacks *, const char *) { return jm_status_success; }
fmi_import_context_t *fmi_import_allocate_context(jm_callbacks *) { return &ctx; }
void fmi_import_free_context(fmi_import_context_t *) {}
fmi_version_enu_t fmi_import_get_fmi_version(fmi_import_context_t *, const char *, const char *) { return fmi_version_2_0_enu; }
fmi2_import_t *fmi2_import_parse_xml(fmi_import_context_t *, const char *, void *) { return &unit; }
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t *) { return fmi2_fmu_kind_me; }
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t *, fmi2_fmu_kind_enu_t, const fmi2_callback_functions_t *) { return jm_status_success; }
void fmi2_import_destroy_dllfmu(fmi2_import_t *) {}
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t *, fmi2_string_t, fmi2_type_t, fmi2_string_t, fmi2_boolean_t) { return jm_status_success; }
@REST@
}
using ME = adevs::ModelExchange<int>;
'''
FMI_REST = r'''
void fmi2_import_free_instance(fmi2_import_t *) {}
void fmi2_import_free(fmi2_import_t *) {}
fmi2_status_t fmi2_import_terminate(fmi2_import_t *) { return fmi2_status_ok; }
size_t fmi2_import_get_number_of_continuous_states(fmi2_import_t *) { return nstates; }
size_t fmi2_import_get_number_of_event_indicators(fmi2_import_t *) { return nind; }
fmi2_import_variable_list_t *fmi2_import_get_variable_list(fmi2_import_t *, int) { return &vars; }
size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t *) { return 3; }
fmi2_import_variable_t *fmi2_import_get_variable(fmi2_import_variable_list_t *, size_t i) { return &var[i]; }
const char *fmi2_import_get_variable_name(fmi2_import_variable_t *v) { static const char *n[] = {"r", "i", "b"}; return n[v->i]; }
fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t *v) { return 7 + v->i; }
fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t *v) { return (fmi2_base_type_enu_t)v->i; }
void fmi2_import_free_variable_list(fmi2_import_variable_list_t *) {}
fmi2_status_t fmi2_import_set_debug_logging(fmi2_import_t *, fmi2_boolean_t, size_t, fmi2_string_t *) { return fmi2_status_ok; }
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t *, fmi2_boolean_t, fmi2_real_t, fmi2_real_t, fmi2_boolean_t, fmi2_real_t) { return fmi2_status_ok; }
unsigned int fmi2_import_get_capability(fmi2_import_t *, fmi2_capabilities_enu_t) { return 1; }
fmi2_status_t fmi2_import_enter_continuous_time_mode(fmi2_import_t *) { calls += 'C'; return fmi2_status_ok; }
fmi2_status_t fmi2_import_enter_event_mode(fmi2_import_t *) { calls += 'E'; return fmi2_status_ok; }
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t *) { calls += 'I'; return fmi2_status_ok; }
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t *) { calls += 'X'; return fmi2_status_ok; }
fmi2_status_t fmi2_import_new_discrete_states(fmi2_import_t *, fmi2_event_info_t *e) {
    calls += 'N'; e->newDiscreteStatesNeeded = needed > 0; if (needed > 0) needed--;
    e->nextEventTimeDefined = defined; e->nextEventTime = next_at; return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_time(fmi2_import_t *, fmi2_real_t t) { calls += 't'; unit_time = t; return fmi2_status_ok; }
fmi2_status_t fmi2_import_set_continuous_states(fmi2_import_t *, const fmi2_real_t *x, size_t n) { calls += 's'; memcpy(unit_x, x, n * sizeof(double)); return fmi2_status_ok; }
fmi2_status_t fmi2_import_get_continuous_states(fmi2_import_t *, fmi2_real_t *x, size_t n) { calls += 'x'; memcpy(x, unit_x, n * sizeof(double)); return fmi2_status_ok; }
fmi2_status_t fmi2_import_get_derivatives(fmi2_import_t *, fmi2_real_t *d, size_t n) { calls += 'd'; for (size_t i = 0; i < n; i++) d[i] = 10.0 + i; return fmi2_status_ok; }
fmi2_status_t fmi2_import_get_event_indicators(fmi2_import_t *, fmi2_real_t *z, size_t n) { calls += 'z'; for (size_t i = 0; i < n; i++) z[i] = unit_time; return fmi2_status_ok; }
fmi2_status_t fmi2_import_get_directional_derivative(fmi2_import_t *, const fmi2_value_reference_t *v, size_t, const fmi2_value_reference_t *c, size_t n, const fmi2_real_t *, fmi2_real_t *d) {
    calls += 'j'; for (size_t i = 0; i < n; i++) d[i] = 10.0 * *v + c[i]; return fmi2_status_ok;
}
fmi2_status_t fmi2_import_completed_integrator_step(fmi2_import_t *, fmi2_boolean_t, fmi2_boolean_t *e, fmi2_boolean_t *t) { calls += 'p'; *e = wants_event; *t = false; return fmi2_status_ok; }
fmi2_status_t fmi2_import_get_real(fmi2_import_t *, const fmi2_value_reference_t *r, size_t, fmi2_real_t *v) { calls += 'r'; *v = *r; return fmi2_status_ok; }
fmi2_status_t fmi2_import_get_integer(fmi2_import_t *, const fmi2_value_reference_t *r, size_t, fmi2_integer_t *v) { calls += 'n'; *v = *r; return fmi2_status_ok; }
fmi2_status_t fmi2_import_get_boolean(fmi2_import_t *, const fmi2_value_reference_t *r, size_t, fmi2_boolean_t *v) { calls += 'b'; *v = *r; return fmi2_status_ok; }
fmi2_status_t fmi2_import_set_real(fmi2_import_t *, const fmi2_value_reference_t *, size_t, const fmi2_real_t *) { calls += 'R'; return fmi2_status_ok; }
fmi2_status_t fmi2_import_set_integer(fmi2_import_t *, const fmi2_value_reference_t *, size_t, const fmi2_integer_t *) { calls += 'V'; return fmi2_status_ok; }
fmi2_status_t fmi2_import_set_boolean(fmi2_import_t *, const fmi2_value_reference_t *, size_t, const fmi2_boolean_t *) { calls += 'B'; return fmi2_status_ok; }
'''
FMP = FMP.replace('@REST@', FMI_REST)
STUB = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../../extract/stub/fmilib.h')).read()
FOPT = {'pre': 'FMP', 'cflags': '-I "$D" ', 'files': {'fmilib.h': STUB}}
TOPT = {'pre': 'TRAP', 'libs': SUN}
COPT = {'pre': 'CVP', 'libs': '-lsundials_nvecserial -lsundials_generic -lm src/adevs.cpp'}

SEEDS = [
 ('rk45-sixth-stage-weights', 'N01',
  {RK: [('(28.0 / 625.0) * k[0][j] - 0.2 * k[1][j] + (546.0 / 625.0) * k[2][j] +\n               (54.0 / 625.0) * k[3][j] - (378.0 / 625.0) * k[4][j]',
         '(28.0 / 625.0) * k[0][j] - 0.2 * k[1][j] + (54.0 / 625.0) * k[2][j] +\n               (546.0 / 625.0) * k[3][j] - (378.0 / 625.0) * k[4][j]')]},
  'comparing the error of one step at two step sizes',
  'the last stage is evaluated at the wrong point; the method loses its order although it still converges',
  r'''
static double err(double h) {
    Sys s({1.0}, decay);
    adevs::rk_45<int> r(&s, 1e3, h);
    double q = 1.0;
    r.integrate(&q, h);
    return std::fabs(q - std::exp(-h));
}
int main() {
    CHECK(err(0.2) / err(0.1) > 40.0);
    CHECK(err(0.1) / err(0.05) > 40.0);
}
'''),
 ('rk45-error-first-worst', 'N01',
  {RK: [('        err = std::max(err, fabs(k[0][j] / 8.0 + 2.0 * k[2][j] / 3.0 + k[3][j] / 16.0 -\n                                 27.0 * k[4][j] / 56.0 - 125.0 * k[5][j] / 336.0));',
         '        double const ej = fabs(k[0][j] / 8.0 + 2.0 * k[2][j] / 3.0 + k[3][j] / 16.0 -\n                               27.0 * k[4][j] / 56.0 - 125.0 * k[5][j] / 336.0);\n        if (j == 0 || err > 0.0) {\n            err = std::max(err, ej);\n        }')]},
  'a system whose first variables are integrated without any error, and a later one with a large error',
  'the error of the later variable is not seen and the step is not shrunk',
  r'''
int main() {
    Sys s({0.0, 1.0}, [](double const *q, double *dq) { dq[0] = 0.0; dq[1] = -50.0 * q[1]; });
    adevs::rk_45<int> r(&s, 1e-8, 1.0);
    double q[2] = {0.0, 1.0};
    double h = r.integrate(q, 1.0);
    CHECK(std::fabs(q[1] - std::exp(-50.0 * h)) < 1e-5);
}
'''),
 ('euler-error-without-sign', 'N01',
  {CE: [('        err = std::max<double>(err, fabs(k[0][j] - k[1][j]));', '        err = std::max<double>(err, fabs(k[0][j]) - fabs(k[1][j]));')]},
  'a solution that accelerates, so that the second slope is larger than the first',
  'the estimated error is negative and taken for zero: every step is accepted',
  r'''
int main() {
    Sys s({1.0}, [](double const *q, double *dq) { dq[0] = 5.0 * q[0]; });
    adevs::corrected_euler<int> r(&s, 1e-4, 1.0);
    double q = 1.0;
    double h = r.integrate(&q, 1.0);
    CHECK(std::fabs(q - std::exp(5.0 * h)) < 1e-2);
}
'''),
 ('euler-accepts-short-steps', 'N02',
  {CE: [('        if (err <= err_tol) {  // Keep h if shrunk to control the error', '        if (err <= err_tol || h < 1e-4 * h_max) {  // Keep h if shrunk to control the error')]},
  'a stiff transient that asks for very short steps',
  'a step whose error estimate is too large is accepted',
  r'''
int main() {
    Sys s({1.0}, [](double const *q, double *dq) { dq[0] = -1e6 * q[0]; });
    adevs::corrected_euler<int> r(&s, 1e-4, 1.0);
    double q = 1.0;
    for (int i = 0; i < 1000; i++) r.integrate(&q, 1.0);
    CHECK(std::fabs(q) < 2.0);
}
'''),
 ('rk45-retries-from-trial', 'N02',
  {RK: [('    double err = DBL_MAX, h = std::min<double>(h_cur * 1.1, std::min<double>(h_max, h_lim));\n    for (;;) {\n        // Copy q to the trial vector\n        for (int i = 0; i < this->sys->numVars(); i++) {\n            qq[i] = q[i];\n        }',
         '    double err = DBL_MAX, h = std::min<double>(h_cur * 1.1, std::min<double>(h_max, h_lim));\n    // Copy q to the trial vector\n    for (int i = 0; i < this->sys->numVars(); i++) {\n        qq[i] = q[i];\n    }\n    for (;;) {')]},
  'a first trial step that is rejected',
  'the retry starts from the result of the rejected step',
  r'''
int main() {
    Sys s({1.0}, [](double const *q, double *dq) { dq[0] = -20.0 * q[0]; });
    adevs::rk_45<int> r(&s, 1e-6, 1.0);
    double q = 1.0;
    double h = r.integrate(&q, 1.0);
    CHECK(h < 1.0);
    CHECK(std::fabs(q - std::exp(-20.0 * h)) < 1e-4);
}
'''),
 ('rk45-grows-past-limit', 'N02',
  {RK: [('    double err = DBL_MAX, h = std::min<double>(h_cur * 1.1, std::min<double>(h_max, h_lim));', '    double err = DBL_MAX, h = std::min<double>(std::min<double>(h_cur, h_max) * 1.1, h_lim);')]},
  'a smooth system whose steps are only limited by the configured maximum',
  'a step is longer than the configured maximum',
  r'''
int main() {
    Sys s({1.0}, drift);
    adevs::rk_45<int> r(&s, 1e-3, 0.5);
    double q = 1.0;
    for (int i = 0; i < 5; i++) CHECK(r.integrate(&q, 10.0) <= 0.5);
}
'''),
 ('trap-stale-step-on-retry', 'N03',
  {TR: [('    kinsol_data.h = h;\n    int retval', '    int retval'),
        ('    while (!step(q, h, dq)) {', '    kinsol_data.h = h;\n    while (!step(q, h, dq)) {')]},
  'a nonlinear system that has no solution for the first step, so that the step is shrunk and tried again',
  'the retried step solves the equations with the derivative weight of the rejected step',
  r'''
int main() {
    Sys s({0.0}, [](double const *q, double *dq) { dq[0] = 1.0 + q[0] * q[0]; });
    adevs::trap<int> r(&s, 1e-3, 3.0, true);
    double q = 0.0;
    double h = r.integrate(&q, 3.0);
    CHECK(h < 3.0);
    CHECK(std::fabs(q - h / 2.0 * (1.0 + 1.0 + q * q)) < 1e-4);
}
''', TOPT),
 ('trap-jacobian-transposed', 'N03',
  {TR: [('    // Get the matrix for the linear solver\n    for (int i = 0; i < N * N; i++) {\n        Jd[i] *= data->h / 2.0;\n    }\n    for (int i = 0; i < N; i++) {\n        Jd[i * (N + 1)] -= 1.0;\n    }',
         '    // Get the matrix for the linear solver\n    for (int i = 0; i < N; i++) {\n        for (int j = 0; j <= i; j++) {\n            double const lo = Jd[i * N + j] * (data->h / 2.0), up = Jd[j * N + i] * (data->h / 2.0);\n            Jd[i * N + j] = (i == j) ? lo - 1.0 : up;\n            Jd[j * N + i] = lo - ((i == j) ? 1.0 : 0.0);\n        }\n    }')]},
  'a system with an unsymmetric Jacobian that it provides itself, and a step long enough for the coupling to matter',
  'the nonlinear solver is given the transposed matrix: it does not converge and the step collapses',
  r'''
struct Lin : public Sys {
    using Sys::Sys;
    bool get_jacobian(double const *, double *J) { if (J) { J[0] = 0; J[1] = 0; J[2] = 100; J[3] = 0; } return true; }
};
int main() {
    Lin s({1.0, 1.0}, [](double const *q, double *dq) { dq[0] = 100 * q[1]; dq[1] = 0.0; });
    // the state starts off the line that the guess solves exactly
    s.f = [](double const *q, double *dq) { dq[0] = 100 * q[1]; dq[1] = 0.01 * std::sin(q[0]); };
    adevs::trap<int> r(&s, 1e6, 0.1, true);
    double q[2] = {1.0, 1.0};
    double h = r.integrate(q, 0.1);
    std::printf("%g\n", h);
    CHECK(h == 0.1);
}
''', TOPT),
 ('trap-accepts-line-search-failure', 'N03',
  {TR: [('    if (retval < 0) {\n        return false;', '    if (retval < KIN_LINESEARCH_NONCONV) {\n        return false;')]},
  'a step for which the line search of the nonlinear solver does not converge',
  'the state is replaced by a point that does not solve the equations',
  r'''
int main() {
    Sys s({0.0}, [](double const *q, double *dq) { dq[0] = 1.0 + q[0] * q[0]; });
    adevs::trap<int> r(&s, 1e-3, 3.0, true);
    double q = 0.0;
    double h = r.integrate(&q, 3.0);
    CHECK(std::fabs(q - h / 2.0 * (1.0 + 1.0 + q * q)) < 1e-4);
}
''', TOPT),
 ('spline-unit-interval', 'N04',
  {SP: [('(dqh[i] - c[i] - 3.0 * a[i] * h * h);', '(dqh[i] - c[i] - 3.0 * a[i] * h);')]},
  'an interval whose length is not one',
  'the interpolant misses the state and the derivative at the end of the interval',
  r'''
int main() {
    adevs::spline p(1);
    double q0 = 1.0, dq0 = 2.0, qh = 5.0, dqh = -3.0, q;
    p.init(&q0, &dq0, &qh, &dqh, 0.5);
    p.interpolate(&q, 0.5);
    CHECK(std::fabs(q - 5.0) < 1e-9);
}
'''),
 ('spline-skips-settled-variables', 'N04',
  {SP: [('            d[i] = q0[i];\n            c[i] = dq0[i];', '            d[i] = q0[i];\n            c[i] = dq0[i];\n            if (q0[i] == qh[i]) {\n                a[i] = b[i] = 0.0;\n                continue;\n            }')]},
  'a variable that returns to its old value at the end of the interval while it keeps moving inside',
  'it is interpolated by a straight line that leaves the interval with the wrong derivative and value',
  r'''
int main() {
    adevs::spline p(2);
    double q0[2] = {1.0, 1.0}, dq0[2] = {2.0, 2.0}, qh[2] = {4.0, 1.0}, dqh[2] = {1.0, -2.0}, q[2];
    p.init(q0, dq0, qh, dqh, 2.0);
    p.interpolate(q, 2.0);
    CHECK(std::fabs(q[0] - 4.0) < 1e-9);
    CHECK(std::fabs(q[1] - 1.0) < 1e-9);
}
'''),
 ('fast-locator-reports-bracket-end', 'N05',
  {EL: [('success:\n    h = hg;', 'success:\n    h = hh;')]},
  'an event inside of the step, so that the bracket has been narrowed',
  'the reported step is longer than the one the reported state belongs to',
  r'''
int main() {
    Sys s({0.0}, drift, 1, [](double const *q, double *z) { z[0] = q[0] - 0.3; });
    adevs::rk_45<int> r(&s, 1e-6, 1.0);
    adevs::fast_event_locator<int> l(&s, 1e-3);
    bool ev[2] = {false, false};
    double a = 0.0, b = 1.0, h = 1.0;
    CHECK(l.find_events(ev, &a, &b, &r, h));
    CHECK(std::fabs(h - b) < 1e-9);
}
'''),
 ('hybrid-conf-keeps-elapsed', 'H01',
  {HY: [('        if (event_exists) {\n            sys->confluent_event(q_trial, event, xb);\n        } else {\n            sys->external_event(q_trial, e_accum + ta(), xb);\n        }\n        e_accum = 0.0;',
         '        if (event_exists) {\n            sys->confluent_event(q_trial, event, xb);\n            e_accum = 0.0;\n        } else {\n            sys->external_event(q_trial, e_accum + ta(), xb);\n            e_accum += ta();\n        }')]},
  'an input at the very end of an integration step without an event, and another input later',
  'the elapsed time of the second input includes the time before the first',
  r'''
int main() {
    auto *s = new Sys({0.0}, drift);
    adevs::Hybrid<int> h(s, new adevs::rk_45<int>(s, 1e-6, 1.0), new adevs::null_event_locator<int>());
    std::list<PV> x;
    CHECK(h.ta() == 1.0);
    h.delta_conf(x);
    h.delta_ext(0.25, x);
    CHECK(s->es.size() == 2 && s->es[0] == 1.0);
    CHECK(s->es[1] == 0.25);
}
'''),
 ('hybrid-time-event-hides-state-event', 'H02',
  {HY: [('        event_exists = event[sys->numEvents()] || state_event_exists;', '        event_exists = (time_event < adevs_inf<double>()) ? event[sys->numEvents()] : state_event_exists;')]},
  'a state event found before a time event that is also planned',
  'the state event is passed over without a transition or output',
  r'''
int main() {
    auto *s = new Sys({0.0}, drift, 1, [](double const *q, double *z) { z[0] = q[0] - 0.3; });
    s->te = [](double const *q) { return 2.0 - q[0]; };
    adevs::Hybrid<int> h(s, new adevs::rk_45<int>(s, 1e-6, 1.0), new adevs::bisection_event_locator<int>(s, 1e-6));
    std::list<PV> y;
    for (int i = 0; i < 100 && s->log.empty(); i++) {
        h.output_func(y);
        h.delta_int();
    }
    CHECK(s->log == "oi");
    CHECK(std::fabs(s->handled[0] - 0.3) < 1e-3);
}
'''),
 ('hybrid-output-only-first-flag', 'H02',
  {HY: [('            if (event_exists) {\n                sys->output_func(q_trial, event, yb);', '            if (event_exists && (sys->numEvents() == 0 || event[0] || sigma > 0.0)) {\n                sys->output_func(q_trial, event, yb);')]},
  'a system with state events that schedules a time event for the same instant',
  'the output of an event that happens at once is lost',
  r'''
int main() {
    bool first = true;
    auto *s = new Sys({0.0}, drift, 1, [](double const *q, double *z) { z[0] = 1.0; });
    s->te = [&](double const *) { return first ? 0.0 : INF; };
    adevs::Hybrid<int> h(s, new adevs::rk_45<int>(s, 1e-6, 1.0), new adevs::bisection_event_locator<int>(s, 1e-6));
    CHECK(h.ta() == 0.0);
    std::list<PV> y;
    h.output_func(y);
    CHECK(y.size() == 1);
}
'''),
 ('cvode-confluent-input-early', 'C01',
  {CV: [('        this->cvode_delta_ext(t_projected, xb);\n    }\n    t = t_projected;', '        this->cvode_delta_ext(t, xb);\n    }\n    t = t_projected;')]},
  'an input at the very end of a step without an event',
  'the input is handled with the time of the start of the step',
  r'''
int main() {
    Unit u;
    std::list<PV> x;
    CHECK(u.ta() == 1.0);
    u.delta_conf(x);
    CHECK(u.log == "e" && u.at[0] == 1.0);
}
''', COPT),
 ('fmi-one-discrete-update', 'F01',
  {FM: [('    } while (eventInfo.newDiscreteStatesNeeded);', '    } while (eventInfo.newDiscreteStatesNeeded && !eventInfo.nextEventTimeDefined);')]},
  'a unit that needs a second discrete update and announces a time event with the first',
  'event iteration stops too early',
  r'''
int main() {
    ME m("none", 1e-3);
    double q[3];
    needed = 2; defined = true; next_at = 5.0;
    m.init(q);
    CHECK(calls.find("NNN") != std::string::npos);
    CHECK(m.time_event_func(q) == 5.0);
}
''', FOPT),
 ('fmi-keeps-old-time-event', 'F01',
  {FM: [('    if (eventInfo.nextEventTimeDefined) {\n        next_time_event = eventInfo.nextEventTime;\n    } else {\n        next_time_event = adevs_inf<double>();\n    }', '    if (eventInfo.nextEventTimeDefined) {\n        next_time_event = eventInfo.nextEventTime;\n    } else if (next_time_event <= t_now) {\n        next_time_event = adevs_inf<double>();\n    }')]},
  'a unit that withdraws a time event it had announced for the future',
  'the withdrawn time event is still reported',
  r'''
int main() {
    ME m("none", 1e-3);
    double q[3];
    defined = true; next_at = 5.0;
    m.init(q);
    CHECK(m.time_event_func(q) == 5.0);
    defined = false;
    bool ev[2] = {true, false};
    m.internal_event(q, ev);
    CHECK(m.time_event_func(q) == INFINITY || m.time_event_func(q) > 1e100);
}
''', FOPT),
 ('fmi-states-before-time', 'F01',
  {FM: [('    status = fmi2_import_set_time(fmu, q[this->numVars() - 1]);\n    assert(status == fmi2_status_ok);\n    status = fmi2_import_set_continuous_states(fmu, q, this->numVars() - 1);\n    assert(status == fmi2_status_ok);\n    status = fmi2_import_get_event_indicators',
         '    if (q[this->numVars() - 1] > t_now) {\n        status = fmi2_import_set_time(fmu, q[this->numVars() - 1]);\n        assert(status == fmi2_status_ok);\n    }\n    status = fmi2_import_set_continuous_states(fmu, q, this->numVars() - 1);\n    assert(status == fmi2_status_ok);\n    status = fmi2_import_get_event_indicators')]},
  'event indicators evaluated at the start of a step after derivatives were evaluated further along',
  'the unit evaluates its event indicators for the time of an earlier call',
  r'''
int main() {
    ME m("none", 1e-3);
    double q[3], dq[3], z[1];
    m.init(q);
    q[2] = 1.0;
    m.der_func(q, dq);
    q[2] = 0.0;
    m.state_event_func(q, z);
    CHECK(z[0] == 0.0);
}
''', FOPT),
 ('trap-keeps-scale-vector', 'R01',
  {TR: [('    N_VDestroy(scale);\n', ''), ('    delete[] guess;\n    delete[] dq;', '    if (scale != y) {\n        N_VDestroy(y);\n    }\n    delete[] guess;\n    delete[] dq;'), ('    delete[] k;\n    N_VDestroy(y);\n', '    delete[] k;\n')]},
  'an integrator that is destroyed',
  'one of the vectors of the nonlinear solver is never freed',
  r'''
int main() {
    Sys s({0.0}, drift);
    auto once = [&]() { adevs::trap<int> r(&s, 1e-3, 1.0); };
    for (int i = 0; i < 10; i++) once();
    size_t a = mallinfo2().uordblks;
    for (int i = 0; i < 100; i++) once();
    CHECK(mallinfo2().uordblks < a + 100);
}
''', TOPT),
 ('euler-keeps-second-stage', 'R01',
  {CE: [('    for (int i = 0; i < 2; i++) {\n        delete[] k[i];\n    }', '    delete[] *k;')]},
  'an integrator that is destroyed',
  'the storage of the second stage is never released',
  r'''
#include <malloc.h>
int main() {
    Sys s({0.0}, drift);
    auto once = [&]() { adevs::corrected_euler<int> r(&s, 1e-3, 1.0); };
    for (int i = 0; i < 10; i++) once();
    size_t a = mallinfo2().uordblks;
    for (int i = 0; i < 100; i++) once();
    CHECK(mallinfo2().uordblks < a + 100);
}
'''),
 ('fast-locator-keeps-slopes', 'R01',
  {EL: [('    delete[] z0;\n    delete[] zf;\n    if (p != NULL) {\n        delete[] dq0;\n        delete[] dqh;\n        delete p;\n    }', '    delete[] z0;\n    delete[] zf;\n    if (p != NULL) {\n        delete p;\n        if (this->sys->numVars() > this->sys->numEvents()) {\n            delete[] dq0;\n            delete[] dqh;\n        }\n    }')]},
  'an interpolating locator for a system with as many events as variables',
  'the storage of the derivatives is never released',
  r'''
#include <malloc.h>
int main() {
    Sys s({0.0}, drift, 1, [](double const *, double *z) { z[0] = 1.0; });
    auto once = [&]() { adevs::fast_event_locator<int> r(&s, 1e-3, true); };
    for (int i = 0; i < 10; i++) once();
    size_t a = mallinfo2().uordblks;
    for (int i = 0; i < 100; i++) once();
    CHECK(mallinfo2().uordblks < a + 100);
}
'''),
]
