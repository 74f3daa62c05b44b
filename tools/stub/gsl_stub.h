// a small adaptive quadrature with the interface of GSL's QAG
#pragma once
#include <cmath>
#include <cstddef>
#include <queue>
#include <vector>
struct gsl_function { double (*function)(double, void *); void *params; };
struct gsl_integration_workspace { size_t size; };
static const int GSL_INTEG_GAUSS15 = 1;
inline gsl_integration_workspace *gsl_integration_workspace_alloc(size_t) { return new gsl_integration_workspace{0}; }
inline void gsl_integration_workspace_free(gsl_integration_workspace *w) { delete w; }
inline void gsl_set_error_handler_off() {}
inline const char *gsl_strerror(int) { return "failed"; }
inline void gk15(const gsl_function *F, double a, double b, double &r, double &e) {
    static const double x[8] = {0.991455371120812639206854697526329, 0.949107912342758524526189684047851, 0.864864423359769072789712788640926,
        0.741531185599394439863864773280788, 0.586087235467691130294144838, 0.405845151377397166906606412076961, 0.207784955007898467600689403773245, 0.};
    static const double k[8] = {0.022935322010529224963732008058970, 0.063092092629978553290700663189204, 0.104790010322250183839876322541518,
        0.140653259715525918745189590510238, 0.169004726639267902826583426598550, 0.190350578064785409913256402421014, 0.204432940075298892414161999234649,
        0.209482141084727828012999174891714};
    static const double g[4] = {0.129484966168869693270611432679082, 0.279705391489276667901467771423780, 0.381830050505118944950369775488975, 0.417959183673469387755102040816327};
    double c = (a + b) / 2, h = (b - a) / 2, f0 = F->function(c, F->params), K = k[7] * f0, G = g[3] * f0;
    for (int i = 0; i < 7; ++i) {
        double s = F->function(c - h * x[i], F->params) + F->function(c + h * x[i], F->params);
        K += k[i] * s;
        if (i % 2) G += g[i / 2] * s;
    }
    r = K * h;
    e = std::fabs((K - G) * h);
}
inline int gsl_integration_qag(const gsl_function *F, double a, double b, double ea, double er, size_t, int, gsl_integration_workspace *, double *r, double *e) {
    struct P { double e, r, a, b; bool operator<(const P &o) const { return e < o.e; } };
    std::priority_queue<P> q;
    double R, E;
    gk15(F, a, b, R, E);
    q.push(P{E, R, a, b});
    for (int n = 0; n < 4000 && E > ea && E > er * std::fabs(R); ++n) {
        P p = q.top();
        q.pop();
        double m = (p.a + p.b) / 2, r1, e1, r2, e2;
        gk15(F, p.a, m, r1, e1);
        gk15(F, m, p.b, r2, e2);
        R += r1 + r2 - p.r;
        E += e1 + e2 - p.e;
        q.push(P{e1, r1, p.a, m});
        q.push(P{e2, r2, m, p.b});
    }
    *r = R;
    *e = E;
    return 0;
}
