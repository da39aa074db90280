// Models used by the evaluation simulators (generator and simulator).
#pragma once
#include <cppad/cg/cppadcg.hpp>
#include <cmath>
using namespace CppAD;
using namespace CppAD::cg;
typedef CG<double> CGD;
typedef AD<CGD> ADCG;
typedef std::vector<double> V;

bool externalFunctionFails();   // injected failure (may throw)

// ------------------------------------------------------------------ external function used by the model "ext"
class InnerAtomic : public atomic_base<double> {
public:
    InnerAtomic() : atomic_base<double>("inner") {}
    bool fails() { return externalFunctionFails(); }
    // y0 = x0 * x1,  y1 = x0^2 + 3 x1 + x1^3
    bool forward(size_t q, size_t p, const CppAD::vector<bool>& vx, CppAD::vector<bool>& vy,
                 const CppAD::vector<double>& tx, CppAD::vector<double>& ty) override {
        if (fails()) return false;
        size_t k = p + 1;
        if (vx.size() > 0) { vy[0] = vx[0] || vx[1]; vy[1] = vx[0] || vx[1]; }
        double x0 = tx[0], x1 = tx[k];
        if (p > 1) return false;
        if (q == 0) { ty[0] = x0 * x1; ty[k] = x0 * x0 + 3 * x1 + x1 * x1 * x1; }
        if (p == 1) {
            double d0 = tx[1], d1 = tx[k + 1];
            ty[1] = d0 * x1 + x0 * d1;
            ty[k + 1] = 2 * x0 * d0 + 3 * d1 + 3 * x1 * x1 * d1;
        }
        return true;
    }
    bool reverse(size_t p, const CppAD::vector<double>& tx, const CppAD::vector<double>&,
                 CppAD::vector<double>& px, const CppAD::vector<double>& py) override {
        if (fails()) return false;
        size_t k = p + 1;
        double x0 = tx[0], x1 = tx[k];
        if (p == 0) {
            px[0] = py[0] * x1 + py[1] * 2 * x0;
            px[1] = py[0] * x0 + py[1] * (3 + 3 * x1 * x1);
            return true;
        }
        if (p == 1) {
            double d0 = tx[1], d1 = tx[k + 1];
            // py[i*2+j]: partial with respect to the j-th Taylor coefficient of y_i
            double a0 = py[0], a1 = py[1], b0 = py[2], b1 = py[3];
            px[0] = a0 * x1 + a1 * d1 + b0 * 2 * x0 + b1 * 2 * d0;
            px[1] = a1 * x1 + b1 * 2 * x0;
            px[2] = a0 * x0 + a1 * d0 + b0 * (3 + 3 * x1 * x1) + b1 * 6 * x1 * d1;
            px[3] = a1 * x0 + b1 * (3 + 3 * x1 * x1);
            return true;
        }
        return false;
    }
    bool for_sparse_jac(size_t q, const CppAD::vector<std::set<size_t> >& r, CppAD::vector<std::set<size_t> >& s, const CppAD::vector<double>&) override {
        for (size_t i = 0; i < 2; ++i) { s[i] = r[0]; s[i].insert(r[1].begin(), r[1].end()); }
        return true;
    }
    bool rev_sparse_jac(size_t q, const CppAD::vector<std::set<size_t> >& rt, CppAD::vector<std::set<size_t> >& st, const CppAD::vector<double>&) override {
        for (size_t j = 0; j < 2; ++j) { st[j] = rt[0]; st[j].insert(rt[1].begin(), rt[1].end()); }
        return true;
    }
    bool rev_sparse_hes(const CppAD::vector<bool>& vx, const CppAD::vector<bool>& s, CppAD::vector<bool>& t, size_t q,
                        const CppAD::vector<std::set<size_t> >& r, const CppAD::vector<std::set<size_t> >& u,
                        CppAD::vector<std::set<size_t> >& v, const CppAD::vector<double>&) override {
        for (size_t j = 0; j < 2; ++j) {
            t[j] = s[0] || s[1];
            v[j] = u[0];
            v[j].insert(u[1].begin(), u[1].end());
            if (s[0] || s[1]) { v[j].insert(r[0].begin(), r[0].end()); v[j].insert(r[1].begin(), r[1].end()); }
        }
        return true;
    }
};

// ------------------------------------------------------------------ corpus
struct ModelDef { const char* name; size_t n, m; bool ext; };
static const ModelDef MODELS[] = {{"fwd", 5, 4, false}, {"rev", 6, 3, false}, {"one", 1, 1, false}, {"big", 12, 12, false}, {"ext", 4, 3, true}, {"inner", 2, 2, false}, {"cust", 7, 5, false}};
static const int NM = 7, NX = 4;

template<class T, class F>
static void tape(int k, const std::vector<T>& x, std::vector<T>& y, F&& inner) {
    using CppAD::sin; using CppAD::cos; using CppAD::exp;
    switch (k) {
        case 0:
            y[0] = x[0] * x[1] + sin(x[2]);
            y[1] = x[1] * x[2] * x[3];
            y[2] = exp(x[3] * 0.3) * x[0] + x[4] * x[4];
            y[3] = cos(x[4]) * x[2] + x[0] * x[0];
            break;
        case 1:
            y[0] = x[0] * x[1] * x[2] + x[5];
            y[1] = sin(x[3]) * x[4] + x[0] * x[5];
            y[2] = x[2] * x[2] + x[3] * x[5] * x[1];
            break;
        case 2:
            y[0] = x[0] * x[0] * x[0] + sin(x[0]);
            break;
        case 3:
            for (size_t i = 0; i < 12; ++i)
                y[i] = x[i] * x[i] * x[(i + 1) % 12] + double(i + 1) * sin(x[(i + 5) % 12]);
            break;
        case 4: { // linear in the arguments of the external function (see DESIGN.md, finding G1)
            std::vector<T> a(2), b(2);
            a[0] = x[0] + 2.0 * x[1];
            a[1] = x[2] + x[3];
            inner(a, b);
            std::vector<T> a2(2), b2(2);
            a2[0] = x[0] + x[3];
            a2[1] = x[1] - 0.5 * x[2];
            inner(a2, b2);
            y[0] = b[0] + 2.0 * b[1] + x[2] * x[3];
            y[1] = b2[0] * 0.5 + x[0];
            y[2] = b2[1] + x[3] * x[3];
            break;
        }
        case 5:
            y[0] = x[0] * x[1];
            y[1] = x[0] * x[0] + 3.0 * x[1] + x[1] * x[1] * x[1];
            break;
        case 6: // custom order of the Jacobian and Hessian elements
            y[0] = x[0] * x[1] * x[2] + x[6] * x[6] * x[0];
            y[1] = sin(x[3] * x[4]) * x[5];
            y[2] = x[1] * x[4] * x[6] + exp(x[2] * 0.2) * x[5];
            y[3] = x[0] * x[3] + cos(x[6]) * x[2] * x[4];
            y[4] = x[5] * x[5] * x[1];
            break;
    }
}

static double xval(int k, int xi, size_t j) { return 0.3 + 0.37 * (double) j + 0.11 * xi + 0.05 * k + ((j + (size_t) xi) % 3) * 0.2; }
static double wval(int k, int xi, size_t i) { return 0.5 + 0.25 * (double) i - 0.3 * xi + 0.1 * k; }

