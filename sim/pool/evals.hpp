// Evaluations of the corpus models and their expected results (instrumented).
#pragma once
#include "corpus.hpp"
#include "../core/sched.hpp"
#include "../core/seams.hpp"
#include "../core/runner.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <sstream>

#define NOSAN __attribute__((no_sanitize("thread")))

static bool g_extFaults = false;
bool externalFunctionFails() {
    if (!g_extFaults || !sim::active()) return false;
    sim::point();
    if (sim::fault('y', sim::C_EXTTHROW)) throw std::runtime_error("external function failed");
    return sim::fault('x', sim::C_EXTFAIL);
}

struct Ref { V x, w, y, jac, hess; };
static Ref REF[NM][NX];

static void buildRefs() {
    for (int k = 0; k < NM; ++k) {
        size_t n = MODELS[k].n, m = MODELS[k].m;
        std::vector<AD<double>> ax(n), ay(m);
        for (size_t j = 0; j < n; ++j) ax[j] = xval(k, 0, j);
        CppAD::Independent(ax);
        tape(k, ax, ay, [](const std::vector<AD<double>>& a, std::vector<AD<double>>& b) {
            b[0] = a[0] * a[1];
            b[1] = a[0] * a[0] + 3.0 * a[1] + a[1] * a[1] * a[1];
        });
        ADFun<double> f(ax, ay);
        for (int xi = 0; xi < NX; ++xi) {
            Ref& r = REF[k][xi];
            r.x.resize(n); r.w.resize(m);
            for (size_t j = 0; j < n; ++j) r.x[j] = xval(k, xi, j);
            for (size_t i = 0; i < m; ++i) r.w[i] = wval(k, xi, i);
            r.y = f.Forward(0, r.x);
            r.jac = f.Jacobian(r.x);
            r.hess = f.Hessian(r.x, r.w);
        }
    }
}

enum EvalKind { E_SJ, E_SH, E_FZ, E_DJ, E_DH, E_F1, E_R1, E_R2, E_SJ2, E_SH2 };
static const char* EK[] = {"SparseJacobian", "SparseHessian", "ForwardZero", "Jacobian", "Hessian", "sparse ForwardOne", "sparse ReverseOne",
    "sparse ReverseTwo", "SparseJacobian(pattern)", "SparseHessian(pattern)"};

static uint64_t g_extBefore = 0;
NOSAN static uint64_t extFailures() { return sim::g_sh->counters[sim::C_EXTFAIL] + sim::g_sh->counters[sim::C_EXTTHROW]; }

NOSAN static void compare(const char* what, int k, int xi, const V& got, const V& want) {
    if (g_extFaults && extFailures() != g_extBefore)
        sim::violation("failure-not-reported", "%s of model %s returned although %llu calls of its external function failed", what, MODELS[k].name,
                       (unsigned long long) (extFailures() - g_extBefore));
    if (got.size() != want.size()) sim::violation("wrong-value", "%s of model %s: %zu values instead of %zu", what, MODELS[k].name, got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i) {
        double tol = 1e-9 * (1 + std::fabs(want[i]));
        if (!(std::fabs(got[i] - want[i]) <= tol))
            sim::violation("wrong-value", "%s of model %s, point %d, element %zu: %.17g instead of %.17g", what, MODELS[k].name, xi, i, got[i], want[i]);
    }
}

static const double GARBAGE = -987654.25;

static void evalModel(GenericModel<double>& mo, int k, int ek, int xi) {
    const Ref& r = REF[k][xi];
    size_t n = MODELS[k].n, m = MODELS[k].m;
    sim::probe(sim::C_EVAL);
    V out;
    switch (ek) {
        case E_SJ: {
            out.assign(m * n, GARBAGE);
            mo.SparseJacobian(ArrayView<const double>(r.x), ArrayView<double>(out));
            compare(EK[ek], k, xi, out, r.jac);
            break;
        }
        case E_SH: {
            out.assign(n * n, GARBAGE);
            mo.SparseHessian(ArrayView<const double>(r.x), ArrayView<const double>(r.w), ArrayView<double>(out));
            compare(EK[ek], k, xi, out, r.hess);
            break;
        }
        case E_FZ: {
            out.assign(m, GARBAGE);
            mo.ForwardZero(ArrayView<const double>(r.x), ArrayView<double>(out));
            compare(EK[ek], k, xi, out, r.y);
            break;
        }
        case E_DJ: {
            out.assign(m * n, GARBAGE);
            mo.Jacobian(ArrayView<const double>(r.x), ArrayView<double>(out));
            compare(EK[ek], k, xi, out, r.jac);
            break;
        }
        case E_DH: {
            out.assign(n * n, GARBAGE);
            mo.Hessian(ArrayView<const double>(r.x), ArrayView<const double>(r.w), ArrayView<double>(out));
            compare(EK[ek], k, xi, out, r.hess);
            break;
        }
        case E_F1: {
            V want(m, 0.0), tx(n);
            std::vector<size_t> idx(n);
            for (size_t j = 0; j < n; ++j) { idx[j] = j; tx[j] = 0.5 + 0.25 * (double) j; for (size_t i = 0; i < m; ++i) want[i] += r.jac[i * n + j] * tx[j]; }
            out.assign(m, GARBAGE);
            mo.ForwardOne(ArrayView<const double>(r.x), n, idx.data(), tx.data(), ArrayView<double>(out));
            compare(EK[ek], k, xi, out, want);
            break;
        }
        case E_R1: {
            V want(n, 0.0), py(m);
            std::vector<size_t> idx(m);
            for (size_t i = 0; i < m; ++i) { idx[i] = i; py[i] = 0.75 - 0.5 * (double) i; for (size_t j = 0; j < n; ++j) want[j] += r.jac[i * n + j] * py[i]; }
            out.assign(n, GARBAGE);
            mo.ReverseOne(ArrayView<const double>(r.x), ArrayView<double>(out), m, idx.data(), py.data());
            compare(EK[ek], k, xi, out, want);
            break;
        }
        case E_R2: {
            V want(n, 0.0), tx(n);
            std::vector<size_t> idx(n);
            for (size_t j = 0; j < n; ++j) { idx[j] = j; tx[j] = 1.0 - 0.25 * (double) j; }
            for (size_t j = 0; j < n; ++j) for (size_t l = 0; l < n; ++l) want[j] += r.hess[j * n + l] * tx[l];
            out.assign(n, GARBAGE);
            mo.ReverseTwo(ArrayView<const double>(r.x), n, idx.data(), tx.data(), ArrayView<double>(out), ArrayView<const double>(r.w));
            compare(EK[ek], k, xi, out, want);
            break;
        }
        case E_SJ2: {
            std::vector<size_t> row, col;
            V v;
            mo.SparseJacobian(r.x, v, row, col);
            out.assign(m * n, 0.0);
            for (size_t e = 0; e < v.size(); ++e) {
                if (row[e] >= m || col[e] >= n) sim::violation("wrong-value", "sparse Jacobian element outside the matrix");
                out[row[e] * n + col[e]] = v[e];
            }
            compare(EK[ek], k, xi, out, r.jac);
            break;
        }
        case E_SH2: {
            std::vector<size_t> row, col;
            V v;
            mo.SparseHessian(r.x, r.w, v, row, col);
            out.assign(n * n, 0.0);
            for (size_t e = 0; e < v.size(); ++e) {
                if (row[e] >= n || col[e] >= n) sim::violation("wrong-value", "sparse Hessian element outside the matrix");
                out[row[e] * n + col[e]] = v[e];
                out[col[e] * n + row[e]] = v[e];
            }
            compare(EK[ek], k, xi, out, r.hess);
            break;
        }
    }
}
