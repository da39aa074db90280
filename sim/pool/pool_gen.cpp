// Generates the C sources of the corpus with the library under test (not instrumented).
#include "corpus.hpp"
#include <cstdio>
#include <memory>

bool externalFunctionFails() { return false; }

static void generate(const std::string& dir, MultiThreadingType mt) {
    InnerAtomic inner;
    std::vector<std::unique_ptr<ADFun<CGD>>> funs;
    std::vector<std::unique_ptr<ModelCSourceGen<double>>> gens;
    std::vector<std::unique_ptr<CGAtomicFun<double>>> atoms;
    for (int k = 0; k < NM; ++k) {
        size_t n = MODELS[k].n, m = MODELS[k].m;
        std::vector<ADCG> x(n), y(m);
        for (size_t j = 0; j < n; ++j) x[j] = xval(k, 0, j);
        CppAD::Independent(x);
        V ix(2, 1.0);
        atoms.emplace_back(new CGAtomicFun<double>(inner, ix, true));
        CGAtomicFun<double>& at = *atoms.back();
        tape(k, x, y, [&](const std::vector<ADCG>& a, std::vector<ADCG>& b) { at(a, b); });
        funs.emplace_back(new ADFun<CGD>(x, y));
        gens.emplace_back(new ModelCSourceGen<double>(*funs.back(), MODELS[k].name));
        ModelCSourceGen<double>& g = *gens.back();
        V typ(n);
        for (size_t j = 0; j < n; ++j) typ[j] = xval(k, 0, j);
        g.setTypicalIndependentValues(typ);
        g.setCreateForwardZero(true);
        g.setCreateJacobian(k != 4);
        g.setCreateHessian(k != 4);
        g.setCreateSparseJacobian(true);
        g.setCreateSparseHessian(true);
        g.setCreateForwardOne(k != 1);
        g.setCreateReverseOne(k != 0);
        g.setCreateReverseTwo(true);
        g.setMultiThreading(k != 5);
        if (k == 6) {
            // every element which can be different from zero, in an order which is not the one of the matrix
            std::vector<std::set<size_t>> js = jacobianSparsitySet<std::vector<std::set<size_t>>, CGD>(*funs.back());
            std::vector<std::set<size_t>> hs = hessianSparsitySet<std::vector<std::set<size_t>>, CGD>(*funs.back());
            auto shuffled = [](const std::vector<std::set<size_t>>& sp, std::vector<size_t>& row, std::vector<size_t>& col) {
                for (size_t i = 0; i < sp.size(); ++i) for (size_t j : sp[i]) { row.push_back(i); col.push_back(j); }
                unsigned long lcg = 12345;
                for (size_t e = row.size(); e-- > 1;) {
                    lcg = lcg * 6364136223846793005ul + 1442695040888963407ul;
                    size_t o = (lcg >> 33) % (e + 1);
                    std::swap(row[e], row[o]);
                    std::swap(col[e], col[o]);
                }
            };
            std::vector<size_t> r, c;
            shuffled(js, r, c);
            g.setCustomSparseJacobianElements(r, c);
            r.clear(); c.clear();
            shuffled(hs, r, c);
            g.setCustomSparseHessianElements(r, c);
        }
        g.setJacobianADMode(k == 1 ? JacobianADMode::Reverse : JacobianADMode::Forward);
    }
    ModelLibraryCSourceGen<double> lib(*gens[0]);
    for (int k = 1; k < NM; ++k) lib.addModel(*gens[(size_t) k]);
    lib.setMultiThreading(mt);
    SaveFilesModelLibraryProcessor<double> p(lib);
    p.saveSourcesTo(dir);
}

int main(int argc, char** argv) {
    if (argc != 3) return 3;
    std::string t = argv[2];
    generate(argv[1], t == "openmp" ? MultiThreadingType::OPENMP : t == "none" ? MultiThreadingType::NONE : MultiThreadingType::PTHREADS);
    return 0;
}
