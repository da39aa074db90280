#include "loader.hpp"
#include "../core/sched.hpp"
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <vector>
using namespace sim;

namespace {
// One loaded instance of a file; the same file opened again while loaded is the same instance.
struct Object {
    int file = 0;
    loader::Image image;
    void* real = nullptr;
    int refs = 0;
    uintptr_t lo = 0, hi = 0;
    std::set<std::string> cheated;
};
std::string dir;
int nf = 0;
std::vector<loader::Image> images;
std::vector<Object*> live;            // loaded objects
std::set<Object*> all;
std::string err;
bool hasErr = false;
size_t handles = 0;

void setError(const std::string& s) { err = s; hasErr = true; }

unsigned long otherVersion() { return 999; }
void otherInfo(const char** base, unsigned long* m, unsigned long* n, unsigned int* i, unsigned int* o) {
    *base = "f  float"; *m = 2; *n = 2; *i = 1; *o = 1;
}
void emptyInfo(const char** base, unsigned long* m, unsigned long* n, unsigned int* i, unsigned int* o) {
    static const char t[] = "double  d";
    *base = t; *m = 0; *n = 0; *i = 0; *o = 0;
}
int rangeCb(dl_phdr_info* i, size_t, void* d) {
    auto* o = (Object*) d;
    if (i->dlpi_addr != ((link_map*) o->real)->l_addr) return 0;
    o->lo = UINTPTR_MAX;
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        if (i->dlpi_phdr[k].p_type != PT_LOAD) continue;
        uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
        o->lo = std::min(o->lo, a & ~(uintptr_t) 4095);
        o->hi = std::max(o->hi, (b + 4095) & ~(uintptr_t) 4095);
    }
    return 1;
}
bool ends(const std::string& s, const char* t) { size_t n = strlen(t); return s.size() >= n && s.compare(s.size() - n, n, t) == 0; }
}

namespace loader {
void reset(const std::string& d, int n) {
    Own own;
    dir = d; nf = n;
    images.assign((size_t) n, Image());
    live.clear();
    handles = 0;
    hasErr = false;
}
void setImage(int f, const Image& im) { Own own; images[(size_t) f] = im; }
size_t openHandles() { return handles; }
bool loaded(int f) { for (Object* o : live) if (o->file == f) return true; return false; }
}

extern "C" {
void* sim_dlopen(const char* path, int) {
    if (!active()) infra("dlopen outside a run");
    point();
    Own own;
    std::string p = path ? path : "";
    int f = -1;
    for (int i = 0; i < nf; ++i) if (ends(p, ("/lib" + std::to_string(i) + ".so").c_str())) f = i;
    if (fault('L', loader::K_OPENFAIL)) { setError(p + ": cannot allocate memory in static TLS block"); return nullptr; }
    if (f < 0) { setError(p + ": cannot open shared object file: No such file or directory"); return nullptr; }
    for (Object* o : live) if (o->file == f) { o->refs++; handles++; probe(loader::K_OPENS); return o; }
    if (images[(size_t) f].defect == 1) { setError(p + ": cannot open shared object file: No such file or directory"); return nullptr; }
    auto* o = new Object();
    o->file = f;
    o->image = images[(size_t) f];
    o->real = ::dlopen((dir + "/image" + std::to_string(f) + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!o->real) infra("cannot load the library: %s", ::dlerror());
    dl_iterate_phdr(rangeCb, o);
    if (o->hi == 0) infra("cannot locate the library");
    o->refs = 1;
    handles++;
    live.push_back(o);
    all.insert(o);
    probe(loader::K_OPENS);
    return o;
}
void* sim_dlsym(void* h, const char* name) {
    point();
    Own own;
    hasErr = false;
    if (h == RTLD_DEFAULT) { setError(std::string("undefined symbol: ") + name); return nullptr; }
    auto* o = (Object*) h;
    if (!all.count(o) || o->refs == 0) violation("closed-handle", "a function is looked up in a library which was closed");
    std::string n = name;
    if ((o->image.defect == 3 && n == o->image.symbol) || o->image.defect == 6) {
        probe(loader::K_MISSING);
        setError("undefined symbol: " + n);
        return nullptr;
    }
    void* r = ::dlsym(o->real, name);
    if (!r) { setError("undefined symbol: " + n); return nullptr; }
    if (o->image.defect == 2 && ends(n, "cppad_cg_version")) { probe(loader::K_OTHER); return (void*) &otherVersion; }
    if (o->image.defect == 4 && ends(n, "_info")) { probe(loader::K_OTHER); return (void*) &otherInfo; }
    if (o->image.defect == 5 && ends(n, "_info")) { probe(loader::K_OTHER); return (void*) &emptyInfo; }
    return r;
}
int sim_dlclose(void* h) {
    point();
    Own own;
    auto* o = (Object*) h;
    if (!all.count(o) || o->refs == 0) violation("closed-handle", "a library is closed twice");
    handles--;
    if (--o->refs > 0) return 0;
    for (size_t i = 0; i < live.size(); ++i) if (live[i] == o) { live.erase(live.begin() + (long) i); break; }
    ::dlclose(o->real);
    // nothing is ever mapped there again: every use of the unloaded code or data is a crash
    void* m = mmap((void*) o->lo, o->hi - o->lo, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (m != (void*) o->lo) infra("the library was not unloaded");
    probe(loader::K_UNLOADS);
    return 0;
}
char* sim_dlerror() {
    if (!hasErr) return nullptr;
    hasErr = false;
    return (char*) err.c_str();
}
}
