// The simulated dynamic loader of the life cycle simulator.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
namespace loader {
enum { K_OPENFAIL = 40, K_OPENS, K_UNLOADS, K_MISSING, K_OTHER };
// what is wrong with the library files: 0 nothing, 1 no file, 2 other API version, 3 a symbol is missing, 4 other base type, 5 invalid dimensions, 6 not a model library
struct Image { int defect = 0; std::string symbol; };
void reset(const std::string& dir, int nfiles);   // files lib<i>.so are backed by real libraries dir/image<i>.so
void setImage(int file, const Image& im);         // the file is replaced (libraries already loaded keep their contents)
size_t openHandles();                             // handles obtained and not yet closed
bool loaded(int file);
}
