// Stand-in for mapbox/gzip-hpp (an empty git submodule here); declared, never defined.
#pragma once
#include <string>
#include <cstddef>
namespace gzip { std::string compress(const char *, std::size_t, int = -1); }
