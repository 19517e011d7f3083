#pragma once
#include <string>
#include <cstddef>
namespace gzip { std::string decompress(const char *, std::size_t); }
