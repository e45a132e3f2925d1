// The real extension module, with fewer numeric instantiations (one cost type,
// one width type) so that it compiles quickly.
#include <tnco/globals.hpp>
#undef EXPAND_COST_TYPE
#undef EXPAND_WIDTH_TYPE
#undef EXPAND_COST_WIDTH_TYPE
#define EXPAND_COST_TYPE(function, ...) function<double>(__VA_ARGS__);
#define EXPAND_WIDTH_TYPE(function, T, ...) function<T, float>(__VA_ARGS__);
#define EXPAND_COST_WIDTH_TYPE(function, ...) function<double, float>(__VA_ARGS__);
#include <tnco/main.cpp>
