// Parts of the C++ library that are only reached through virtual calls: their
// tables are emitted (and hence instrumented) here.
#include <iterator>
#include <locale>
template class std::num_get<char, std::istreambuf_iterator<char>>;
