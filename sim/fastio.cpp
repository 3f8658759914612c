// Reading a file character by character is library code whose accesses nobody else can see; this copy, without
// instrumentation, is linked first.
#include <iterator>
#include <string>
template void std::string::_M_construct<std::istreambuf_iterator<char>>(std::istreambuf_iterator<char>, std::istreambuf_iterator<char>, std::input_iterator_tag);
