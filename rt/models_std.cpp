// The explicit instantiations that live in libstdc++ (engine only).
#include <string>
template class std::basic_string<char>;
// std::runtime_error: only used as a base class; the message is kept in place of the shared string.
#include <cstring>
extern "C" {
void _ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void* self, const std::string& s) { char* p = (char*)operator new(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; ((const char**)self)[1] = p; }
void _ZNSt13runtime_errorC2ERKS_(void* self, void* other) { ((const char**)self)[1] = ((const char**)other)[1]; }
void _ZNSt13runtime_errorD2Ev(void*) {}
const char* _ZNKSt13runtime_error4whatEv(void* self) { return ((const char**)self)[1]; }
}
