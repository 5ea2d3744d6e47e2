// Stand-in for Boost.Format while lowering to bitcode: texts are not part of what is decided.
#pragma once
#include <string>
namespace boost { struct format { template<class S> explicit format(S const&) {} template<class T> format& operator%(T const&) { return *this; } std::string str() const { return std::string(); } }; inline std::string str(format const& f) { return f.str(); } }
