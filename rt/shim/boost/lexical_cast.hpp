#pragma once
#include <string>
#include <typeinfo>
namespace boost { struct bad_lexical_cast : std::bad_cast {}; template <class T> T lexical_cast(const std::string &s) { T r = 0; if (s.empty()) throw bad_lexical_cast(); for (char c : s) { if (c < '0' || c > '9') throw bad_lexical_cast(); r = r * 10 + (c - '0'); } return r; } }
