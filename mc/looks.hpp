/* looks.hpp - values that look alike but differ, and are compared exactly */
#pragma once
#include <string>
#include <vector>
namespace mc {
/* texts: case, leading zeros, signs, blanks, number forms, accents in both forms, cut or escaped forms */
inline const std::vector<std::string> &looks() {
  static const std::vector<std::string> L = {"12345", "012345", "+12345", "12345 ", " 12345", "12345.0", "12345\n", "\t12345", "0x3039", "1.2345e4", "12345\x7f", "12346", "abc", "ABC", "Abc", "abC", "abd", "ab",
    "a-bc", "a_bc", "a bc", "abc.", "\xc3\xa4" "bc", "\xc3\x84" "bc", "a\xcc\x88" "bc", "\xef\xbd\x81" "bc", "abc\"", "abc\\", "abc'", "\"abc\"", "%61bc", "abc%00", "YWJj", "-1", "0", "00", "true", "null", "*", "a*", "[a-z]bc", "", "i", "I", "\xc4\xb1", "\xc4\xb0"};
  return L;
}
/* byte strings: the same with zero bytes and the high bit */
inline const std::vector<std::string> &blooks() {
  static const std::vector<std::string> B = [] { std::vector<std::string> b = {std::string("\0abc", 4), std::string("abc\0", 4), std::string("ab\0c", 4), std::string("ab\0d", 4), std::string("\0", 1), std::string("\0\0", 2), std::string("\xe1" "bc", 3), "abc", "ABC", "abd", "ab", "616263", "YWJj", " abc", "abc ", "abc\n", "cba", "bac", "\xff\xff", "\xff", "\x80", "\x7f", std::string("\1\0\0\0", 4), std::string("\0\0\0\1", 4), "12345", "012345"}; return b; }();
  return B;
}
} // namespace mc
