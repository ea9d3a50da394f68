// Stand-in for VAL's lexer interface (the VAL submodule is not available offline).
#ifndef VALSTUB_FLEXLEXER_H_
#define VALSTUB_FLEXLEXER_H_
#include <istream>
#include <ostream>
class yyFlexLexer {
 public:
  void switch_streams(std::istream* in, std::ostream*) { in_ = in; }
  std::istream* input() const { return in_; }

 private:
  std::istream* in_ = nullptr;
};
#endif
