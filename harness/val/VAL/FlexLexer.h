#ifndef VERIF_VAL_FLEXLEXER_H_
#define VERIF_VAL_FLEXLEXER_H_
#include <iostream>
// Stand-in for flex's generated lexer class: it only carries the stream.
class yyFlexLexer {
 public:
  void switch_streams(std::istream* in, std::ostream* out = nullptr) {
    in_ = in;
    out_ = out;
  }
  std::istream* in() const { return in_; }

 private:
  std::istream* in_ = nullptr;
  std::ostream* out_ = nullptr;
};
namespace VAL {
extern yyFlexLexer* yfl;
}
#endif
