#ifndef VERIF_VAL_TYPECHECK_H_
#define VERIF_VAL_TYPECHECK_H_
#include "ptree.h"
namespace VAL {
// Stand-in for VAL's type checker: accepts whatever was parsed without errors.
class TypeChecker {
 public:
  explicit TypeChecker(analysis* a) : a_(a) {}
  bool typecheckDomain() { return a_->the_domain != nullptr; }
  bool typecheckProblem() { return a_->error_list.errors.empty(); }

 private:
  analysis* a_;
};
}  // namespace VAL
#endif
