#ifndef VALSTUB_TYPECHECK_H_
#define VALSTUB_TYPECHECK_H_
#include <VAL/ptree.h>
namespace VAL {
class TypeChecker {
 public:
  explicit TypeChecker(analysis* a) : a_(a) {}
  bool typecheckDomain() { return a_->the_domain != nullptr; }
  bool typecheckProblem() { return a_->the_problem != nullptr; }

 private:
  analysis* a_;
};
}  // namespace VAL
#endif
