// The part of Catch2 that a test runner's main uses, declared only: the calls
// are what the analysis looks at.
#ifndef VERIF_CATCH_HPP
#define VERIF_CATCH_HPP
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>
namespace Catch {
class Session {
public:
  Session();
  ~Session();
  int applyCommandLine(int argc, char const* const* argv);
  int run();
  int run(int argc, char const* const* argv);
private:
  int m_[64];
};
} // namespace Catch
#endif
