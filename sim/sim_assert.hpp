// Forced into every translation unit of a scenario (-include): Eigen's own
// assertions become an exception, so the simulator sees them in-process.
#pragma once
namespace sim { [[noreturn]] void eigen_assert_failed(const char* what, const char* file, int line); }
#define eigen_assert(x) ((x) ? (void)0 : ::sim::eigen_assert_failed(#x, __FILE__, __LINE__))
