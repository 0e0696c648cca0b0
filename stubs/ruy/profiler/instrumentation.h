#ifndef STUB_RUY_INSTR_H_
#define STUB_RUY_INSTR_H_
namespace ruy { namespace profiler {
struct ScopeLabel { template <typename... A> explicit ScopeLabel(A...) {} ~ScopeLabel() {} };
} }
#endif
