// A rank number for code that asks theContext() and needs nothing else of the runtime.
#pragma once
#include <sstream>
#include <functional>
#include <unordered_map>
#include <memory>
#include <vector>
#include <map>
#include <set>
#define private public
#define protected public
#include <vt/context/context.h>
#undef private
#undef protected
#include <mutex>
namespace standalone {
inline vt::ctx::Context* context() { alignas(vt::ctx::Context) static unsigned char mem[sizeof(vt::ctx::Context)]; return reinterpret_cast<vt::ctx::Context*>(mem); }
inline void rank(int me, int n) { context()->thisNode_ = (vt::NodeType)me; context()->numNodes_ = (vt::NodeType)n; }
}
namespace vt { ctx::Context* theContext() { return standalone::context(); } }
