#define DEMO_CONTEXT
#include "demo.h"
#include "vt/pipe/pipe_manager.h"
#include "vt/pool/pool.h"
#include <cstdlib>
#include <cstring>
namespace vtc_env { inline vt::pipe::PipeManager* cb=nullptr; }
namespace vt { pool::Pool* thePool() { static char p[64]; return reinterpret_cast<pool::Pool*>(p); } pipe::PipeManager* theCB() { return vtc_env::cb; }
namespace pool { std::byte* Pool::alloc(size_t const& n, size_t o) { return static_cast<std::byte*>(std::malloc(n+o)); } void Pool::dealloc(std::byte*) {} } }
using namespace vtc_env; using namespace vt; using namespace vt::pipe; namespace cbu=vt::pipe::callback::cbunion;
struct TMsg : vt::Message { uint64_t v=0; };
static PipeManager& init(NodeType me) { demo_context(me,8); cb=new PipeManager; return *cb; }
static TMsg* msg(uint64_t v=0) { auto p=makeMessage<TMsg>(); p->v=v; messageRef(p.get()); return p.get(); }
