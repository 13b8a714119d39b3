#define DEMO_CONTEXT
#include "demo.h"
#include "vt/pool/pool.h"
#include <cstdlib>
namespace vt { pool::Pool* thePool() { static char p[64]; return reinterpret_cast<pool::Pool*>(p); }
namespace pool { std::byte* Pool::alloc(size_t const& n, size_t o) { return static_cast<std::byte*>(std::malloc(n+o)); } void Pool::dealloc(std::byte*) {} } }
using namespace vtc_env; using namespace vt; using namespace vt::location; using Loc=EntityLocationCoord<int>; using Rec=LocRecord<int>;
struct TMsg : EntityMsg<int,vt::Message> { int v=0; };
struct Big : EntityMsg<int,vt::Message> { char v[300]; };
static int where() { return theContext()->getNode(); }
static Loc* at[4];
static Loc& go(int n) { demo_context(n,8); here=where; if (!at[n]) at[n]=new Loc; return *at[n]; }
static TMsg* keep(TMsg* m) { messageRef(m); return m; }
static TMsg* say(int from, int id, int home, int han=70) { Loc& l=go(from); auto m=makeMessage<TMsg>(); messageRef(m.get()); m->setHandler(han); auto* p=m.get(); l.routeMsg(id,home,m); return p; }
static bool step() { for (int k=0;k<nsent;k++) if (!sent[k].gone) { auto s=sent[k]; sent[k].gone=true; Loc& l=go(s.to); if (s.kind==Update) l.updateLocation(s.id,s.a,s.b); else if (s.kind==Request) l.getLocationRequest(s.id,s.a,Cb<int>{s.b}); else if (s.kind==Eager) l.handleEagerUpdate(s.id,s.a,s.b); else { auto* m=static_cast<TMsg*>(s.msg); envelopeSetIsLocked(m->env,true); l.routedHandler(m); } return true; } return false; }
static void drain() { for (int k=0;k<40&&step();k++) ; }
