// Included before every translation unit of the task contracts: termination units are only recorded (their effect on
// an epoch is C19/C20), everything else of the detector, in particular its stack of epochs, is the real one.
#pragma once
#include "vt/config.h"
#include "vt/termination/termination.h"
#include "vt/messaging/active.h"
#include "vt/scheduler/scheduler.h"
namespace vtc_env {
struct Unit { uint64_t ep; bool prod; int depth; }; inline Unit units[16]; inline int nunits=0;
inline int64_t balance(uint64_t e) { int64_t n=0; for (int k=0;k<nunits;k++) n+=(units[k].ep==e)*(units[k].prod?1:-1); return n; }
struct Term : vt::term::TerminationDetector {
  void produce(vt::EpochType e=vt::term::any_epoch_sentinel, vt::term::TermCounterType n=1, vt::NodeType=-1) { units[nunits++]=Unit{e.get(),true,0}; (void)n; }
  void consume(vt::EpochType e=vt::term::any_epoch_sentinel, vt::term::TermCounterType n=1, vt::NodeType=-1) { units[nunits++]=Unit{e.get(),false,0}; (void)n; }
  void maybePropagate() { nmaybe++; } static inline int nmaybe=0; };
inline Term* term_=nullptr;
}
namespace vt { inline vtc_env::Term* vtc_theTerm() { return vtc_env::term_; } }
#define theTerm vtc_theTerm
