// A live detector for a demonstration: this node, the root or a leaf of a two-node tree; what it sends is recorded (term_pre.h).
#pragma once
#define DEMO_CONTEXT
#include "demo.h"
#include "vt/termination/termination.h"
#include "vt/termination/term_action.impl.h"
#include "vt/configs/arguments/app_config.h"
#include "vt/pool/pool.h"
#include <new>
using namespace vt; using namespace vt::term; using EM=epoch::EpochManip; using TD=TerminationDetector;
static TD* td=nullptr; alignas(64) static unsigned char cfg_[sizeof(arguments::AppConfig)], pool_[64];
namespace vt { TD* theTerm() { return td; } arguments::AppConfig* theConfig() { return reinterpret_cast<arguments::AppConfig*>(cfg_); } pool::Pool* thePool() { return reinterpret_cast<pool::Pool*>(pool_); }
namespace pool { std::byte* Pool::alloc(size_t const& n, size_t o) { return static_cast<std::byte*>(std::malloc(n+o)); } void Pool::dealloc(std::byte*) {} }
namespace term { ParentEpochCapture::ParentEpochCapture() : epoch_(theTerm()->getEpoch()) {} } }
static TD& detector(bool root) { theConfig()->vt_no_detect_hang=true; demo_context(0,1); td=static_cast<TD*>(std::malloc(sizeof(TD))); new (td) TD(); td->is_root_=root; td->parent_=root?-1:5; td->children_.clear(); if (root) td->children_.push_back(1);
  td->any_epoch_state_.num_children_=root; td->hang_.num_children_=root; vtc_env::Window::is=nullptr; return *td; }
static EpochType wave(int seq) { auto e=EM::generateEpoch(false,0,epoch::eEpochCategory::NoCategoryEpoch); EM::setSeq(e,seq); return e; }
static EpochType rooted_ds(int node) { auto e=EM::generateEpoch(true,node,epoch::eEpochCategory::DijkstraScholtenEpoch); EM::setSeq(e,3); return e; }
