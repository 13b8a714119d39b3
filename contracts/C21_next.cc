// The next trigger time: about one period after the last one, never before it.
// @source vt/timetrigger/time_trigger_manager.cc
// @bounded next_time the listed times and periods
#include "vtc.h"
#include "vt/timetrigger/time_trigger_manager.h"
using namespace vt; using namespace vt::timetrigger; using ms=std::chrono::milliseconds;
CONTRACT(next_time) { static double const T[]={0.0,0.001,0.1,1.1,3.3,1234.5678,1700000000.123,1700000000.1234567,8888888.8888888,0.3,2.675,1e9}; static long const P[]={0,1,3,7,10,100,999,1000,1001,60000,86400000};
  double t=T[vtc::choose(12)]; long p=P[vtc::choose(11)]; Trigger x{ms{p},nullptr,0}; x.setLastTriggerTime(TimeType{t}); double n=x.nextTriggerTime().seconds(), e=t+p/1000.0, d=n-e; ENSURES("one-period-after-the-last-time", (d<1e-6)&(d>-1e-6)); ENSURES("not-before-the-last-time", n>=t); ENSURES("not-ready-at-the-time-it-ran", !x.ready(TimeType{t})); if (p>0) ENSURES("ready-after-the-period", x.ready(TimeType{t+p/1000.0+1e-5})); }
CONTRACT(never_before_last) { double t=vtc::any<double>("last"); REQUIRES((t>=0.0)&(t<=1e10)); int p=vtc::any<int>("period"); Trigger x{ms{p},nullptr,0}; x.setLastTriggerTime(TimeType{t}); ENSURES("not-before-the-last-time", x.nextTriggerTime().seconds()>=t); ENSURES("not-ready-at-the-time-it-ran", !x.ready(TimeType{t})); }
