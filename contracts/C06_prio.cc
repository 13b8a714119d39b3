// the same contracts under the configuration with priorities and tracing enabled
// @config prio
// @use C06_envelope.cc
#include "C06_envelope.cc"
