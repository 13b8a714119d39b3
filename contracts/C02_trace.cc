// the same contracts under the configuration with tracing enabled
// @config trace
// @use C02_messaging_ids.cc
#include "C02_messaging_ids.cc"
