// Included before every translation unit of the load balancer specification contracts: the text of error messages is
// not built (whether and where an error is raised is unchanged).
#pragma once
#include "vt/config.h"
#include "vt/configs/debug/debug_fmt.h"
#include INCLUDE_FMT_FORMAT
#include INCLUDE_FMT_OSTREAM
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <locale>
#include <chrono>
namespace fmt { template <typename... A> inline std::string vtc_format(A&&...) { return std::string(); } }
#define format(...) vtc_format(__VA_ARGS__)
