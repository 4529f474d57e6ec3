// The installed glog keeps these names in the global namespace; later versions do not.
#pragma once
#ifndef GLOG_EXPORT
#define GLOG_EXPORT
#endif
#include_next <glog/log_severity.h>
namespace google {
using ::GLOG_ERROR;
using ::GLOG_FATAL;
using ::GLOG_INFO;
using ::GLOG_WARNING;
using ::LogSeverity;
}  // namespace google
