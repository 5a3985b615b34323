#ifndef VP_SWIFTNAV_LOGGING_H
#define VP_SWIFTNAV_LOGGING_H
#define log_error(...) ((void)0)
#define log_warn(...) ((void)0)
#define log_info(...) ((void)0)
#define log_debug(...) ((void)0)
#endif
