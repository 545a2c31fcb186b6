// Stands in for the logger in harnesses that are not about logging.
#include "logging.h"
void m38_log_msg(log_level level, const char *fmsg, ...) { (void)level; (void)fmsg; }
