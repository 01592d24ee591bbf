#include <stdint.h>
uint64_t hv_in_log;
