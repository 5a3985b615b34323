#include <libsbp/legacy/vp_legacy.h>
