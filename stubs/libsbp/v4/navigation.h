#include <libsbp/vp_sbp.h>
