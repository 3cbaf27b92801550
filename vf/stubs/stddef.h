#include "vf_common.h"
