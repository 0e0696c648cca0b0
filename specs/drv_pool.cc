#include <algorithm>
#include "larq_compute_engine/core/bmaxpool.h"
