#pragma once
#include "ruy/ruy_stub.h"
