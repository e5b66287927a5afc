#pragma once
#include "vp_poco.h"
