#pragma once
#include "impl/analysis.h"
