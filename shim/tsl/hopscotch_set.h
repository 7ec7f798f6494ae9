#pragma once
#include "hopscotch_map.h"
