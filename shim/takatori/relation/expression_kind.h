#pragma once
#include "shim_relations.h"
