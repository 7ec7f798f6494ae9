// precompiled part of the analyzer translation units: standard library and stand-ins only
#pragma once
#include "pch_ast.h"
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <list>
#include <random>
#include <unordered_set>
#include <takatori/type/shim_types.h>
#include <takatori/value/shim_values.h>
#include <takatori/scalar/shim_scalars.h>
#include <takatori/relation/shim_relations.h>
#include <takatori/statement/shim_statements.h>
#include <takatori/descriptor/shim_descriptors.h>
#include <takatori/datetime/conversion.h>
#include <takatori/decimal/triple.h>
#include <tsl/hopscotch_map.h>
#include <tsl/hopscotch_set.h>
#include <yugawara/impl/decls.h>
#include <yugawara/impl/extensions.h>
#include <yugawara/impl/analysis.h>
