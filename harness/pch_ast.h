// precompiled part of the AST and parser translation units: standard library and stand-ins only
// (never headers of the repository under test that a change could make order dependent)
#pragma once
#include <algorithm>
#include <array>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
