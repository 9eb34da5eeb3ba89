// Translation unit for the analysis of the discrete-event core.
// whatever a change may use: clang is stricter than gcc about names that other headers bring along
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <cassert>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <filesystem>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "adevs/exception.h"
#include "adevs/models.h"
#include "adevs/graph.h"
#include "adevs/sched.h"
#include "adevs/simulator.h"
#include "adevs/time.h"
#include "../src/adevs.cpp"

typedef adevs::sd_time<double> AT;
template class adevs::PinValue<int>;
template class adevs::Atomic<int, AT>;
template class adevs::MealyAtomic<int, AT>;
template class adevs::Graph<int, AT>;
template class adevs::Coupled<int, AT>;
template class adevs::Schedule<int, AT>;
template class adevs::EventListener<int, AT>;
template class adevs::Simulator<int, AT>;
template class adevs::sd_time<int>;
template class adevs::sd_time<long>;
template class adevs::sd_time<double>;
