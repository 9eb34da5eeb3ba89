// Translation unit for the analysis of the continuous-system part.
// whatever a change may use: clang is stricter than gcc about names that other headers bring along
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <cassert>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <filesystem>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "adevs/adevs.h"
#include "adevs/solvers/hybrid.h"
#include "adevs/solvers/event_locators.h"
#include "adevs/solvers/spline.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/trap.h"
#include "adevs/solvers/cvode.h"
#include "adevs/solvers/fmi.h"

template class adevs::ode_system<int>;
template class adevs::ode_solver<int>;
template class adevs::event_locator<int>;
template class adevs::Hybrid<int, double>;
template class adevs::event_locator_impl<int>;
template class adevs::bisection_event_locator<int>;
template class adevs::linear_event_locator<int>;
template class adevs::discontinuous_event_locator<int>;
template class adevs::null_event_locator<int>;
template class adevs::fast_event_locator<int>;
template class adevs::corrected_euler<int>;
template class adevs::rk_45<int>;
template class adevs::ExplicitHybrid<int>;
template class adevs::trap<int>;
template class adevs::ImplicitHybrid<int>;
template class adevs::CVODE<int>;
template class adevs::ModelExchange<int>;
