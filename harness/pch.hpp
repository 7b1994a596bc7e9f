#include <algorithm>
#include <map>
#include <unordered_map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <iostream>
#include <sstream>
#include <fstream>
#include <thread>
#include <future>
#include <variant>
#include <optional>
#include <regex>
#include <chrono>
#include <random>
#include <filesystem>
#include <type_traits>
#include <concepts>
#include <mutable/catalog/Catalog.hpp>
#include <mutable/IR/Operator.hpp>
#include <mutable/IR/PlanTable.hpp>
#include <mutable/parse/AST.hpp>
#include <mutable/util/fn.hpp>
#include <mutable/mutable.hpp>
