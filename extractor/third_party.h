#include <Eigen/Core>
#include <Eigen/QR>
#include <vector>
#include <memory>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <map>
#include <string>
#include <set>
#include <optional>
#include <functional>
#include <unordered_map>
#include <typeindex>
#include <tuple>
#include <stack>
#include <queue>
#include <fstream>
#include <numeric>
