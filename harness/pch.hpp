#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <nlohmann/json.hpp>
