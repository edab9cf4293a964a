// precompiled: everything heavy the drivers and the library include
#ifndef VERIF_PCH_HPP
#define VERIF_PCH_HPP
#define ARMA_USE_CXX11
#define ARMA_USE_OPENBLAS
#define ARMA_USE_SUPERLU
#include <armadillo>
#include <iostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <map>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <limits>
#include <cassert>
#include <thread>
#include <mutex>
#include <atomic>
#endif
