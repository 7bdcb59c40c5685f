// Lets the NEON code paths run on any machine: included before everything else,
// it has the standard headers see the machine as it is and the library an ARM.
#pragma once
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <map>
#include <new>
#include <random>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#define __ARM_NEON 1
#ifdef SHIM_AARCH64
#define __aarch64__ 1
#endif
