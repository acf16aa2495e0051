#include "../mkl.hpp"
