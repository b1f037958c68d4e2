#include "../vp_ros.hpp"
