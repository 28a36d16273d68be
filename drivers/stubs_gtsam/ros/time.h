#include "../../stubs_ros/ros/time.h"
