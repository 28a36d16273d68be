#pragma once
#include "ros_messages.hpp"
