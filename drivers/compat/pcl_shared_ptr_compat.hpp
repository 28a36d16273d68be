// Force-included into the serpent targets only (see CMakeLists.txt). /repo is written for PCL 1.10, whose smart pointers
// are boost's; those of the PCL 1.14 installed here are std's, so that boost::make_shared has to make those.
#pragma once

#include <memory>
#ifndef VERIF_BOOST_POINTERS

namespace boost {
using std::make_shared;
}
#endif
