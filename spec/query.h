#pragma once
#include "fcl/narrowphase/contact_point.h"
namespace lcv { typedef fcl::ContactPoint<double> CP; }
