#pragma once
#include <aslam/backend/core.hpp>
namespace aslam { namespace backend {
class TrustRegionPolicy { public: virtual ~TrustRegionPolicy() {} virtual bool revertOnFailure() const = 0; };
class GaussNewtonTrustRegionPolicy : public TrustRegionPolicy { public: virtual bool revertOnFailure() const { return false; } };
} }
