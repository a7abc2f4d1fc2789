// Storage handed out in random order and with random content, so that nothing can rest on either
#pragma once
#include <cstdint>
namespace heap { void shuffle(uint64_t seed); }
