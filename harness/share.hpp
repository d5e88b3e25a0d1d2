// What the world of threads needs from the world of data.
#ifndef SIM_SHARE_HPP_
#define SIM_SHARE_HPP_

#include "core.hpp"

namespace sim {

// Gives `to` the types of `from`, and its data to read if asked. Without the data, every other type is given as a copy
// together with data built from it, so that its owner can release it.
void share(World& from, World& to, bool with_data, unsigned who);
bool release_shared_type(World& owner, size_t slot);

} // namespace sim

#endif
