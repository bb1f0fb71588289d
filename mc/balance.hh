#pragma once

#include "mc.hh"

namespace mc {

// Memory in use before and after (the text of where() apart).
struct balance
{
  std::size_t blocks, bytes;
  balance() { std::string().swap(where()); blocks = live_blocks(); bytes = live_bytes(); }
  void
  check(const char* what)
  {
    const std::string last = where(); std::string().swap(where());
    const bool own = last.size() > 15; // the copy takes a block
    const auto nblocks = live_blocks() - own, nbytes = live_bytes() - (own ? last.capacity() + 1 : 0);
    where() = last;
    MC_CHECK(nblocks == blocks && nbytes == bytes, what << ": after the manager is destroyed, " << nblocks << " blocks (" << nbytes
             << " bytes) are in use instead of " << blocks << " (" << bytes << ")");
    ++st().validated;
  }
};

} // namespace mc
