// Simulated disk: files named "sim:/..." live in memory; every open, read, write and close goes through a plan of faults.
// Reads are delivered in drawn chunks through the C stdio layer, writes of the C++ stream library arrive as system calls.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include "sim.hpp"

namespace disk {
struct Hang {};  // raised when an input routine is called far more often than there are bytes
struct Plan {
  bool     open_fail = false;      // open reports an error
  bool     alloc_fail_open = false;  // no FILE object
  uint64_t read_error_at = ~0ull;  // an I/O error instead of the byte at this offset
  bool     read_error_once = false;  // the error goes away (interrupted call)
  uint64_t read_eof_at = ~0ull;    // the file ends here
  uint32_t chunk = 0;              // largest chunk delivered by one read, 0 = no limit
  uint64_t chunk_seed = 1;
  uint64_t write_room = ~0ull;     // bytes until the disk is full
  uint64_t write_error_at = ~0ull; // write that contains this byte fails
  bool     write_error_once = false;
  uint32_t short_writes = 0;       // largest part a write call accepts, 0 = no limit
  uint32_t interrupt = 0;          // every n-th write is interrupted
  bool     close_fail = false;     // delayed error, reported by close
};
extern Plan plan;
extern std::map<std::string, std::string> files;
void reset();           // no files, no faults, counters zero
int  open_files();      // files opened and not yet closed
uint64_t bytes_read();  // delivered since reset
uint64_t calls();       // input calls since reset
bool lost();            // a fault made the last written file incomplete, or its close failed
bool fired_read_error();
}  // namespace disk
