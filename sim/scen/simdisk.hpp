// Simulated disk holding wav files; faults strike the n-th matching call of the running process.
// The names live in a scratch directory that is the process's working directory, so that a tool that renames, copies,
// removes or touches files with ordinary system calls acts on the same disk: a file there holds the number of its
// simulated content, or bytes of its own.
#pragma once
#include "sim.hpp"

#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace disk {
struct File
{
    unsigned channels{};
    unsigned rate{};
    std::vector<float> data;       // interleaved, what is really there
    std::size_t frames{};          // what the header says
    bool valid{true};              // header can be parsed
    unsigned bits{32};
    unsigned format{3};
    std::string raw;               // content that is not a simulated wav file
    bool operator==(File const& o) const
    {
        return channels == o.channels and rate == o.rate and frames == o.frames and valid == o.valid and bits == o.bits
           and format == o.format and raw == o.raw and data.size() == o.data.size()
           and (data.empty() or std::memcmp(data.data(), o.data.data(), data.size() * sizeof(float)) == 0);
    }
};
struct State
{
    std::vector<File> store;  // contents by number
    // the process that is running
    int reads{}, opens_r{}, opens_w{}, writes{}, open_handles{}, bad_calls{};
    int faulted{};  // failures reported to the process
    std::vector<std::string> opened_for_write, unreadable;  // unreadable: inputs a fault really struck
    std::vector<File> closed;  // every version completed by the process, in order
    // pending faults: index of the opened file to strike (1-based), 0 = none; short_*_to: frames that still go through
    int fail_open_r{}, fail_open_w{}, short_read{}, short_write{};
    long short_read_to{}, short_write_to{};
    void start()
    {
        reads = opens_r = opens_w = writes = open_handles = bad_calls = faulted = 0;
        fail_open_r = fail_open_w = short_read = short_write = 0;
        opened_for_write.clear();
        unreadable.clear();
        closed.clear();
    }
};
State& state();
void enter();                                      // fresh scratch directory
std::map<std::string, File> snapshot();            // every file of the disk
bool put(std::string const& path, File f);         // creates or replaces
void put_raw(std::string const& path, std::string const& bytes);
}  // namespace disk
