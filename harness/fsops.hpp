#pragma once
#include <functional>
#include <string>
#include <vector>

// File operations below a directory, seen and steered from the harness: the C
// library's functions are replaced by wrappers in fsops.cpp.
namespace vh::fsops {
  struct Fault {
    int at;           // number of the operation, counted from 0
    bool full;        // the disk is full from there on (else: this one fails)
  };
  struct Plan {
    std::string dir;  // absolute; operations elsewhere are not touched
    std::vector<Fault> faults;
    // called before an operation (changing: alters files; else: looks at them)
    std::function<void(std::string const &op, std::string const &path, bool changing)> before;
    // called after a changing operation: 0 or the error
    std::function<void(std::string const &op, std::string const &path, int error)> after;
    std::function<bool()> concerns; // which threads (default: all)
    bool sleepless = true; // sleeping takes no time
    int read_fault = -1; // number of the file opened for reading that cannot be
    int reads = 0;
    int count = 0;    // changing operations so far
    int failed = 0;   // operations made to fail
  };
  void arm(Plan *p); // nullptr: none
} // namespace vh::fsops
