// What the units of a program (C35) offer each other.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

struct Unit
{
  // questions to the library
  std::map<std::string, std::function<std::string()>> probes;
  // making an object and asking it
  struct Thing { std::function<std::shared_ptr<void>()> make; std::function<std::string(void*)> ask; };
  std::map<std::string, Thing> things;
  // writing an archive and reading it
  struct Saved { std::function<std::string()> write; std::function<std::string(std::string const&)> read; };
  std::map<std::string, Saved> saved;
  // throwing an exception, and running something that may throw: the class caught
  struct Fault { std::function<void()> raise; std::function<std::string(std::function<void()>)> caught; };
  std::map<std::string, Fault> faults;
};
