// Life of managers: what the explorer (mgr.cc) does with one configuration (mgr_conf.cc).
#pragma once

#include <memory>

#include "mc.hh"
#include "resources.hh"

namespace mc {

struct any_conf
{
  virtual ~any_conf() {}
  virtual const char* name() const = 0;
  virtual unsigned kind() const = 0;             // configurations of the same kind exclude each other
  virtual std::size_t count() const = 0;         // living copies
  virtual bool init(const resources& r) = 0;     // false: refused
  virtual void copy() = 0;
  virtual void move() = 0;                       // the oldest, to a new copy
  virtual void assign() = 0;                     // the newest copied to the oldest
  virtual void self_assign() = 0;
  virtual void drop(bool oldest) = 0;
  virtual void use() = 0;
  virtual void hold() = 0;
  virtual void check() = 0;                      // what is held
  virtual void release() = 0;
  virtual bool holds() const = 0;
  virtual std::string stats() const = 0;
};

// conf0, conf1, conf2, conf_b (values of conf0), conf_s (its own values)
std::unique_ptr<any_conf> make_any_conf0(const char* name, unsigned kind);
std::unique_ptr<any_conf> make_any_conf1(const char* name, unsigned kind);
std::unique_ptr<any_conf> make_any_conf2(const char* name, unsigned kind);
std::unique_ptr<any_conf> make_any_conf_b(const char* name, unsigned kind);
std::unique_ptr<any_conf> make_any_conf_s(const char* name, unsigned kind);

} // namespace mc
