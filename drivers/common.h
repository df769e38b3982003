#ifndef COMMON_DRV_H
#define COMMON_DRV_H
#include <ringing/row.h>
#include <ringing/change.h>
ringing::row mkrow(std::string const& s);
std::string rowstr(ringing::row const& r);
std::string chstr(ringing::change const& c);
#endif
