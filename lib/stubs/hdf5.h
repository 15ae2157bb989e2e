// Stand-in for the (absent) HDF5 headers: records the calls.
#pragma once
#include <map>
#include <set>
#include <string>
typedef long hid_t; typedef int herr_t;
#define H5F_ACC_TRUNC 2u
#define H5F_ACC_RDWR 1u
#define H5P_DEFAULT 0
namespace h5stub { inline std::set<hid_t> open; inline std::map<std::string,std::string> how; inline int bad_close = 0; inline hid_t next = 7; inline bool fail = false;
inline hid_t add(const char *f, const char *h) { if (fail) return -1; how[f] = h; open.insert(++next); return next; } }
inline hid_t H5Fcreate(const char *f, unsigned, long, long) { return h5stub::add(f, "create"); }
inline hid_t H5Fopen(const char *f, unsigned, long) { return h5stub::add(f, "open"); }
inline herr_t H5Fclose(hid_t i) { if (!h5stub::open.erase(i)) { h5stub::bad_close++; return -1; } return 0; }
